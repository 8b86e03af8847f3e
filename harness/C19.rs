//@ use: pipe
//@ bounds: one or two matched patches (plus an unmatched one before, between or after them) of 8 one-sample frames cut at frames 0..=4, sample rates 1000 and 1024, 1 or 2 bands, every detected lag in -5..=5 samples for each patch, arbitrary coarse and fine comparison results (similarities in [-1, 1])
//@ stub: the per-patch NSIM is replaced by arbitrary values (its own definition is property C03) and the lag detector by every lag (property C10); the signals are fixed
//@ assume: real arithmetic stands for f64 in the values compared
//@ entry: h_c19_one mode=real merge=1 time=150 shards=2 cover=end,realigned,kept
//@ entry: h_c19_two mode=real merge=1 time=300 shards=6 cover=end,realigned,kept,unmatched ttime=800
use crate::analysis_window::AnalysisWindow;
use crate::audio_signal::AudioSignal;
use crate::audio_utils;
use crate::comparison_patches_selector::ComparisonPatchesSelector;
use crate::gammatone_filterbank::GammatoneFilterbank;
use crate::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
use crate::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure;
use crate::patch_similarity_comparator::PatchSimilarityResult;
use crate::spectrogram_builder::SpectrogramBuilder;
use ndarray::Array2;

static mut BANDS: usize = 0;
static mut LAGS: [i64; 3] = [0; 3];
static mut AT: usize = 0;
static mut SEEN: Vec<(Array2<f64>, Array2<f64>, PatchSimilarityResult)> = Vec::new();
#[allow(static_mut_refs)]
pub fn nsim_stub(r: &Array2<f64>, d: &Array2<f64>) -> Option<PatchSimilarityResult> {
    unsafe {
        if BANDS == 0 {
            return None;
        }
        let p = pipe::result("fine", BANDS, -1.0, 1.0);
        SEEN.push((r.clone(), d.clone(), p.clone()));
        Some(p)
    }
}
pub fn best_lag_stub(_: &[f64], _: &[f64]) -> Option<Option<i64>> {
    unsafe {
        AT += 1;
        Some(Some(LAGS[(AT - 1) % 3]))
    }
}

fn same(a: &[f64], b: &[f64], msg: &str) {
    check(a.len() == b.len(), msg);
    for k in 0..a.len().min(b.len()) {
        close(a[k], b[k], 0.0, msg);
    }
}
fn unchanged(a: &PatchSimilarityResult, b: &PatchSimilarityResult, msg: &str) {
    close(a.similarity, b.similarity, 0.0, msg);
    same(&a.freq_band_means, &b.freq_band_means, msg);
    same(&a.freq_band_stddevs, &b.freq_band_stddevs, msg);
    same(&a.freq_band_deg_energy, &b.freq_band_deg_energy, msg);
    close(a.ref_patch_start_time, b.ref_patch_start_time, 0.0, msg);
    close(a.ref_patch_end_time, b.ref_patch_end_time, 0.0, msg);
    close(a.deg_patch_start_time, b.deg_patch_start_time, 0.0, msg);
    close(a.deg_patch_end_time, b.deg_patch_end_time, 0.0, msg);
}

const L: usize = 8;
// plan: (reference frame, degraded frame) of each patch, or none for an unmatched one
#[allow(static_mut_refs)]
fn run<const N: usize>(rate: u32, plan: &[Option<(usize, usize)>], lags: &[i64]) {
    let window = AnalysisWindow { size: 4, overlap: 0.25 };
    let (rs, ds) = (pipe::tone(26, 1), pipe::tone(26, 2));
    let (r, d) = (AudioSignal::new(&rs, rate), AudioSignal::new(&ds, rate));
    let mut b = GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::new(50.0));
    let sel = ComparisonPatchesSelector::new(NeurogramSimiliarityIndexMeasure::default());
    let fd = 1.0 / rate as f64;
    let mut coarse: Vec<PatchSimilarityResult> = vec![];
    for (k, p) in plan.iter().enumerate() {
        let mut c = pipe::result("coarse", N, -1.0, 1.0);
        match p {
            Some((x, y)) => {
                c.ref_patch_start_time = *x as f64 * fd;
                c.ref_patch_end_time = c.ref_patch_start_time + L as f64 * fd;
                c.deg_patch_start_time = *y as f64 * fd;
                c.deg_patch_end_time = c.deg_patch_start_time + L as f64 * fd;
            }
            None => {
                c.similarity = 0.0;
                c.ref_patch_start_time = (k * L) as f64 * fd;
                c.ref_patch_end_time = c.ref_patch_start_time + L as f64 * fd;
            }
        }
        coarse.push(c);
    }
    let before = coarse.clone();
    unsafe {
        BANDS = N;
        for (k, l) in lags.iter().enumerate() {
            LAGS[k] = *l;
        }
        AT = 0;
        SEEN.clear();
    }
    let res = sel.finely_align_and_recreate_patches(&mut coarse, &r, &d, &mut b, &window);
    unsafe { BANDS = 0 };
    let got = match res {
        Ok(g) => g,
        Err(_) => {
            check(false, "fine alignment succeeds");
            return;
        }
    };
    check(got.len() == plan.len(), "the number of patches is kept");
    let mut matched = 0;
    for k in 0..plan.len().min(got.len()) {
        let (g, c) = (&got[k], &before[k]);
        let (x, y) = match plan[k] {
            Some(p) => p,
            None => {
                cover("unmatched");
                unchanged(g, c, "an unmatched patch is passed through untouched");
                continue;
            }
        };
        if unsafe { SEEN.len() } <= matched {
            check(false, "every matched patch is compared again");
            return;
        }
        let (sr, sd, fine) = unsafe { &SEEN[matched] };
        let lag = if lags[matched].abs() > L as i64 / 2 { 0 } else { lags[matched] };
        matched += 1;
        check(g.similarity >= c.similarity, "fine alignment never makes a patch worse");
        // the fine comparison is that of the two aligned segments
        let n = L - lag.unsigned_abs() as usize;
        let (x, y) = (x + lag.max(0) as usize, y + (-lag).max(0) as usize);
        let cut_d = &ds[y..y + n];
        let mut fresh = GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::new(50.0));
        let er = fresh.build(&AudioSignal::new(&rs[x..x + n], rate), &window);
        let ed = fresh.build(&AudioSignal::new(cut_d, rate), &window);
        if let (Ok(mut er), Ok(mut ed)) = (er, ed) {
            audio_utils::prepare_spectrograms_for_comparison(&mut er, &mut ed);
            for (want, have) in [(&er.data, sr), (&ed.data, sd)] {
                check(want.shape() == have.shape(), "the realigned patches have one frame per remaining hop");
                if want.shape() == have.shape() {
                    for (p, q) in want.iter().zip(have.iter()) {
                        close(*p, *q, 1e-9, "the fine comparison is that of the aligned segments");
                    }
                }
            }
        } else {
            check(false, "the aligned segments are long enough");
        }
        if split(fine.similarity < c.similarity) {
            cover("kept");
            unchanged(g, c, "a patch that does not improve keeps its coarse result");
        } else if split(fine.similarity > c.similarity) {
            cover("realigned");
            close(g.similarity, fine.similarity, 0.0, "an improved patch reports the fine similarity");
            same(&g.freq_band_means, &fine.freq_band_means, "an improved patch reports the fine band means");
            same(&g.freq_band_stddevs, &fine.freq_band_stddevs, "an improved patch reports the fine deviations");
            same(&g.freq_band_deg_energy, &fine.freq_band_deg_energy, "an improved patch reports the fine energies");
            let dur = n as f64 * fd;
            close(g.ref_patch_start_time, x as f64 * fd, 1e-9, "the reference start moves by a positive lag only");
            close(g.ref_patch_end_time, x as f64 * fd + dur, 1e-9, "the reference end is start plus realigned duration");
            close(g.deg_patch_start_time, y as f64 * fd, 1e-9, "the degraded start moves by a negative lag only");
            close(g.deg_patch_end_time, y as f64 * fd + dur, 1e-9, "the degraded end is start plus realigned duration");
        }
    }
    check(unsafe { SEEN.len() } == matched, "each matched patch is compared again once");
    cover("end");
}

fn rate() -> u32 { if pick("rate", 2) == 0 { 1024 } else { 1000 } }
#[no_mangle]
pub extern "C" fn h_c19_one() {
    let r = rate();
    let (x, y) = (pick("ref", 5), pick("deg", 5));
    // (a match at frame 0 of zero length does not exist, so frame 0 is a real match)
    let lag = pick("lag", 11) as i64 - 5;
    if pick("bands", 2) == 0 {
        run::<1>(r, &[Some((x, y))], &[lag])
    } else {
        run::<2>(r, &[Some((x, y))], &[lag])
    }
}

#[no_mangle]
pub extern "C" fn h_c19_two() {
    let r = 1024;
    let m1 = Some((1, 2));
    let m2 = Some((10, 9));
    let plan = match pick("unmatched", 4) {
        0 => vec![m1, m2],
        1 => vec![None, m1, m2],
        2 => vec![m1, None, m2],
        _ => vec![m1, m2, None],
    };
    let w = if thorough() { 11 } else { 5 };
    let l = |n| pick(n, w) as i64 * if thorough() { 1 } else { 2 } - if thorough() { 5 } else { 4 };
    let lags = [l("lag1"), l("lag2")];
    run::<2>(r, &plan, &lags);
}
