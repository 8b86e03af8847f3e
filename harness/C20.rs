//@ use: pipe
//@ bounds: 1..=3 patches (thorough 4) of 8 frames with one sample per frame, 1..=3 bands, arbitrary NSIM results (means and energies of either sign, deviations in [0, 1]) for the coarse and the fine comparison of every patch, every lag in -2..=1 samples in the fine alignment of each patch (so the patches last between 6 and 8 frames), an unmatched patch included
//@ stub: the per-patch NSIM is replaced by arbitrary values (its own definition is property C03), the lag of the fine alignment by every value; the signals are fixed
//@ assume: real arithmetic stands for f64; a square root is the same function on both sides
//@ entry: h_c20_pipeline mode=real merge=1 time=200 shards=8 cover=end,longer,shorter ttime=800
//@ entry: h_c20_unmatched mode=real merge=1 time=100 cover=end,unmatched
use crate::patch_similarity_comparator::PatchSimilarityResult;
use ndarray::Array2;

static mut BANDS: usize = 0;
static mut UNMATCH: bool = false;
static mut CALLS: usize = 0;
static mut LAGS: usize = 0;
pub fn nsim_stub(_: &Array2<f64>, _: &Array2<f64>) -> Option<PatchSimilarityResult> {
    unsafe {
        if BANDS == 0 {
            return None;
        }
        CALLS += 1;
        if UNMATCH {
            return Some(pipe::result("nsim", BANDS, 0.1, 1.0));
        }
        let m = fs("mean", BANDS, -1.0, 1.0);
        let d = fs("std", BANDS, 0.0, 1.0);
        let e = fs("energy", BANDS, -50.0, 50.0);
        Some(PatchSimilarityResult::new(m, d, e, f("sim", 0.1, 1.0)))
    }
}
pub fn best_lag_stub(_: &[f64], _: &[f64]) -> Option<Option<i64>> {
    unsafe {
        LAGS += 1;
        if UNMATCH || LAGS > 2 {
            return Some(Some(0));
        }
    }
    let l = pick("lag", 4) as i64 - 2;
    Some(Some(l))
}

const RATE: f64 = 1024.0;
fn run<const N: usize>(at: Vec<usize>, radius: usize) {
    use crate::gammatone_filterbank::GammatoneFilterbank;
    use crate::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
    let window = crate::analysis_window::AnalysisWindow { size: 4, overlap: 0.25 };
    let len = if unsafe { UNMATCH } { 4 } else { 8 };
    // room for the last patch, or (unmatched) too few degraded frames for it
    let frames = at[at.len() - 1] + len;
    let dn = if unsafe { UNMATCH } { at[0] + 1 } else { frames };
    let mut r = crate::audio_signal::AudioSignal::new(&pipe::tone(frames + 3, 1), RATE as u32);
    let mut d = crate::audio_signal::AudioSignal::new(&pipe::tone(dn + 3, 2), RATE as u32);
    let mut b = GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::new(50.0));
    let sel = crate::comparison_patches_selector::ComparisonPatchesSelector::new(
        crate::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure::default(),
    );
    let n = at.len();
    let plan = pipe::Plan { at, len };
    unsafe { BANDS = N };
    let res = crate::visqol::calculate_similarity(&mut r, &mut d, &mut b, &window, &plan, &sel, &pipe::Fixed(3.0), radius);
    unsafe { BANDS = 0 };
    let s = match res {
        Ok(s) => s,
        Err(_) => {
            if unsafe { UNMATCH } {
                return;
            }
            check(false, "two comparable signals give a result");
            return;
        }
    };
    let p = &s.patch_sims;
    check(p.len() == n, "one result per patch");
    check(s.fvnsim.len() == N && s.fstdnsim.len() == N && s.fvdegenergy.len() == N, "one statistic per band");
    let (mut mean, mut energy, mut within, mut squares) = (vec![0.0; N], vec![0.0; N], vec![0.0; N], vec![0.0; N]);
    let mut total = 0.0;
    for x in p {
        if x.deg_patch_end_time == 0.0 {
            cover("unmatched");
        }
        let frames = conc(((x.ref_patch_end_time - x.ref_patch_start_time) * RATE) as i64) as f64;
        if frames < 8.0 {
            cover("shorter");
        } else {
            cover("longer");
        }
        total += frames;
        for k in 0..N {
            let m = x.freq_band_means[k];
            let v = x.freq_band_stddevs[k];
            mean[k] += m / n as f64;
            energy[k] += x.freq_band_deg_energy[k] / n as f64;
            within[k] += (frames - 1.0) * v * v;
            squares[k] += frames * m * m;
        }
    }
    let mut overall = 0.0;
    for k in 0..N {
        overall += mean[k] / N as f64;
        close(s.fvnsim[k], mean[k], 1e-9, "a band's similarity is the mean over the patches");
        close(s.fvdegenergy[k], energy[k], 1e-9, "a band's degraded energy is the mean over the patches");
        let v = (within[k] + squares[k] - total * mean[k] * mean[k]) / (total - 1.0);
        let got = s.fstdnsim[k];
        check(got >= 0.0, "a band's deviation is not negative");
        // (compared squared: a square root of a rounding error is not one)
        close(got * got, if v < 0.0 { 0.0 } else { v }, 1e-6, "a band's deviation is pooled over the patches' frames");
    }
    close(s.vnsim, overall, 1e-9, "the overall similarity is the mean over the bands");
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c20_pipeline() {
    let n = pick("patches", if thorough() { 4 } else { 3 }) + 1;
    let at: Vec<usize> = (0..n).map(|k| k * 9).collect();
    match pick("bands", 3) {
        0 => run::<1>(at, 0),
        1 => run::<2>(at, 0),
        _ => run::<3>(at, 0),
    }
}

// the second patch has no degraded frame left to match
#[no_mangle]
pub extern "C" fn h_c20_unmatched() {
    unsafe { UNMATCH = true };
    let at = vec![1, 3];
    run::<2>(at, 1)
}
