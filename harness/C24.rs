//@ use: pipe
//@ bounds: wideband and fullband analysers with 2 bands (and the 21- and 32-band banks for the band layout), signals of 80 frames at sampling rates of 200 and 100 Hz with a silent stretch, search radii 0 to 2, candidates whose similarity rises or falls with their time, every per-band similarity in [0.2, 1] for the quality mapping; ten sampling rates from 200 to 96000 Hz for the window length
//@ stub: the per-patch NSIM is replaced by a similarity that grows or falls with the time of the candidate and by arbitrary per-band means (its own definition is property C03); the lags are 0 (other lags are properties C12 and C19)
//@ assume: real arithmetic stands for f64 and f32; exp is any positive increasing function enclosing the true exponential on the intervals used
//@ entry: h_c24_wideband ctol=1e-6 mode=real time=150 shards=4 cover=end
//@ entry: h_c24_fullband ctol=1e-5 mode=real time=150 shards=4 cover=end
//@ entry: h_c24_window mode=real time=60
//@ entry: h_c24_bands mode=real time=100 conc=1
use crate::audio_signal::AudioSignal;
use crate::patch_similarity_comparator::PatchSimilarityResult;
use crate::similarity_result::SimilarityResult;
use crate::variant::Variant;
use crate::visqol_error::VisqolError;
use crate::visqol_manager::VisqolManager;
use ndarray::Array2;

static mut MEANS: [f64; 2] = [0.0; 2];
static mut ON: bool = false;
static mut RISING: bool = false;
static mut FIRST: usize = 0;
pub fn nsim_stub(r: &Array2<f64>, d: &Array2<f64>) -> Option<PatchSimilarityResult> {
    unsafe {
        if !ON {
            return None;
        }
        if FIRST == 0 {
            FIRST = r.ncols();
        }
        let s = if r.ncols() == FIRST {
            // a candidate for a patch: the level of the degraded signal grows with time
            let level: f64 = d.column(0).sum();
            if RISING { 500.0 + level } else { 500.0 - level }
        } else {
            // the fine alignment never improves
            -1e6
        };
        Some(PatchSimilarityResult::new(MEANS.to_vec(), vec![0.0; 2], vec![1.0; 2], s))
    }
}
pub fn best_lag_stub(_: &[f64], _: &[f64]) -> Option<Option<i64>> { Some(Some(0)) }

const FRAMES: usize = 80;
/// (reference with a silent stretch from frame 16 to 48, degraded signal that grows louder)
fn signals(rate: u32) -> (AudioSignal, AudioSignal) {
    let hop = rate as usize / 50;
    let n = (FRAMES + 3) * hop;
    let w = |i: usize| if hop == 4 { [0.0, 1.0, 0.0, -1.0][i % 4] } else { [1.0, -1.0][i % 2] };
    let r: Vec<f64> = (0..n).map(|i| if i / hop >= 16 && i / hop < 48 { 0.0 } else { w(i) }).collect();
    let d: Vec<f64> = (0..n).map(|i| w(i) * (0.1 + 0.9 * i as f64 / n as f64)).collect();
    (AudioSignal::new(&r, rate), AudioSignal::new(&d, rate))
}

/// runs the comparison and checks the patches and the searched window
fn compare(variant: Variant, at: &[usize], size: usize) -> Option<SimilarityResult> {
    let rate = [200, 100][pick("rate", 2)];
    let radius = pick("radius", 3);
    let (mut r, mut d) = signals(rate);
    let mut m = VisqolManager::<2>::new(variant, radius);
    unsafe {
        RISING = pick("rising", 2) == 1;
        FIRST = 0;
        MEANS = [f("mean", 0.2, 1.0), f("mean", 0.2, 1.0)];
        ON = true;
    }
    let res = m.compute_results(&mut r, &mut d);
    unsafe { ON = false };
    let s = match res {
        Ok(s) => s,
        Err(_) => {
            check(false, "two comparable signals give a result");
            return None;
        }
    };
    check(s.patch_sims.len() == at.len(), "the mode's patches are compared");
    if s.patch_sims.len() != at.len() {
        return None;
    }
    let reach = radius * size;
    for (k, p) in s.patch_sims.iter().enumerate() {
        close(p.ref_patch_start_time, at[k] as f64 * 0.02, 1e-9, "the reference patches start at the mode's frames");
        close(p.ref_patch_end_time - p.ref_patch_start_time, size as f64 * 0.02, 1e-9, "a patch has the mode's length");
    }
    // the window of the last patch reaches exactly the configured radius when the level rises, that of the first when it falls
    if unsafe { RISING } {
        let k = at.len() - 1;
        let to = (at[k] + reach).min(FRAMES - 1);
        close(s.patch_sims[k].deg_patch_start_time, to as f64 * 0.02, 1e-9, "the search ends at the configured radius");
    } else {
        let from = at[0].saturating_sub(reach);
        close(s.patch_sims[0].deg_patch_start_time, from as f64 * 0.02, 1e-9, "the search starts at the configured radius");
    }
    check(s.center_freq_bands.len() == 2, "one centre frequency per band");
    close(s.center_freq_bands[0], 50.0, 1e-6, "the lowest band is at 50 Hz");
    Some(s)
}

#[no_mangle]
pub extern "C" fn h_c24_wideband() {
    let unscaled = pick("unscaled", 2) == 1;
    // patches at frames 9, 29, 49 of which the second is silent
    if let Some(s) = compare(Variant::Wideband { use_unscaled_mos_mapping: unscaled }, &[9, 49], 20) {
        let m = (s.fvnsim[0] + s.fvnsim[1]) / 2.0;
        let q = 1.155_945_5 + (4.685_115_3 * (m - 0.765_523_2)).exp();
        let q = if unscaled { q } else { q * 1.2031409 };
        close(s.moslqo, q.min(5.0).max(1.0), 1e-6, "the score is the speech mapping's, scaled to 5 unless the unscaled mapping is requested");
        cover("end");
    }
}

const MODEL: &str = "svm_type nu_svr\nkernel_type rbf\ngamma 0.5\nnr_class 2\ntotal_sv 2\nrho -2.5\nSV\n1.5 1:0.25 2:0.75 \n-1.0 1:0.5 2:1 \n";

#[no_mangle]
pub extern "C" fn h_c24_fullband() {
    file("fullband.model", MODEL.as_bytes());
    // the whole signal is used, its silent stretch included
    if let Some(s) = compare(Variant::Fullband { model_path: "fullband.model".to_string() }, &[14, 44], 30) {
        let d = |a: f64, b: f64| (-0.5 * ((s.fvnsim[0] - a) * (s.fvnsim[0] - a) + (s.fvnsim[1] - b) * (s.fvnsim[1] - b))).exp();
        let q = 2.5 + 1.5 * d(0.25, 0.75) - d(0.5, 1.0);
        close(s.moslqo, q.min(5.0).max(1.0), 1e-5, "the score is the support-vector regression's");
        cover("end");
    }
}

/// both modes analyse windows of 80 ms
#[no_mangle]
pub extern "C" fn h_c24_window() {
    const RATES: [u32; 10] = [200, 8000, 11025, 12345, 16000, 22050, 32000, 44100, 48000, 96000];
    let rate = RATES[pick("rate", 10)];
    let variant = if pick("mode", 2) == 0 {
        Variant::Wideband { use_unscaled_mos_mapping: false }
    } else {
        file("fullband.model", MODEL.as_bytes());
        Variant::Fullband { model_path: "fullband.model".to_string() }
    };
    let n = 1 + pick("length", 2);
    let x = fs("x", n, -1.0, 1.0);
    assume_gap(x[0] * x[0], 0.0, 1e-3);
    let mut m = VisqolManager::<2>::new(variant, 32);
    match m.compute_results(&mut AudioSignal::new(&x, rate), &mut AudioSignal::new(&x, rate)) {
        Ok(_) => check(false, "a signal shorter than one window is refused"),
        Err(e) => match e.downcast_ref::<VisqolError>() {
            Some(VisqolError::TooFewSamples { found, minimum_required }) => {
                check(*found == n, "the error names the number of samples");
                check((*minimum_required as f64 - 0.08 * rate as f64).abs() <= 0.5, "a window lasts 80 ms");
            }
            _ => check(false, "a signal shorter than one window has too few samples"),
        },
    }
    cover("end");
}

fn bands<const N: usize>(rate: u32, top: f64, variant: Variant) {
    let mut m = VisqolManager::<N>::new(variant, 0);
    // one 50th of a second per frame, enough frames for one patch
    let n = 48 * (rate as usize / 50) + 64;
    let x: Vec<f64> = (0..n).map(|i| [0.0, 1.0, 0.0, -1.0][i % 4]).collect();
    match m.compute_results(&mut AudioSignal::new(&x, rate), &mut AudioSignal::new(&x, rate)) {
        Ok(s) => {
            check(s.center_freq_bands.len() == N && s.fvnsim.len() == N, "the mode's number of bands");
            close(s.center_freq_bands[0], 50.0, 1e-6, "the lowest band is at 50 Hz");
            check(s.center_freq_bands[N - 1] < top && s.center_freq_bands[N - 1] > 0.7 * top, "the bands reach up to the upper limit");
            // identical signals: the best possible score
            close(s.vnsim, 1.0, 1e-9, "identical signals are identical");
        }
        Err(_) => check(false, "two comparable signals give a result"),
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c24_bands() {
    if pick("mode", 2) == 0 {
        bands::<21>(200, 100.0, Variant::Wideband { use_unscaled_mos_mapping: false });
    } else {
        file("fullband.model", MODEL32.as_bytes());
        bands::<32>(200, 100.0, Variant::Fullband { model_path: "fullband.model".to_string() });
    }
}
const MODEL32: &str = "svm_type nu_svr\nkernel_type rbf\ngamma 0.5\nnr_class 2\ntotal_sv 1\nrho -2.5\nSV\n1.5 1:0.25 2:0.75 3:0 4:0 5:0 6:0 7:0 8:0 9:0 10:0 11:0 12:0 13:0 14:0 15:0 16:0 17:0 18:0 19:0 20:0 21:0 22:0 23:0 24:0 25:0 26:0 27:0 28:0 29:0 30:0 31:0 32:0.5 \n";
