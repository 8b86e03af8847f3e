//@ use: pipe
//@ bounds: patch counting: up to 6 ascending patch starts, every start up to 2000, every number of degraded frames up to 2000 and patch lengths 1..=60; patch matching: 0..=3 (thorough 4) patches of 2 or 3 frames starting at every position in steps of the patch length, 1..=10 (thorough 14) degraded frames, radius 0..=2, arbitrary positive patch similarities; whole comparison: 1..=3 patches, reference of up to 10 and degraded of 1..=14 frames
//@ stub: the per-patch NSIM is replaced by arbitrary values in [0.001, 1] (its own definition is property C03)
//@ entry: h_c17_count mode=real time=100
//@ entry: h_c17_match mode=real merge=1 time=300 shards=8 cover=end,none,dropped,empty ttime=700
//@ entry: h_c17_whole mode=real time=150
use crate::comparison_patches_selector::ComparisonPatchesSelector;
use crate::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure;
use crate::patch_similarity_comparator::PatchSimilarityResult;
use crate::visqol_error::VisqolError;
use ndarray::Array2;

static mut STUB: bool = false;
pub fn nsim_stub(_: &Array2<f64>, _: &Array2<f64>) -> Option<PatchSimilarityResult> {
    unsafe {
        if !STUB {
            return None;
        }
    }
    let x = f("sim", 0.001, 1.0);
    Some(PatchSimilarityResult::new(vec![x], vec![0.0], vec![0.0], x))
}
pub fn best_lag_stub(_: &[f64], _: &[f64]) -> Option<Option<i64>> {
    Some(Some(0))
}
fn selector() -> ComparisonPatchesSelector {
    ComparisonPatchesSelector::new(NeurogramSimiliarityIndexMeasure::default())
}

#[no_mangle]
pub extern "C" fn h_c17_count() {
    let n = pick("patches", 7);
    let len = i("len", 1, 60);
    let frames = i("frames", 0, 2000);
    let mut at: Vec<usize> = Vec::new();
    let mut last = -1;
    for _ in 0..n {
        let a = i("at", 0, 2000);
        assume(a > last);
        last = a;
        at.push(a as usize);
    }
    let kept = ComparisonPatchesSelector::calc_max_num_patches(&at, frames as usize, len as usize);
    check(kept <= n, "never more patches than there are");
    for k in 0..n {
        let fits = at[k] as i64 <= frames + len / 2;
        check((k < kept) == fits, "exactly the patches starting at most half a patch beyond the degraded end are kept");
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c17_match() {
    let n = pick("patches", if thorough() { 5 } else { 4 });
    let len = pick("len", 2) + 2;
    let frames = pick("frames", if thorough() { 14 } else { 10 }) + 1;
    let radius = pick("radius", 3);
    let mut at = Vec::new();
    let mut patches = Vec::new();
    if n > 0 {
        let mut a = pick("first", 5);
        for _ in 0..n {
            at.push(a);
            patches.push(Array2::<f64>::from_elem((1, len), 1.0));
            a += len;
        }
    }
    let spectro = Array2::<f64>::from_elem((1, frames), 1.0);
    unsafe { STUB = true };
    let out = selector().find_most_optimal_deg_patches(&mut patches, &mut at, &spectro, 0.02, radius as i32);
    unsafe { STUB = false };
    let kept = at.iter().filter(|&&a| a <= frames + len / 2).count();
    match out {
        Ok(r) => {
            check(kept > 0, "without a usable patch matching is refused");
            check(r.len() == kept, "there is one result per kept patch");
            for k in 0..kept {
                close(r[k].ref_patch_start_time, at[k] as f64 * 0.02, 1e-12, "the kept patches are the leading ones");
            }
            if kept < n {
                cover("dropped");
            }
        }
        Err(VisqolError::SignalsTooDifferent) => {
            check(kept == 0, "matching is refused only when no patch is usable");
            if n == 0 {
                cover("empty");
            } else {
                cover("none");
            }
        }
        Err(_) => check(false, "the only error is that the signals are too different"),
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c17_whole() {
    use crate::gammatone_filterbank::GammatoneFilterbank;
    use crate::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
    // window of 4 samples, hop 1: n + 3 samples give n frames
    let n = pick("patches", 4);
    let deg = pick("frames", 14) + 1;
    let radius = pick("radius", 3);
    let window = crate::analysis_window::AnalysisWindow { size: 4, overlap: 0.25 };
    let mut r = crate::audio_signal::AudioSignal::new(&pipe::tone(1 + 4 * 3 + 3, 1), 1000);
    let mut d = crate::audio_signal::AudioSignal::new(&pipe::tone(deg + 3, 2), 1000);
    let mut b = GammatoneSpectrogramBuilder::<2>::new(GammatoneFilterbank::new(50.0));
    let at: Vec<usize> = (0..n).map(|k| 1 + 4 * k).collect();
    let kept = at.iter().filter(|&&a| a <= deg + 2).count();
    let plan = pipe::Plan { at, len: 4 };
    let res = crate::visqol::calculate_similarity(&mut r, &mut d, &mut b, &window, &plan, &selector(), &pipe::Fixed(3.0), radius);
    match res {
        Ok(s) => check(kept > 0 && s.patch_sims.len() == kept, "one patch result per kept patch"),
        Err(_) => check(kept == 0, "comparing is refused only when no patch is usable"),
    }
    cover("end");
}
