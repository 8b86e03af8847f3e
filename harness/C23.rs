//@ use: pipe
//@ bounds: two-band analysers; spectrograms of 4 to 6 arbitrary samples with windows of 4 samples after the analysis of another signal of arbitrary samples, 0 to 6 of them, at the same or another sampling rate, with another window, or after a refused one; patches of 2 bands by 1 to 3 frames (quick) or 4 (thorough) with arbitrary values; voice activity of 24 arbitrary samples after another signal; three-band support-vector models of two vectors; complete comparisons at 50 and 100 Hz in both modes after comparisons of other signals (shorter, silent, at another sampling rate, refused ones, the same ones, exchanged ones)
//@ stub: in h_c23_search the per-patch similarity is a linear function of both patches (that the real one leaves its patches alone is h_c23_patches), in h_c23_manager the best lag is 0 (other lags are properties C12 and C19)
//@ assume: f64 operations are deterministic functions of their operands (the results compared are the same terms over them)
//@ entry: h_c23_builder mode=real time=100 shards=4
//@ entry: h_c23_builder_bits mode=fp time=100 shards=4 conc=0
//@ entry: h_c23_patches mode=real time=100 shards=2
//@ entry: h_c23_patches_bits mode=fp time=100 shards=2 conc=0
//@ entry: h_c23_search mode=real time=100 shards=4
//@ entry: h_c23_vad mode=real time=100 shards=2
//@ entry: h_c23_mapper mode=real time=60
//@ entry: h_c23_manager mode=real time=200 shards=8 cover=compared,refused conc=1
use crate::analysis_window::AnalysisWindow;
use crate::audio_signal::AudioSignal;
use crate::comparison_patches_selector::ComparisonPatchesSelector;
use crate::gammatone_filterbank::GammatoneFilterbank;
use crate::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
use crate::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure;
use crate::patch_creator::PatchCreator;
use crate::patch_similarity_comparator::{PatchSimilarityComparator, PatchSimilarityResult};
use crate::similarity_result::SimilarityResult;
use crate::similarity_to_quality_mapper::SimilarityToQualityMapper;
use crate::spectrogram_builder::SpectrogramBuilder;
use crate::svr_similarity_to_quality_mapper::SvrSimilarityToQualityMapper;
use crate::vad_patch_creator::VadPatchCreator;
use crate::variant::Variant;
use crate::visqol_manager::VisqolManager;
use ndarray::Array2;

fn eq(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
fn same(a: &[f64], b: &[f64], what: &str) {
    check(a.len() == b.len(), what);
    for k in 0..a.len().min(b.len()) {
        check(eq(a[k], b[k]), what);
    }
}

#[no_mangle]
pub extern "C" fn h_c23_builder() {
    let fresh = || GammatoneSpectrogramBuilder::<2>::new(GammatoneFilterbank::new(50.0));
    let mut used = fresh();
    // earlier signals: any length and contents, at the same or another rate
    for _ in 0..1 + pick("earlier", 2) {
        let n = [0, 3, 4, 6][pick("earlier_len", 4)];
        let a = AudioSignal::new(&fs("a", n, -1.0, 1.0), [8000, 48000][pick("earlier_rate", 2)]);
        let w = AnalysisWindow { size: 4, overlap: [0.25, 0.5][pick("earlier_overlap", 2)] };
        let _ = used.build(&a, &w);
    }
    let b = AudioSignal::new(&fs("b", 4 + pick("len", 3), -1.0, 1.0), 8000);
    let w = AnalysisWindow { size: 4, overlap: 0.25 };
    let before = b.data_matrix.to_vec();
    match (used.build(&b, &w), fresh().build(&b, &w)) {
        (Ok(u), Ok(f)) => {
            check(u.data.dim() == f.data.dim(), "a used builder gives the same number of frames");
            for (x, y) in u.data.iter().zip(f.data.iter()) {
                check(eq(*x, *y), "a used builder gives the same spectrogram");
            }
            same(&u.center_freq_bands, &f.center_freq_bands, "a used builder gives the same centre frequencies");
        }
        _ => check(false, "a signal longer than a window has a spectrogram"),
    }
    same(&before, b.data_matrix.as_slice().unwrap(), "building a spectrogram leaves the signal as it is");
    cover("end");
}

fn patch(name: &str, cols: usize) -> Array2<f64> { Array2::from_shape_vec((2, cols), fs(name, 2 * cols, 0.0, 50.0)).unwrap() }
fn same_patch(a: &Array2<f64>, b: &Array2<f64>, what: &str) {
    check(a.dim() == b.dim(), what);
    for (x, y) in a.iter().zip(b.iter()) {
        check(eq(*x, *y), what);
    }
}
fn same_result(a: &PatchSimilarityResult, b: &PatchSimilarityResult, what: &str) {
    check(eq(a.similarity, b.similarity), what);
    same(&a.freq_band_means, &b.freq_band_means, what);
    same(&a.freq_band_stddevs, &b.freq_band_stddevs, what);
    same(&a.freq_band_deg_energy, &b.freq_band_deg_energy, what);
    same(
        &[a.ref_patch_start_time, a.ref_patch_end_time, a.deg_patch_start_time, a.deg_patch_end_time],
        &[b.ref_patch_start_time, b.ref_patch_end_time, b.deg_patch_start_time, b.deg_patch_end_time],
        what,
    );
}

#[no_mangle]
pub extern "C" fn h_c23_patches() {
    let cols = 1 + pick("frames", 2);
    if cols == 1 {
        return patches(patch("r", 1), patch("d", 1), patch("o", 1));
    }
    // concrete patches of two frames, with silent and loud bands
    let two = |v: [f64; 4]| Array2::from_shape_vec((2, 2), v.to_vec()).unwrap();
    const P: [[f64; 4]; 4] = [[0.0, 0.0, 0.0, 0.0], [12.5, 0.0, 40.0, 33.0], [1.0, 2.0, 3.0, 4.0], [45.0, 45.0, 0.0, 7.5]];
    patches(two(P[pick("r", 4)]), two(P[pick("d", 4)]), two(P[2]));
}
fn patches(mut r: Array2<f64>, mut d: Array2<f64>, mut o: Array2<f64>) {
    let (r0, d0, o0) = (r.clone(), d.clone(), o.clone());
    let nsim = NeurogramSimiliarityIndexMeasure::default();
    let first = nsim.measure_patch_similarity(&mut r, &mut d);
    same_patch(&r, &r0, "a comparison leaves the reference patch as it is");
    same_patch(&d, &d0, "a comparison leaves the degraded patch as it is");
    nsim.measure_patch_similarity(&mut r, &mut o);
    nsim.measure_patch_similarity(&mut o, &mut d);
    same_patch(&r, &r0, "a comparison leaves the reference patch as it is");
    same_patch(&d, &d0, "a comparison leaves the degraded patch as it is");
    same_patch(&o, &o0, "a comparison leaves both patches as they are");
    let again = nsim.measure_patch_similarity(&mut r, &mut d);
    same_result(&first, &again, "the same patches always give the same similarity");
    cover("end");
}

static mut STUB: bool = false;
static mut SUM: bool = false;
pub fn best_lag_stub(_: &[f64], _: &[f64]) -> Option<Option<i64>> { unsafe { STUB.then_some(Some(0)) } }
/// in the search: some function of the contents of both patches
pub fn nsim_stub(r: &Array2<f64>, d: &Array2<f64>) -> Option<PatchSimilarityResult> {
    unsafe { SUM }.then(|| PatchSimilarityResult::new(r.column(0).to_vec(), d.column(0).to_vec(), vec![1.0; 2], (r.sum() + 2.0 * d.sum()) / 1000.0))
}

/// the search leaves the reference patches and the degraded spectrogram as they are
#[no_mangle]
pub extern "C" fn h_c23_search() {
    let sel = ComparisonPatchesSelector::new(NeurogramSimiliarityIndexMeasure::default());
    let frames = 3 + pick("frames", 2);
    let sp = Array2::from_shape_vec((2, frames), fs("s", 2 * frames, 0.0, 50.0)).unwrap();
    let radius = pick("radius", 2) as i32;
    let mut patches = vec![patch("r", 1), patch("r", 1)];
    let (p0, s0) = (patches.clone(), sp.clone());
    let mut at = vec![0, 2];
    unsafe { SUM = true };
    let a = sel.find_most_optimal_deg_patches(&mut patches, &mut at, &sp, 0.5, radius);
    check(at == [0, 2], "the search leaves the patch positions as they are");
    for k in 0..2 {
        same_patch(&patches[k], &p0[k], "the search leaves the reference patches as they are");
    }
    same_patch(&sp, &s0, "the search leaves the spectrogram as it is");
    let b = sel.find_most_optimal_deg_patches(&mut patches, &mut at, &sp, 0.5, radius);
    unsafe { SUM = false };
    match (a, b) {
        (Ok(a), Ok(b)) => {
            check(a.len() == 2 && b.len() == 2, "every patch is matched");
            for k in 0..a.len().min(b.len()) {
                same_result(&a[k], &b[k], "a repeated search finds the same");
            }
        }
        _ => check(false, "both searches succeed"),
    }
    cover("end");
}

/// the same, bit for bit
#[no_mangle]
pub extern "C" fn h_c23_builder_bits() { h_c23_builder() }
#[no_mangle]
pub extern "C" fn h_c23_patches_bits() { 
    let cols = 1 + pick("frames", if thorough() { 4 } else { 3 });
    patches(patch("r", cols), patch("d", cols), patch("o", cols));
}

#[no_mangle]
pub extern "C" fn h_c23_vad() {
    let size = 3;
    let used = VadPatchCreator::new(size);
    let w = AnalysisWindow { size: 4, overlap: 0.5 };
    let sig = |name: &str, n: usize| AudioSignal::new(&fs(name, n, -1.0, 1.0), 50);
    let cols = 8;
    let sp = Array2::<f64>::zeros((2, cols));
    let wide = Array2::<f64>::zeros((2, cols + 4));
    let mut a = vec![0.01; 28];
    a[pick("at", 28)] = f("a", -1.0, 1.0);
    let _ = if pick("earlier", 2) == 0 {
        used.create_ref_patch_indices(&wide, &AudioSignal::new(&a, 50), &w)
    } else {
        used.create_ref_patch_indices(&sp, &AudioSignal::new(&a[..20], 50), &w)
    };
    let b = sig("b", 2);
    let b = AudioSignal::new(&[vec![0.5; 4], vec![b[0]; 6], vec![b[1]; 10]].concat(), 50);
    let before = b.data_matrix.to_vec();
    let (u, f) = (used.create_ref_patch_indices(&sp, &b, &w), VadPatchCreator::new(size).create_ref_patch_indices(&sp, &b, &w));
    check(u.is_ok() && u.ok() == f.ok(), "a used patch creator selects the same patches");
    same(&before, b.data_matrix.as_slice().unwrap(), "selecting patches leaves the signal as it is");
    cover("end");
}

const MODEL: &str = "svm_type nu_svr\nkernel_type rbf\ngamma 0.5\nnr_class 2\ntotal_sv 2\nrho -2.5\nSV\n1.5 1:0.25 2:0.75 \n-1.0 1:0.5 2:1 \n";
#[no_mangle]
pub extern "C" fn h_c23_mapper() {
    file("fullband.model", MODEL.as_bytes());
    let used = SvrSimilarityToQualityMapper::new("fullband.model");
    let (a, b) = (fs("a", 2, -1.0, 1.0), fs("b", 2, -1.0, 1.0));
    used.predict_quality(&a);
    used.predict_quality(&a);
    let u = used.predict_quality(&b);
    let f = SvrSimilarityToQualityMapper::new("fullband.model").predict_quality(&b);
    check(eq(u, f), "a used mapper gives the same score");
    cover("end");
}

/// an earlier comparison or the one whose result is compared
fn pair(kind: usize) -> (AudioSignal, AudioSignal) {
    let sig = |n: usize, seed: u64, rate: u32| AudioSignal::new(&pipe::tone(n, seed), rate);
    match kind {
        0 => (sig(52, 1, 50), sig(55, 2, 50)),
        1 => (sig(55, 3, 50), sig(52, 1, 50)),
        2 => (sig(100, 4, 100), sig(104, 5, 100)),
        3 => (sig(52, 6, 50), AudioSignal::new(&[0.0; 52], 50)),
        4 => (sig(8, 7, 50), sig(52, 8, 50)),
        _ => (AudioSignal::new(&[], 50), AudioSignal::new(&[], 50)),
    }
}
fn same_comparison(a: &SimilarityResult, b: &SimilarityResult) {
    let what = "a used analyser gives the same result";
    check(eq(a.moslqo, b.moslqo) && eq(a.vnsim, b.vnsim), what);
    same(&a.fvnsim, &b.fvnsim, what);
    same(&a.fstdnsim, &b.fstdnsim, what);
    same(&a.fvdegenergy, &b.fvdegenergy, what);
    same(&a.center_freq_bands, &b.center_freq_bands, what);
    check(a.patch_sims.len() == b.patch_sims.len(), what);
    for (x, y) in a.patch_sims.iter().zip(&b.patch_sims) {
        same_result(x, y, what);
    }
}

#[no_mangle]
pub extern "C" fn h_c23_manager() {
    let wide = pick("mode", 2) == 0;
    file("fullband.model", MODEL.as_bytes());
    let fresh = || VisqolManager::<2>::new(if wide { Variant::Wideband { use_unscaled_mos_mapping: false } } else { Variant::Fullband { model_path: "fullband.model".to_string() } }, 0);
    let mut used = fresh();
    let (mut r, mut d) = pair(pick("earlier", 6));
    unsafe { STUB = r.len() > 0 };
    if used.compute_results(&mut r, &mut d).is_err() {
        cover("refused");
    }
    unsafe { STUB = true };
    let (mut r, mut d) = pair([0, 2][pick("now", 2)]);
    let (r0, d0) = (r.data_matrix.to_vec(), d.data_matrix.to_vec());
    let u = used.compute_results(&mut r, &mut d);
    same(&r0, r.data_matrix.as_slice().unwrap(), "a comparison leaves the reference as it is");
    same(&d0, d.data_matrix.as_slice().unwrap(), "a comparison leaves the degraded signal as it is");
    let f = fresh().compute_results(&mut r, &mut d);
    unsafe { STUB = false };
    match (u, f) {
        (Ok(u), Ok(f)) => {
            same_comparison(&u, &f);
            cover("compared");
        }
        _ => check(false, "comparable signals give a result"),
    }
}
