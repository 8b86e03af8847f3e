//@ use: pipe
//@ bounds: wideband mapping: 1..=4 bands with arbitrary values in [-1000, 1000]; fullband mapping: a 3-vector regression model with arbitrary similarities; end-to-end rule: 2 or 3 bands, one or two patches, arbitrary NSIM results in [-1, 1] and an arbitrary mapper result
//@ stub: the per-patch NSIM is replaced by arbitrary values (its own definition is property C03); the lag between patches is fixed at 0 (other lags are property C19); the signals are fixed
//@ assume: exp is any positive strictly increasing function enclosing the true exponential on the intervals used; real arithmetic stands for f64/f32
//@ entry: h_c01_wideband mode=real time=60
//@ entry: h_c01_fullband mode=real time=60
//@ entry: h_c01_rule mode=real time=100 cover=end,low,high
use crate::patch_similarity_comparator::PatchSimilarityResult;
use crate::similarity_to_quality_mapper::SimilarityToQualityMapper;
use ndarray::Array2;

static mut BANDS: usize = 0;
static mut CALLS: usize = 0;
pub fn nsim_stub(_: &Array2<f64>, _: &Array2<f64>) -> Option<PatchSimilarityResult> {
    unsafe {
        if BANDS == 0 {
            return None;
        }
        CALLS += 1;
        Some(pipe::result("nsim", BANDS, -1.0, 1.0))
    }
}

pub fn best_lag_stub(_: &[f64], _: &[f64]) -> Option<Option<i64>> {
    Some(Some(0))
}

#[no_mangle]
pub extern "C" fn h_c01_wideband() {
    let n = pick("bands", 4) + 1;
    let m = crate::speech_similarity_to_quality_mapper::SpeechSimilarityToQualityMapper::new(pick("scaled", 2) == 1);
    let q = m.predict_quality(&fs("s", n, -1000.0, 1000.0));
    check(q >= 1.0 && q <= 5.0, "the wideband score lies in [1, 5]");
    cover("end");
}

const MODEL: &str = "svm_type nu_svr
kernel_type rbf
gamma 0.5
nr_class 2
total_sv 3
rho -3.25
SV
5.5 1:0.25 2:0.5
-7.25 1:0.75 2:0.125
1.5 1:1.0 2:1.0
";

#[no_mangle]
pub extern "C" fn h_c01_fullband() {
    file("model.txt", MODEL.as_bytes());
    let m = crate::svr_similarity_to_quality_mapper::SvrSimilarityToQualityMapper::new("model.txt");
    let q = m.predict_quality(&fs("s", 2, -1.0, 1.0));
    check(q >= 1.0 && q <= 5.0, "the fullband score lies in [1, 5]");
    cover("end");
}

fn rule<const N: usize>() {
    use crate::gammatone_filterbank::GammatoneFilterbank;
    use crate::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
    let patches = pick("patches", 2) + 1;
    let rate = 1000;
    let window = crate::analysis_window::AnalysisWindow { size: 4, overlap: 0.25 };
    let mut r = crate::audio_signal::AudioSignal::new(&pipe::tone(16, 1), rate);
    let mut d = crate::audio_signal::AudioSignal::new(&pipe::tone(16, 2), rate);
    let mut b = GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::new(50.0));
    let sel = crate::comparison_patches_selector::ComparisonPatchesSelector::new(
        crate::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure::default(),
    );
    let at = if patches == 1 { vec![1] } else { vec![1, 6] };
    let plan = pipe::Plan { at, len: 4 };
    let q = f("mapped", 1.0, 5.0);
    unsafe { BANDS = N };
    let res = crate::visqol::calculate_similarity(&mut r, &mut d, &mut b, &window, &plan, &sel, &pipe::Fixed(q), 0);
    unsafe { BANDS = 0 };
    match res {
        Ok(s) => {
            // the mean over the bands of the per-band similarities
            let mut m = 0.0;
            for x in &s.fvnsim {
                m += *x;
            }
            m /= s.fvnsim.len() as f64;
            close(m, s.vnsim, 1e-9, "the overall similarity is the mean over the bands");
            if split(s.vnsim < 0.15) {
                cover("low");
                close(s.moslqo, 1.0, 0.0, "a mean similarity below 0.15 scores exactly 1.0");
            } else {
                cover("high");
                close(s.moslqo, q, 0.0, "otherwise the score is the one the mapping predicts");
            }
            check(s.moslqo >= 1.0 && s.moslqo <= 5.0, "the score lies in [1, 5]");
        }
        Err(_) => check(false, "two comparable signals give a result"),
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c01_rule() {
    if pick("bands", 2) == 0 {
        rule::<2>()
    } else {
        rule::<3>()
    }
}
