//@ bounds: similarity vectors of 1..=4 (quick) / 1..=8 (thorough) bands, every band value in [-3, 3]
//@ assume: exp is any function that is positive, strictly increasing and encloses the true exponential on the intervals it is evaluated on; real arithmetic stands for f64
//@ entry: h_c02_monotone mode=real time=60
//@ entry: h_c02_fit mode=real time=60
//@ entry: h_c02_top mode=real time=60 
//@ entry: h_c02_scale mode=real time=60
use crate::similarity_to_quality_mapper::SimilarityToQualityMapper;
use crate::speech_similarity_to_quality_mapper::SpeechSimilarityToQualityMapper;

fn len() -> usize { pick("bands", if thorough() { 8 } else { 4 }) + 1 }
fn mean(v: &[f64]) -> f64 {
    let mut s = 0.0;
    for x in v {
        s += *x;
    }
    s / v.len() as f64
}

#[no_mangle]
pub extern "C" fn h_c02_monotone() {
    let scaled = pick("scaled", 2) == 1;
    let m = SpeechSimilarityToQualityMapper::new(scaled);
    let a = fs("a", len(), -3.0, 3.0);
    let b = fs("b", len(), -3.0, 3.0);
    assume(mean(&a) <= mean(&b));
    let qa = m.predict_quality(&a);
    let qb = m.predict_quality(&b);
    check(qa <= qb + 1e-9, "a higher mean similarity never scores lower (equal means score equally)");
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c02_fit() {
    // against the published fit
    let scaled = pick("scaled", 2) == 1;
    let m = SpeechSimilarityToQualityMapper::new(scaled);
    let a = fs("a", len(), -3.0, 3.0);
    let mut x = 1.1559455 + (4.6851153 * (mean(&a) - 0.7655232)).exp();
    if scaled {
        x *= 1.2031409;
    }
    let x = if x < 1.0 { 1.0 } else if x > 5.0 { 5.0 } else { x };
    close(m.predict_quality(&a), x, 1e-5, "the score is the clamped exponential fit of the mean similarity");
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c02_top() {
    let n = len();
    let v = vec![1.0; n];
    let s = SpeechSimilarityToQualityMapper::new(true).predict_quality(&v);
    let u = SpeechSimilarityToQualityMapper::new(false).predict_quality(&v);
    close(s, 5.0, 1e-4, "perfect similarity scores 5.0 when scaled");
    close(u, 4.1558, 1e-3, "perfect similarity scores 4.156 when unscaled");
    // bands that are not all perfect but whose mean is
    let mut w = fs("d", n, -1.0, 2.0);
    let mut rest = n as f64;
    for x in &w[1..] {
        rest -= *x;
    }
    w[0] = rest;
    close(SpeechSimilarityToQualityMapper::new(true).predict_quality(&w), 5.0, 1e-4, "a perfect mean similarity scores 5.0");
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c02_scale() {
    let a = fs("a", len(), -3.0, 3.0);
    let s = SpeechSimilarityToQualityMapper::new(true).predict_quality(&a);
    let u = SpeechSimilarityToQualityMapper::new(false).predict_quality(&a);
    check(s >= u, "the scaled score is never below the unscaled one");
    cover("end");
}
