//@ bounds: signals of 0..=6 (thorough 9) arbitrary samples, every start from 3 samples before the beginning to the end of the signal and every end up to 4 samples after it, every integer sample rate from 1 to 200000; frame-aligned boundaries of an 80 ms / 25 % analysis with exact f64 arithmetic for 8 rates and 40 (thorough 400) frames; degraded patches of 0..=5 frames at every offset of spectrograms with 1..=2 bands and 0..=5 frames
//@ assume: in the entry h_c18_rnd each f64 operation is the real one with a relative error of at most 2^-53
//@ entry: h_c18_slice mode=real time=100 shards=4
//@ entry: h_c18_rnd mode=rnd time=100 shards=4
//@ entry: h_c18_frames mode=fp time=150 shards=6 ttime=800
//@ entry: h_c18_patch mode=real time=60
use crate::audio_signal::AudioSignal;
use crate::comparison_patches_selector::ComparisonPatchesSelector;
use ndarray::Array2;

fn boundaries(n: usize) -> (i64, i64) {
    let s = pick("start", n + 4) as i64 - 3;
    let e = s.max(0) + pick("len", (n as i64 + 5 - s.max(0)) as usize) as i64;
    (s, e)
}
fn compare(x: &[f64], y: &AudioSignal, s: i64, e: i64, rate: u32) {
    check(y.sample_rate == rate, "the sample rate is kept");
    check(y.data_matrix.len() as i64 == e - s, "the slice has (end - start) * rate samples");
    for k in 0..y.data_matrix.len() {
        let p = s + k as i64;
        let want = if p >= 0 && p < x.len() as i64 { x[p as usize] } else { 0.0 };
        close(y.data_matrix[k], want, 0.0, "every sample is the signal's, zero outside it");
    }
    cover("end");
}
fn slicing(n: usize) {
    let (s, e) = boundaries(n);
    let rate = i("rate", 1, 200000) as u32;
    let x = fs("x", n, -1.0, 1.0);
    let y = ComparisonPatchesSelector::slice(&AudioSignal::new(&x, rate), s as f64 / rate as f64, e as f64 / rate as f64);
    compare(&x, &y, s, e, rate);
}

#[no_mangle]
pub extern "C" fn h_c18_slice() {
    slicing(pick("n", if thorough() { 10 } else { 7 }));
}

#[no_mangle]
pub extern "C" fn h_c18_rnd() {
    slicing(pick("n", 4));
}

const RATES: [u32; 8] = [8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000];

/// patch boundaries as the pipeline computes them: frame index times frame duration
#[no_mangle]
pub extern "C" fn h_c18_frames() {
    let rate = RATES[pick("rate", 8)];
    let size = (rate as f64 * 0.08).round();
    let fd = size * 0.25 / rate as f64;
    let hop = (size * 0.25) as i64;
    if (hop as f64) != size * 0.25 {
        // frames do not start on samples
        cover("end");
        return;
    }
    let frame = pick("frame", if thorough() { 400 } else { 40 }) as i64;
    let frames = 1;
    let start = frame as f64 * fd;
    let end = start + fd * frames as f64;
    let n = (frame + 2) * hop;
    let x: Vec<f64> = (0..n).map(|k| (k + 1) as f64).collect();
    let y = ComparisonPatchesSelector::slice(&AudioSignal::new(&x, rate), start, end);
    check(y.data_matrix.len() as i64 == hop, "a frame-aligned slice has exactly its frames' samples");
    let m = y.data_matrix.len();
    check(m > 0 && y.data_matrix[0] == (frame * hop + 1) as f64, "a frame-aligned slice starts at its frame's first sample");
    check(m > 0 && y.data_matrix[m - 1] == (frame * hop + m as i64) as f64, "a slice is contiguous");
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c18_patch() {
    let bands = pick("bands", 2) + 1;
    let n = pick("frames", 6);
    let at = pick("at", n + 1);
    let len = pick("len", 6);
    let v = fs("v", bands * n, -10.0, 10.0);
    let m = Array2::from_shape_vec((bands, n), v.clone()).unwrap();
    let p = ComparisonPatchesSelector::build_degraded_patch(&m, at, at + len);
    check(p.nrows() == bands && p.ncols() == len, "a degraded patch has exactly the requested frames");
    for b in 0..p.nrows() {
        for k in 0..p.ncols() {
            let want = if at + k < n { v[b * n + at + k] } else { 0.0 };
            close(p[(b, k)], want, 0.0, "a degraded patch holds the requested frames, zero beyond the end");
        }
    }
    cover("end");
}
