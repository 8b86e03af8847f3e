//@ bounds: detector: 0..=7 (thorough 10) chunks of 1..=3 arbitrary 16-bit samples; chunking: patch creator with 0..=10 samples of arbitrary real values in [-1, 1] and chunk lengths 1..=3
//@ assume: real arithmetic stands for f64 (the squares are exact integers; the rounding of the square root is not covered)
//@ entry: h_c14_decide mode=real merge=1 time=150 shards=4
//@ entry: h_c14_rms mode=real time=60
//@ entry: h_c14_chunks mode=real merge=1 time=150 shards=4
use crate::rms_vad::RmsVad;

/// the decisions for raw chunk activities
fn decisions(active: &[bool]) -> Vec<bool> {
    let mut out = vec![true, true];
    for k in 2..active.len() {
        out.push(active[k] | active[k - 1] | active[k - 2]);
    }
    out
}
fn compare(out: &[f64], active: &[bool]) {
    let e = decisions(active);
    check(out.len() == e.len(), "there is one decision per chunk, and at least two");
    for k in 0..e.len().min(out.len()) {
        close(out[k], if e[k] { 1.0 } else { 0.0 }, 0.0, "a chunk is silent iff it and both chunks before it are inactive");
    }
}

#[no_mangle]
pub extern "C" fn h_c14_decide() {
    let chunks = pick("chunks", if thorough() { 11 } else { 8 });
    let len = pick("len", 3) + 1;
    let mut v = RmsVad::default();
    let mut active = Vec::new();
    for _ in 0..chunks {
        let c: Vec<i16> = (0..len).map(|_| i("s", -32768, 32767) as i16).collect();
        let mut sq = 0i64;
        for x in &c {
            sq += *x as i64 * *x as i64;
        }
        active.push(sq >= 25_000_000 * len as i64);
        v.process_chunk(&c);
    }
    compare(&v.get_vad_results(), &active);
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c14_rms() {
    let len = pick("len", 6) + 1;
    let c: Vec<i16> = (0..len).map(|_| i("s", -32768, 32767) as i16).collect();
    let mut sq = 0.0;
    for x in &c {
        sq += *x as f64 * *x as f64;
    }
    let r = RmsVad::default().process_chunk(&c);
    check(r >= 0.0, "the level is not negative");
    close(r * r * len as f64, sq, 1e-6, "the level of a chunk is its root mean square");
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c14_chunks() {
    let total = pick("total", 11);
    let start = pick("start", 3);
    let len = pick("len", 3) + 1;
    let x = fs("x", start + total + 1, -1.0, 1.0);
    let p = crate::vad_patch_creator::VadPatchCreator::new(20);
    let out = p.get_voice_activity(&x, start, total, len);
    let mut active = Vec::new();
    for k in 0..total / len {
        let mut sq = 0.0;
        for j in 0..len {
            // 16-bit quantisation, towards zero, saturating
            let q = (x[start + k * len + j] * 32768.0) as i16 as f64;
            sq += q * q;
        }
        active.push(sq >= 25e6 * len as f64);
    }
    compare(&out, &active);
    cover("end");
}
