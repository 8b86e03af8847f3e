//@ bounds: reference: 3 fixed signals of 3 to 5 samples (thorough to 10); degraded: arbitrary samples in [-1, 1], one sample shorter, equal or one longer; both signals arbitrary with 1 or 2 samples; every possible position and sign of the peak, which stands out by at least 1e-6
//@ assume: real arithmetic stands for f64; in comparisons, coefficients are rounded to 2^-44 with an explicit bounded error
//@ assume: the FFT library is encoded as compiled for a processor without SIMD extensions; its results are compared with the native (SIMD) ones to 1e-9 on random inputs
//@ entry: h_c10_lag conc=24 mode=real merge=1 snap=1 ctol=1e-9 time=300 ttime=800 query=20 shards=8
//@ entry: h_c10_tiny conc=24 mode=real merge=1 snap=1 ctol=1e-9 time=150 shards=4
//@ entry: h_c10_delay conc=8 mode=real merge=1 snap=1 ctol=1e-9 time=200 shards=4
//@ use: pipe
use crate::xcorr::calculate_best_lag;

fn corr(r: &[f64], d: &[f64], l: i64) -> f64 {
    let mut s = 0.0;
    for k in 0..d.len() as i64 {
        if k + l >= 0 && k + l < r.len() as i64 {
            s += r[(k + l) as usize] * d[k as usize];
        }
    }
    s
}

/// the lag of a peak that stands out is the one reported
fn peak(r: &[f64], d: &[f64]) {
    let m = r.len().max(d.len()) as i64;
    let at = pick("peak", (2 * m - 1) as usize) as i64 - (m - 1);
    peak_at(r, d, at);
}

fn peak_at(r: &[f64], d: &[f64], at: i64) {
    let m = r.len().max(d.len()) as i64;
    let c = corr(r, d, at);
    let c = if split(c > 0.0) { c } else { -c };
    for l in 1 - m..m {
        if l != at {
            let o = corr(r, d, l);
            assume_gap(c, o, 1e-6);
            assume_gap(c, -o, 1e-6);
        }
    }
    let (r0, d0) = (r.to_vec(), d.to_vec());
    let lag = calculate_best_lag(r, d);
    check(lag == Some(at), "the lag with the largest absolute cross-correlation is reported");
    for i in 0..r0.len() {
        check(r[i] == r0[i], "the reference is not changed");
    }
    for i in 0..d0.len() {
        check(d[i] == d0[i], "the degraded signal is not changed");
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c10_lag() {
    let n = 3 + pick("n", if thorough() { 8 } else { 3 });
    let m = n + pick("longer", 3) - 1;
    let mut r = pipe::tone(n, 1 + pick("seed", if thorough() { 3 } else { 1 }) as u64);
    for x in r.iter_mut() {
        *x = (*x * 16.0).round() / 16.0;
    }
    let d = fs("d", m, -1.0, 1.0);
    peak(&r, &d);
}

#[no_mangle]
pub extern "C" fn h_c10_tiny() {
    let n = 1 + pick("n", 2);
    let m = 1 + pick("m", 2);
    let r = fs("r", n, -1.0, 1.0);
    let d = fs("d", m, -1.0, 1.0);
    peak(&r, &d);
}

/// the degraded signal is the reference, scaled, delayed or advanced, plus a small deviation
#[no_mangle]
pub extern "C" fn h_c10_delay() {
    let n = [7, 9, 16, 17][pick("n", if thorough() { 4 } else { 2 })];
    let m = n + pick("longer", 3) - 1;
    let delay = pick("delay", 5) as i64 - 2;
    let r = pipe::tone(n, 4);
    let g = f("gain", 0.5, 2.0) * (1.0 - 2.0 * pick("inverted", 2) as f64);
    let mut d = fs("deviation", m, -0.05, 0.05);
    for k in 0..m as i64 {
        if k - delay >= 0 && k - delay < n as i64 {
            d[k as usize] += g * r[(k - delay) as usize];
        }
    }
    peak_at(&r, &d, -delay);
}
