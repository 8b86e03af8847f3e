//@ bounds: one stage: signals of 1..=5 (thorough 6) samples, all coefficients, samples and initial conditions arbitrary in [-100, 100], every split point; filter bank: 2 bands with arbitrary coefficients in [-4, 4] and gains in [0.01, 100], signals of 1..=2 samples, and fixed coefficients of 3 bands with signals of up to 6 (thorough 10) samples, every split point
//@ assume: real arithmetic stands for f64 (rounding of the filter arithmetic is not covered)
//@ entry: h_c06_stage mode=real time=60
//@ entry: h_c06_blocks mode=real time=60
//@ entry: h_c06_cascade mode=real time=100
//@ entry: h_c06_bank mode=real time=100
//@ entry: h_c06_linear mode=real time=60
use crate::gammatone_filterbank::GammatoneFilterbank;
use crate::signal_filter::filter_signal;
use ndarray::Array2;

/// y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2], started from rest
fn direct(b: &[f64], a: &[f64], x: &[f64]) -> Vec<f64> {
    let mut y = vec![0.0; x.len()];
    for n in 0..x.len() {
        let mut v = b[0] * x[n];
        if n >= 1 {
            v += b[1] * x[n - 1] - a[1] * y[n - 1];
        }
        if n >= 2 {
            v += b[2] * x[n - 2] - a[2] * y[n - 2];
        }
        y[n] = v;
    }
    y
}
fn same(a: &[f64], b: &[f64], msg: &str) {
    check(a.len() == b.len(), "the filtered signal has the input's length");
    for i in 0..a.len() {
        close(a[i], b[i], 1e-9, msg);
    }
}

#[no_mangle]
pub extern "C" fn h_c06_stage() {
    let n = pick("n", if thorough() { 6 } else { 5 }) + 1;
    let b = fs("b", 3, -100.0, 100.0);
    let a = fs("a", 3, -100.0, 100.0);
    let x = fs("x", n, -100.0, 100.0);
    let mut c = [0.0, 0.0];
    let r = filter_signal(&b, &a, &x, &mut c);
    same(&r.filtered_signal, &direct(&b, &a, &x), "a filter stage realises its difference equation");
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c06_blocks() {
    let n = pick("n", if thorough() { 6 } else { 5 }) + 1;
    let k = pick("split", n + 1);
    let b = fs("b", 3, -100.0, 100.0);
    let a = fs("a", 3, -100.0, 100.0);
    let x = fs("x", n, -100.0, 100.0);
    let c = fs("c", 2, -100.0, 100.0);
    let whole = filter_signal(&b, &a, &x, &mut [c[0], c[1]]);
    let one = filter_signal(&b, &a, &x[..k], &mut [c[0], c[1]]);
    let mut mid = one.final_conditions;
    let two = filter_signal(&b, &a, &x[k..], &mut mid);
    let mut y = one.filtered_signal.clone();
    y.extend_from_slice(&two.filtered_signal);
    same(&whole.filtered_signal, &y, "filtering block by block equals filtering the concatenated signal");
    for i in 0..2 {
        close(whole.final_conditions[i], two.final_conditions[i], 1e-9, "the final conditions do not depend on the blocking");
    }
    cover("end");
}

/// the four stages of one band in cascade, the gain divided out of the first
fn cascade(c: &[f64], x: &[f64]) -> Vec<f64> {
    let den = [c[6], c[7], c[8]];
    let g = c[9];
    let y = direct(&[c[0] / g, c[1] / g, c[5] / g], &den, x);
    let y = direct(&[c[0], c[2], c[5]], &den, &y);
    let y = direct(&[c[0], c[3], c[5]], &den, &y);
    direct(&[c[0], c[4], c[5]], &den, &y)
}

#[no_mangle]
pub extern "C" fn h_c06_cascade() {
    // arbitrary coefficients
    let n = pick("n", 2) + 1;
    let mut m = Array2::<f64>::zeros((2, 10));
    for band in 0..2 {
        for i in 0..9 {
            m[(band, i)] = f("coef", -4.0, 4.0);
        }
        m[(band, 6)] = 1.0;
        m[(band, 9)] = f("gain", 0.01, 100.0);
    }
    let x = fs("x", n, -10.0, 10.0);
    let mut bank = GammatoneFilterbank::<2>::new(50.0);
    bank.set_filter_coefficients(&m);
    let y = bank.apply_filter(&x);
    check(y.nrows() == 2 && y.ncols() == n, "one output row per band");
    for band in 0..2 {
        let e = cascade(&m.row(band).to_vec(), &x);
        same(&y.row(band).to_vec(), &e, "a band is the cascade of its own four stages");
    }
    cover("end");
}

fn fixed() -> Array2<f64> {
    let mut m = Array2::<f64>::zeros((3, 10));
    for band in 0..3 {
        let t = band as f64;
        let row = [0.5 + 0.25 * t, -0.25 + 0.5 * t, 0.125 - 0.25 * t, 0.75 - 0.5 * t, -0.5 - 0.125 * t, 0.25 * t - 0.125, 1.0, -0.5 + 0.25 * t, 0.25 - 0.125 * t, 0.5 + t];
        for i in 0..10 {
            m[(band, i)] = row[i];
        }
    }
    m
}

#[no_mangle]
pub extern "C" fn h_c06_bank() {
    let n = pick("n", if thorough() { 10 } else { 6 }) + 1;
    let k = pick("split", n + 1);
    let m = fixed();
    let x = fs("x", n, -10.0, 10.0);
    let mut bank = GammatoneFilterbank::<3>::new(50.0);
    bank.set_filter_coefficients(&m);
    // block by block
    let one = bank.apply_filter(&x[..k]);
    let two = bank.apply_filter(&x[k..]);
    // after a reset
    bank.reset_filter_conditions();
    let again = bank.apply_filter(&x);
    check(one.ncols() + two.ncols() == n && again.ncols() == n, "one output sample per input sample");
    for band in 0..3 {
        let e = cascade(&m.row(band).to_vec(), &x);
        for i in 0..n {
            let v = if i < k { one[(band, i)] } else { two[(band, i - k)] };
            close(v, e[i], 1e-9, "the bank carries its state exactly from block to block");
            close(again[(band, i)], e[i], 1e-9, "after a reset the bank behaves as if new");
        }
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c06_linear() {
    let n = pick("n", 4) + 1;
    let m = fixed();
    let x = fs("x", n, -10.0, 10.0);
    let y = fs("y", n, -10.0, 10.0);
    let (p, q) = (f("p", -10.0, 10.0), f("q", -10.0, 10.0));
    let mix: Vec<f64> = (0..n).map(|i| p * x[i] + q * y[i]).collect();
    let mut out = Vec::new();
    for s in [&x, &y, &mix] {
        let mut bank = GammatoneFilterbank::<3>::new(50.0);
        bank.set_filter_coefficients(&m);
        out.push(bank.apply_filter(s));
    }
    for band in 0..3 {
        for i in 0..n {
            let e = p * out[0][(band, i)] + q * out[1][(band, i)];
            close(out[2][(band, i)], e, 1e-9, "the filter bank is linear");
        }
    }
    cover("end");
}
