//@ bounds: spectrograms of 1..=2 bands, 1..=3 reference and 1..=3 degraded frames (thorough: up to 3 bands, 4 degraded frames), every cell an arbitrary magnitude in [-10, 10] including 0
//@ assume: log10 is any strictly increasing function that encloses the true logarithm on the intervals it is evaluated on; real arithmetic stands for f64
//@ entry: h_c09_prepare mode=real merge=1 time=200 shards=4 ttime=600
//@ entry: h_c09_ends mode=real merge=1 time=200 shards=4 ttime=600
//@ entry: h_c09_zero mode=fp time=60
use crate::audio_utils::prepare_spectrograms_for_comparison;
use crate::spectrogram::Spectrogram;
use ndarray::Array2;

fn max(a: f64, b: f64) -> f64 { if a > b { a } else { b } }
fn min(a: f64, b: f64) -> f64 { if a < b { a } else { b } }
fn db(x: f64) -> f64 {
    let m = if x == 0.0 { f64::EPSILON } else { x.abs() };
    10.0 * m.log10()
}
fn arbitrary(bands: usize, frames: usize, name: &str) -> Array2<f64> {
    let v = fs(name, bands * frames, -10.0, 10.0);
    Array2::from_shape_vec((bands, frames), v).unwrap()
}
fn sizes() -> (usize, usize, usize) {
    let t = thorough();
    (pick("bands", if t { 3 } else { 2 }) + 1, pick("ref", 3) + 1, pick("deg", if t { 4 } else { 3 }) + 1)
}

/// both sides after the absolute floor and the per-frame floor
fn floored(r: &Array2<f64>, d: &Array2<f64>) -> (Array2<f64>, Array2<f64>) {
    let mut p = r.map(|x| max(db(*x), -45.0));
    let mut q = d.map(|x| max(db(*x), -45.0));
    for k in 0..r.ncols().min(d.ncols()) {
        let mut top = -1000.0;
        for b in 0..r.nrows() {
            top = max(top, max(p[(b, k)], q[(b, k)]));
        }
        for b in 0..r.nrows() {
            p[(b, k)] = max(p[(b, k)], top - 45.0);
            q[(b, k)] = max(q[(b, k)], top - 45.0);
        }
    }
    (p, q)
}

#[no_mangle]
pub extern "C" fn h_c09_prepare() {
    let (bands, n, m) = sizes();
    let r = arbitrary(bands, n, "r");
    let d = arbitrary(bands, m, "d");
    let (p, q) = floored(&r, &d);
    let mut low = 1000.0;
    for x in p.iter().chain(q.iter()) {
        low = min(low, *x);
    }
    let mut rs = Spectrogram::new(r, vec![0.0; bands]);
    let mut ds = Spectrogram::new(d, vec![0.0; bands]);
    prepare_spectrograms_for_comparison(&mut rs, &mut ds);
    check(rs.data.ncols() == n && ds.data.ncols() == m && rs.data.nrows() == bands && ds.data.nrows() == bands, "the shapes are unchanged");
    for (x, y) in rs.data.iter().zip(p.iter()) {
        close(*x, *y - low, 1e-9, "reference cells: decibels, floors, minus the common minimum");
    }
    for (x, y) in ds.data.iter().zip(q.iter()) {
        close(*x, *y - low, 1e-9, "degraded cells: decibels, floors, minus the common minimum");
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c09_ends() {
    let (bands, n, m) = sizes();
    let mut rs = Spectrogram::new(arbitrary(bands, n, "r"), vec![0.0; bands]);
    let mut ds = Spectrogram::new(arbitrary(bands, m, "d"), vec![0.0; bands]);
    prepare_spectrograms_for_comparison(&mut rs, &mut ds);
    let mut low = 1000.0;
    for x in rs.data.iter().chain(ds.data.iter()) {
        check(*x >= 0.0, "no cell is negative");
        check(*x <= 55.0 + 1e-6, "cells stay within the range between the absolute floor and the loudest cell");
        low = min(low, *x);
    }
    close(low, 0.0, 1e-9, "the overall minimum is zero");
    for k in 0..n.min(m) {
        let mut top = 0.0;
        for b in 0..bands {
            top = max(top, max(rs.data[(b, k)], ds.data[(b, k)]));
        }
        for b in 0..bands {
            check(min(rs.data[(b, k)], ds.data[(b, k)]) >= top - 45.0 - 1e-9, "a common frame spans at most 45 dB");
        }
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c09_zero() {
    // silent cells in every pattern
    let bits = pick("pattern", 64);
    let v = |k: usize| if bits >> k & 1 == 1 { 0.0 } else { [3.5, 1e-300, 1.0, 0.25, 1e-12, 700.0][k] };
    let mut rs = Spectrogram::new(Array2::from_shape_fn((2, 1), |(b, _)| v(b)), vec![0.0; 2]);
    let mut ds = Spectrogram::new(Array2::from_shape_fn((2, 2), |(b, k)| v(2 + 2 * k + b)), vec![0.0; 2]);
    prepare_spectrograms_for_comparison(&mut rs, &mut ds);
    let mut low = 1000.0;
    for x in rs.data.iter().chain(ds.data.iter()) {
        check(x.is_finite() && *x >= 0.0, "every cell is finite and not negative");
        low = min(low, *x);
    }
    check(low == 0.0, "the overall minimum is zero");
    cover("end");
}
