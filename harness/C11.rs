//@ bounds: transform size: every requested length from 1 to 2^40; transforms: 1..=6, 31, 32 and 33 (thorough also 48 and 64) samples of arbitrary value in [-1, 1], sizes 32 and 64
//@ assume: real arithmetic stands for f64 in the transforms (the twiddle factors are the real f64 constants; agreement to 1e-9)
//@ assume: the FFT library is encoded as compiled for a processor without SIMD extensions; its results are compared with the native (SIMD) ones to 1e-9 on random inputs
//@ entry: h_c11_size mode=fp time=100
//@ entry: h_c11_manager mode=fp time=100
//@ entry: h_c11_transform ctol=1e-9 mode=real time=150 shards=4
//@ entry: h_c11_points ctol=1e-9 mode=real time=100
use crate::fast_fourier_transform::{forward_1d_from_matrix, forward_1d_from_points, inverse_1d, inverse_1d_conj_sym};
use crate::fft_manager::FftManager;

fn size_ok(n: usize, s: usize, at_least: usize) {
    check(s & (s.wrapping_sub(1)) == 0 && s > 0, "the size is a power of two");
    check(s >= n && s >= at_least, "no sample is cut off");
    check(s == at_least || s / 2 < n, "the size is the smallest possible");
}

#[no_mangle]
pub extern "C" fn h_c11_size() {
    let n = i("n", 1, 1 << 40) as usize;
    size_ok(n, crate::math_utils::next_pow_two(n), 1);
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c11_manager() {
    let n = i("n", 1, 1 << 32) as usize;
    let m = FftManager::new(n);
    size_ok(n, m.fft_size, 32);
    check(m.samples_per_channel == n, "the manager keeps the number of samples");
    cover("end");
}

fn spectrum(x: &[f64], size: usize, k: usize) -> (f64, f64) {
    let (mut re, mut im) = (0.0, 0.0);
    for (j, v) in x.iter().enumerate() {
        let a = 2.0 * std::f64::consts::PI * ((j * k) % size) as f64 / size as f64;
        re += v * a.cos();
        im -= v * a.sin();
    }
    (re, im)
}

#[no_mangle]
pub extern "C" fn h_c11_transform() {
    let lens: &[usize] = &[1, 2, 3, 4, 5, 6, 31, 32, 33, 48, 64];
    let n = lens[pick("n", if thorough() { 11 } else { 9 })];
    let size = n.next_power_of_two().max(32);
    let x = fs("x", n, -1.0, 1.0);
    let mut m = FftManager::new(n);
    let y = forward_1d_from_matrix(&mut m, &x);
    check(y.len() == size, "the transform has the padded length");
    for k in 0..y.len().min(size) {
        let (re, im) = spectrum(&x, size, k);
        close(y[k].re, re, 1e-9, "real part of the discrete Fourier transform");
        close(y[k].im, im, 1e-9, "imaginary part of the discrete Fourier transform");
    }
    let z = inverse_1d(&mut m, &y);
    let w = inverse_1d_conj_sym(&mut m, &y);
    check(z.len() == n && w.len() == n, "the inverse has the original length");
    for j in 0..n.min(z.len()).min(w.len()) {
        close(z[j].re, x[j], 1e-9, "forward then inverse returns the samples");
        close(w[j], x[j], 1e-9, "forward then symmetric inverse returns the samples");
    }
    // the manager itself, with buffers of other lengths
    let mut t = x.clone();
    let mut fr = y.clone();
    m.freq_from_time_domain(&mut t, &mut fr);
    for k in 0..size.min(fr.len()) {
        close(fr[k].re, y[k].re, 1e-9, "transforming again gives the same spectrum");
    }
    let mut back = Vec::new();
    m.time_from_freq_domain(&mut fr, &mut back);
    m.apply_reverse_fft_scaling(&mut back);
    check(back.len() == size, "the padded signal is returned");
    for j in 0..size.min(back.len()) {
        close(back[j], if j < n { x[j] } else { 0.0 }, 1e-9, "the padded signal is returned");
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c11_points() {
    let n = pick("n", 5) + 1;
    let x = fs("x", n, -1.0, 1.0);
    let mut m = FftManager::new(32);
    let y = forward_1d_from_points(&mut m, &x, 32);
    check(y.len() == 32, "the transform has the requested number of points");
    for k in 0..y.len().min(32) {
        let (re, im) = spectrum(&x, 32, k);
        close(y[k].re, re, 1e-9, "real part of the zero-padded transform");
        close(y[k].im, im, 1e-9, "imaginary part of the zero-padded transform");
    }
    cover("end");
}
