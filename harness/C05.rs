//@ bounds: 2 or 3 bands, sample rates 200, 1000, 16000 and 44100 Hz, windows of 4 samples with 25 % or 50 % hop and of 5 samples with 50 % hop, signals of 0..=8 (thorough 10) samples with arbitrary values in [-1, 1]; the whole bank of 21 bands with a fixed signal of 9 samples
//@ assume: real arithmetic stands for f64
//@ entry: h_c05_cells mode=real time=200 shards=4 cover=end,short,full
//@ entry: h_c05_scale mode=real time=100 shards=2
//@ entry: h_c05_speech mode=real time=60
use crate::analysis_window::AnalysisWindow;
use crate::audio_signal::AudioSignal;
use crate::equivalent_rectangular_bandwidth::make_filters;
use crate::gammatone_filterbank::GammatoneFilterbank;
use crate::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
use crate::spectrogram_builder::SpectrogramBuilder;
use crate::visqol_error::VisqolError;

const RATES: [u32; 4] = [200, 1000, 16000, 44100];

/// the cells from the filter coefficients, frame by frame, each frame filtered from rest
fn cells<const N: usize>(x: &[f64], rate: u32, size: usize, hop: usize, max: f64) -> Vec<Vec<f64>> {
    let (m, _) = make_filters::<N>(rate as usize, 50.0, max);
    let frames = 1 + (x.len() - size) / hop;
    let mut out = vec![vec![0.0; frames]; N];
    for band in 0..N {
        // bands are listed from low to high frequency, the coefficients from high to low
        let c = m.row(N - 1 - band).to_vec();
        for k in 0..frames {
            let mut y = x[k * hop..k * hop + size].to_vec();
            for stage in 0..4 {
                let g = if stage == 0 { c[9] } else { 1.0 };
                let num = [c[0] / g, c[1 + stage] / g, c[5] / g];
                let mut z = vec![0.0; size];
                for n in 0..size {
                    let mut v = num[0] * y[n];
                    if n >= 1 {
                        v += num[1] * y[n - 1] - c[7] * z[n - 1];
                    }
                    if n >= 2 {
                        v += num[2] * y[n - 2] - c[8] * z[n - 2];
                    }
                    z[n] = v;
                }
                y = z;
            }
            let mut s = 0.0;
            for v in &y {
                s += v * v;
            }
            out[band][k] = s / size as f64;
        }
    }
    out
}

fn grid<const N: usize>() {
    let rate = RATES[pick("rate", RATES.len())];
    let n = pick("n", if thorough() { 11 } else { 9 });
    let (size, overlap, hop) = [(4usize, 0.25, 1usize), (4, 0.5, 2), (5, 0.5, 2)][pick("window", 3)];
    let x = fs("x", n, -1.0, 1.0);
    let sig = AudioSignal::new(&x, rate);
    let window = AnalysisWindow { size, overlap };
    let mut b = GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::new(50.0));
    match b.build(&sig, &window) {
        Ok(s) => {
            check(n >= size, "a signal shorter than one window is refused");
            let e = cells::<N>(&x, rate, size, hop, (rate / 2) as f64);
            check(s.data.nrows() == N, "one row per band");
            check(s.data.ncols() == 1 + (n - size) / hop, "the number of frames is 1 + (n - window) / hop");
            for band in 0..N {
                for k in 0..e[band].len() {
                    let v = s.data[(band, k)];
                    close(v * v, e[band][k], 1e-9, "a cell is the RMS of its band's output over its own frame");
                    check(v >= 0.0, "cells are not negative");
                }
            }
            cover("full");
        }
        Err(VisqolError::TooFewSamples { found, minimum_required }) => {
            check(n < size, "only a signal shorter than one window is refused");
            check(found == n && minimum_required == size, "the error names the found and the required number of samples");
            cover("short");
        }
        Err(_) => check(false, "the error says that there are too few samples"),
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c05_cells() {
    if pick("bands", 2) == 0 {
        grid::<2>()
    } else {
        grid::<3>()
    }
}

#[no_mangle]
pub extern "C" fn h_c05_scale() {
    let rate = RATES[pick("rate", RATES.len())];
    let n = 4 + pick("n", 3);
    let x = fs("x", n, -1.0, 1.0);
    let g = f("g", -10.0, 10.0);
    let y: Vec<f64> = x.iter().map(|v| g * v).collect();
    let window = AnalysisWindow { size: 4, overlap: 0.25 };
    let mut b = GammatoneSpectrogramBuilder::<2>::new(GammatoneFilterbank::new(50.0));
    let p = b.build(&AudioSignal::new(&x, rate), &window);
    let q = b.build(&AudioSignal::new(&y, rate), &window);
    if let (Ok(p), Ok(q)) = (p, q) {
        for (u, v) in p.data.iter().zip(q.data.iter()) {
            close(v * v, g * g * (u * u), 1e-9, "scaling the signal scales every cell by the absolute factor");
        }
        cover("end");
    } else {
        check(false, "a long enough signal is analysed");
    }
}

#[no_mangle]
pub extern "C" fn h_c05_speech() {
    // the 21-band bank stops at 8 kHz
    let rate = [16000, 48000][pick("rate", 2)];
    let x: Vec<f64> = (0..9).map(|i| ((i * 7 + 3) % 11) as f64 / 11.0 - 0.5).collect();
    let g = f("g", 0.1, 2.0);
    let y: Vec<f64> = x.iter().map(|v| g * v).collect();
    let window = AnalysisWindow { size: 4, overlap: 0.5 };
    let mut b = GammatoneSpectrogramBuilder::<21>::new(GammatoneFilterbank::new(50.0));
    if let Ok(s) = b.build(&AudioSignal::new(&y, rate), &window) {
        let e = cells::<21>(&x, rate, 4, 2, 8000.0);
        check(s.data.nrows() == 21 && s.data.ncols() == 3, "the speech spectrogram has 21 bands");
        for band in 0..21 {
            for k in 0..3 {
                let v = s.data[(band, k)];
                close(v * v, g * g * e[band][k], 1e-9, "a speech cell is the RMS of its band's output");
            }
        }
        cover("end");
    } else {
        check(false, "a long enough signal is analysed");
    }
}
