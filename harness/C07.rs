//@ bounds: centre frequencies of banks of 2, 3 and 21 bands (21: the speech bank, with every sampling rate from 104 to 384000 Hz; otherwise every even rate in that range), poles of banks of 2, 3 and 5 bands for every even rate from 104 to 384000 Hz; the agreement of spectrogram rows with filters is decided under C05
//@ assume: real arithmetic stands for f64; exp and ln are inverse to each other and turn sums into products
//@ entry: h_c07_layout mode=real nonzero=1 ctol=1e-6 time=150 shards=4 cover=end
//@ entry: h_c07_poles mode=real nonzero=1 ctol=1e-6 time=150 shards=3 cover=end
use crate::analysis_window::AnalysisWindow;
use crate::audio_signal::AudioSignal;
use crate::equivalent_rectangular_bandwidth::make_filters;
use crate::gammatone_filterbank::GammatoneFilterbank;
use crate::gammatone_spectrogram_builder::GammatoneSpectrogramBuilder;
use crate::spectrogram_builder::SpectrogramBuilder;

const K: f64 = 24.7 * 9.26449;

fn layout<const N: usize>() {
    let fast = N == 21 && pick("fast", 2) == 1;
    let rate = if fast { i("rate", 16000, 384000) } else if N == 21 { i("rate", 104, 15999) } else { 2 * i("rate", 52, 192000) } as u32;
    let top = if fast { 8000.0 } else { rate as f64 / 2.0 };
    let mut b = GammatoneSpectrogramBuilder::<N>::new(GammatoneFilterbank::new(50.0));
    let sp = match b.build(&AudioSignal::new(&[0.0], rate), &AnalysisWindow { size: 1, overlap: 1.0 }) {
        Ok(s) => s,
        Err(_) => return check(false, "one sample fills a window of one sample"),
    };
    let f = sp.center_freq_bands;
    check(f.len() == N, "one centre frequency per band");
    for k in 0..N {
        check(f[k] > 49.999 && f[k] < top, "the bands lie between the lowest frequency and the upper limit");
        if k > 0 {
            check(f[k] > f[k - 1], "the reported frequencies are ascending");
        }
        // k steps of N from the lowest frequency to the upper limit on the ERB-rate scale
        let low = (50.0 + K).ln();
        let e = low + ((top + K).ln() - low) * k as f64 / N as f64;
        close(f[k], e.exp() - K, 1e-6, "the bands are equally spaced on the ERB-rate scale");
    }
    close(f[0], 50.0, 1e-6, "the lowest band is at 50 Hz");
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c07_layout() {
    match pick("bands", 3) {
        0 => layout::<2>(),
        1 => layout::<3>(),
        _ => layout::<21>(),
    }
}

// A filter is stable exactly when its pole pair lies inside the unit circle.
fn stable<const N: usize>() {
    let rate = 2 * i("rate", 52, 192000) as usize;
    let (c, cf) = make_filters::<N>(rate, 50.0, rate as f64 / 2.0);
    for k in 0..N {
        let (b0, b1, b2) = (c[(k, 6)], c[(k, 7)], c[(k, 8)]);
        check(b0 == 1.0, "the recursion is normalised");
        check(b2 > 0.0 && b2 < 1.0, "the poles lie inside the unit circle");
        let w = (2.0 * std::f64::consts::PI * cf[k] / rate as f64).cos();
        close(b1 * b1, 4.0 * w * w * b2, 1e-9, "the poles lie at the frequency of the filter");
        check(b1 < 1.0 + b2 && -b1 < 1.0 + b2, "the poles form a decaying pair");
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c07_poles() {
    match pick("bands", 3) {
        0 => stable::<2>(),
        1 => stable::<3>(),
        _ => stable::<5>(),
    }
}

