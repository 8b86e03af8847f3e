//@ use: pipe
//@ bounds: 16-bit mono and stereo files with 0 to 3 frames of arbitrary samples and arbitrary pairs of sampling rates in the headers; equal rates (six values from 44 to 192000 Hz) with 0 to 2 arbitrary frames per file and lags 0 and 1, and with four concrete contents and the real alignment; files at 50 Hz whose durations differ by up to 2.6 s (radius 1); signals at 50 Hz with 0 to 50 samples (silent, constant or noisy) around the smallest lengths the two modes can analyse, with six lags; sampling rates of 0 to 43 Hz, at which the analysis has no hop, with 0 to 4 samples
//@ stub: in h_c22_short, h_c22_duration and for arbitrary frames in h_c22_equal the best lag is arbitrary among the stated ones (its own definition is property C10); in h_c22_short and h_c22_duration the per-patch similarity is a constant (its own definition is property C03)
//@ assume: real arithmetic stands for f64
//@ entry: h_c22_rates mode=real time=100 shards=4
//@ entry: h_c22_equal mode=real time=150 shards=4
//@ entry: h_c22_duration mode=real time=150 shards=4 cover=longer,shorter conc=1
//@ entry: h_c22_slow mode=real time=60
//@ entry: h_c22_short mode=real time=200 shards=8 cover=result,refused conc=1
use crate::audio_signal::AudioSignal;
use crate::patch_similarity_comparator::PatchSimilarityResult;
use crate::similarity_result::SimilarityResult;
use crate::variant::Variant;
use crate::visqol_error::VisqolError;
use crate::visqol_manager::VisqolManager;
use ndarray::Array2;

static mut LAG: Option<i64> = None;
pub fn best_lag_stub(_: &[f64], _: &[f64]) -> Option<Option<i64>> { unsafe { LAG.map(Some) } }
static mut SIM: bool = false;
pub fn nsim_stub(_: &Array2<f64>, _: &Array2<f64>) -> Option<PatchSimilarityResult> {
    unsafe { SIM }.then(|| PatchSimilarityResult::new(vec![0.5; 2], vec![0.0; 2], vec![1.0; 2], 0.5))
}

fn wav(rate: i64, channels: usize, s: &[i64]) -> Vec<u8> {
    let (ch, rate, bytes) = (channels as u16, rate as u32, 2 * s.len() as u32);
    let mut h = b"RIFF\x24\x00\x00\x00WAVEfmt \x10\x00\x00\x00\x01\x00".to_vec();
    h.extend_from_slice(&ch.to_le_bytes());
    h.extend_from_slice(&rate.to_le_bytes());
    h.extend_from_slice(&rate.wrapping_mul(2 * ch as u32).to_le_bytes());
    h.extend_from_slice(&(ch * 2).to_le_bytes());
    h.extend_from_slice(b"\x10\x00data");
    h.extend_from_slice(&bytes.to_le_bytes());
    for v in s {
        h.extend_from_slice(&(*v as i16).to_le_bytes());
    }
    h
}
fn samples(n: usize) -> Vec<i64> { (0..n).map(|_| i("sample", -32768, 32767)).collect() }

const MODEL: &str = "svm_type nu_svr\nkernel_type rbf\ngamma 0.5\nnr_class 2\ntotal_sv 2\nrho -2.5\nSV\n1.5 1:0.25 2:0.75 \n-1.0 1:0.5 2:1 \n";
fn manager(radius: usize) -> VisqolManager<2> {
    if pick("mode", 2) == 0 {
        VisqolManager::<2>::new(Variant::Wideband { use_unscaled_mos_mapping: false }, radius)
    } else {
        file("fullband.model", MODEL.as_bytes());
        VisqolManager::<2>::new(Variant::Fullband { model_path: "fullband.model".to_string() }, radius)
    }
}
/// (reference, degraded) rates if the comparison was refused because of them
fn rates(r: &Result<SimilarityResult, Box<dyn std::error::Error>>) -> Option<(u32, u32)> {
    match r {
        Ok(_) => None,
        Err(e) => match e.downcast_ref::<VisqolError>() {
            Some(VisqolError::DifferentSampleRates { reference, degraded }) => Some((*reference, *degraded)),
            _ => None,
        },
    }
}

#[no_mangle]
pub extern "C" fn h_c22_rates() {
    let (a, b) = (i("ref_rate", 0, 0x3fff_ffff), i("deg_rate", 0, 0x3fff_ffff));
    assume(a != b);
    let c = 1 + pick("channels", 2);
    let (n, m) = (pick("frames", 3), pick("frames", 3));
    file("ref.wav", &wav(a, c, &samples(n * c)));
    file("deg.wav", &wav(b, 1, &samples(m)));
    match rates(&manager(32).run("ref.wav", "deg.wav")) {
        Some((r, d)) => {
            check(r as i64 == a, "the error names the reference's sampling rate");
            check(d as i64 == b, "the error names the degraded signal's sampling rate");
        }
        None => check(false, "files with different sampling rates are refused"),
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c22_equal() {
    const RATES: [i64; 6] = [44, 8000, 11025, 16000, 44100, 192000];
    let rate = RATES[pick("rate", 6)];
    let (n, m) = (pick("frames", 3), pick("frames", 3));
    if pick("content", 2) == 0 {
        file("ref.wav", &wav(rate, 1, &samples(n)));
        file("deg.wav", &wav(rate, 1, &samples(m)));
        unsafe { LAG = if n > 0 && m > 0 { Some([0, 1][pick("lag", 2)]) } else { None } };
    } else {
        // the real alignment
        let s = [[0, 0], [32767, -32768], [1, 1], [0, -5]];
        file("ref.wav", &wav(rate, 1, &s[pick("ref", 4)][..n]));
        file("deg.wav", &wav(rate, 1, &s[pick("deg", 4)][..m]));
    }
    let r = manager(32).run("ref.wav", "deg.wav");
    unsafe { LAG = None };
    check(rates(&r).is_none(), "files with equal sampling rates are not refused because of them");
    check(r.is_err(), "signals shorter than one window are an error");
    cover("end");
}

/// a difference in duration is no reason to refuse a comparison
#[no_mangle]
pub extern "C" fn h_c22_duration() {
    let (n, m) = ([51, 110][pick("ref_len", 2)], [40, 51, 52, 110, 170][pick("deg_len", 5)]);
    let wave = |n: usize| -> Vec<i64> { pipe::tone(n, 7).iter().map(|x| (x * 20000.0) as i64).collect() };
    file("ref.wav", &wav(50, 1, &wave(n)));
    file("deg.wav", &wav(50, 1, &wave(m)));
    unsafe { (LAG, SIM) = (Some(0), true) };
    let r = manager(1).run("ref.wav", "deg.wav");
    unsafe { (LAG, SIM) = (None, false) };
    check(rates(&r).is_none(), "files with equal sampling rates are not refused because of them");
    match r {
        Ok(s) => {
            check(s.moslqo >= 1.0 && s.moslqo <= 5.0, "the comparison gives a score");
        }
        Err(_) => check(false, "signals of different durations are compared"),
    }
    cover(if m > n { "longer" } else { "shorter" });
}

/// signals too short for the analysis are an error
#[no_mangle]
pub extern "C" fn h_c22_short() {
    let (n, m) = ([0, 1, 3, 4, 31, 32, 33, 47, 48][pick("ref_len", 9)], [0, 1, 3, 4, 50][pick("deg_len", 5)]);
    let wave = |n: usize, kind: usize| -> Vec<f64> {
        match kind {
            0 => vec![0.0; n],
            1 => vec![0.25; n],
            _ => pipe::tone(n, 3),
        }
    };
    let kind = pick("kind", 3);
    let mut r = AudioSignal::new(&wave(n, [0, 1, 2][kind]), 50);
    let mut d = AudioSignal::new(&wave(m, [0, 2, 0][kind]), 50);
    let top = n.max(m) as i64 - 1;
    let lag = [0, 1, -1, n as i64 / 2, -(n as i64) / 2, top][pick("lag", 6)];
    // an empty signal has no lag, and no lag exceeds the signals
    assume(lag.abs() <= top.max(0) && (lag >= 0 || -lag < m.max(1) as i64));
    unsafe { LAG = if n > 0 && m > 0 { Some(lag) } else { None } };
    unsafe { SIM = true };
    let wide = pick("mode", 2) == 0;
    file("fullband.model", MODEL.as_bytes());
    let v = if wide { Variant::Wideband { use_unscaled_mos_mapping: false } } else { Variant::Fullband { model_path: "fullband.model".to_string() } };
    let res = VisqolManager::<2>::new(v, 1).compute_results(&mut r, &mut d);
    unsafe { (LAG, SIM) = (None, false) };
    let need = if wide { 9 + 20 + 3 } else { 15 + 30 + 3 };
    // a longer lag than half the reference is not applied
    let aligned = if lag.abs() > n as i64 / 2 { m as i64 } else { m as i64 + lag };
    if n < need || aligned < 4 {
        check(res.is_err(), "signals too short to analyse are an error");
        cover("refused");
    } else if res.is_ok() {
        cover("result");
    }
}

/// sampling rates too low for the analysis are an error
#[no_mangle]
pub extern "C" fn h_c22_slow() {
    let rate = pick("rate", 44) as u32;
    let n = pick("len", 5);
    let x = pipe::tone(n, 5);
    unsafe { LAG = if n > 0 { Some(0) } else { None } };
    let res = manager(1).compute_results(&mut AudioSignal::new(&x, rate), &mut AudioSignal::new(&x, rate));
    unsafe { LAG = None };
    check(res.is_err(), "a sampling rate too low to analyse is an error");
    cover("end");
}
