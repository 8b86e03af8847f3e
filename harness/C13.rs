//@ bounds: signals of 1..=8 (thorough 12) arbitrary samples and of 64 samples, every lag the detector can report for them; sample rates: every rate from 1 to 200000 with a bound on each rounding step, and a list of common and awkward rates with exact floating-point arithmetic
//@ stub: the lag detector is replaced by an arbitrary lag (the detector itself is property C10)
//@ assume: in the entry over all rates each f64 operation is the real one with a relative error of at most 2^-53
//@ entry: h_c13_cut mode=real time=150 shards=4
//@ entry: h_c13_rates mode=fp time=150 shards=4
//@ entry: h_c13_long mode=rnd time=200 shards=4
use crate::alignment::align_and_truncate;
use crate::audio_signal::AudioSignal;

static mut LAG: i64 = 0;
pub fn best_lag_stub(_: &[f64], _: &[f64]) -> Option<Option<i64>> {
    unsafe { Some(Some(LAG)) }
}

fn run(r: &[f64], d: &[f64], lag: i64, rate: u32) {
    let n = r.len();
    unsafe { LAG = lag };
    let (a, b, _) = match align_and_truncate(&AudioSignal::new(r, rate), &AudioSignal::new(d, rate)) {
        Some(x) => x,
        None => {
            check(false, "alignment succeeds");
            return;
        }
    };
    let l = if lag.unsigned_abs() as usize > n / 2 { 0 } else { lag };
    let k = l.unsigned_abs() as usize;
    check(a.len() == n - k, "the reference segment loses exactly the lag's samples");
    check(b.len() == n - k, "both segments are equally long");
    check(a.sample_rate == rate && b.sample_rate == rate, "the sample rate is kept");
    for j in 0..a.len().min(b.len()) {
        // a positive lag removes the start of the reference, a negative one that of the degraded signal
        let (p, q) = if l > 0 { (j + k, j) } else { (j, j + k) };
        close(a[j], r[p], 0.0, "no reference sample is altered or displaced");
        close(b[j], d[q], 0.0, "no degraded sample is altered or displaced");
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c13_cut() {
    let n = pick("n", if thorough() { 12 } else { 8 }) + 1;
    let rate = i("rate", 1, 200000) as u32;
    let r = fs("r", n, -1.0, 1.0);
    let d = fs("d", n, -1.0, 1.0);
    let lag = conc(i("lag", -(n as i64 - 1), n as i64 - 1));
    run(&r, &d, lag, rate);
}

const RATES: [u32; 24] = [8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 192000, 1, 3, 7, 49, 98, 103, 107, 161, 187, 197, 12345, 99991];

#[no_mangle]
pub extern "C" fn h_c13_rates() {
    let rate = RATES[pick("rate", RATES.len())];
    let n = 100;
    let lag = pick("lag", 101) as i64 - 50;
    let r: Vec<f64> = (0..n).map(|j| (j + 1) as f64 / 128.0).collect();
    let d: Vec<f64> = (0..n).map(|j| -((j + 1) as f64) / 128.0).collect();
    run(&r, &d, lag, rate);
}

#[no_mangle]
pub extern "C" fn h_c13_long() {
    let n = 64;
    let rate = i("rate", 1, 200000) as u32;
    let r: Vec<f64> = (0..n).map(|j| (j + 1) as f64 / 64.0).collect();
    let d: Vec<f64> = (0..n).map(|j| -((j + 1) as f64) / 64.0).collect();
    let lag = pick("lag", 65) as i64 - 32;
    run(&r, &d, lag, rate);
}
