//@ bounds: reference of 1..=6 and degraded of 1..=6 samples (thorough 10), arbitrary samples in [-1, 1], every lag from -12 to 12 and every sample rate from 1 to 200000; detector arguments: references of 2..=6 samples
//@ stub: the lag detector is replaced by an arbitrary lag (the detector itself is property C10)
//@ entry: h_c12_align mode=real time=150 shards=4 cover=end,cut,pad,keep
use crate::alignment::globally_align;
use crate::audio_signal::AudioSignal;

static mut LAG: i64 = 0;
static mut LEN: (usize, usize) = (0, 0);
pub fn best_lag_stub(a: &[f64], b: &[f64]) -> Option<Option<i64>> {
    unsafe {
        LEN = (a.len(), b.len());
        Some(Some(LAG))
    }
}

#[no_mangle]
pub extern "C" fn h_c12_align() {
    let m = if thorough() { 10 } else { 6 };
    let (n, k) = (pick("ref", m) + 1, pick("deg", m) + 1);
    let rate = i("rate", 1, 200000) as u32;
    let r = fs("r", n, -1.0, 1.0);
    let d = fs("d", k, -1.0, 1.0);
    let lag = conc(i("lag", -12, 12));
    // a lag the detector can report
    assume(lag.unsigned_abs() as usize <= n.max(k) - 1);
    let (rs, ds) = (AudioSignal::new(&r, rate), AudioSignal::new(&d, rate));
    // removing more samples than there are is not possible
    assume(lag >= 0 || lag.unsigned_abs() as usize > n / 2 || lag.unsigned_abs() as usize <= k);
    unsafe { LAG = lag };
    let (out, secs) = match globally_align(&rs, &ds) {
        Some(x) => x,
        None => {
            check(false, "alignment succeeds");
            return;
        }
    };
    check(unsafe { LEN } == (n, k), "the lag is detected between the two signals' envelopes");
    let expect: Vec<f64>;
    if lag == 0 || lag.unsigned_abs() as usize > n / 2 {
        expect = d.clone();
        close(secs, 0.0, 0.0, "no shift is reported");
        cover("keep");
    } else {
        if lag < 0 {
            expect = d[lag.unsigned_abs() as usize..].to_vec();
            cover("cut");
        } else {
            let mut e = vec![0.0; lag as usize];
            e.extend_from_slice(&d);
            expect = e;
            cover("pad");
        }
        close(secs * rate as f64, lag as f64, 1e-9, "the shift is reported in seconds");
    }
    check(out.len() == expect.len(), "exactly the lag's samples are removed or prepended");
    for j in 0..expect.len() {
        close(out[j], expect[j], 0.0, "every remaining sample keeps its value and order");
    }
    check(out.sample_rate == rate, "the sample rate is kept");
    check(rs.len() == n && ds.len() == k, "the inputs are not modified");
    for j in 0..n {
        close(rs[j], r[j], 0.0, "the inputs are not modified");
    }
    for j in 0..k {
        close(ds[j], d[j], 0.0, "the inputs are not modified");
    }
    cover("end");
}
