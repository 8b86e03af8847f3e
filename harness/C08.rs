//@ bounds: reference and degraded signals of 1..=3 (thorough 4) samples each, arbitrary samples in [-1, 1], one arbitrary gain in [1e-3, 1e3]; all-silent signals of up to 3 samples
//@ assume: log10 and 10^x are inverse to each other, real arithmetic stands for f64
//@ entry: h_c08_level mode=real time=100
//@ entry: h_c08_gain mode=real time=100
//@ entry: h_c08_silent mode=fp time=60
use crate::audio_signal::AudioSignal;
use crate::audio_utils::scale_to_match_sound_pressure_level;

fn energy(x: &[f64]) -> f64 {
    let mut s = 0.0;
    for v in x {
        s += v * v;
    }
    s / x.len() as f64
}

#[no_mangle]
pub extern "C" fn h_c08_level() {
    let m = if thorough() { 4 } else { 3 };
    let (n, k) = (pick("ref", m) + 1, pick("deg", m) + 1);
    let r = fs("r", n, -1.0, 1.0);
    let d = fs("d", k, -1.0, 1.0);
    assume(energy(&r) > 1e-6);
    assume(energy(&d) > 1e-6);
    let (rs, ds) = (AudioSignal::new(&r, 48000), AudioSignal::new(&d, 16000));
    let out = scale_to_match_sound_pressure_level(&rs, &ds);
    check(out.sample_rate == 16000, "the sample rate is unchanged");
    check(out.len() == k, "the sample count is unchanged");
    for i in 0..n {
        close(rs[i], r[i], 0.0, "the reference is untouched");
    }
    // one positive factor for all samples, and the levels agree
    let (rl, dl) = (energy(&r).sqrt(), energy(&d).sqrt());
    for i in 0..k {
        close(out[i] * dl, d[i] * rl, 1e-9, "every sample is multiplied by the ratio of the levels");
    }
    let mut level = 0.0;
    for i in 0..k {
        level += out[i] * out[i];
    }
    close(level / k as f64, energy(&r), 1e-9, "the scaled signal has the reference's level");
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c08_gain() {
    let m = if thorough() { 4 } else { 3 };
    let (n, k) = (pick("ref", m) + 1, pick("deg", m) + 1);
    let r = fs("r", n, -1.0, 1.0);
    let d = fs("d", k, -1.0, 1.0);
    let g = f("g", 0.001, 1000.0);
    assume(energy(&r) > 1e-6);
    assume(energy(&d) > 1e-6);
    let e: Vec<f64> = d.iter().map(|v| g * v).collect();
    let rs = AudioSignal::new(&r, 16000);
    let a = scale_to_match_sound_pressure_level(&rs, &AudioSignal::new(&d, 16000));
    let b = scale_to_match_sound_pressure_level(&rs, &AudioSignal::new(&e, 16000));
    for i in 0..k {
        close(a[i] * a[i], b[i] * b[i], 1e-9, "a gain on the degraded signal does not matter");
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c08_silent() {
    let n = pick("n", 3) + 1;
    let zero = vec![0.0; n];
    let tone: Vec<f64> = (0..n).map(|i| 0.5 - i as f64 / 4.0).collect();
    let (r, d) = match pick("case", 3) {
        0 => (zero.clone(), tone),
        1 => (tone, zero.clone()),
        _ => (zero.clone(), zero),
    };
    let out = scale_to_match_sound_pressure_level(&AudioSignal::new(&r, 16000), &AudioSignal::new(&d, 16000));
    check(out.len() == n, "the sample count is unchanged");
    for i in 0..n {
        check(out[i].is_finite(), "silence never turns into non-finite samples");
        check(out[i] == 0.0, "matching to or of silence is silent");
    }
    cover("end");
}
