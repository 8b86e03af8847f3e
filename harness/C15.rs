//@ bounds: fullband: patch lengths 2..=6 (thorough 2..=9, and 30) and every spectrogram length from 0 to 4 patches; wideband: patch lengths 2..=5, spectrograms of 0 to 3 patches (thorough 4), hops of 1..=2 samples, every arrangement of quiet and loud samples at three peak levels (the activity of arbitrary chunks is property C14), signals as long as the spectrogram needs
//@ assume: real arithmetic stands for f64
//@ entry: h_c15_image mode=real time=100 cover=end,refused
//@ entry: h_c15_image_all mode=real time=100 cover=end,refused
//@ entry: h_c15_vad mode=real merge=1 time=250 shards=8 ttime=800
//@ entry: h_c15_vad_short mode=real merge=1 time=100 cover=end,refused
use crate::analysis_window::AnalysisWindow;
use crate::audio_signal::AudioSignal;
use crate::image_patch_creator::ImagePatchCreator;
use crate::patch_creator::PatchCreator;
use crate::vad_patch_creator::VadPatchCreator;
use crate::visqol_error::VisqolError;
use ndarray::Array2;

fn refused(e: VisqolError, found: usize, required: usize) {
    match e {
        VisqolError::ReferenceSpectrogramTooSmall { spectrogram_length, minimum_required } => {
            check(spectrogram_length == found, "the refusal names the found length");
            check(minimum_required == required, "the refusal names the required length");
        }
        _ => check(false, "a too short reference is refused with its own error"),
    }
}

fn image(p: usize, n: usize) {
    let sig = AudioSignal::new(&[0.0; 4], 100);
    let win = AnalysisWindow { size: 4, overlap: 0.25 };
    let m = Array2::from_shape_fn((2, n), |(b, k)| (2 * k + b) as f64);
    let c = ImagePatchCreator::new(p);
    let first = p / 2;
    match c.create_ref_patch_indices(&m, &sig, &win) {
        Err(e) => {
            check(n < p + first, "only a too short reference is refused");
            refused(e, n, p + first);
            cover("refused");
        }
        Ok(idx) => {
            check(n >= p + first, "a too short reference is refused");
            // the first patch, then every further one that ends before the last frame
            let mut e = vec![first - 1];
            while e[e.len() - 1] + p + 1 + p < n {
                e.push(e[e.len() - 1] + p);
            }
            check(idx.len() == e.len(), "every patch position is used, and no other");
            for k in 0..idx.len().min(e.len()) {
                check(idx[k] == e[k], "patches start half a patch in and are one patch length apart");
            }
            patches(&c, &m, &idx, p);
            cover("end");
        }
    }
}
fn patches(c: &dyn PatchCreator, m: &Array2<f64>, idx: &[usize], p: usize) {
    for k in idx {
        check(k + p <= m.ncols(), "a patch lies inside the spectrogram");
    }
    let q = c.create_patches_from_indices(m, idx);
    check(q.len() == idx.len(), "one patch per index");
    for (x, at) in q.iter().zip(idx) {
        check(x.ncols() == p && x.nrows() == m.nrows(), "a patch has exactly the patch length");
        for b in 0..x.nrows() {
            for k in 0..x.ncols() {
                check(x[(b, k)] == (2 * (at + k) + b) as f64, "a patch holds the frames of its position");
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn h_c15_image() {
    let p = pick("patch", if thorough() { 8 } else { 5 }) + 2;
    image(p, pick("frames", 4 * p));
}
#[no_mangle]
pub extern "C" fn h_c15_image_all() {
    let p = 30;
    image(p, pick("frames", 4 * p));
}

fn vad(p: usize, hop: usize, n: usize) {
    let first = p / 2 - 1;
    // a signal that has n frames of four hops
    let len = if n == 0 { hop } else { (n + 3) * hop };
    let peak = [1.0, 0.25, 2.0][pick("peak", 3)];
    // quiet and loud samples in any arrangement; two loud samples make a chunk of two active, one does not
    let mate = hop > 1 && pick("mate", 2) == 1;
    let mut x: Vec<f64> = (0..len)
        .map(|k| if hop > 1 && (k + hop - first % hop) % hop > 0 { mate } else { i("loud", 0, 1) == 1 })
        .map(|l| if l { -0.2 } else { 0.0625 })
        .collect();
    let mut y: Vec<f64> = x.iter().map(|v| v * peak).collect();
    x[len - 1] = 1.0;
    y[len - 1] = peak;
    let win = AnalysisWindow { size: 4 * hop, overlap: 0.25 };
    let m = Array2::from_shape_fn((2, n), |(b, k)| (2 * k + b) as f64);
    let c = VadPatchCreator::new(p);
    match c.create_ref_patch_indices(&m, &AudioSignal::new(&y, 100), &win) {
        Err(e) => {
            check(n < p + first, "only a too short reference is refused");
            refused(e, n, p + first);
            cover("refused");
        }
        Ok(idx) => {
            check(n >= p + first, "a too short reference is refused");
            if n < p + first {
                return;
            }
            let idx: Vec<usize> = (0..conc(idx.len() as i64) as usize).map(|k| conc(idx[k] as i64) as usize).collect();
            let count = (n - first) / p;
            let mut active = Vec::new();
            for k in 0..count * p {
                let mut sq = 0.0;
                for j in 0..hop {
                    let q = (x[first + k * hop + j] * 32768.0) as i16 as f64;
                    sq += q * q;
                }
                active.push(sq >= 25e6 * hop as f64);
            }
            // expected patches: one per position with a voiced chunk (the first two always count)
            let mut at = 0;
            for j in 0..count {
                let mut voiced = false;
                for k in j * p..(j + 1) * p {
                    voiced |= k < 2 || active[k] || active[k - 1] || active[k - 2];
                }
                if split(voiced) {
                    check(at < idx.len() && idx[at.min(idx.len() - 1)] == first + j * p, "a patch with voice activity is used, in order");
                    at += 1;
                }
            }
            check(at == idx.len(), "a patch without voice activity is not used");
            patches(&c, &m, &idx, p);
            cover("end");
        }
    }
}

#[no_mangle]
pub extern "C" fn h_c15_vad() {
    let p = pick("patch", 4) + 2;
    let hop = pick("hop", 2) + 1;
    let n = p + p / 2 - 1 + pick("frames", if thorough() { 3 } else { 2 } * p);
    vad(p, hop, n);
}
#[no_mangle]
pub extern "C" fn h_c15_vad_short() {
    let p = pick("patch", 4) + 2;
    vad(p, 1, pick("frames", p + p / 2));
}
