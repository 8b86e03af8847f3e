//@ use: pipe
//@ bounds: 1..=3 reference patches (thorough 4) of 2 frames, the first starting at frame 0..=2 and the next ones one patch length (or one more) apart, 1..=6 (thorough 7) degraded frames, radius 1..=2, every patch-pair similarity an arbitrary number in (0, 1]
//@ stub: the per-patch NSIM is an arbitrary function of (reference patch, degraded offset) with values in [0.001, 1] (its own definition is property C03)
//@ entry: h_c16_optimal mode=real merge=1 time=300 shards=8 cover=end,unmatched,matched ttime=800
use crate::comparison_patches_selector::ComparisonPatchesSelector;
use crate::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure;
use crate::patch_similarity_comparator::PatchSimilarityResult;
use ndarray::Array2;

const F: usize = 12;
static mut SIM: [[f64; F]; 4] = [[0.0; F]; 4];
// reference patch k carries the mark k, the degraded patch at offset s the mark s
pub fn nsim_stub(r: &Array2<f64>, d: &Array2<f64>) -> Option<PatchSimilarityResult> {
    let k = r[[0, 0]] as usize;
    let s = d[[0, 0]] as usize;
    let x = unsafe { SIM[k][s] };
    Some(PatchSimilarityResult::new(vec![x, x], vec![0.0, 0.0], vec![0.0, 0.0], x))
}

// greatest total similarity over all assignments in which only patches after the first may be
// left unmatched: best[k] for the patches k.. when every offset up to `prev` is used up
fn best_total(at: &[usize], frames: usize, w: i64) -> f64 {
    let n = at.len();
    // tail[p + 1]: best total of the patches k.. using offsets > p only
    let mut tail = vec![0.0; frames + 1];
    for k in (0..n).rev() {
        let mut t = vec![f64::MIN; frames + 1];
        for p in 0..=frames {
            let mut m = if k > 0 { tail[p] } else { -1.0 };
            let lo = (at[k] as i64 - w).max(p as i64);
            let hi = (at[k] as i64 + w).min(frames as i64 - 1);
            for s in lo..=hi {
                let x = tail[s as usize + 1] + unsafe { SIM[k][s as usize] };
                m = if m > x { m } else { x };
            }
            t[p] = m;
        }
        tail = t;
    }
    tail[0]
}

#[no_mangle]
pub extern "C" fn h_c16_optimal() {
    let n = pick("patches", if thorough() { 4 } else { 3 }) + 1;
    let gap = pick("gap", 2) + 2;
    let frames = pick("frames", if thorough() { 7 } else { 6 }) + 1;
    let radius = pick("radius", 2) + 1;
    let first = pick("first", 3);
    let mut at: Vec<usize> = (0..n).map(|k| first + gap * k).collect();
    let kept = at.iter().filter(|&&a| a <= frames + 1).count();
    assume(kept > 0);
    let w = radius as i64 * 2;
    for k in 0..n {
        for s in 0..frames {
            unsafe { SIM[k][s] = f("sim", 0.001, 1.0) };
        }
    }
    let mut patches: Vec<Array2<f64>> = (0..n).map(|k| Array2::from_elem((2, 2), k as f64)).collect();
    let spectro = Array2::from_shape_fn((2, frames), |(_, s)| s as f64);
    let sel = ComparisonPatchesSelector::new(NeurogramSimiliarityIndexMeasure::default());
    let r = match sel.find_most_optimal_deg_patches(&mut patches, &mut at, &spectro, 0.5, radius as i32) {
        Ok(r) => r,
        Err(_) => {
            check(false, "matching succeeds");
            return;
        }
    };
    check(r.len() == kept, "one result per kept patch");
    let mut total = 0.0;
    let mut last = -1i64;
    for k in 0..kept {
        let p = &r[k];
        close(p.ref_patch_start_time, at[k] as f64 * 0.5, 1e-9, "a reference patch starts at its frame's time");
        close(p.ref_patch_end_time, at[k] as f64 * 0.5 + 1.0, 1e-9, "a reference patch lasts one patch duration");
        if p.deg_patch_end_time == 0.0 {
            cover("unmatched");
            close(p.deg_patch_start_time, 0.0, 0.0, "an unmatched patch has zero times");
            close(p.similarity, 0.0, 0.0, "an unmatched patch has zero similarity");
            check(p.freq_band_means.len() == 2, "an unmatched patch keeps its bands");
            for m in &p.freq_band_means {
                close(*m, 0.0, 0.0, "an unmatched patch has zero band means");
            }
            continue;
        }
        cover("matched");
        close(p.deg_patch_end_time, p.deg_patch_start_time + 1.0, 1e-9, "a degraded patch lasts one patch duration");
        let off = p.deg_patch_start_time / 0.5;
        let s = conc(off as i64);
        close(off, s as f64, 1e-9, "a degraded patch starts on a frame");
        check(s > last, "degraded patches are in strictly increasing time order");
        last = s;
        check(s >= 0 && s < frames as i64, "a degraded patch starts inside the degraded spectrogram");
        check((s - at[k] as i64).abs() <= w, "a degraded patch lies within the search radius");
        if s >= 0 && s < frames as i64 {
            let x = unsafe { SIM[k][s as usize] };
            close(p.similarity, x, 0.0, "the reported similarity is that of the matched pair");
            close(p.freq_band_means[0], x, 0.0, "the reported band means are those of the matched pair");
            total += x;
        }
    }
    close(total, best_total(&at[..kept], frames, w), 1e-9, "no assignment has a greater total similarity");
    cover("end");
}
