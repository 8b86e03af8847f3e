//@ use: pipe
//@ bounds: all cells arbitrary in [0, 100]: formula of the band similarities and symmetry for shapes 1x1 to 3x2, 2x3 and 1x3, self-similarity for shapes up to 3x3, upper bound 1 for patches of one cell and of two bands of one cell; all results for shapes up to 3x4 over families of patch pairs whose every cell moves along a line with one arbitrary parameter
//@ assume: real arithmetic stands for f64 and a literal for the decimal number it shows; a square root is the same function on both sides
//@ entry: h_c03_formula mode=real merge=1 ideal=1 time=200 shards=4
//@ entry: h_c03_cells mode=real merge=1 ideal=1 time=300 shards=8
//@ entry: h_c03_symmetry mode=real merge=1 ideal=1 time=200 shards=4
//@ entry: h_c03_self mode=real merge=1 ideal=1 time=150 shards=2
//@ entry: h_c03_bound mode=real merge=1 ideal=1 time=150 shards=2
use crate::neurogram_similiarity_index_measure::NeurogramSimiliarityIndexMeasure;
use crate::patch_similarity_comparator::{PatchSimilarityComparator, PatchSimilarityResult};
use ndarray::Array2;

const W: [[f64; 3]; 3] = [
    [0.0113033910173052, 0.0838251475442633, 0.0113033910173052],
    [0.0838251475442633, 0.619485845753726, 0.0838251475442633],
    [0.0113033910173052, 0.0838251475442633, 0.0113033910173052],
];
fn compare(r: &Array2<f64>, d: &Array2<f64>) -> PatchSimilarityResult {
    let (mut a, mut b) = (r.clone(), d.clone());
    let s = NeurogramSimiliarityIndexMeasure::default().measure_patch_similarity(&mut a, &mut b);
    check(a.shape() == r.shape() && b.shape() == d.shape(), "the patches keep their shape");
    for (x, y) in a.iter().zip(r.iter()).chain(b.iter().zip(d.iter())) {
        close(*x, *y, 0.0, "the patches are left unchanged");
    }
    s
}
// Gaussian-weighted sum over the edge-replicated neighbourhood of g(i, j)
fn blur(rows: usize, cols: usize, i: usize, j: usize, g: impl Fn(usize, usize) -> f64) -> f64 {
    let mut s = 0.0;
    for p in 0..3 {
        for q in 0..3 {
            let a = (i + p).saturating_sub(1).min(rows - 1);
            let b = (j + q).saturating_sub(1).min(cols - 1);
            s += W[p][q] * g(a, b);
        }
    }
    s
}
fn nsim(r: &Array2<f64>, d: &Array2<f64>, i: usize, j: usize) -> f64 {
    let (n, m) = r.dim();
    let mr = blur(n, m, i, j, |a, b| r[(a, b)]);
    let md = blur(n, m, i, j, |a, b| d[(a, b)]);
    let vr = blur(n, m, i, j, |a, b| r[(a, b)] * r[(a, b)]) - mr * mr;
    let vd = blur(n, m, i, j, |a, b| d[(a, b)] * d[(a, b)]) - md * md;
    let cov = blur(n, m, i, j, |a, b| r[(a, b)] * d[(a, b)]) - mr * md;
    let v = vr * vd;
    let dev = if v < 0.0 { 0.00045 } else { v.sqrt() + 0.00045 };
    (2.0 * mr * md + 0.0001) / (mr * mr + md * md + 0.0001) * ((cov + 0.00045) / dev)
}
fn patch(name: &str, s: (usize, usize)) -> Array2<f64> {
    Array2::from_shape_vec(s, fs(name, s.0 * s.1, 0.0, 100.0)).unwrap()
}

fn small() -> (usize, usize) { [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (2, 3), (3, 2)][pick("shape", 8)] }
fn against_definition(r: &Array2<f64>, d: &Array2<f64>, deviations: bool) {
    let got = compare(r, d);
    let (n, m) = r.dim();
    check(got.freq_band_means.len() == n && got.freq_band_stddevs.len() == n && got.freq_band_deg_energy.len() == n, "one value per band");
    let mut total = 0.0;
    for i in 0..n {
        let (mut sum, mut energy) = (0.0, 0.0);
        for j in 0..m {
            sum += nsim(r, d, i, j);
            energy += d[(i, j)];
        }
        let mean = sum / m as f64;
        close(got.freq_band_means[i], mean, 1e-6, "a band's similarity is the mean of its NSIM cells");
        close(got.freq_band_deg_energy[i], energy / m as f64, 1e-9, "a band's energy is the mean of its degraded cells");
        if deviations && m > 1 {
            let mut v = 0.0;
            for j in 0..m {
                let x = nsim(r, d, i, j) - mean;
                v += x * x;
            }
            close(got.freq_band_stddevs[i], (v / (m as f64 - 1.0)).sqrt(), 1e-6, "a band's deviation is the sample deviation of its NSIM cells");
        }
        total += mean;
    }
    close(got.similarity, total / n as f64, 1e-6, "the similarity is the mean over the bands");
}
fn symmetric(r: &Array2<f64>, d: &Array2<f64>) {
    let (a, b) = (compare(r, d), compare(d, r));
    close(a.similarity, b.similarity, 1e-6, "swapping the patches keeps the similarity");
    for i in 0..r.nrows() {
        close(a.freq_band_means[i], b.freq_band_means[i], 1e-6, "swapping the patches keeps the band similarities");
    }
}

#[no_mangle]
pub extern "C" fn h_c03_formula() {
    let s = small();
    against_definition(&patch("r", s), &patch("d", s), false);
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c03_symmetry() {
    let s = small();
    symmetric(&patch("r", s), &patch("d", s));
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c03_cells() {
    let s = [(1, 4), (2, 3), (3, 2), (3, 4)][pick("shape", 4)];
    let n = s.0 * s.1;
    // every cell is base + slope * t (multiples of 1/8, t arbitrary)
    let t = f("t", 0.0, 1.0);
    let k = pick("family", if thorough() { 6 } else { 2 }) as u64;
    let line = |seed| {
        let (a, b) = (pipe::tone(n, seed), pipe::tone(n, seed + 1));
        let eighths = |x: f64| (x * 160.0).floor() / 8.0;
        Array2::from_shape_vec(s, (0..n).map(|q| 24.0 + eighths(a[q]) + eighths(b[q]) * t).collect()).unwrap()
    };
    let (r, d) = (line(10 * k + 3), line(10 * k + 7));
    against_definition(&r, &d, true);
    symmetric(&r, &d);
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c03_self() {
    let s = (pick("rows", 3) + 1, pick("cols", 3) + 1);
    let r = patch("r", s);
    let a = compare(&r, &r);
    close(a.similarity, 1.0, 1e-6, "a patch is identical to itself");
    for i in 0..s.0 {
        close(a.freq_band_means[i], 1.0, 1e-6, "a patch is identical to itself in every band");
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c03_bound() {
    let s = [(1, 1), (2, 1)][pick("shape", 2)];
    // the second cell is the first plus or minus a step
    let two = |name: &str| {
        let mut v = vec![f(name, 0.0, 100.0)];
        if s != (1, 1) {
            let h = f("step", 0.0, 100.0);
            let x = if pick("down", 2) == 0 { v[0] + h } else { v[0] - h };
            assume(x >= 0.0 && x <= 100.0);
            v.push(x);
        }
        Array2::from_shape_vec(s, v).unwrap()
    };
    let (r, d) = (two("r"), two("d"));
    let a = compare(&r, &d);
    for i in 0..s.0 {
        check(a.freq_band_means[i] <= 1.0 + 1e-6, "no band similarity exceeds 1");
    }
    cover("end");
}
