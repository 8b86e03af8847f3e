//@ bounds: every shape from 1x1 to 4x4 (quick) / 6x6 (thorough); arbitrary cells in [-100,100], arbitrary 3x3 kernel in [-2,2]
//@ assume: real arithmetic stands for f64 (equality up to 1e-9 on replay)
//@ entry: h_c04_conv mode=real time=100
//@ entry: h_c04_const mode=real time=60
use crate::convolution_2d::perform_valid_2d_conv_with_boundary;
use ndarray::Array2;

fn shape(max: usize) -> (usize, usize) {
    (pick("rows", max) + 1, pick("cols", max) + 1)
}

#[no_mangle]
pub extern "C" fn h_c04_conv() {
    let (r, c) = shape(if thorough() { 6 } else { 4 });
    let k = Array2::from_shape_vec((3, 3), fs("k", 9, -2.0, 2.0)).unwrap();
    let k0 = k.clone();
    let mut m = Array2::from_shape_vec((r, c), fs("x", r * c, -100.0, 100.0)).unwrap();
    let m0 = m.clone();
    let out = perform_valid_2d_conv_with_boundary(&k, &mut m);
    check(out.nrows() == r && out.ncols() == c, "the output has the shape of the input");
    for i in 0..r {
        for j in 0..c {
            let mut s = 0.0;
            for di in 0..3usize {
                for dj in 0..3usize {
                    // cell (i + di - 1, j + dj - 1), clamped to the matrix
                    let a = (i + di).saturating_sub(1).min(r - 1);
                    let b = (j + dj).saturating_sub(1).min(c - 1);
                    s += m0[(a, b)] * k0[(2 - di, 2 - dj)];
                }
            }
            close(out[(i, j)], s, 1e-9, "cell is the convolution of its edge-replicated neighbourhood");
            close(m[(i, j)], m0[(i, j)], 0.0, "the input matrix is unchanged");
        }
    }
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c04_const() {
    let (r, c) = shape(4);
    let v = f("v", -100.0, 100.0);
    let mut kv = fs("k", 8, -2.0, 2.0);
    let s: f64 = kv.iter().sum();
    kv.push(1.0 - s);
    let k = Array2::from_shape_vec((3, 3), kv).unwrap();
    let mut m = Array2::from_elem((r, c), v);
    let out = perform_valid_2d_conv_with_boundary(&k, &mut m);
    for x in out.iter() {
        close(*x, v, 1e-9, "a constant matrix maps to itself under a kernel summing to one");
    }
    cover("end");
}
