//@ bounds: four model files with 1 to 3 support vectors and 1 to 9 features, and the shipped model with its 32 features; every similarity vector with entries in [0, 1]; up to two earlier predictions with other vectors
//@ assume: real arithmetic stands for f32 and f64 (the model is evaluated in f32 by the library); agreement to 1e-6
//@ entry: h_c25_value ctol=1e-5 mode=real time=100 shards=4
//@ entry: h_c25_clamp ctol=1e-5 mode=real time=100 shards=2 cover=end,low,high,inside
//@ entry: h_c25_shipped ctol=1e-4 conc=1 mode=real time=100
use crate::similarity_to_quality_mapper::SimilarityToQualityMapper;
use crate::support_vector_regression_model::SupportVectorRegressionModel;
use crate::svr_similarity_to_quality_mapper::SvrSimilarityToQualityMapper;

struct Model {
    gamma: f64,
    rho: f64,
    sv: Vec<(f64, Vec<f64>)>,
}

fn model(k: usize) -> Model {
    let v = |c: f64, x: &[f64]| (c, x.to_vec());
    match k {
        0 => Model { gamma: 0.5, rho: -3.0, sv: vec![v(1.5, &[0.25])] },
        1 => Model { gamma: 0.25, rho: 1.25, sv: vec![v(4.0, &[0.5, 0.75]), v(-2.0, &[0.125, 1.0])] },
        2 => Model { gamma: 1.0, rho: -2.5, sv: vec![v(2.0, &[0.5, 0.25, 0.0, 1.0, 0.75]), v(-1.5, &[0.0, 0.5, 0.5, 0.25, 1.0]), v(0.5, &[1.0, 1.0, 0.25, 0.5, 0.0])] },
        _ => Model { gamma: 0.125, rho: -2.0, sv: vec![v(3.0, &[0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0, 0.0625]), v(2.0, &[1.0, 0.5, 0.25, 0.125, 0.0, 0.75, 0.625, 0.375, 0.875])] },
    }
}

fn write(m: &Model, path: &str) {
    let mut t = format!("svm_type nu_svr\nkernel_type rbf\ngamma {:?}\nnr_class 2\ntotal_sv {}\nrho {:?}\nSV\n", m.gamma, m.sv.len(), m.rho);
    for (c, x) in &m.sv {
        t += &format!("{:?}", c);
        for (i, v) in x.iter().enumerate() {
            t += &format!(" {}:{:?}", i + 1, v);
        }
        t += " \n";
    }
    file(path, t.as_bytes());
}

fn value(m: &Model, x: &[f64]) -> f64 {
    let mut s = -m.rho;
    for (c, v) in &m.sv {
        let mut d = 0.0;
        for i in 0..x.len() {
            d += (v[i] - x[i]) * (v[i] - x[i]);
        }
        s += c * (-m.gamma * d).exp();
    }
    s
}

#[no_mangle]
pub extern "C" fn h_c25_value() {
    let m = model(pick("model", 4));
    let n = m.sv[0].1.len();
    write(&m, "model.txt");
    let svr = SupportVectorRegressionModel::new("model.txt");
    for _ in 0..pick("earlier", 3) {
        svr.predict(&fs("before", n, 0.0, 1.0));
    }
    let x = fs("x", n, 0.0, 1.0);
    close(svr.predict(&x), value(&m, &x), 1e-6, "the prediction is the regression value of the model");
    cover("end");
}

#[no_mangle]
pub extern "C" fn h_c25_clamp() {
    let m = model(pick("model", 4));
    let n = m.sv[0].1.len();
    write(&m, "model.txt");
    let x = fs("x", n, 0.0, 1.0);
    let q = SvrSimilarityToQualityMapper::new("model.txt").predict_quality(&x);
    let v = value(&m, &x);
    let e = if v < 1.0 { cover("low"); 1.0 } else if v > 5.0 { cover("high"); 5.0 } else { cover("inside"); v };
    close(q, e, 1e-6, "the fullband score is the regression value limited to 1 to 5");
    cover("end");
}

/// the model shipped with the repository
#[no_mangle]
pub extern "C" fn h_c25_shipped() {
    let text = include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/../model/libsvm_nu_svr_model.txt"));
    file("model.txt", text.as_bytes());
    let mut m = Model { gamma: 0.0, rho: 0.0, sv: vec![] };
    let mut body = false;
    let num = |s: &str| s.parse::<f32>().unwrap() as f64;
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if body && !w.is_empty() {
            let mut x = vec![0.0; 32];
            for p in &w[1..] {
                let (i, v) = p.split_once(':').unwrap();
                x[i.parse::<usize>().unwrap() - 1] = num(v);
            }
            m.sv.push((num(w[0]), x));
        } else if l.starts_with("gamma") {
            m.gamma = num(w[1]);
        } else if l.starts_with("rho") {
            m.rho = w[1].parse::<f64>().unwrap();
        } else if l.starts_with("SV") {
            body = true;
        }
    }
    let svr = SupportVectorRegressionModel::new("model.txt");
    let x = fs("x", 32, 0.0, 1.0);
    close(svr.predict(&x), value(&m, &x), 1e-3, "the prediction is the regression value of the shipped model");
    cover("end");
}
