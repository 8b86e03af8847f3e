//! SMT-LIB emission of terms, an incremental solver session for branch feasibility and a one-shot
//! portfolio for assertions.
use crate::term::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{Signed, ToPrimitive, Zero};
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::time::{Duration, Instant};

pub fn q_smt(q: &Q) -> String {
    let n = q.numer();
    let d = q.denom();
    let body = |n: &BigInt| -> String {
        if d == &BigInt::from(1) {
            format!("{}.0", n)
        } else {
            format!("(/ {}.0 {}.0)", n, d)
        }
    };
    if n.is_negative() {
        format!("(- {})", body(&n.abs()))
    } else {
        body(n)
    }
}
fn i_smt(v: i128) -> String {
    if v < 0 {
        format!("(- {})", -v)
    } else {
        format!("{}", v)
    }
}
pub fn sort_smt(s: Sort, mode: Mode) -> String {
    match s {
        Sort::Bool => "Bool".into(),
        Sort::Int(w) => {
            if mode == Mode::Fp {
                format!("(_ BitVec {})", w)
            } else {
                "Int".into()
            }
        }
        Sort::Real => "Real".into(),
        Sort::F64 => "(_ FloatingPoint 11 53)".into(),
        Sort::F32 => "(_ FloatingPoint 8 24)".into(),
    }
}

#[derive(Debug, Clone)]
pub struct Unsupported(pub String);

pub fn nm(t: T) -> String {
    format!("t{}", t)
}

/// Definition of node t: Ok(Some(expr)) for define-fun, Ok(None) for a declared constant with side conditions.
pub fn expr(tt: &Terms, t: T) -> Result<Option<String>, Unsupported> {
    let n = tt.node(t);
    let a = |k: usize| nm(n.a[k]);
    let fp = tt.mode == Mode::Fp;
    use Op::*;
    let s = match n.op {
        Const => match n.sort {
            Sort::Bool => (if n.k != 0 { "true" } else { "false" }).to_string(),
            Sort::Int(w) => {
                if fp {
                    format!("(_ bv{} {})", uns(n.k as i128, w), w)
                } else {
                    i_smt(n.k as i128)
                }
            }
            Sort::Real => q_smt(&tt.rats[n.k as usize]),
            Sort::F64 => {
                let b = n.k as u64;
                if f64::from_bits(b).is_nan() {
                    "(_ NaN 11 53)".into()
                } else {
                    format!("(fp #b{:01b} #b{:011b} #b{:052b})", b >> 63, (b >> 52) & 0x7ff, b & ((1 << 52) - 1))
                }
            }
            Sort::F32 => {
                let b = n.k as u32;
                if f32::from_bits(b).is_nan() {
                    "(_ NaN 8 24)".into()
                } else {
                    format!("(fp #b{:01b} #b{:08b} #b{:023b})", b >> 31, (b >> 23) & 0xff, b & ((1 << 23) - 1))
                }
            }
        },
        Var => return Ok(None),
        Not => format!("(not {})", a(0)),
        And => format!("(and {} {})", a(0), a(1)),
        Or => format!("(or {} {})", a(0), a(1)),
        Xor => format!("(xor {} {})", a(0), a(1)),
        Ite => format!("(ite {} {} {})", a(0), a(1), a(2)),
        _ if fp => return fp_expr(tt, n).map(Some),
        Add | Sub | Mul => {
            let Sort::Int(w) = n.sort else { panic!() };
            let o = match n.op { Add => "+", Sub => "-", _ => "*" };
            let e = format!("({} {} {})", o, a(0), a(1));
            wrap(tt, n, e, w)
        }
        UDiv | URem => {
            let (l, _) = tt.ivi(n.a[0]);
            let (c, _) = tt.ivi(n.a[1]);
            if l < 0 || c <= 0 {
                return Err(Unsupported(format!("{:?} on possibly negative/zero operands", n.op)));
            }
            format!("({} {} {})", if n.op == UDiv { "div" } else { "mod" }, a(0), a(1))
        }
        SDiv | SRem => {
            let (c, _) = tt.ivi(n.a[1]);
            if c <= 0 {
                return Err(Unsupported("signed division by possibly non-positive".into()));
            }
            if n.op == SDiv {
                format!("(ite (>= {0} 0) (div {0} {1}) (- (div (- {0}) {1})))", a(0), a(1))
            } else {
                format!("(ite (>= {0} 0) (mod {0} {1}) (- (mod (- {0}) {1})))", a(0), a(1))
            }
        }
        Shl => {
            let Sort::Int(w) = n.sort else { panic!() };
            match tt.as_int(n.a[1]) {
                Some(s) if s < 63 && s >= 0 => {
                    let e = format!("(* {} {})", a(0), 1i128 << s);
                    let (l, h) = tt.ivi(n.a[0]);
                    if l << s >= smin(w) && h << s <= smax(w) { e } else { wrap_expr(&e, w) }
                }
                _ => return Err(Unsupported("shift by a symbolic amount".into())),
            }
        }
        LShr | AShr => {
            let Sort::Int(w) = n.sort else { panic!() };
            match tt.as_int(n.a[1]) {
                Some(s) if s < 63 && s >= 0 => {
                    let (l, _) = tt.ivi(n.a[0]);
                    if l >= 0 || n.op == AShr {
                        format!("(div {} {})", a(0), 1i128 << s)
                    } else {
                        format!("(div (ite (< {0} 0) (+ {0} {1}) {0}) {2})", a(0), 1i128 << w, 1i128 << s)
                    }
                }
                _ => return Err(Unsupported("shift by a symbolic amount".into())),
            }
        }
        BAnd => {
            // mask of low bits
            match tt.as_int(n.a[1]) {
                Some(m) if m > 0 && (m & (m + 1)) == 0 => format!("(mod {} {})", a(0), m + 1),
                Some(m) if m < 0 && ((-m) & (-m - 1)) == 0 => {
                    // clear low bits
                    format!("(* (div {0} {1}) {1})", a(0), -m)
                }
                _ => return Err(Unsupported("bitwise and in integer arithmetic".into())),
            }
        }
        BXor => match tt.as_int(n.a[1]) {
            Some(-1) => format!("(- (- 1) {})", a(0)),
            _ => return Err(Unsupported("bitwise xor in integer arithmetic".into())),
        },
        BOr => {
            // disjoint: low part below the trailing zeros of the other
            let tz = |t: T| -> u32 {
                let m = tt.node(t);
                match m.op {
                    Shl => tt.as_int(m.a[1]).map(|s| s as u32).unwrap_or(0),
                    Const => (m.k as u64).trailing_zeros(),
                    _ => 0,
                }
            };
            let ok = |x: T, y: T| {
                let z = tz(x);
                let (l, h) = tt.ivi(y);
                z > 0 && z < 64 && l >= 0 && h < (1i128 << z)
            };
            if ok(n.a[0], n.a[1]) || ok(n.a[1], n.a[0]) {
                format!("(+ {} {})", a(0), a(1))
            } else {
                return Err(Unsupported("bitwise or in integer arithmetic".into()));
            }
        }
        Trunc => {
            let Sort::Int(w) = n.sort else { panic!() };
            let (l, h) = tt.ivi(n.a[0]);
            if l >= smin(w) && h <= smax(w) { a(0) } else { wrap_expr(&a(0), w) }
        }
        ZExt => {
            let sw = tt.width(n.a[0]);
            let (l, _) = tt.ivi(n.a[0]);
            if l >= 0 { a(0) } else { format!("(ite (< {0} 0) (+ {0} {1}) {0})", a(0), 1i128 << sw) }
        }
        SExt => a(0),
        Eq => format!("(= {} {})", a(0), a(1)),
        Slt => format!("(< {} {})", a(0), a(1)),
        Sle => format!("(<= {} {})", a(0), a(1)),
        Ult | Ule => {
            let w = tt.width(n.a[0]);
            let u = |k: usize| {
                if tt.ivi(n.a[k]).0 >= 0 { a(k) } else { format!("(ite (< {0} 0) (+ {0} {1}) {0})", a(k), 1i128 << w) }
            };
            format!("({} {} {})", if n.op == Ult { "<" } else { "<=" }, u(0), u(1))
        }
        FAdd => format!("(+ {} {})", a(0), a(1)),
        FSub => format!("(- {} {})", a(0), a(1)),
        FMul => format!("(* {} {})", a(0), a(1)),
        FNeg => format!("(- {})", a(0)),
        FAbs => format!("(ite (>= {0} 0.0) {0} (- {0}))", a(0)),
        FMin => format!("(ite (<= {0} {1}) {0} {1})", a(0), a(1)),
        FMax => format!("(ite (>= {0} {1}) {0} {1})", a(0), a(1)),
        FFma => format!("(+ (* {} {}) {})", a(0), a(1), a(2)),
        FFloor => format!("(to_real (to_int {}))", a(0)),
        FCeil => format!("(- (to_real (to_int (- {}))))", a(0)),
        FTrunc => format!("(ite (>= {0} 0.0) (to_real (to_int {0})) (- (to_real (to_int (- {0})))))", a(0)),
        FRound => format!("(ite (>= {0} 0.0) (to_real (to_int (+ {0} 0.5))) (- (to_real (to_int (+ (- {0}) 0.5)))))", a(0)),
        FRint => return Err(Unsupported("rint".into())),
        FEq => format!("(= {} {})", a(0), a(1)),
        FLt => format!("(< {} {})", a(0), a(1)),
        FLe => format!("(<= {} {})", a(0), a(1)),
        FUno => "false".into(),
        FromS => format!("(to_real {})", a(0)),
        FromU => {
            let w = tt.width(n.a[0]);
            if tt.ivi(n.a[0]).0 >= 0 {
                format!("(to_real {})", a(0))
            } else {
                format!("(to_real (ite (< {0} 0) (+ {0} {1}) {0}))", a(0), 1i128 << w)
            }
        }
        ToS | ToU => {
            if let Iv::R(l, _) = tt.iv[n.a[0] as usize] {
                if l >= 0.0 {
                    return Ok(Some(format!("(to_int {})", a(0))));
                }
            }
            format!("(ite (>= {0} 0.0) (to_int {0}) (- (to_int (- {0}))))", a(0))
        }
        FSqrt | FDiv | Uf | RndErr => return Ok(None),
        FCvt => a(0),
        FInf | BitsOf | BitsKey | FromBits => return Err(Unsupported(format!("{:?} (float bit pattern of {:?} {:?})", n.op, tt.node(n.a[0]).op, tt.as_int(n.a[0])))),
    };
    Ok(Some(s))
}

fn wrap_expr(e: &str, w: u16) -> String {
    let h = 1i128 << (w - 1);
    let m = 1i128 << w;
    format!("(- (mod (+ {} {}) {}) {})", e, h, m, h)
}
fn wrap(tt: &Terms, n: &Node, e: String, w: u16) -> String {
    let (a, b) = tt.ivi(n.a[0]);
    let (c, d) = tt.ivi(n.a[1]);
    let (l, h) = match n.op {
        Op::Add => (a + c, b + d),
        Op::Sub => (a - d, b - c),
        _ => {
            let v = [a.checked_mul(c), a.checked_mul(d), b.checked_mul(c), b.checked_mul(d)];
            if v.iter().any(|x| x.is_none()) {
                (i128::MIN, i128::MAX)
            } else {
                let v: Vec<i128> = v.iter().map(|x| x.unwrap()).collect();
                (*v.iter().min().unwrap(), *v.iter().max().unwrap())
            }
        }
    };
    if l >= smin(w) && h <= smax(w) {
        e
    } else {
        wrap_expr(&e, w)
    }
}

fn fp_expr(tt: &Terms, n: &Node) -> Result<String, Unsupported> {
    use Op::*;
    let a = |k: usize| nm(n.a[k]);
    let w = |k: usize| tt.width(n.a[k]);
    let nw = if let Sort::Int(w) = n.sort { w } else { 0 };
    let eb = |s: Sort| if s == Sort::F32 { "8 24" } else { "11 53" };
    Ok(match n.op {
        Add => format!("(bvadd {} {})", a(0), a(1)),
        Sub => format!("(bvsub {} {})", a(0), a(1)),
        Mul => format!("(bvmul {} {})", a(0), a(1)),
        UDiv => format!("(bvudiv {} {})", a(0), a(1)),
        SDiv => format!("(bvsdiv {} {})", a(0), a(1)),
        URem => format!("(bvurem {} {})", a(0), a(1)),
        SRem => format!("(bvsrem {} {})", a(0), a(1)),
        Shl => format!("(bvshl {} {})", a(0), a(1)),
        LShr => format!("(bvlshr {} {})", a(0), a(1)),
        AShr => format!("(bvashr {} {})", a(0), a(1)),
        BAnd => format!("(bvand {} {})", a(0), a(1)),
        BOr => format!("(bvor {} {})", a(0), a(1)),
        BXor => format!("(bvxor {} {})", a(0), a(1)),
        Trunc => format!("((_ extract {} 0) {})", nw - 1, a(0)),
        ZExt => format!("((_ zero_extend {}) {})", nw - w(0), a(0)),
        SExt => format!("((_ sign_extend {}) {})", nw - w(0), a(0)),
        Eq => format!("(= {} {})", a(0), a(1)),
        Ult => format!("(bvult {} {})", a(0), a(1)),
        Ule => format!("(bvule {} {})", a(0), a(1)),
        Slt => format!("(bvslt {} {})", a(0), a(1)),
        Sle => format!("(bvsle {} {})", a(0), a(1)),
        FAdd => format!("(fp.add RNE {} {})", a(0), a(1)),
        FSub => format!("(fp.sub RNE {} {})", a(0), a(1)),
        FMul => format!("(fp.mul RNE {} {})", a(0), a(1)),
        FDiv => format!("(fp.div RNE {} {})", a(0), a(1)),
        FNeg => format!("(fp.neg {})", a(0)),
        FAbs => format!("(fp.abs {})", a(0)),
        FSqrt => format!("(fp.sqrt RNE {})", a(0)),
        FMin => format!("(fp.min {} {})", a(0), a(1)),
        FMax => format!("(fp.max {} {})", a(0), a(1)),
        FFma => format!("(fp.fma RNE {} {} {})", a(0), a(1), a(2)),
        FFloor => format!("(fp.roundToIntegral RTN {})", a(0)),
        FCeil => format!("(fp.roundToIntegral RTP {})", a(0)),
        FTrunc => format!("(fp.roundToIntegral RTZ {})", a(0)),
        FRound => format!("(fp.roundToIntegral RNA {})", a(0)),
        FRint => format!("(fp.roundToIntegral RNE {})", a(0)),
        FEq => format!("(fp.eq {} {})", a(0), a(1)),
        FLt => format!("(fp.lt {} {})", a(0), a(1)),
        FLe => format!("(fp.leq {} {})", a(0), a(1)),
        FUno => format!("(or (fp.isNaN {}) (fp.isNaN {}))", a(0), a(1)),
        FromS => format!("((_ to_fp {}) RNE {})", eb(n.sort), a(0)),
        FromU => format!("((_ to_fp_unsigned {}) RNE {})", eb(n.sort), a(0)),
        ToS => format!("((_ fp.to_sbv {}) RTZ {})", nw, a(0)),
        ToU => format!("((_ fp.to_ubv {}) RTZ {})", nw, a(0)),
        FCvt => format!("((_ to_fp {}) RNE {})", eb(n.sort), a(0)),
        FromBits => format!("((_ to_fp {}) {})", eb(n.sort), a(0)),
        _ => return Err(Unsupported(format!("{:?} in the floating-point theory", n.op))),
    })
}

/// Side conditions of a declared node. `active` = declared nodes already asserted (for pairwise axioms).
pub fn side(tt: &Terms, t: T, active: &[T]) -> Vec<String> {
    let n = tt.node(t);
    let a = |k: usize| nm(n.a[k]);
    let me = nm(t);
    let mut v = vec![];
    match n.op {
        Op::Var => {
            let info = &tt.vars[n.k as usize];
            match n.sort {
                Sort::Real => {
                    if let Some(l) = &info.lo {
                        v.push(format!("(>= {} {})", me, q_smt(l)));
                    }
                    if let Some(h) = &info.hi {
                        v.push(format!("(<= {} {})", me, q_smt(h)));
                    }
                }
                Sort::Int(w) => {
                    let (l, h) = tt.ivi(t);
                    if tt.mode == Mode::Fp {
                        if (l, h) != (smin(w), smax(w)) {
                            v.push(format!("(bvsle (_ bv{} {}) {})", uns(l, w), w, me));
                            v.push(format!("(bvsle {} (_ bv{} {}))", me, uns(h, w), w));
                        }
                    } else {
                        v.push(format!("(>= {} {})", me, i_smt(l)));
                        v.push(format!("(<= {} {})", me, i_smt(h)));
                    }
                }
                Sort::F64 => {
                    v.push(format!("(not (fp.isNaN {0}))", me));
                    v.push(format!("(not (fp.isInfinite {0}))", me));
                    let lit = |q: &Q| {
                        let b = q_to_f64(q).to_bits();
                        format!("(fp #b{:01b} #b{:011b} #b{:052b})", b >> 63, (b >> 52) & 0x7ff, b & ((1 << 52) - 1))
                    };
                    if let Some(l) = &info.lo {
                        v.push(format!("(fp.leq {} {})", lit(l), me));
                    }
                    if let Some(h) = &info.hi {
                        v.push(format!("(fp.leq {} {})", me, lit(h)));
                    }
                }
                _ => {}
            }
        }
        Op::FSqrt if n.sort == Sort::Real => {
            v.push(format!("(>= {} 0.0)", me));
            v.push(format!("(= (* {0} {0}) {1})", me, a(0)));
        }
        Op::FDiv if n.sort == Sort::Real => {
            v.push(format!("(= (* {} {}) {})", me, a(1), a(0)));
            let (l, h) = tt.ivr(t);
            if l.is_finite() {
                v.push(format!("(>= {} {})", me, q_smt(&q_of_f64(l).unwrap())));
            }
            if h.is_finite() {
                v.push(format!("(<= {} {})", me, q_smt(&q_of_f64(h).unwrap())));
            }
        }
        Op::RndErr => {
            // |r - e| <= u |e| + eta, and rounding is monotone w.r.t. zero and integers are kept by the interval
            let u = "(/ 1.0 9007199254740992.0)";
            let ea = format!("(ite (>= {0} 0.0) {0} (- {0}))", a(0));
            v.push(format!("(<= (- {} {}) (* {} {}))", me, a(0), u, ea));
            v.push(format!("(<= (- {} {}) (* {} {}))", a(0), me, u, ea));
        }
        Op::Uf => {
            let (l, h) = tt.ivr(t);
            if l.is_finite() {
                v.push(format!("(>= {} {})", me, q_smt(&q_of_f64(l).unwrap())));
            }
            if h.is_finite() {
                v.push(format!("(<= {} {})", me, q_smt(&q_of_f64(h).unwrap())));
            }
            let name = tt.ufs[n.k as usize].as_str();
            match name {
                "exp" | "exp10" | "exp2" => {
                    v.push(format!("(> {} 0.0)", me));
                    v.push(format!("(= (>= {} 1.0) (>= {} 0.0))", me, a(0)));
                    v.push(format!("(= (> {} 1.0) (> {} 0.0))", me, a(0)));
                }
                "log10" | "ln" | "log2" => {
                    v.push(format!("(= (>= {} 0.0) (>= {} 1.0))", me, a(0)));
                    v.push(format!("(= (> {} 0.0) (> {} 1.0))", me, a(0)));
                    for &(x, y) in ANCHORS {
                        let f = match name {
                            "log10" => f64::log10,
                            "ln" => f64::ln,
                            _ => f64::log2,
                        };
                        let _ = y;
                        let q = q_of_f64(x).unwrap();
                        let fy = f(x);
                        let lo = q_of_f64(fy - fy.abs() * 1e-15).unwrap();
                        let hi = q_of_f64(fy + fy.abs() * 1e-15).unwrap();
                        v.push(format!("(=> (<= {} {}) (<= {} {}))", a(0), q_smt(&q), me, q_smt(&hi)));
                        v.push(format!("(=> (>= {} {}) (>= {} {}))", a(0), q_smt(&q), me, q_smt(&lo)));
                    }
                }
                "sin" | "cos" => {}
                _ => {}
            }
            for &o in active {
                let m = tt.node(o);
                if m.op != Op::Uf || o == t {
                    continue;
                }
                let oname = tt.ufs[m.k as usize].as_str();
                if n.n == 1 && m.n == 1 {
                    if name == oname && matches!(name, "exp" | "exp10" | "exp2" | "ln" | "log10" | "log2") {
                        v.push(format!("(= (< {} {}) (< {} {}))", me, nm(o), a(0), nm(m.a[0])));
                        v.push(format!("(= (= {} {}) (= {} {}))", me, nm(o), a(0), nm(m.a[0])));
                    } else if matches!((name, oname), ("exp", "ln") | ("exp2", "log2") | ("exp10", "log10")) {
                        v.push(format!("(= (< {} {}) (< {} {}))", me, nm(m.a[0]), a(0), nm(o)));
                    } else if matches!((oname, name), ("exp", "ln") | ("exp2", "log2") | ("exp10", "log10")) {
                        v.push(format!("(= (< {} {}) (< {} {}))", nm(o), a(0), nm(m.a[0]), me));
                    } else if name == oname {
                        v.push(format!("(=> (= {} {}) (= {} {}))", a(0), nm(m.a[0]), me, nm(o)));
                    } else if (name == "sin" && oname == "cos" || name == "cos" && oname == "sin") && n.a[0] == m.a[0] {
                        v.push(format!("(= (+ (* {0} {0}) (* {1} {1})) 1.0)", me, nm(o)));
                    }
                } else if n.n == 2 && m.n == 2 && name == oname {
                    v.push(format!(
                        "(=> (and (= {} {}) (= {} {})) (= {} {}))",
                        a(0), nm(m.a[0]), a(1), nm(m.a[1]), me, nm(o)
                    ));
                }
            }
        }
        _ => {}
    }
    v
}
const ANCHORS: &[(f64, f64)] = &[(1e-6, 0.0), (0.001, 0.0), (0.1, 0.0), (0.5, 0.0), (2.0, 0.0), (10.0, 0.0), (1000.0, 0.0)];

/// all nodes below the given roots, children first
pub fn cone(tt: &Terms, roots: &[T]) -> Vec<T> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut st: Vec<(T, bool)> = roots.iter().rev().map(|&r| (r, false)).collect();
    while let Some((t, done)) = st.pop() {
        if done {
            out.push(t);
            continue;
        }
        if !seen.insert(t) {
            continue;
        }
        st.push((t, true));
        let n = tt.node(t);
        for k in 0..n.n as usize {
            if !seen.contains(&n.a[k]) {
                st.push((n.a[k], false));
            }
        }
    }
    out
}
pub fn is_declared(n: &Node) -> bool {
    match n.op {
        Op::Var => true,
        Op::FSqrt | Op::FDiv => n.sort == Sort::Real,
        Op::Uf | Op::RndErr => true,
        _ => false,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub type Model = HashMap<String, Q>;

/// Incremental solver process.
pub struct Session {
    child: Child,
    inp: ChildStdin,
    rx: std::sync::mpsc::Receiver<String>,
    defined: HashSet<T>,
    stack: Vec<(T, Vec<T>)>,
    active: Vec<T>,
    activeset: HashSet<T>,
    pub queries: u64,
    pub unknowns: u64,
    pub time: f64,
    timeout_ms: u64,
    pub errors: Vec<String>,
}

impl Session {
    pub fn new(mode: Mode, timeout_ms: u64) -> Session {
        let mut child = Command::new("z3-new")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3-new");
        let inp = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(out);
            let mut l = String::new();
            while let Ok(n) = r.read_line(&mut l) {
                if n == 0 {
                    break;
                }
                if tx.send(std::mem::take(&mut l)).is_err() {
                    break;
                }
            }
        });
        let mut s = Session {
            child,
            inp,
            rx,
            defined: HashSet::new(),
            stack: vec![],
            active: vec![],
            activeset: HashSet::new(),
            queries: 0,
            unknowns: 0,
            time: 0.0,
            timeout_ms,
            errors: vec![],
        };
        let _ = mode;
        s.send("(set-option :global-declarations true)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n");
        s.send(&format!("(set-option :timeout {})\n", timeout_ms));
        s
    }
    fn send(&mut self, c: &str) {
        let _ = self.inp.write_all(c.as_bytes());
    }
    fn read_line(&mut self, ms: u64) -> Option<String> {
        self.rx.recv_timeout(Duration::from_millis(ms)).ok()
    }
    fn define(&mut self, tt: &Terms, root: T) -> Result<(), Unsupported> {
        // children first, skipping what is defined
        let mut st = vec![(root, false)];
        let mut buf = String::new();
        while let Some((t, done)) = st.pop() {
            if done {
                if self.defined.contains(&t) {
                    continue;
                }
                let n = tt.node(t);
                let so = sort_smt(n.sort, tt.mode);
                match expr(tt, t)? {
                    Some(e) => buf.push_str(&format!("(define-fun {} () {} {})\n", nm(t), so, e)),
                    None => buf.push_str(&format!("(declare-const {} {})\n", nm(t), so)),
                }
                self.defined.insert(t);
                continue;
            }
            if self.defined.contains(&t) {
                continue;
            }
            st.push((t, true));
            let n = tt.node(t);
            for k in 0..n.n as usize {
                st.push((n.a[k], false));
            }
        }
        self.send(&buf);
        Ok(())
    }
    pub fn push(&mut self, tt: &Terms, c: T) -> Result<(), Unsupported> {
        self.define(tt, c)?;
        let mut added = vec![];
        let mut buf = String::from("(push)\n");
        for t in cone(tt, &[c]) {
            if is_declared(tt.node(t)) && !self.activeset.contains(&t) {
                for s in side(tt, t, &self.active) {
                    buf.push_str(&format!("(assert {})\n", s));
                }
                self.activeset.insert(t);
                self.active.push(t);
                added.push(t);
            }
        }
        buf.push_str(&format!("(assert {})\n", nm(c)));
        self.send(&buf);
        self.stack.push((c, added));
        Ok(())
    }
    pub fn pop(&mut self) {
        if let Some((_, added)) = self.stack.pop() {
            for t in &added {
                self.activeset.remove(t);
            }
            let n = self.active.len() - added.len();
            self.active.truncate(n);
            self.send("(pop)\n");
        }
    }
    /// make the asserted stack equal to pc
    pub fn sync(&mut self, tt: &Terms, pc: &[T]) -> Result<(), Unsupported> {
        let mut k = 0;
        while k < pc.len() && k < self.stack.len() && self.stack[k].0 == pc[k] {
            k += 1;
        }
        while self.stack.len() > k {
            self.pop();
        }
        for &c in &pc[k..] {
            self.push(tt, c)?;
        }
        Ok(())
    }
    pub fn check(&mut self) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        self.send("(check-sat)\n");
        let r = loop {
            match self.read_line(self.timeout_ms * 3 + 5000) {
                Some(l) => {
                    let l = l.trim();
                    match l {
                        "sat" => break Res::Sat,
                        "unsat" => break Res::Unsat,
                        "unknown" | "timeout" => break Res::Unknown,
                        "" => continue,
                        _ => {
                            if l.contains("error") && self.errors.len() < 20 {
                                self.errors.push(l.to_string());
                            }
                            continue;
                        }
                    }
                }
                None => {
                    self.errors.push("incremental solver did not answer".into());
                    break Res::Unknown;
                }
            }
        };
        if r == Res::Unknown {
            self.unknowns += 1;
        }
        self.time += t0.elapsed().as_secs_f64();
        if !self.errors.is_empty() {
            return Res::Unknown;
        }
        r
    }
    pub fn value(&mut self, tt: &Terms, t: T) -> Option<Q> {
        if self.define(tt, t).is_err() {
            return None;
        }
        self.send(&format!("(get-value ({}))\n", nm(t)));
        let mut s = String::new();
        let mut d = 0i32;
        loop {
            let l = self.read_line(20000)?;
            for c in l.chars() {
                if c == '(' {
                    d += 1
                } else if c == ')' {
                    d -= 1
                }
            }
            s.push_str(&l);
            if d <= 0 && !s.trim().is_empty() {
                break;
            }
        }
        let (e, _) = parse_sexp(&s)?;
        if let Sx::L(v) = e {
            if let Some(Sx::L(w)) = v.get(0) {
                return sx_val(&w[1]);
            }
        }
        None
    }
}
impl Drop for Session {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Debug, Clone)]
pub enum Sx {
    A(String),
    L(Vec<Sx>),
}
pub fn parse_sexp(s: &str) -> Option<(Sx, usize)> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut stack: Vec<Vec<Sx>> = vec![];
    loop {
        while i < b.len() && b[i].is_ascii_whitespace() {
            i += 1;
        }
        if i >= b.len() {
            return None;
        }
        match b[i] {
            b'(' => {
                stack.push(vec![]);
                i += 1;
            }
            b')' => {
                let l = stack.pop()?;
                i += 1;
                match stack.last_mut() {
                    Some(p) => p.push(Sx::L(l)),
                    None => return Some((Sx::L(l), i)),
                }
            }
            b'"' => {
                let st = i;
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += 1;
                }
                i += 1;
                let a = Sx::A(s[st..i].to_string());
                match stack.last_mut() {
                    Some(p) => p.push(a),
                    None => return Some((a, i)),
                }
            }
            _ => {
                let st = i;
                while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'(' && b[i] != b')' {
                    i += 1;
                }
                let a = Sx::A(s[st..i].to_string());
                match stack.last_mut() {
                    Some(p) => p.push(a),
                    None => return Some((a, i)),
                }
            }
        }
    }
}
fn dec(s: &str) -> Option<Q> {
    let s = s.trim_end_matches('?');
    if let Some(h) = s.strip_prefix("#x") {
        return Some(Q::from_integer(BigInt::parse_bytes(h.as_bytes(), 16)?));
    }
    if let Some(h) = s.strip_prefix("#b") {
        return Some(Q::from_integer(BigInt::parse_bytes(h.as_bytes(), 2)?));
    }
    if s == "true" {
        return Some(Q::from_integer(1.into()));
    }
    if s == "false" {
        return Some(Q::zero());
    }
    match s.find('.') {
        None => Some(Q::from_integer(s.parse().ok()?)),
        Some(k) => {
            let ip = &s[..k];
            let fp = &s[k + 1..];
            let n: BigInt = format!("{}{}", ip, fp).parse().ok()?;
            Some(BigRational::new(n, BigInt::from(10).pow(fp.len() as u32)))
        }
    }
}
/// numeric value; floats are returned exactly, NaN/inf as None
pub fn sx_val(s: &Sx) -> Option<Q> {
    match s {
        Sx::A(a) => dec(a),
        Sx::L(v) => {
            let h = match v.get(0)? {
                Sx::A(a) => a.as_str(),
                _ => return None,
            };
            match h {
                "-" if v.len() == 2 => Some(-sx_val(&v[1])?),
                "-" => Some(sx_val(&v[1])? - sx_val(&v[2])?),
                "+" => Some(sx_val(&v[1])? + sx_val(&v[2])?),
                "*" => Some(sx_val(&v[1])? * sx_val(&v[2])?),
                "/" => {
                    let d = sx_val(&v[2])?;
                    if d.is_zero() { None } else { Some(sx_val(&v[1])? / d) }
                }
                "to_real" => sx_val(&v[1]),
                "fp" => {
                    let s = sx_val(&v[1])?.to_integer().to_u64()?;
                    let e = sx_val(&v[2])?.to_integer().to_u64()?;
                    let m = sx_val(&v[3])?.to_integer().to_u64()?;
                    let big = matches!(&v[2], Sx::A(a) if a.len() > 10);
                    if big {
                        q_of_f64(f64::from_bits(s << 63 | e << 52 | m))
                    } else {
                        q_of_f64(f32::from_bits((s << 31 | e << 23 | m) as u32) as f64)
                    }
                }
                "_" => match v.get(1)? {
                    Sx::A(a) if a == "+zero" || a == "-zero" => Some(Q::zero()),
                    Sx::A(a) if a.starts_with("bv") => dec(&a[2..]),
                    _ => None,
                },
                _ => None,
            }
        }
    }
}

/// full SMT-LIB script for a conjunction
pub fn script(tt: &Terms, conj: &[T], logic: Option<&str>, get: &[T]) -> Result<String, Unsupported> {
    let mut s = String::new();
    if let Some(l) = logic {
        s.push_str(&format!("(set-logic {})\n", l));
    }
    let mut roots = conj.to_vec();
    roots.extend_from_slice(get);
    let c = cone(tt, &roots);
    let mut active: Vec<T> = vec![];
    let mut asserts = String::new();
    for &t in &c {
        let n = tt.node(t);
        let so = sort_smt(n.sort, tt.mode);
        match expr(tt, t)? {
            Some(e) => s.push_str(&format!("(define-fun {} () {} {})\n", nm(t), so, e)),
            None => s.push_str(&format!("(declare-const {} {})\n", nm(t), so)),
        }
        if is_declared(n) {
            for x in side(tt, t, &active) {
                asserts.push_str(&format!("(assert {})\n", x));
            }
            active.push(t);
        }
    }
    s.push_str(&asserts);
    for &t in conj {
        s.push_str(&format!("(assert {})\n", nm(t)));
    }
    s.push_str("(check-sat)\n");
    Ok(s)
}

pub struct OneShot {
    pub res: Res,
    pub model: HashMap<T, Q>,
    pub solver: String,
    pub time: f64,
    pub note: String,
}

/// Run the portfolio on a conjunction; values of `get` are returned on sat.
pub fn solve(tt: &Terms, conj: &[T], get: &[T], timeout_s: f64, extra: &str) -> Result<OneShot, Unsupported> {
    let mut body = script(tt, conj, None, get)?;
    if !extra.is_empty() {
        body = body.replace("(check-sat)\n", &format!("{}\n(check-sat)\n", extra));
    }
    let getv = if get.is_empty() {
        String::new()
    } else {
        format!("(get-value ({}))\n", get.iter().map(|&t| nm(t)).collect::<Vec<_>>().join(" "))
    };
    let pre_z3 = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n";
    let z3s = format!("{}{}{}", pre_z3, body, getv);
    let cv = format!("(set-option :produce-models true)\n(set-logic ALL)\n{}{}", body, getv);
    let ms = (timeout_s * 1000.0) as u64;
    let t0 = Instant::now();
    if let Ok(d) = std::env::var("LLSYM_DUMP") {
        let h = t0.elapsed().as_nanos() as usize ^ body.len() ^ (conj.len() << 20);
        let _ = std::fs::write(format!("{}/q{}.smt2", d, h), &body);
    }
    let mut cmds: Vec<(&str, Vec<String>, String)> = vec![("z3-new", vec!["-in".into(), "-smt2".into(), format!("-t:{}", ms)], z3s.clone())];
    if timeout_s > 1.0 {
        cmds.push(("cvc5", vec!["--lang=smt2".into(), format!("--tlimit={}", ms)], cv));
        cmds.push(("z3", vec!["-in".into(), "-smt2".into(), format!("-t:{}", ms)], z3s));
    }
    run_portfolio(cmds, get, timeout_s, t0)
}

fn run_portfolio(cmds: Vec<(&str, Vec<String>, String)>, get: &[T], timeout_s: f64, t0: Instant) -> Result<OneShot, Unsupported> {
    let (tx, rx) = std::sync::mpsc::channel::<(usize, String)>();
    let mut kids = vec![];
    for (i, (bin, args, input)) in cmds.iter().enumerate() {
        let ch = Command::new(bin).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
        let mut ch = match ch {
            Ok(c) => c,
            Err(_) => continue,
        };
        let mut si = ch.stdin.take().unwrap();
        let mut so = ch.stdout.take().unwrap();
        let input = input.clone();
        let tx = tx.clone();
        std::thread::spawn(move || {
            let _ = si.write_all(input.as_bytes());
        });
        std::thread::spawn(move || {
            let mut s = String::new();
            use std::io::Read;
            let _ = so.read_to_string(&mut s);
            let _ = tx.send((i, s));
        });
        kids.push(ch);
    }
    drop(tx);
    let mut out = OneShot { res: Res::Unknown, model: HashMap::new(), solver: String::new(), time: 0.0, note: String::new() };
    let deadline = t0 + Duration::from_secs_f64(timeout_s + 5.0);
    let mut left = kids.len();
    while left > 0 {
        let now = Instant::now();
        if now >= deadline {
            break;
        }
        match rx.recv_timeout(deadline - now) {
            Ok((i, s)) => {
                left -= 1;
                let first = s.trim_start();
                let bin = cmds[i].0;
                if first.starts_with("(error") {
                    out.note.push_str(&format!("{}: {} ", bin, first.lines().next().unwrap_or("")));
                    continue;
                }
                if first.starts_with("unsat") {
                    out.res = Res::Unsat;
                    out.solver = bin.into();
                    break;
                }
                if first.starts_with("sat") {
                    out.res = Res::Sat;
                    out.solver = bin.into();
                    if !get.is_empty() {
                        if let Some((Sx::L(v), _)) = parse_sexp(&first[3..]) {
                            for (k, e) in v.iter().enumerate() {
                                if let Sx::L(w) = e {
                                    if w.len() == 2 && k < get.len() {
                                        if let Some(q) = sx_val(&w[1]) {
                                            out.model.insert(get[k], q);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    break;
                }
            }
            Err(_) => break,
        }
    }
    for k in kids.iter_mut() {
        let _ = k.kill();
        let _ = k.wait();
    }
    out.time = t0.elapsed().as_secs_f64();
    Ok(out)
}
