//! Hash-consed term DAG shared by all paths, with constant folding, light algebraic simplification
//! and interval analysis.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;

pub type T = u32;
pub type Q = BigRational;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sort {
    Bool,
    Int(u16),
    Real,
    F64,
    F32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Const, // Bool/Int: k ; Real: k = index in rats ; F64/F32: k = bits
    Var,   // k = variable index
    Not, And, Or, Xor, Ite,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, BAnd, BOr, BXor, Trunc, ZExt, SExt,
    Eq, Ult, Ule, Slt, Sle,
    FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt, FMin, FMax, FFloor, FCeil, FTrunc, FRound, FRint, FFma,
    FEq, FLt, FLe, FUno, FInf,
    FromS, FromU, // int -> float
    ToS, ToU, // float -> int of the node's sort (round toward zero; argument in range)
    BitsOf, FromBits, BitsKey, FCvt,
    Uf, // k = function index; 1 or 2 args
    RndErr, // rounding of the exact real a[0] (Rnd mode); k = 64 or 32
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub sort: Sort,
    pub n: u8,
    pub a: [T; 3],
    pub k: i64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Real,
    Rnd,
    Fp,
}

/// Interval: ints are exact (i128), reals are outward rounded.
#[derive(Clone, Copy, Debug)]
pub enum Iv {
    B(Option<bool>),
    I(i128, i128),
    R(f64, f64),
}

pub struct VarInfo {
    pub name: String,
    pub sort: Sort,
    pub lo: Option<Q>,
    pub hi: Option<Q>,
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    pub iv: Vec<Iv>,
    pub rats: Vec<Q>,
    ratmap: HashMap<Q, i64>,
    pub vars: Vec<VarInfo>,
    varmap: HashMap<String, T>,
    pub ufs: Vec<String>,
    pub mode: Mode,
    /// Real mode: constants mean their shortest decimal
    pub dec: bool,
}

pub fn smin(w: u16) -> i128 {
    -(1i128 << (w - 1))
}
pub fn smax(w: u16) -> i128 {
    (1i128 << (w - 1)) - 1
}
pub fn canon(v: i128, w: u16) -> i128 {
    crate::ll::sext(v as u128, w as u32)
}
pub fn uns(v: i128, w: u16) -> i128 {
    if v < 0 {
        v + (1i128 << w)
    } else {
        v
    }
}
pub fn down(x: f64) -> f64 {
    if x == 0.0 { -f64::MIN_POSITIVE } else { x - x.abs() * 4e-16 }
}
pub fn up(x: f64) -> f64 {
    if x == 0.0 { f64::MIN_POSITIVE } else { x + x.abs() * 4e-16 }
}
/// widen unless the value is a small integer (then it was computed exactly)
fn dn(x: f64) -> f64 {
    if x == x.floor() && x.abs() < 1e15 { x } else { down(x) }
}
fn upw(x: f64) -> f64 {
    if x == x.floor() && x.abs() < 1e15 { x } else { up(x) }
}
/// the number its shortest round-trip decimal denotes (what a literal in the source says)
pub fn shortest_decimal(x: f64) -> Option<Q> {
    let s = format!("{:e}", x);
    let (m, e) = s.split_once('e')?;
    let e: i32 = e.parse().ok()?;
    let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
    let n: BigInt = format!("{}{}", ip, fp).parse().ok()?;
    let k = e - fp.len() as i32;
    let t = BigInt::from(10).pow(k.unsigned_abs());
    Some(if k >= 0 { Q::from_integer(n * t) } else { Q::new(n, t) })
}
pub fn q_of_f64(x: f64) -> Option<Q> {
    BigRational::from_float(x)
}
pub fn q_to_f64(q: &Q) -> f64 {
    // correctly rounded enough: use scaled big integer division
    if q.is_zero() {
        return 0.0;
    }
    if let (Some(n), Some(d)) = (q.numer().to_i64(), q.denom().to_i64()) {
        if n.abs() < (1 << 53) && d < (1 << 53) {
            return n as f64 / d as f64;
        }
    }
    let nb = q.numer().bits() as i64;
    let db = q.denom().bits() as i64;
    let shift = 66 - (nb - db);
    let (n, d) = if shift >= 0 {
        (q.numer().clone() << (shift as usize), q.denom().clone())
    } else {
        (q.numer().clone(), q.denom().clone() << ((-shift) as usize))
    };
    let v = n / d;
    // v has ~66-67 bits; round to odd into 64 bits then to f64
    let f = v.to_f64().unwrap_or(0.0);
    let mut r = f;
    let mut s = shift;
    while s > 1000 {
        r /= 2f64.powi(1000);
        s -= 1000;
    }
    while s < -1000 {
        r *= 2f64.powi(1000);
        s += 1000;
    }
    r / 2f64.powi(s as i32)
}
fn mulb(a: f64, b: f64) -> f64 {
    if a == 0.0 || b == 0.0 { 0.0 } else { a * b }
}

impl Terms {
    pub fn new(mode: Mode) -> Self {
        let mut t = Terms {
            dec: false,
            nodes: vec![],
            map: HashMap::new(),
            iv: vec![],
            rats: vec![],
            ratmap: HashMap::new(),
            vars: vec![],
            varmap: HashMap::new(),
            ufs: vec![],
            mode,
        };
        t.bool(false);
        t.bool(true);
        t
    }
    pub fn node(&self, t: T) -> &Node {
        &self.nodes[t as usize]
    }
    pub fn sort(&self, t: T) -> Sort {
        self.nodes[t as usize].sort
    }
    pub fn fsort(&self, w: u32) -> Sort {
        match (self.mode, w) {
            (Mode::Fp, 64) => Sort::F64,
            (Mode::Fp, _) => Sort::F32,
            _ => Sort::Real,
        }
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let iv = self.interval(&n);
        // interval says constant?
        match (&iv, n.sort) {
            (Iv::B(Some(b)), Sort::Bool) if n.op != Op::Const && n.op != Op::Var => {
                let r = *b as T;
                self.map.insert(n, r);
                return r;
            }
            (Iv::I(l, h), Sort::Int(w)) if l == h && n.op != Op::Const => {
                let r = self.int(*l, w);
                self.map.insert(n, r);
                return r;
            }
            _ => {}
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.iv.push(iv);
        self.map.insert(n, t);
        t
    }
    pub fn bool(&mut self, b: bool) -> T {
        let n = Node { op: Op::Const, sort: Sort::Bool, n: 0, a: [0; 3], k: b as i64 };
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n.clone());
        self.iv.push(Iv::B(Some(b)));
        self.map.insert(n, t);
        t
    }
    pub fn int(&mut self, v: i128, w: u16) -> T {
        assert!(w <= 64, "symbolic integers wider than 64 bits are not supported");
        let v = canon(v, w);
        self.mk(Node { op: Op::Const, sort: Sort::Int(w), n: 0, a: [0; 3], k: v as i64 })
    }
    pub fn rat(&mut self, q: Q) -> T {
        let k = match self.ratmap.get(&q) {
            Some(&k) => k,
            None => {
                let k = self.rats.len() as i64;
                self.rats.push(q.clone());
                self.ratmap.insert(q, k);
                k
            }
        };
        self.mk(Node { op: Op::Const, sort: Sort::Real, n: 0, a: [0; 3], k })
    }
    /// finite float constant
    pub fn fconst(&mut self, x: f64, w: u32) -> T {
        match self.mode {
            Mode::Fp => {
                if w == 64 {
                    self.mk(Node { op: Op::Const, sort: Sort::F64, n: 0, a: [0; 3], k: x.to_bits() as i64 })
                } else {
                    self.mk(Node { op: Op::Const, sort: Sort::F32, n: 0, a: [0; 3], k: (x as f32).to_bits() as i64 })
                }
            }
            _ => {
                let q = match if self.dec && x.fract() != 0.0 { shortest_decimal(x) } else { None } {
                    Some(q) => q,
                    None => q_of_f64(x).expect("finite"),
                };
                self.rat(q)
            }
        }
    }
    pub fn var(&mut self, name: &str, sort: Sort, lo: Option<Q>, hi: Option<Q>) -> T {
        if let Some(&t) = self.varmap.get(name) {
            return t;
        }
        let k = self.vars.len() as i64;
        self.vars.push(VarInfo { name: name.to_string(), sort, lo, hi });
        let t = self.mk(Node { op: Op::Var, sort, n: 0, a: [0; 3], k });
        self.varmap.insert(name.to_string(), t);
        t
    }
    pub fn uf_id(&mut self, name: &str) -> i64 {
        if let Some(i) = self.ufs.iter().position(|x| x == name) {
            return i as i64;
        }
        self.ufs.push(name.to_string());
        self.ufs.len() as i64 - 1
    }
    pub fn as_bool(&self, t: T) -> Option<bool> {
        match t {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn as_int(&self, t: T) -> Option<i128> {
        let n = self.node(t);
        match (n.op, n.sort) {
            (Op::Const, Sort::Int(_)) => Some(n.k as i128),
            _ => None,
        }
    }
    pub fn as_rat(&self, t: T) -> Option<&Q> {
        let n = self.node(t);
        match (n.op, n.sort) {
            (Op::Const, Sort::Real) => Some(&self.rats[n.k as usize]),
            _ => None,
        }
    }
    pub fn as_f(&self, t: T) -> Option<f64> {
        let n = self.node(t);
        match (n.op, n.sort) {
            (Op::Const, Sort::F64) => Some(f64::from_bits(n.k as u64)),
            (Op::Const, Sort::F32) => Some(f32::from_bits(n.k as u32) as f64),
            _ => None,
        }
    }
    pub fn ivi(&self, t: T) -> (i128, i128) {
        match self.iv[t as usize] {
            Iv::I(a, b) => (a, b),
            _ => panic!("int interval of {:?}", self.node(t)),
        }
    }
    pub fn ivr(&self, t: T) -> (f64, f64) {
        match self.iv[t as usize] {
            Iv::R(a, b) => (a, b),
            _ => panic!("real interval of {:?}", self.node(t)),
        }
    }
    pub fn width(&self, t: T) -> u16 {
        match self.sort(t) {
            Sort::Int(w) => w,
            s => panic!("width of {:?}", s),
        }
    }

    // ---------- booleans
    pub fn not(&mut self, a: T) -> T {
        match self.as_bool(a) {
            Some(b) => return (!b) as T,
            None => {}
        }
        let n = self.node(a).clone();
        if n.op == Op::Not {
            return n.a[0];
        }
        if self.mode != Mode::Fp {
            match n.op {
                Op::FLt => return self.bin2(Op::FLe, n.a[1], n.a[0], Sort::Bool),
                Op::FLe => return self.bin2(Op::FLt, n.a[1], n.a[0], Sort::Bool),
                _ => {}
            }
        }
        match n.op {
            Op::Slt => return self.bin2(Op::Sle, n.a[1], n.a[0], Sort::Bool),
            Op::Sle => return self.bin2(Op::Slt, n.a[1], n.a[0], Sort::Bool),
            Op::Ult => return self.bin2(Op::Ule, n.a[1], n.a[0], Sort::Bool),
            Op::Ule => return self.bin2(Op::Ult, n.a[1], n.a[0], Sort::Bool),
            _ => {}
        }
        self.mk(Node { op: Op::Not, sort: Sort::Bool, n: 1, a: [a, 0, 0], k: 0 })
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if a == 0 || b == 0 {
            return 0;
        }
        if a == 1 || a == b {
            return b;
        }
        if b == 1 {
            return a;
        }
        let na = self.not(a);
        if na == b {
            return 0;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(Node { op: Op::And, sort: Sort::Bool, n: 2, a: [a, b, 0], k: 0 })
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == 1 || b == 1 {
            return 1;
        }
        if a == 0 || a == b {
            return b;
        }
        if b == 0 {
            return a;
        }
        let na = self.not(a);
        if na == b {
            return 1;
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(Node { op: Op::Or, sort: Sort::Bool, n: 2, a: [a, b, 0], k: 0 })
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        if a == b {
            return 0;
        }
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        if a == 1 {
            return self.not(b);
        }
        if b == 1 {
            return self.not(a);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mk(Node { op: Op::Xor, sort: Sort::Bool, n: 2, a: [a, b, 0], k: 0 })
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        match self.as_bool(c) {
            Some(true) => return a,
            Some(false) => return b,
            None => {}
        }
        if a == b {
            return a;
        }
        let s = self.sort(a);
        assert_eq!(s, self.sort(b), "ite sorts");
        if s == Sort::Bool {
            if a == 1 {
                return self.or(c, b);
            }
            if b == 0 {
                return self.and(c, a);
            }
            let nc = self.not(c);
            if a == 0 {
                return self.and(nc, b);
            }
            if b == 1 {
                return self.or(nc, a);
            }
        }
        let cn = self.node(c).clone();
        if cn.op == Op::Not {
            return self.ite(cn.a[0], b, a);
        }
        // min/max recognition on reals keeps intervals tight
        if s == Sort::Real && (cn.op == Op::FLt || cn.op == Op::FLe) {
            if cn.a[0] == a && cn.a[1] == b {
                return self.bin2(Op::FMin, a, b, s);
            }
            if cn.a[0] == b && cn.a[1] == a {
                return self.bin2(Op::FMax, a, b, s);
            }
        }
        self.mk(Node { op: Op::Ite, sort: s, n: 3, a: [c, a, b], k: 0 })
    }

    fn raw(&mut self, op: Op, sort: Sort, a: &[T], k: i64) -> T {
        let mut arr = [0; 3];
        arr[..a.len()].copy_from_slice(a);
        self.mk(Node { op, sort, n: a.len() as u8, a: arr, k })
    }

    /// is t an Ite tree (depth<=4) with constant leaves?
    fn const_ite(&self, t: T, depth: u32) -> bool {
        let n = self.node(t);
        match n.op {
            Op::Const => true,
            Op::Ite if depth > 0 => self.const_ite(n.a[1], depth - 1) && self.const_ite(n.a[2], depth - 1),
            _ => false,
        }
    }

    pub fn un(&mut self, op: Op, a: T, sort: Sort) -> T {
        self.un_k(op, a, sort, 0)
    }

    pub fn un_k(&mut self, op: Op, a: T, sort: Sort, k: i64) -> T {
        let n = self.node(a).clone();
        // push through const ites
        if n.op == Op::Ite && self.const_ite(a, 3) && !matches!(op, Op::Uf | Op::RndErr | Op::FromBits) {
            let x = self.un_k(op, n.a[1], sort, k);
            let y = self.un_k(op, n.a[2], sort, k);
            return self.ite(n.a[0], x, y);
        }
        match op {
            Op::Trunc => {
                let Sort::Int(w) = sort else { panic!() };
                let sw = self.width(a);
                if w == sw {
                    return a;
                }
                if let Some(v) = self.as_int(a) {
                    return self.int(v, w);
                }
                let (l, h) = self.ivi(a);
                match n.op {
                    Op::ZExt | Op::SExt => {
                        let iw = self.width(n.a[0]);
                        if iw == w {
                            return n.a[0];
                        }
                        if iw > w {
                            return self.un(Op::Trunc, n.a[0], sort);
                        }
                        return self.un(n.op, n.a[0], sort);
                    }
                    Op::Trunc => return self.un(Op::Trunc, n.a[0], sort),
                    _ => {}
                }
                let _ = (l, h);
                if let Some(t) = self.try_pieces(Op::Trunc, a, sort) {
                    return t;
                }
            }
            Op::ZExt | Op::SExt => {
                let Sort::Int(w) = sort else { panic!() };
                let sw = self.width(a);
                if w == sw {
                    return a;
                }
                if let Some(v) = self.as_int(a) {
                    let v = if op == Op::ZExt { uns(v, sw) } else { v };
                    return self.int(v, w);
                }
                if op == Op::SExt && n.op == Op::SExt {
                    return self.un(Op::SExt, n.a[0], sort);
                }
                if n.op == Op::ZExt {
                    return self.un(Op::ZExt, n.a[0], sort);
                }
                let (l, _) = self.ivi(a);
                if op == Op::SExt && l >= 0 {
                    return self.un(Op::ZExt, a, sort);
                }
                if op == Op::ZExt {
                    if let Some(t) = self.try_pieces(Op::ZExt, a, sort) {
                        return t;
                    }
                }
            }
            Op::FNeg => {
                if let Some(q) = self.as_rat(a) {
                    let q = -q.clone();
                    return self.rat(q);
                }
                if let Some(f) = self.as_f(a) {
                    return self.fconst(-f, if sort == Sort::F32 { 32 } else { 64 });
                }
                if n.op == Op::FNeg {
                    return n.a[0];
                }
                if self.mode != Mode::Fp && n.op == Op::FSub {
                    return self.fop2(Op::FSub, n.a[1], n.a[0]);
                }
            }
            Op::FAbs => {
                if let Some(q) = self.as_rat(a) {
                    let q = q.abs();
                    return self.rat(q);
                }
                if let Some(f) = self.as_f(a) {
                    return self.fconst(f.abs(), if sort == Sort::F32 { 32 } else { 64 });
                }
                if n.op == Op::FAbs {
                    return a;
                }
                if n.op == Op::FNeg {
                    return self.un(Op::FAbs, n.a[0], sort);
                }
                if sort == Sort::Real {
                    let (l, h) = self.ivr(a);
                    if l >= 0.0 {
                        return a;
                    }
                    if h <= 0.0 {
                        return self.un(Op::FNeg, a, sort);
                    }
                }
            }
            Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint => {
                if let Some(q) = self.as_rat(a) {
                    let r = match op {
                        Op::FFloor => q.floor(),
                        Op::FCeil => q.ceil(),
                        Op::FTrunc => q.trunc(),
                        Op::FRound => q.round(),
                        _ => {
                            // ties to even
                            let r = q.round();
                            let half = Q::new(BigInt::from(1), BigInt::from(2));
                            if (q - q.floor()) == half {
                                let f = q.floor();
                                let two = BigInt::from(2);
                                if (f.numer() % &two).is_zero() { f } else { f + Q::one() }
                            } else {
                                r
                            }
                        }
                    };
                    return self.rat(r);
                }
                if matches!(n.op, Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint | Op::FromS | Op::FromU) && self.mode != Mode::Fp {
                    return a;
                }
            }
            Op::FSqrt => {
                if let Some(q) = self.as_rat(a).cloned() {
                    let f = q_to_f64(&q).sqrt();
                    if let Some(r) = q_of_f64(f) {
                        if &r * &r == q {
                            return self.rat(r);
                        }
                    }
                }
            }
            Op::BitsOf => {
                if n.op == Op::FromBits {
                    return n.a[0];
                }
            }
            Op::FromBits => {
                if n.op == Op::BitsOf {
                    return n.a[0];
                }
                if let (Some(x), Sort::Real) = (self.as_int(a), sort) {
                    let f = if self.width(a) == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as i64 as u64) };
                    if f.is_finite() {
                        return self.fconst(f, 64);
                    }
                }
                if n.op == Op::Ite && sort == Sort::Real {
                    let x = self.un(op, n.a[1], sort);
                    let y = self.un(op, n.a[2], sort);
                    if self.node(x).op != Op::FromBits && self.node(y).op != Op::FromBits {
                        return self.ite(n.a[0], x, y);
                    }
                }
            }
            Op::FromS | Op::FromU => {
                if let (Some(v), Sort::Real) = (self.as_int(a), sort) {
                    let v = if op == Op::FromU { uns(v, self.width(a)) } else { v };
                    return self.rat(Q::from_integer(BigInt::from(v)));
                }
                if op == Op::FromU && self.ivi(a).0 >= 0 {
                    return self.un(Op::FromS, a, sort);
                }
                if op == Op::FromS && n.op == Op::SExt {
                    return self.un(Op::FromS, n.a[0], sort);
                }
                if n.op == Op::ZExt {
                    return self.un(Op::FromU, n.a[0], sort);
                }
            }
            Op::ToS | Op::ToU => {
                if let (Some(q), Sort::Int(w)) = (self.as_rat(a), sort) {
                    let v = q.trunc().to_integer().to_i128().unwrap_or(0);
                    return self.int(v, w);
                }
                // exact: ToS(FromS(x)) with the same width
                if self.mode != Mode::Fp && n.op == Op::FromS && self.sort(n.a[0]) == sort {
                    return n.a[0];
                }
                if self.mode != Mode::Fp && n.op == Op::FromS {
                    let (l, h) = self.ivi(n.a[0]);
                    let Sort::Int(w) = sort else { panic!() };
                    let sw = self.width(n.a[0]);
                    if w > sw && (op == Op::ToS || l >= 0) {
                        return self.un(Op::SExt, n.a[0], sort);
                    }
                    if w < sw && l >= smin(w) && h <= smax(w) {
                        return self.un(Op::Trunc, n.a[0], sort);
                    }
                }
            }
            Op::FCvt => {
                if sort == Sort::Real {
                    return a;
                }
                if self.sort(a) == sort {
                    return a;
                }
            }
            _ => {}
        }
        self.raw(op, sort, &[a], k)
    }

    pub fn uf(&mut self, name: &str, args: &[T], sort: Sort) -> T {
        let k = self.uf_id(name);
        self.raw(Op::Uf, sort, args, k)
    }

    pub fn ibin(&mut self, op: Op, a: T, b: T) -> T {
        let s = self.sort(a);
        self.bin2(op, a, b, s)
    }
    pub fn cmp(&mut self, op: Op, a: T, b: T) -> T {
        self.bin2(op, a, b, Sort::Bool)
    }
    pub fn fop2(&mut self, op: Op, a: T, b: T) -> T {
        let s = self.sort(a);
        self.bin2(op, a, b, s)
    }

    pub fn bin2(&mut self, op: Op, a: T, b: T, sort: Sort) -> T {
        use Op::*;
        let na = self.node(a).clone();
        let nb = self.node(b).clone();
        let isint = matches!(na.sort, Sort::Int(_));
        // constant folding on ints
        if isint {
            if let (Some(x), Some(y)) = (self.as_int(a), self.as_int(b)) {
                let w = self.width(a);
                if let Some(r) = fold_int(op, x, y, w) {
                    return match sort {
                        Sort::Bool => (r != 0) as T,
                        Sort::Int(w) => self.int(r, w),
                        _ => panic!(),
                    };
                }
            }
            // push through const ites
            if na.op == Ite && nb.op == Const && self.const_ite(a, 3) {
                let x = self.bin2(op, na.a[1], b, sort);
                let y = self.bin2(op, na.a[2], b, sort);
                return self.ite(na.a[0], x, y);
            }
            if nb.op == Ite && na.op == Const && self.const_ite(b, 3) {
                let x = self.bin2(op, a, nb.a[1], sort);
                let y = self.bin2(op, a, nb.a[2], sort);
                return self.ite(nb.a[0], x, y);
            }
            let w = self.width(a);
            let cb = self.as_int(b);
            let ca = self.as_int(a);
            match op {
                Add => {
                    if cb == Some(0) {
                        return a;
                    }
                    if ca == Some(0) {
                        return b;
                    }
                    if ca.is_some() {
                        return self.bin2(Add, b, a, sort);
                    }
                    if let (Some(y), Add) = (cb, na.op) {
                        if let Some(x) = self.as_int(na.a[1]) {
                            let c = self.int(x + y, w);
                            return self.bin2(Add, na.a[0], c, sort);
                        }
                    }
                    // (x - y) + y
                    if na.op == Sub && na.a[1] == b {
                        return na.a[0];
                    }
                    if nb.op == Sub && nb.a[1] == a {
                        return nb.a[0];
                    }
                }
                Sub => {
                    if cb == Some(0) {
                        return a;
                    }
                    if a == b {
                        return self.int(0, w);
                    }
                    if let Some(y) = cb {
                        let c = self.int(-y, w);
                        return self.bin2(Add, a, c, sort);
                    }
                    if na.op == Add && na.a[0] == b {
                        return na.a[1];
                    }
                    if na.op == Add && na.a[1] == b {
                        return na.a[0];
                    }
                }
                Mul => {
                    if cb == Some(1) {
                        return a;
                    }
                    if ca == Some(1) {
                        return b;
                    }
                    if cb == Some(0) || ca == Some(0) {
                        return self.int(0, w);
                    }
                    if ca.is_some() {
                        return self.bin2(Mul, b, a, sort);
                    }
                }
                UDiv | SDiv if cb == Some(1) => return a,
                Shl | LShr | AShr => {
                    if cb == Some(0) {
                        return a;
                    }
                    if op == AShr && na.op == BitsOf && cb == Some(63) && w == 64 && self.mode != Mode::Fp {
                        let z = self.fconst(0.0, 64);
                        let neg = self.cmp(FLt, na.a[0], z);
                        let (m, z) = (self.int(-1, 64), self.int(0, 64));
                        return self.ite(neg, m, z);
                    }
                    if cb.is_some() && op != AShr {
                        if let Some(t) = self.try_pieces2(op, a, b, sort) {
                            return t;
                        }
                    }
                }
                BAnd => {
                    if cb == Some(0) || ca == Some(0) {
                        return self.int(0, w);
                    }
                    if cb == Some(-1) || a == b {
                        return a;
                    }
                    if ca == Some(-1) {
                        return b;
                    }
                    if ca.is_some() {
                        return self.bin2(BAnd, b, a, sort);
                    }
                    // BitsOf(x) & 0x7fff... = BitsOf(|x|)
                    if na.op == BitsOf && w == 64 {
                        if cb == Some(i64::MAX as i128) {
                            let fs = self.sort(na.a[0]);
                            let x = self.un(FAbs, na.a[0], fs);
                            return self.un(BitsOf, x, sort);
                        }
                    }
                    // mask covering the interval
                    if let Some(m) = cb {
                        let (l, h) = self.ivi(a);
                        if m >= 0 && l >= 0 {
                            let k = 128 - (m as u128).leading_zeros();
                            if m == (1i128 << k) - 1 && h <= m {
                                return a;
                            }
                        }
                        if let Some(t) = self.try_pieces2(op, a, b, sort) {
                            return t;
                        }
                    }
                }
                BOr => {
                    if cb == Some(0) || a == b {
                        return a;
                    }
                    if ca == Some(0) {
                        return b;
                    }
                    if let Some(t) = self.try_pieces2(op, a, b, sort) {
                        return t;
                    }
                }
                BXor => {
                    if cb == Some(0) {
                        return a;
                    }
                    if a == b {
                        return self.int(0, w);
                    }
                    // the key of f64::total_cmp: the bits with all but the sign flipped if negative
                    if self.mode != Mode::Fp && w == 64 {
                        for (x, m) in [(&na, b), (&nb, a)] {
                            if x.op != BitsOf {
                                continue;
                            }
                            let x = x.a[0];
                            let z = self.fconst(0.0, 64);
                            let neg = self.cmp(FLt, x, z);
                            let (max, zero) = (self.int(i64::MAX as i128, 64), self.int(0, 64));
                            let mask = self.ite(neg, max, zero);
                            if mask == m {
                                return self.un(BitsKey, x, sort);
                            }
                        }
                    }
                    if na.op == BitsOf && cb == Some(i64::MIN as i128) && w == 64 {
                        let fs = self.sort(na.a[0]);
                        let x = self.un(FNeg, na.a[0], fs);
                        return self.un(BitsOf, x, sort);
                    }
                }
                Eq => {
                    if a == b {
                        return 1;
                    }
                    if matches!(na.op, BitsOf | BitsKey) || matches!(nb.op, BitsOf | BitsKey) {
                        return self.bits_cmp(op, a, b);
                    }
                    if a > b {
                        return self.bin2(op, b, a, sort);
                    }
                    // zext(x) == c
                    for (x, y) in [(&na, cb), (&nb, ca)] {
                        if let Some(c) = y {
                            if x.op == ZExt || x.op == SExt {
                                let iw = self.width(x.a[0]);
                                let cc = canon(c, iw);
                                let back = if x.op == ZExt { uns(cc, iw) } else { cc };
                                if back != c {
                                    return 0;
                                }
                                let k = self.int(cc, iw);
                                return self.bin2(Eq, x.a[0], k, sort);
                            }
                        }
                    }
                }
                Ult | Slt => {
                    if a == b {
                        return 0;
                    }
                    if matches!(na.op, BitsOf | BitsKey) || matches!(nb.op, BitsOf | BitsKey) {
                        return self.bits_cmp(op, a, b);
                    }
                    if op == Ult && self.ivi(a).0 >= 0 && self.ivi(b).0 >= 0 {
                        return self.bin2(Slt, a, b, sort);
                    }
                }
                Ule | Sle => {
                    if a == b {
                        return 1;
                    }
                    if matches!(na.op, BitsOf | BitsKey) || matches!(nb.op, BitsOf | BitsKey) {
                        return self.bits_cmp(op, a, b);
                    }
                    if op == Ule && self.ivi(a).0 >= 0 && self.ivi(b).0 >= 0 {
                        return self.bin2(Sle, a, b, sort);
                    }
                }
                _ => {}
            }
            return self.raw(op, sort, &[a, b], 0);
        }
        if na.sort == Sort::Real {
            let exact = self.mode == Mode::Real;
            let ra = self.as_rat(a).cloned();
            let rb = self.as_rat(b).cloned();
            if let (Some(x), Some(y)) = (&ra, &rb) {
                let r = match op {
                    FAdd => Some(x + y),
                    FSub => Some(x - y),
                    FMul => Some(x * y),
                    FDiv if !y.is_zero() => Some(x / y),
                    FMin => Some(x.min(y).clone()),
                    FMax => Some(x.max(y).clone()),
                    FEq => return (x == y) as T,
                    FLt => return (x < y) as T,
                    FLe => return (x <= y) as T,
                    FUno => return 0,
                    _ => None,
                };
                if let Some(r) = r {
                    // exact results only occur in Real mode or as comparisons/selections
                    if exact || matches!(op, FMin | FMax) {
                        return self.rat(r);
                    }
                }
            }
            let zero = |q: &Option<Q>| matches!(q, Some(x) if x.is_zero());
            let one = |q: &Option<Q>| matches!(q, Some(x) if x.is_one());
            match op {
                FAdd => {
                    if zero(&rb) {
                        return a;
                    }
                    if zero(&ra) {
                        return b;
                    }
                    if exact && ra.is_some() {
                        return self.bin2(FAdd, b, a, sort);
                    }
                    if exact && nb.op == FNeg {
                        return self.bin2(FSub, a, nb.a[0], sort);
                    }
                }
                FSub => {
                    if zero(&rb) {
                        return a;
                    }
                    if a == b {
                        return self.rat(Q::zero());
                    }
                    if zero(&ra) {
                        return self.un(FNeg, b, sort);
                    }
                    if exact && nb.op == FNeg {
                        return self.bin2(FAdd, a, nb.a[0], sort);
                    }
                }
                FMul => {
                    if zero(&ra) || zero(&rb) {
                        return self.rat(Q::zero());
                    }
                    if one(&rb) {
                        return a;
                    }
                    if one(&ra) {
                        return b;
                    }
                    if exact && ra.is_some() {
                        return self.bin2(FMul, b, a, sort);
                    }
                    if exact && nb.op == Const && na.op == FMul {
                        if let Some(x) = self.as_rat(na.a[1]).cloned() {
                            let c = self.rat(x * rb.clone().unwrap());
                            return self.bin2(FMul, na.a[0], c, sort);
                        }
                    }
                    // (x / b) * b
                    if exact && na.op == FDiv && na.a[1] == b {
                        return na.a[0];
                    }
                    if exact && nb.op == FDiv && nb.a[1] == a {
                        return nb.a[0];
                    }
                    // canonical order for commutative products
                    if nb.op != Const && a > b {
                        return self.bin2(FMul, b, a, sort);
                    }
                }
                FDiv => {
                    if one(&rb) {
                        return a;
                    }
                    if zero(&ra) {
                        return a;
                    }
                    if exact {
                        if let Some(y) = &rb {
                            if !y.is_zero() {
                                let c = self.rat(y.recip());
                                return self.bin2(FMul, a, c, sort);
                            }
                        }
                        if a == b {
                            return self.rat(Q::one());
                        }
                    }
                }
                FMin | FMax => {
                    if a == b {
                        return a;
                    }
                    let (la, ha) = self.ivr(a);
                    let (lb, hb) = self.ivr(b);
                    if ha <= lb {
                        return if op == FMin { a } else { b };
                    }
                    if hb <= la {
                        return if op == FMin { b } else { a };
                    }
                    if a > b {
                        return self.bin2(op, b, a, sort);
                    }
                }
                FEq => {
                    if a == b {
                        return 1;
                    }
                    if a > b {
                        return self.bin2(op, b, a, sort);
                    }
                }
                FLt => {
                    if a == b {
                        return 0;
                    }
                    if nb.op == FAbs && self.as_rat(a).map(|q| q.is_zero()).unwrap_or(false) {
                        let e = self.bin2(FEq, nb.a[0], a, Sort::Bool);
                        return self.not(e);
                    }
                }
                FLe => {
                    if a == b {
                        return 1;
                    }
                    if na.op == FAbs && self.as_rat(b).map(|q| q.is_zero()).unwrap_or(false) {
                        return self.bin2(FEq, na.a[0], b, Sort::Bool);
                    }
                }
                FUno => return 0,
                _ => {}
            }
            let t = self.raw(op, sort, &[a, b], 0);
            if self.mode == Mode::Rnd && matches!(op, FAdd | FSub | FMul | FDiv) {
                return self.round(t);
            }
            return t;
        }
        // Fp mode
        if let (Some(x), Some(y)) = (self.as_f(a), self.as_f(b)) {
            let w = if na.sort == Sort::F32 { 32 } else { 64 };
            if w == 64 {
                match op {
                    FAdd => return self.fconst(x + y, w),
                    FSub => return self.fconst(x - y, w),
                    FMul => return self.fconst(x * y, w),
                    FDiv => return self.fconst(x / y, w),
                    FEq => return (x == y) as T,
                    FLt => return (x < y) as T,
                    FLe => return (x <= y) as T,
                    FUno => return (x.is_nan() || y.is_nan()) as T,
                    _ => {}
                }
            }
        }
        self.raw(op, sort, &[a, b], 0)
    }

    /// Rnd mode: introduce the rounding of an exact real term unless the result is known exact.
    pub fn round(&mut self, t: T) -> T {
        if self.mode != Mode::Rnd || self.is_exact(t) {
            return t;
        }
        self.raw(Op::RndErr, Sort::Real, &[t], 64)
    }
    /// results that are always representable: integers below 2^53
    fn is_exact(&self, t: T) -> bool {
        let (l, h) = self.ivr(t);
        if l.abs().max(h.abs()) > 9007199254740992.0 {
            return false;
        }
        self.is_integral(t, 0)
    }
    fn is_integral(&self, t: T, d: u32) -> bool {
        if d > 20 {
            return false;
        }
        let n = self.node(t);
        match n.op {
            Op::Const => self.as_rat(t).map(|q| q.is_integer()).unwrap_or(false),
            Op::FromS | Op::FromU | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRound | Op::FRint => true,
            Op::FAdd | Op::FSub | Op::FMul | Op::FMin | Op::FMax => self.is_integral(n.a[0], d + 1) && self.is_integral(n.a[1], d + 1),
            Op::FNeg | Op::FAbs => self.is_integral(n.a[0], d + 1),
            Op::Ite => self.is_integral(n.a[1], d + 1) && self.is_integral(n.a[2], d + 1),
            _ => false,
        }
    }

    fn bits_cmp(&mut self, op: Op, a: T, b: T) -> T {
        // comparisons on the bit pattern of a real (finite) value
        let na = self.node(a).clone();
        let nb = self.node(b).clone();
        if self.mode == Mode::Fp {
            return self.raw(op, Sort::Bool, &[a, b], 0);
        }
        let conv = |s: &mut Self, n: &Node, t: T| -> Option<T> {
            if n.op == Op::BitsOf {
                Some(n.a[0])
            } else if let Some(v) = s.as_int(t) {
                let f = f64::from_bits(v as i64 as u64);
                if f.is_finite() { Some(s.fconst(f, 64)) } else { None }
            } else {
                None
            }
        };
        if na.op == Op::BitsKey || nb.op == Op::BitsKey {
            let key = |s: &mut Self, n: &Node, t: T| -> Option<T> {
                if n.op == Op::BitsKey || n.op == Op::BitsOf && s.ivr(n.a[0]).0 >= 0.0 {
                    return Some(n.a[0]);
                }
                let v = s.as_int(t)? as i64;
                let f = f64::from_bits((v ^ (((v >> 63) as u64) >> 1) as i64) as u64);
                if f.is_finite() { Some(s.fconst(f, 64)) } else { None }
            };
            if let (Some(x), Some(y)) = (key(self, &na, a), key(self, &nb, b)) {
                match op {
                    Op::Eq => return self.cmp(Op::FEq, x, y),
                    Op::Slt => return self.cmp(Op::FLt, x, y),
                    Op::Sle => return self.cmp(Op::FLe, x, y),
                    _ => {}
                }
            }
            panic!("unsupported comparison on float bits");
        }
        match op {
            Op::Eq => match (conv(self, &na, a), conv(self, &nb, b)) {
                (Some(x), Some(y)) => self.cmp(Op::FEq, x, y),
                _ => 0,
            },
            // sign tests
            Op::Slt if nb.op == Op::Const && self.as_int(b) == Some(0) => {
                let z = self.fconst(0.0, 64);
                self.cmp(Op::FLt, na.a[0], z)
            }
            Op::Slt if self.as_int(b) == Some(-1) => panic!("unsupported comparison on float bits"),
            Op::Slt | Op::Sle if na.op == Op::Const && self.as_int(a) == Some(-1) => {
                // -1 < bits  <=>  bits >= 0
                let z = self.fconst(0.0, 64);
                self.cmp(Op::FLe, z, nb.a[0])
            }
            Op::Slt | Op::Ult | Op::Sle | Op::Ule => {
                // non-negative floats order like their bits
                let nn = |s: &Self, n: &Node| n.op != Op::BitsOf || s.ivr(n.a[0]).0 >= 0.0;
                if nn(self, &na) && nn(self, &nb) {
                    let inf = |s: &Self, t: T| s.as_int(t).map(|v| v >= 0x7ff0_0000_0000_0000).unwrap_or(false);
                    if inf(self, b) {
                        return 1;
                    }
                    if inf(self, a) {
                        return 0;
                    }
                    if let (Some(x), Some(y)) = (conv(self, &na, a), conv(self, &nb, b)) {
                        let o = if matches!(op, Op::Slt | Op::Ult) { Op::FLt } else { Op::FLe };
                        return self.cmp(o, x, y);
                    }
                }
                panic!("unsupported comparison on float bits");
            }
            _ => panic!("unsupported comparison on float bits"),
        }
    }

    // ---- bit pieces: (position, width, source, source position)
    fn pieces(&self, t: T) -> Option<Vec<(u16, u16, T, u16)>> {
        let n = self.node(t);
        let w = self.width(t);
        match n.op {
            Op::Const => {
                let m = uns(n.k as i128, w) as u128;
                if m == 0 {
                    Some(vec![])
                } else {
                    let lo = m.trailing_zeros() as u16;
                    Some(vec![(lo, 128 - m.leading_zeros() as u16 - lo, t, lo)])
                }
            }
            Op::ZExt => self.pieces(n.a[0]),
            Op::Trunc => {
                let mut v = self.pieces(n.a[0])?;
                v.retain(|p| p.0 < w);
                for p in v.iter_mut() {
                    if p.0 + p.1 > w {
                        p.1 = w - p.0;
                    }
                }
                Some(v)
            }
            Op::Shl => {
                let s = self.as_int(n.a[1])? as u16;
                let mut v = self.pieces(n.a[0])?;
                for p in v.iter_mut() {
                    p.0 += s;
                }
                v.retain(|p| p.0 < w);
                for p in v.iter_mut() {
                    if p.0 + p.1 > w {
                        p.1 = w - p.0;
                    }
                }
                Some(v)
            }
            Op::LShr => {
                let s = self.as_int(n.a[1])? as u16;
                let v = self.pieces(n.a[0])?;
                let mut o = vec![];
                for (p, l, t, sp) in v {
                    if p >= s {
                        o.push((p - s, l, t, sp));
                    } else if p + l > s {
                        o.push((0, p + l - s, t, sp + (s - p)));
                    }
                }
                Some(o)
            }
            Op::BAnd => {
                let m = uns(self.as_int(n.a[1])?, w) as u128;
                let lo = m.trailing_zeros() as u16;
                let hi = 128 - m.leading_zeros() as u16;
                if m != (((1u128 << (hi - lo)) - 1) << lo) {
                    return None;
                }
                let v = self.pieces(n.a[0])?;
                let mut o = vec![];
                for (p, l, t, sp) in v {
                    let s = p.max(lo);
                    let e = (p + l).min(hi);
                    if s < e {
                        o.push((s, e - s, t, sp + (s - p)));
                    }
                }
                Some(o)
            }
            Op::BOr => {
                let mut v = self.pieces(n.a[0])?;
                let b = self.pieces(n.a[1])?;
                for p in &b {
                    for q in &v {
                        if p.0 < q.0 + q.1 && q.0 < p.0 + p.1 {
                            return None;
                        }
                    }
                }
                v.extend(b);
                v.sort();
                Some(v)
            }
            _ => Some(vec![(0, w, t, 0)]),
        }
    }
    fn build_pieces(&mut self, mut v: Vec<(u16, u16, T, u16)>, sort: Sort) -> Option<T> {
        let Sort::Int(w) = sort else { return None };
        v.sort();
        if !v.is_empty() && v.iter().all(|p| self.as_int(p.2).is_some()) {
            let mut k = 0u128;
            for (p, l, t, sp) in v {
                let c = uns(self.as_int(t).unwrap(), self.width(t)) as u128;
                k |= ((c >> sp) & ((1u128 << l) - 1)) << p;
            }
            return Some(self.int(canon(k as i128, w), w));
        }
        v.retain(|p| match self.as_int(p.2) {
            Some(c) => (uns(c, self.width(p.2)) as u128 >> p.3) & ((1u128 << p.1) - 1) != 0,
            None => true,
        });
        // merge adjacent
        let mut m: Vec<(u16, u16, T, u16)> = vec![];
        for p in v {
            if let Some(l) = m.last_mut() {
                if l.2 == p.2 && l.0 + l.1 == p.0 && l.3 + l.1 == p.3 {
                    l.1 += p.1;
                    continue;
                }
            }
            m.push(p);
        }
        if m.is_empty() {
            return Some(self.int(0, w));
        }
        if m.len() == 1 {
            let (p, l, t, sp) = m[0];
            let sw = self.width(t);
            if p == 0 && sp == 0 && l == sw {
                return Some(if w == sw {
                    t
                } else if w > sw {
                    self.raw(Op::ZExt, sort, &[t], 0)
                } else {
                    self.raw(Op::Trunc, sort, &[t], 0)
                });
            }
        }
        None
    }
    fn try_pieces(&mut self, op: Op, a: T, sort: Sort) -> Option<T> {
        if !matches!(self.node(a).op, Op::BOr | Op::Shl | Op::LShr | Op::BAnd | Op::ZExt | Op::Trunc) {
            return None;
        }
        let Sort::Int(w) = sort else { return None };
        let mut v = self.pieces(a)?;
        if op == Op::Trunc {
            v.retain(|p| p.0 < w);
            for p in v.iter_mut() {
                if p.0 + p.1 > w {
                    p.1 = w - p.0;
                }
            }
        }
        self.build_pieces(v, sort)
    }
    fn try_pieces2(&mut self, op: Op, a: T, b: T, sort: Sort) -> Option<T> {
        // build a scratch node description without interning
        let w = self.width(a);
        let v = match op {
            Op::Shl => {
                let s = self.as_int(b)? as u16;
                let mut v = self.pieces(a)?;
                for p in v.iter_mut() {
                    p.0 += s;
                }
                v.retain(|p| p.0 < w);
                for p in v.iter_mut() {
                    if p.0 + p.1 > w {
                        p.1 = w - p.0;
                    }
                }
                v
            }
            Op::LShr => {
                let s = self.as_int(b)? as u16;
                let v = self.pieces(a)?;
                let mut o = vec![];
                for (p, l, t, sp) in v {
                    if p >= s {
                        o.push((p - s, l, t, sp));
                    } else if p + l > s {
                        o.push((0, p + l - s, t, sp + (s - p)));
                    }
                }
                o
            }
            Op::BOr => {
                let mut v = self.pieces(a)?;
                let b = self.pieces(b)?;
                for p in &b {
                    for q in &v {
                        if p.0 < q.0 + q.1 && q.0 < p.0 + p.1 {
                            return None;
                        }
                    }
                }
                v.extend(b);
                v
            }
            Op::BAnd => {
                let m = uns(self.as_int(b)?, w) as u128;
                if m == 0 {
                    return None;
                }
                let lo = m.trailing_zeros() as u16;
                let hi = 128 - m.leading_zeros() as u16;
                if m != (((1u128 << (hi - lo)) - 1) << lo) {
                    return None;
                }
                let v = self.pieces(a)?;
                let mut o = vec![];
                for (p, l, t, sp) in v {
                    let s = p.max(lo);
                    let e = (p + l).min(hi);
                    if s < e {
                        o.push((s, e - s, t, sp + (s - p)));
                    }
                }
                o
            }
            _ => return None,
        };
        self.build_pieces(v, sort)
    }

    // ---------- intervals
    fn interval(&self, n: &Node) -> Iv {
        match n.sort {
            Sort::Bool => Iv::B(self.iv_bool(n)),
            Sort::Int(w) => {
                let (l, h) = self.iv_int(n, w);
                if l < smin(w) || h > smax(w) {
                    Iv::I(smin(w), smax(w))
                } else {
                    Iv::I(l, h)
                }
            }
            Sort::Real => {
                let (l, h) = self.iv_real(n);
                let l = if l.is_nan() { f64::NEG_INFINITY } else { l };
                let h = if h.is_nan() { f64::INFINITY } else { h };
                Iv::R(l, h)
            }
            _ => Iv::R(f64::NEG_INFINITY, f64::INFINITY),
        }
    }
    fn iv_bool(&self, n: &Node) -> Option<bool> {
        use Op::*;
        match n.op {
            Const => Some(n.k != 0),
            Eq => {
                let (a, b) = self.ivi(n.a[0]);
                let (c, d) = self.ivi(n.a[1]);
                if b < c || d < a { Some(false) } else { None }
            }
            Slt => {
                let (a, b) = self.ivi(n.a[0]);
                let (c, d) = self.ivi(n.a[1]);
                if b < c { Some(true) } else if a >= d { Some(false) } else { None }
            }
            Sle => {
                let (a, b) = self.ivi(n.a[0]);
                let (c, d) = self.ivi(n.a[1]);
                if b <= c { Some(true) } else if a > d { Some(false) } else { None }
            }
            Ult | Ule => {
                let w = self.width(n.a[0]);
                let u = |(a, b): (i128, i128)| {
                    if a >= 0 { (a, b) } else if b < 0 { (uns(a, w), uns(b, w)) } else { (0, (1i128 << w) - 1) }
                };
                let (a, b) = u(self.ivi(n.a[0]));
                let (c, d) = u(self.ivi(n.a[1]));
                if n.op == Ult {
                    if b < c { Some(true) } else if a >= d { Some(false) } else { None }
                } else if b <= c { Some(true) } else if a > d { Some(false) } else { None }
            }
            FEq | FLt | FLe if self.sort(n.a[0]) == Sort::Real => {
                let (a, b) = self.ivr(n.a[0]);
                let (c, d) = self.ivr(n.a[1]);
                match n.op {
                    FEq => if b < c || d < a { Some(false) } else { None },
                    FLt => if b < c { Some(true) } else if a >= d { Some(false) } else { None },
                    _ => if b <= c { Some(true) } else if a > d { Some(false) } else { None },
                }
            }
            _ => None,
        }
    }
    fn iv_int(&self, n: &Node, w: u16) -> (i128, i128) {
        use Op::*;
        let full = (smin(w), smax(w));
        let i = |k: usize| self.ivi(n.a[k]);
        match n.op {
            Const => (n.k as i128, n.k as i128),
            Var => {
                let v = &self.vars[n.k as usize];
                let l = v.lo.as_ref().and_then(|q| q.to_integer().to_i128()).unwrap_or(full.0);
                let h = v.hi.as_ref().and_then(|q| q.to_integer().to_i128()).unwrap_or(full.1);
                (l.max(full.0), h.min(full.1))
            }
            Ite => {
                let (a, b) = i(1);
                let (c, d) = i(2);
                (a.min(c), b.max(d))
            }
            Add => {
                let (a, b) = i(0);
                let (c, d) = i(1);
                (a + c, b + d)
            }
            Sub => {
                let (a, b) = i(0);
                let (c, d) = i(1);
                (a - d, b - c)
            }
            Mul => {
                let (a, b) = i(0);
                let (c, d) = i(1);
                let v = [a.checked_mul(c), a.checked_mul(d), b.checked_mul(c), b.checked_mul(d)];
                if v.iter().any(|x| x.is_none()) {
                    return full;
                }
                let v: Vec<i128> = v.iter().map(|x| x.unwrap()).collect();
                (*v.iter().min().unwrap(), *v.iter().max().unwrap())
            }
            UDiv => {
                let (a, b) = i(0);
                let (c, d) = i(1);
                if a >= 0 && c > 0 { (a / d, b / c) } else { full }
            }
            SDiv => {
                let (a, b) = i(0);
                let (c, d) = i(1);
                if a >= 0 && c > 0 {
                    (a / d, b / c)
                } else if c > 0 {
                    let m = a.abs().max(b.abs()) / c;
                    (-m, m)
                } else {
                    full
                }
            }
            URem => {
                let (a, b) = i(0);
                let (c, d) = i(1);
                if a >= 0 && c > 0 { (0, b.min(d - 1)) } else if c > 0 { (0, d - 1) } else { full }
            }
            SRem => {
                let (a, b) = i(0);
                let (c, d) = i(1);
                if c > 0 {
                    (if a >= 0 { 0 } else { -(d - 1) }, if b <= 0 { 0 } else { b.min(d - 1) })
                } else {
                    full
                }
            }
            Shl => match self.as_int(n.a[1]) {
                Some(s) if (0..64).contains(&s) => {
                    let (a, b) = i(0);
                    (a << s, b << s)
                }
                _ => full,
            },
            LShr => {
                let (a, b) = i(0);
                match self.as_int(n.a[1]) {
                    Some(s) if (0..64).contains(&s) => {
                        if a >= 0 { (a >> s, b >> s) } else if s > 0 { (0, ((1i128 << w) - 1) >> s) } else { full }
                    }
                    _ => if a >= 0 { (0, b) } else { full },
                }
            }
            AShr => match self.as_int(n.a[1]) {
                Some(s) if (0..64).contains(&s) => {
                    let (a, b) = i(0);
                    (a >> s, b >> s)
                }
                _ => full,
            },
            BAnd => {
                let (a, b) = i(0);
                let (c, d) = i(1);
                if a >= 0 && c >= 0 { (0, b.min(d)) } else if a >= 0 { (0, b) } else if c >= 0 { (0, d) } else { full }
            }
            BOr | BXor => {
                let (a, b) = i(0);
                let (c, d) = i(1);
                if a >= 0 && c >= 0 {
                    let m = b.max(d) as u128;
                    let k = 128 - m.leading_zeros();
                    (if n.op == BOr { a.max(c) } else { 0 }, (1i128 << k) - 1)
                } else {
                    full
                }
            }
            Trunc => {
                let (a, b) = i(0);
                if a >= full.0 && b <= full.1 { (a, b) } else { full }
            }
            ZExt => {
                let sw = self.width(n.a[0]);
                let (a, b) = i(0);
                if a >= 0 { (a, b) } else if b < 0 { (uns(a, sw), uns(b, sw)) } else { (0, (1i128 << sw) - 1) }
            }
            SExt => i(0),
            ToS | ToU => {
                if let Iv::R(l, h) = self.iv[n.a[0] as usize] {
                    if l.is_finite() && h.is_finite() && l.abs() < 1e18 && h.abs() < 1e18 {
                        return (l.trunc() as i128, h.trunc() as i128);
                    }
                }
                full
            }
            _ => full,
        }
    }
    fn iv_real(&self, n: &Node) -> (f64, f64) {
        use Op::*;
        let inf = (f64::NEG_INFINITY, f64::INFINITY);
        let r = |k: usize| self.ivr(n.a[k]);
        match n.op {
            Const => {
                let q = &self.rats[n.k as usize];
                let f = q_to_f64(q);
                if q_of_f64(f).as_ref() == Some(q) { (f, f) } else { (down(f), up(f)) }
            }
            Var => {
                let v = &self.vars[n.k as usize];
                (
                    v.lo.as_ref().map(|q| dn(q_to_f64(q))).unwrap_or(inf.0),
                    v.hi.as_ref().map(|q| upw(q_to_f64(q))).unwrap_or(inf.1),
                )
            }
            Ite => {
                let (a, b) = r(1);
                let (c, d) = r(2);
                (a.min(c), b.max(d))
            }
            FAdd => {
                let (a, b) = r(0);
                let (c, d) = r(1);
                (dn(a + c), upw(b + d))
            }
            FSub => {
                let (a, b) = r(0);
                let (c, d) = r(1);
                (dn(a - d), upw(b - c))
            }
            FMul => {
                let (a, b) = r(0);
                if n.a[0] == n.a[1] {
                    let m = a.abs().max(b.abs());
                    let l = if a <= 0.0 && b >= 0.0 { 0.0 } else { a.abs().min(b.abs()) };
                    return (dn(l * l).max(0.0), upw(m * m));
                }
                let (c, d) = r(1);
                let v = [mulb(a, c), mulb(a, d), mulb(b, c), mulb(b, d)];
                (
                    dn(v.iter().cloned().fold(f64::INFINITY, f64::min)),
                    upw(v.iter().cloned().fold(f64::NEG_INFINITY, f64::max)),
                )
            }
            FDiv => {
                let (a, b) = r(0);
                let (c, d) = r(1);
                if c > 0.0 || d < 0.0 {
                    let v = [a / c, a / d, b / c, b / d];
                    if v.iter().any(|x| x.is_nan()) {
                        return inf;
                    }
                    (
                        down(v.iter().cloned().fold(f64::INFINITY, f64::min)),
                        up(v.iter().cloned().fold(f64::NEG_INFINITY, f64::max)),
                    )
                } else if c >= 0.0 && a >= 0.0 {
                    (0.0, inf.1)
                } else {
                    inf
                }
            }
            FNeg => {
                let (a, b) = r(0);
                (-b, -a)
            }
            FAbs => {
                let (a, b) = r(0);
                if a >= 0.0 { (a, b) } else if b <= 0.0 { (-b, -a) } else { (0.0, b.max(-a)) }
            }
            FSqrt => {
                let (a, b) = r(0);
                (down(a.max(0.0).sqrt()).max(0.0), up(b.max(0.0).sqrt()))
            }
            FMin => {
                let (a, b) = r(0);
                let (c, d) = r(1);
                (a.min(c), b.min(d))
            }
            FMax => {
                let (a, b) = r(0);
                let (c, d) = r(1);
                (a.max(c), b.max(d))
            }
            FFloor => { let (a, b) = r(0); (a.floor(), b.floor()) }
            FCeil => { let (a, b) = r(0); (a.ceil(), b.ceil()) }
            FTrunc => { let (a, b) = r(0); (a.trunc(), b.trunc()) }
            FRound | FRint => { let (a, b) = r(0); ((a - 0.5).floor(), (b + 0.5).ceil()) }
            FromS => { let (a, b) = self.ivi(n.a[0]); (dn(a as f64), upw(b as f64)) }
            FromU => {
                let w = self.width(n.a[0]);
                let (a, b) = self.ivi(n.a[0]);
                if a >= 0 { (dn(a as f64), upw(b as f64)) } else { (0.0, upw((1i128 << w) as f64)) }
            }
            RndErr => {
                let (a, b) = r(0);
                (a - a.abs() * 1.2e-16 - 1e-320, b + b.abs() * 1.2e-16 + 1e-320)
            }
            Uf => self.iv_uf(n),
            _ => inf,
        }
    }
    fn iv_uf(&self, n: &Node) -> (f64, f64) {
        let inf = (f64::NEG_INFINITY, f64::INFINITY);
        let name = &self.ufs[n.k as usize];
        let (a, b) = if n.n >= 1 && self.sort(n.a[0]) == Sort::Real { self.ivr(n.a[0]) } else { inf };
        let wide = |l: f64, h: f64| (l - l.abs() * 1e-14 - 1e-300, h + h.abs() * 1e-14 + 1e-300);
        match name.as_str() {
            "exp" => { let (l, h) = wide(a.exp(), b.exp()); (l.max(0.0), h) }
            "exp2" => { let (l, h) = wide(a.exp2(), b.exp2()); (l.max(0.0), h) }
            "exp10" => { let (l, h) = wide(10f64.powf(a), 10f64.powf(b)); (l.max(0.0), h) }
            "log10" => { if b > 0.0 { (wide(a.max(0.0).log10(), 0.0).0, wide(0.0, b.log10()).1) } else { inf } }
            "ln" => { if b > 0.0 { (wide(a.max(0.0).ln(), 0.0).0, wide(0.0, b.ln()).1) } else { inf } }
            "log2" => { if b > 0.0 { (wide(a.max(0.0).log2(), 0.0).0, wide(0.0, b.log2()).1) } else { inf } }
            "sin" | "cos" => (-1.0, 1.0),
            "atan2" => (-3.1415926535897936, 3.1415926535897936),
            "hypot" => (0.0, f64::INFINITY),
            _ => inf,
        }
    }
}

fn fold_int(op: Op, x: i128, y: i128, w: u16) -> Option<i128> {
    use Op::*;
    let ux = uns(x, w);
    let uy = uns(y, w);
    Some(match op {
        Add => x + y,
        Sub => x - y,
        Mul => x.wrapping_mul(y),
        UDiv => if uy == 0 { return None } else { ux / uy },
        SDiv => if y == 0 { return None } else { x / y },
        URem => if uy == 0 { return None } else { ux % uy },
        SRem => if y == 0 { return None } else { x % y },
        Shl => if uy >= w as i128 { 0 } else { x << uy },
        LShr => if uy >= w as i128 { 0 } else { ux >> uy },
        AShr => if uy >= w as i128 { x >> 127 } else { x >> uy },
        BAnd => x & y,
        BOr => x | y,
        BXor => x ^ y,
        Eq => (x == y) as i128,
        Ult => (ux < uy) as i128,
        Ule => (ux <= uy) as i128,
        Slt => (x < y) as i128,
        Sle => (x <= y) as i128,
        _ => return None,
    })
}
