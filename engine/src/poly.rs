//! Canonical form of exact real arithmetic: polynomials over atoms (variables, uninterpreted
//! applications, ite/min/max/abs, square roots, inverses). Used so that algebraically equal terms
//! become the same term before a solver is asked. Only used in Real mode (identity elsewhere).
use crate::term::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

type Mono = Vec<(u32, u16)>;
pub type Poly = BTreeMap<Mono, Q>;
const LIMIT: usize = 3000;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Atom {
    Term(T),
    Sqrt(Vec<(Mono, Q)>),
    Inv(Vec<(Mono, Q)>),
}
#[derive(Clone, Copy, PartialEq)]
enum K {
    Term,
    Sqrt,
    Inv,
}

pub struct Canon {
    memo: HashMap<T, T>,
    pmemo: HashMap<T, Rc<Poly>>,
    atoms: Vec<(Atom, Rc<Poly>)>, // poly under a Sqrt/Inv
    amap: HashMap<Atom, u32>,
    /// replace long coefficients by short ones plus a bounded error variable (see `snap`)
    pub snapping: bool,
    smemo: HashMap<T, Rc<Poly>>,
    errs: HashMap<Vec<(Mono, Q)>, Poly>,
    nn: HashMap<T, bool>,
    /// decide comparisons by exact sum-of-squares certificates
    pub squares: bool,
}

fn key(p: &Poly) -> Vec<(Mono, Q)> {
    p.iter().map(|(a, b)| (a.clone(), b.clone())).collect()
}
fn cst(q: Q) -> Poly {
    let mut p = Poly::new();
    if !q.is_zero() {
        p.insert(vec![], q);
    }
    p
}
fn as_cst(p: &Poly) -> Option<Q> {
    if p.is_empty() {
        return Some(Q::zero());
    }
    if p.len() == 1 {
        let (m, c) = p.iter().next().unwrap();
        if m.is_empty() {
            return Some(c.clone());
        }
    }
    None
}
fn add(a: &Poly, b: &Poly, s: &Q) -> Poly {
    let mut r = a.clone();
    for (m, c) in b {
        let e = r.entry(m.clone()).or_insert_with(Q::zero);
        *e += c * s;
        if e.is_zero() {
            r.remove(m);
        }
    }
    r
}
fn scale(a: &Poly, s: &Q) -> Poly {
    if s.is_zero() {
        return Poly::new();
    }
    a.iter().map(|(m, c)| (m.clone(), c * s)).collect()
}
fn mmul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            r.push(b[j]);
            j += 1;
        } else {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        }
    }
    r
}
fn sqrt_q(q: &Q) -> Option<Q> {
    if q.is_negative() {
        return None;
    }
    let n = q.numer().sqrt();
    let d = q.denom().sqrt();
    if &(&n * &n) == q.numer() && &(&d * &d) == q.denom() {
        Some(Q::new(n, d))
    } else {
        None
    }
}

impl Canon {
    pub fn new() -> Canon {
        Canon { memo: HashMap::new(), pmemo: HashMap::new(), atoms: vec![], amap: HashMap::new(), snapping: false, smemo: HashMap::new(), errs: HashMap::new(), nn: HashMap::new(), squares: false }
    }
    fn kind(&self, a: u32) -> K {
        match self.atoms[a as usize].0 {
            Atom::Term(_) => K::Term,
            Atom::Sqrt(_) => K::Sqrt,
            Atom::Inv(_) => K::Inv,
        }
    }
    fn atom(&mut self, a: Atom, p: Poly) -> u32 {
        if let Some(&i) = self.amap.get(&a) {
            return i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push((a.clone(), Rc::new(p)));
        self.amap.insert(a, i);
        i
    }
    fn of_atom(&self, a: u32) -> Poly {
        let mut p = Poly::new();
        p.insert(vec![(a, 1)], Q::one());
        p
    }
    fn of_term(&mut self, t: T) -> Poly {
        let a = self.atom(Atom::Term(t), Poly::new());
        self.of_atom(a)
    }
    /// reduce a monomial: sqrt(p)^2 -> p, x * inv(x) -> 1; None if already reduced
    fn reduce(&mut self, m: &Mono) -> Option<(Mono, Vec<(Rc<Poly>, u16)>)> {
        let mut out: Mono = vec![];
        let mut fac: Vec<(Rc<Poly>, u16)> = vec![];
        let mut ch = false;
        for &(a, e) in m {
            if self.kind(a) == K::Sqrt && e >= 2 {
                fac.push((self.atoms[a as usize].1.clone(), e / 2));
                ch = true;
                if e % 2 == 1 {
                    out.push((a, 1));
                }
            } else {
                out.push((a, e));
            }
        }
        // x * inv(x) for a single atom x
        let invs: Vec<u32> = out.iter().filter(|x| self.kind(x.0) == K::Inv).map(|x| x.0).collect();
        for iv in invs {
            let p = self.atoms[iv as usize].1.clone();
            if p.len() == 1 {
                let (pm, pc) = p.iter().next().unwrap();
                if pm.len() == 1 && pm[0].1 == 1 && pc.is_one() {
                    let x = pm[0].0;
                    let ei = out.iter().position(|y| y.0 == iv).unwrap();
                    if let Some(ex) = out.iter().position(|y| y.0 == x) {
                        let k = out[ei].1.min(out[ex].1);
                        out[ei].1 -= k;
                        out[ex].1 -= k;
                        ch = true;
                        out.retain(|y| y.1 > 0);
                    }
                }
            }
        }
        if ch { Some((out, fac)) } else { None }
    }
    fn norm(&mut self, p: Poly) -> Option<Poly> {
        let mut need = false;
        let ms: Vec<Mono> = p.keys().cloned().collect();
        for m in &ms {
            if m.iter().any(|x| x.1 >= 2 && self.kind(x.0) == K::Sqrt) || (m.len() >= 2 && m.iter().any(|x| self.kind(x.0) == K::Inv)) {
                need = true;
                break;
            }
        }
        if !need {
            return Some(p);
        }
        let mut r = Poly::new();
        for (m, c) in p {
            match self.reduce(&m) {
                None => {
                    let mut q = Poly::new();
                    q.insert(m, c);
                    r = add(&r, &q, &Q::one());
                }
                Some((m2, fac)) => {
                    let mut q = Poly::new();
                    q.insert(m2, c);
                    for (f, e) in fac {
                        for _ in 0..e {
                            q = self.mul(&q, &f)?;
                        }
                    }
                    let q = self.norm(q)?;
                    r = add(&r, &q, &Q::one());
                }
            }
        }
        Some(r)
    }
    fn mul(&mut self, a: &Poly, b: &Poly) -> Option<Poly> {
        if a.len() * b.len() > 4 * LIMIT {
            return None;
        }
        let mut r: HashMap<Mono, Q> = HashMap::new();
        for (m, c) in a {
            for (n, d) in b {
                *r.entry(mmul(m, n)).or_insert_with(Q::zero) += c * d;
            }
        }
        let r: Poly = r.into_iter().filter(|x| !x.1.is_zero()).collect();
        if r.len() > LIMIT {
            return None;
        }
        self.norm(r)
    }
    /// p = n / d with no inverse atoms inside n and d at the top level
    fn clear(&mut self, p: &Poly) -> Option<(Poly, Poly)> {
        let mut den: BTreeMap<u32, u16> = BTreeMap::new();
        for m in p.keys() {
            for &(a, e) in m {
                if self.kind(a) == K::Inv {
                    let x = den.entry(a).or_insert(0);
                    *x = (*x).max(e);
                }
            }
        }
        if den.is_empty() {
            return Some((p.clone(), cst(Q::one())));
        }
        let mut n = Poly::new();
        for (m, c) in p {
            let mut rest: Mono = vec![];
            let mut have: HashMap<u32, u16> = HashMap::new();
            for &(a, e) in m {
                if den.contains_key(&a) {
                    have.insert(a, e);
                } else {
                    rest.push((a, e));
                }
            }
            let mut q = Poly::new();
            q.insert(rest, c.clone());
            for (&a, &e) in &den {
                let k = e - have.get(&a).copied().unwrap_or(0);
                let f = self.atoms[a as usize].1.clone();
                for _ in 0..k {
                    q = self.mul(&q, &f)?;
                }
            }
            n = add(&n, &q, &Q::one());
        }
        let mut d = cst(Q::one());
        for (&a, &e) in &den {
            let f = self.atoms[a as usize].1.clone();
            for _ in 0..e {
                d = self.mul(&d, &f)?;
            }
        }
        Some((n, d))
    }
    /// a polynomial of the same sign, with positive denominators multiplied out
    fn without_inverses(&mut self, tt: &mut Terms, p: Poly) -> Poly {
        let mut q = p.clone();
        for _ in 0..3 {
            let mut inv: Vec<u32> = vec![];
            for m in q.keys() {
                for &(a, _) in m {
                    if self.kind(a) == K::Inv && !inv.contains(&a) {
                        inv.push(a);
                    }
                }
            }
            if inv.is_empty() {
                return q;
            }
            if inv.len() > 6 {
                return p;
            }
            for a in inv {
                let d = self.atoms[a as usize].1.clone();
                let t = self.build(tt, &d);
                if tt.ivr(t).0 > 0.0 {
                    continue;
                }
                let c = d.get(&vec![] as &Mono).cloned().unwrap_or(Q::zero());
                let mut e = (*d).clone();
                e.remove(&vec![] as &Mono);
                if !c.is_positive() || !self.psd(&e) {
                    return p;
                }
            }
            match self.clear(&q) {
                Some((n, _)) if n.len() <= 600 => q = n,
                _ => return p,
            }
        }
        p
    }
    fn lead(p: &Poly) -> Q {
        p.iter().next_back().map(|x| x.1.clone()).unwrap_or(Q::one())
    }
    fn inv(&mut self, p: &Poly) -> Option<Poly> {
        if let Some(c) = as_cst(p) {
            if c.is_zero() {
                return None;
            }
            return Some(cst(c.recip()));
        }
        if p.len() == 1 {
            let (m, c) = p.iter().next().map(|(m, c)| (m.clone(), c.clone())).unwrap();
            let mut r = cst(c.recip());
            for (a, e) in m {
                let f = if self.kind(a) == K::Inv {
                    (*self.atoms[a as usize].1).clone()
                } else {
                    let q = self.of_atom(a);
                    let i = self.atom(Atom::Inv(key(&q)), q);
                    self.of_atom(i)
                };
                for _ in 0..e {
                    r = self.mul(&r, &f)?;
                }
            }
            return Some(r);
        }
        let (n, d) = self.clear(p)?;
        if n.is_empty() {
            return None;
        }
        if n.len() == 1 {
            let i = self.inv(&n)?;
            return self.mul(&d, &i);
        }
        let l = Self::lead(&n);
        let pr = scale(&n, &l.recip());
        let i = self.atom(Atom::Inv(key(&pr)), pr);
        let r = self.of_atom(i);
        let r = scale(&r, &l.recip());
        self.mul(&d, &r)
    }
    fn is_zero(&mut self, p: &Poly) -> bool {
        if p.is_empty() {
            return true;
        }
        let mut q = p.clone();
        for _ in 0..4 {
            match self.clear(&q) {
                Some((n, _)) => {
                    if n.is_empty() {
                        return true;
                    }
                    let again = n.keys().any(|m| m.iter().any(|x| self.kind(x.0) == K::Inv));
                    if !again {
                        return false;
                    }
                    q = n;
                }
                None => return false,
            }
        }
        false
    }
    /// x = sum c_i m_i with some c_i of many digits becomes sum c'_i m_i + e, where c'_i is c_i
    /// rounded to a multiple of 2^-44 and e is a fresh unknown with |e| <= sum |c_i - c'_i| |m_i|.
    /// Every value of x is kept (the true error is one of the values of e), and the same
    /// polynomial always gets the same e.
    fn snap(&mut self, tt: &mut Terms, t: T) -> Rc<Poly> {
        let p = self.poly(tt, t);
        if !self.snapping || !p.values().any(|c| c.denom().bits() > 48) {
            return p;
        }
        if let Some(q) = self.smemo.get(&t) {
            return q.clone();
        }
        let k = key(&p);
        let r = match self.errs.get(&k) {
            Some(r) => r.clone(),
            None => {
                let Some(r) = self.snap_new(tt, &p) else { return p };
                self.errs.insert(k, r.clone());
                r
            }
        };
        let r = Rc::new(r);
        self.smemo.insert(t, r.clone());
        r
    }
    fn snap_new(&mut self, tt: &mut Terms, p: &Poly) -> Option<Poly> {
        let one = Q::from_integer(BigInt::from(1u64 << 44));
        let mut r = Poly::new();
        let mut err = 0.0f64;
        for (m, c) in p {
            let mut b = 1.0f64;
            for &(a, e) in m {
                let Atom::Term(x) = self.atoms[a as usize].0 else { return None };
                let (lo, hi) = tt.ivr(x);
                b *= lo.abs().max(hi.abs()).powi(e as i32);
            }
            if !b.is_finite() {
                return None;
            }
            let q = (c * &one).round() / &one;
            err += (c - &q).abs().to_f64().unwrap_or(f64::INFINITY) * b;
            if !q.is_zero() {
                r.insert(m.clone(), q);
            }
        }
        if !err.is_finite() {
            return None;
        }
        let eb = Q::new(BigInt::from((err * 1.001 * 2f64.powi(80)).ceil() as u128 + 1), BigInt::one() << 80);
        let name = format!("rounding#{}", self.errs.len());
        let e = tt.var(&name, Sort::Real, Some(-eb.clone()), Some(eb));
        let a = self.atom(Atom::Term(e), Poly::new());
        r.insert(vec![(a, 1)], Q::one());
        Some(r)
    }
    pub fn poly(&mut self, tt: &mut Terms, t: T) -> Rc<Poly> {
        if let Some(p) = self.pmemo.get(&t) {
            return p.clone();
        }
        let n = tt.node(t).clone();
        let p = match n.op {
            Op::Const => cst(tt.as_rat(t).unwrap().clone()),
            Op::FAdd | Op::FSub => {
                let a = self.poly(tt, n.a[0]);
                let b = self.poly(tt, n.a[1]);
                let s = if n.op == Op::FAdd { Q::one() } else { -Q::one() };
                if a.len() + b.len() > LIMIT * 2 {
                    self.opaque(tt, &n)
                } else {
                    add(&a, &b, &s)
                }
            }
            Op::FNeg => {
                let a = self.poly(tt, n.a[0]);
                scale(&a, &-Q::one())
            }
            Op::FMul => {
                let a = self.poly(tt, n.a[0]);
                let b = self.poly(tt, n.a[1]);
                match self.mul(&a, &b) {
                    Some(p) => p,
                    None => self.opaque(tt, &n),
                }
            }
            Op::FDiv => {
                let a = self.poly(tt, n.a[0]);
                let b = self.poly(tt, n.a[1]);
                let r = match self.inv(&b) {
                    Some(i) => self.mul(&a, &i),
                    None => None,
                };
                match r {
                    Some(p) => {
                        // p/p -> 1, and sums that cancel
                        if self.is_zero(&p) { Poly::new() } else if let Some(c) = self.ratio(&a, &b) { cst(c) } else { p }
                    }
                    None => self.opaque(tt, &n),
                }
            }
            Op::FSqrt if self.squares && {
                let m = tt.node(n.a[0]).clone();
                m.op == Op::FMul && (m.a[0] == m.a[1] || self.canon(tt, m.a[0]) == self.canon(tt, m.a[1])) && self.nonneg(tt, m.a[0], 0)
            } =>
            {
                let m = tt.node(n.a[0]).clone();
                (*self.poly(tt, m.a[0])).clone()
            }
            Op::FSqrt => {
                let a = self.poly(tt, n.a[0]);
                if let Some(c) = as_cst(&a).and_then(|c| sqrt_q(&c)) {
                    cst(c)
                } else {
                    let mut done = None;
                    // the root of a choice with a constant branch is a choice of roots
                    if a.len() == 1 {
                        let (m, c) = a.iter().next().map(|(m, c)| (m.clone(), c.clone())).unwrap();
                        if m.len() == 1 && m[0].1 == 1 && c.is_one() {
                            if let Atom::Term(x) = self.atoms[m[0].0 as usize].0 {
                                let y = tt.node(x).clone();
                                if y.op == Op::Ite && (tt.as_rat(y.a[1]).is_some() || tt.as_rat(y.a[2]).is_some()) {
                                    let p = tt.un(Op::FSqrt, y.a[1], Sort::Real);
                                    let q = tt.un(Op::FSqrt, y.a[2], Sort::Real);
                                    let z = tt.ite(y.a[0], p, q);
                                    done = Some((*self.poly(tt, z)).clone());
                                }
                            }
                        }
                    }
                    if done.is_none() && a.len() == 1 {
                        let (m, c) = a.iter().next().map(|(m, c)| (m.clone(), c.clone())).unwrap();
                        if let Some(s) = sqrt_q(&c) {
                            if m.iter().all(|x| x.1 % 2 == 0) {
                                let h: Mono = m.iter().map(|x| (x.0, x.1 / 2)).collect();
                                let mut q = Poly::new();
                                q.insert(h, Q::one());
                                let b = self.build(tt, &q);
                                let b = tt.un(Op::FAbs, b, Sort::Real);
                                let r = self.poly(tt, b);
                                done = Some(scale(&r, &s));
                            }
                        }
                    }
                    match done {
                        Some(r) => r,
                        None => {
                            let p = (*a).clone();
                            let i = self.atom(Atom::Sqrt(key(&p)), p);
                            self.of_atom(i)
                        }
                    }
                }
            }
            Op::FAbs => {
                let a = self.snap(tt, n.a[0]);
                let l = Self::lead(&a);
                let pr = scale(&a, &l.recip());
                let b = self.build(tt, &pr);
                let x = tt.un(Op::FAbs, b, Sort::Real);
                let r = if x == b || tt.node(x).op != Op::FAbs {
                    let mut v = self.poly(tt, x);
                    if tt.node(x).op == Op::FAbs {
                        v = Rc::new(self.of_term(x));
                    }
                    (*v).clone()
                } else {
                    self.of_term(x)
                };
                scale(&r, &l.abs())
            }
            Op::Ite if n.sort == Sort::Real => {
                // the part common to both branches is taken out
                let c = self.canon(tt, n.a[0]);
                let a = self.snap(tt, n.a[1]);
                let b = self.snap(tt, n.a[2]);
                let mut common = Poly::new();
                for (m, q) in a.iter() {
                    if b.get(m) == Some(q) {
                        common.insert(m.clone(), q.clone());
                    }
                }
                let (a, b) = if common.is_empty() {
                    ((*a).clone(), (*b).clone())
                } else {
                    (add(&a, &common, &-Q::one()), add(&b, &common, &-Q::one()))
                };
                let ta = self.build(tt, &a);
                let tb = self.build(tt, &b);
                let x = tt.ite(c, ta, tb);
                let r = if tt.node(x).op == Op::Ite || x == t {
                    Rc::new(self.of_term(x))
                } else {
                    self.poly(tt, x)
                };
                add(&common, &r, &Q::one())
            }
            Op::Var => self.of_term(t),
            Op::FCvt => (*self.poly(tt, n.a[0])).clone(),
            _ => {
                let x = self.rebuild(tt, &n);
                if x == t {
                    self.of_term(t)
                } else {
                    let nx = tt.node(x).op;
                    if matches!(nx, Op::Const | Op::FAdd | Op::FSub | Op::FNeg | Op::FMul | Op::FDiv | Op::FSqrt | Op::FAbs) {
                        (*self.poly(tt, x)).clone()
                    } else {
                        self.of_term(x)
                    }
                }
            }
        };
        let p = Rc::new(p);
        self.pmemo.insert(t, p.clone());
        p
    }
    /// is the term known to be >= 0: squares, products, sums, and quadratic forms with an exact
    /// sum-of-squares (LDL) certificate
    pub fn nonneg(&mut self, tt: &mut Terms, t: T, depth: u32) -> bool {
        if let Some(&b) = self.nn.get(&t) {
            return b;
        }
        let r = self.nonneg_new(tt, t, depth);
        self.nn.insert(t, r);
        r
    }
    fn nonneg_new(&mut self, tt: &mut Terms, t: T, depth: u32) -> bool {
        if tt.ivr(t).0 >= 0.0 {
            return true;
        }
        if depth > 12 {
            return false;
        }
        let n = tt.node(t).clone();
        let ok = match n.op {
            Op::FMul => n.a[0] == n.a[1] || (self.nonneg(tt, n.a[0], depth + 1) && self.nonneg(tt, n.a[1], depth + 1)),
            Op::FDiv | Op::FAdd => self.nonneg(tt, n.a[0], depth + 1) && self.nonneg(tt, n.a[1], depth + 1),
            Op::FSqrt | Op::FAbs => true,
            Op::FCvt => self.nonneg(tt, n.a[0], depth + 1),
            Op::Ite => self.nonneg(tt, n.a[1], depth + 1) && self.nonneg(tt, n.a[2], depth + 1),
            _ => false,
        };
        if ok {
            return true;
        }
        if n.op == Op::FMul {
            let (a, b) = (self.poly(tt, n.a[0]), self.poly(tt, n.a[1]));
            if self.ratio(&a, &b).map(|c| c.is_positive()).unwrap_or(false) {
                return true;
            }
        }
        let p = self.poly(tt, t);
        self.psd(&p)
    }
    /// a polynomial of degree <= 2 that is a sum of squares
    fn psd(&mut self, p: &Poly) -> bool {
        if p.len() > 400 {
            return false;
        }
        let mut vars: Vec<u32> = vec![];
        for m in p.keys() {
            if m.iter().map(|x| x.1 as u32).sum::<u32>() > 2 {
                return false;
            }
            for &(a, _) in m {
                if !vars.contains(&a) {
                    vars.push(a);
                }
            }
        }
        // the last row stands for the constant 1
        let n = vars.len() + 1;
        let mut a = vec![vec![Q::zero(); n]; n];
        let two = Q::from_integer(BigInt::from(2));
        for (m, c) in p.iter() {
            let ix = |k: u32| vars.iter().position(|v| *v == k).unwrap();
            let (i, j) = match m.len() {
                0 => (n - 1, n - 1),
                1 if m[0].1 == 2 => (ix(m[0].0), ix(m[0].0)),
                1 => (ix(m[0].0), n - 1),
                _ => (ix(m[0].0), ix(m[1].0)),
            };
            if i == j {
                a[i][i] += c;
            } else {
                a[i][j] += c / &two;
                a[j][i] += c / &two;
            }
        }
        for k in 0..n {
            if a[k][k].is_negative() {
                return false;
            }
            if a[k][k].is_zero() {
                if (k..n).any(|j| !a[k][j].is_zero()) {
                    return false;
                }
                continue;
            }
            for i in k + 1..n {
                let f = &a[i][k] / &a[k][k];
                for j in k + 1..n {
                    let d = &f * &a[k][j];
                    a[i][j] -= d;
                }
            }
        }
        true
    }
    /// a comparison decided by `nonneg`
    pub fn signed(&mut self, tt: &mut Terms, c: T) -> T {
        let n = tt.node(c).clone();
        if !matches!(n.op, Op::FLt | Op::FLe) || tt.sort(n.a[0]) != Sort::Real {
            return c;
        }
        let (x, y) = (n.a[0], n.a[1]);
        let z = |tt: &Terms, t: T| tt.as_rat(t).map(|q| q.is_zero()).unwrap_or(false);
        if n.op == Op::FLt {
            // x < y is false when x - y >= 0
            let d = if z(tt, y) { x } else { tt.fop2(Op::FSub, x, y) };
            if self.nonneg(tt, d, 0) { 0 } else { c }
        } else {
            let d = if z(tt, x) { y } else { tt.fop2(Op::FSub, y, x) };
            if self.nonneg(tt, d, 0) { 1 } else { c }
        }
    }
    /// a = c*b for a constant c
    fn ratio(&mut self, a: &Poly, b: &Poly) -> Option<Q> {
        if a.len() != b.len() || b.is_empty() {
            return None;
        }
        let c = Self::lead(a) / Self::lead(b);
        for ((m, x), (n, y)) in a.iter().zip(b.iter()) {
            if m != n || x != &(y * &c) {
                return None;
            }
        }
        Some(c)
    }
    /// y = k*x for an integer 0 < |k| <= 4
    pub fn multiple(&mut self, tt: &mut Terms, y: T, x: T) -> Option<i64> {
        let (p, q) = (self.poly(tt, y), self.poly(tt, x));
        let c = self.ratio(&p, &q)?;
        if !c.is_integer() {
            return None;
        }
        c.to_integer().to_i64().filter(|k| *k != 0 && k.abs() <= 4)
    }
    fn opaque(&mut self, tt: &mut Terms, n: &Node) -> Poly {
        let a = self.canon(tt, n.a[0]);
        let x = if n.n == 1 {
            tt.un_k(n.op, a, n.sort, n.k)
        } else {
            let b = self.canon(tt, n.a[1]);
            tt.fop2(n.op, a, b)
        };
        self.of_term(x)
    }
    fn rebuild(&mut self, tt: &mut Terms, n: &Node) -> T {
        let mut a = [0; 3];
        for i in 0..n.n as usize {
            a[i] = self.canon(tt, n.a[i]);
        }
        match n.op {
            Op::Not => tt.not(a[0]),
            Op::And => tt.and(a[0], a[1]),
            Op::Or => tt.or(a[0], a[1]),
            Op::Xor => tt.xor(a[0], a[1]),
            Op::Ite => tt.ite(a[0], a[1], a[2]),
            Op::Uf => {
                let name = tt.ufs[n.k as usize].clone();
                tt.uf(&name, &a[..n.n as usize], n.sort)
            }
            Op::RndErr => tt.un_k(n.op, a[0], n.sort, n.k),
            _ if n.n == 1 => tt.un_k(n.op, a[0], n.sort, n.k),
            _ if n.n == 2 => tt.bin2(n.op, a[0], a[1], n.sort),
            _ => panic!("rebuild {:?}", n),
        }
    }
    fn build(&mut self, tt: &mut Terms, p: &Poly) -> T {
        if p.is_empty() {
            return tt.rat(Q::zero());
        }
        let mut sum: Option<T> = None;
        // constant last
        let mut items: Vec<(&Mono, &Q)> = p.iter().collect();
        items.reverse();
        for (m, c) in items {
            let mut num: Option<T> = None;
            let mut den: Option<T> = None;
            for &(a, e) in m {
                let (base, inv) = match &self.atoms[a as usize].0.clone() {
                    Atom::Term(t) => (*t, false),
                    Atom::Sqrt(_) => {
                        let q = self.atoms[a as usize].1.clone();
                        let b = self.build(tt, &q);
                        (tt.un(Op::FSqrt, b, Sort::Real), false)
                    }
                    Atom::Inv(_) => {
                        let q = self.atoms[a as usize].1.clone();
                        (self.build(tt, &q), true)
                    }
                };
                for _ in 0..e {
                    let s = if inv { &mut den } else { &mut num };
                    *s = Some(match *s {
                        None => base,
                        Some(x) => tt.fop2(Op::FMul, x, base),
                    });
                }
            }
            let k = tt.rat(c.clone());
            let mut t = match num {
                None => k,
                Some(x) => {
                    if c.is_one() { x } else { tt.fop2(Op::FMul, k, x) }
                }
            };
            if let Some(d) = den {
                t = tt.fop2(Op::FDiv, t, d);
            }
            sum = Some(match sum {
                None => t,
                Some(s) => tt.fop2(Op::FAdd, s, t),
            });
        }
        sum.unwrap()
    }
    pub fn canon(&mut self, tt: &mut Terms, t: T) -> T {
        if tt.mode != Mode::Real {
            return t;
        }
        if let Some(&x) = self.memo.get(&t) {
            return x;
        }
        let n = tt.node(t).clone();
        let r = match n.sort {
            Sort::Real => {
                let p = self.snap(tt, t);
                self.build(tt, &p)
            }
            _ => match n.op {
                Op::Const | Op::Var => t,
                Op::FEq | Op::FLt | Op::FLe if tt.sort(n.a[0]) == Sort::Real => {
                    let a = self.snap(tt, n.a[0]);
                    let b = self.snap(tt, n.a[1]);
                    let mut p = add(&b, &a, &-Q::one());
                    if self.squares && n.op != Op::FEq {
                        p = self.without_inverses(tt, p);
                    }
                    if self.is_zero(&p) {
                        (n.op != Op::FLt) as T
                    } else if let Some(c) = as_cst(&p) {
                        match n.op {
                            Op::FEq => 0,
                            _ => c.is_positive() as T,
                        }
                    } else {
                        let l = Self::lead(&p);
                        let l = if n.op == Op::FEq { l } else { l.abs() };
                        let p = scale(&p, &l.recip());
                        let z = tt.rat(Q::zero());
                        // keep a constant on the other side so intervals can decide it
                        let c = p.get(&vec![] as &Mono).cloned();
                        match c {
                            Some(c) => {
                                let mut q = p.clone();
                                q.remove(&vec![] as &Mono);
                                let b = self.build(tt, &q);
                                let k = tt.rat(-c);
                                tt.cmp(n.op, k, b)
                            }
                            None => {
                                let b = self.build(tt, &p);
                                tt.cmp(n.op, z, b)
                            }
                        }
                    }
                }
                _ => self.rebuild(tt, &n),
            },
        };
        self.memo.insert(t, r);
        // canonical terms are their own canonical form
        self.memo.entry(r).or_insert(r);
        r
    }
    /// y = const + sum coef_i * log(z_i) with (half-)integer coefficients: (twice coef, z)
    /// the logarithms that occur linearly in y with a coefficient outside [0, 1): (floor of the coefficient, argument, logarithm)
    pub fn log_parts(&mut self, tt: &mut Terms, y: T, log: &str) -> Vec<(i64, T, T)> {
        let p = self.poly(tt, y);
        let mut out = vec![];
        for (m, c) in p.iter() {
            if m.len() != 1 || m[0].1 != 1 {
                continue;
            }
            let Atom::Term(t) = self.atoms[m[0].0 as usize].0 else { continue };
            let n = tt.node(t);
            if n.op != Op::Uf || tt.ufs[n.k as usize] != log || n.n != 1 {
                continue;
            }
            match c.floor().to_integer().to_i64() {
                Some(k) if k != 0 && k.abs() <= 16 => out.push((k, n.a[0], t)),
                _ => {}
            }
        }
        out
    }
    pub fn has_log(&mut self, tt: &mut Terms, y: T, log: &str) -> bool {
        let p = self.poly(tt, y);
        p.iter().any(|(m, _)| {
            m.len() == 1 && m[0].1 == 1 && matches!(self.atoms[m[0].0 as usize].0, Atom::Term(t) if { let n = tt.node(t); n.op == Op::Uf && tt.ufs[n.k as usize] == log })
        })
    }
    pub fn linear_in_uf(&mut self, tt: &mut Terms, y: T, log: &str) -> Option<(Vec<(i64, T)>, Q)> {
        let p = self.poly(tt, y);
        let mut out = vec![];
        let mut c0 = Q::zero();
        for (m, c) in p.iter() {
            if m.is_empty() {
                c0 = c.clone();
                continue;
            }
            if m.len() != 1 || m[0].1 != 1 {
                return None;
            }
            let Atom::Term(t) = self.atoms[m[0].0 as usize].0 else { return None };
            let n = tt.node(t);
            if n.op != Op::Uf || tt.ufs[n.k as usize] != log || n.n != 1 {
                return None;
            }
            let tw = c * Q::from_integer(BigInt::from(2));
            let r = tw.round();
            let d = (&tw - &r).abs();
            if d > Q::new(BigInt::one(), BigInt::from(1_000_000_000_000i64)) {
                return None;
            }
            let k = r.to_integer().to_i64()?;
            if k.abs() > 16 {
                return None;
            }
            out.push((k, n.a[0]));
        }
        Some((out, c0))
    }
}
