//! Floating-point evaluation of terms at chosen points: proposes counterexamples of assertions
//! that the solvers leave open. A proposal only counts after the native replay has failed.
use crate::term::*;
use num_traits::ToPrimitive;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug)]
pub enum V {
    F(f64),
    I(i128),
    B(bool),
}

pub struct Ev<'a> {
    tt: &'a Terms,
    memo: HashMap<T, Option<V>>,
}
impl<'a> Ev<'a> {
    pub fn new(tt: &'a Terms, env: HashMap<T, V>) -> Self {
        Ev { tt, memo: env.into_iter().map(|(k, v)| (k, Some(v))).collect() }
    }
    pub fn get(&mut self, root: T) -> Option<V> {
        let mut st = vec![root];
        while let Some(&t) = st.last() {
            if self.memo.contains_key(&t) {
                st.pop();
                continue;
            }
            let n = self.tt.node(t);
            let mut ready = true;
            for k in 0..n.n as usize {
                if !self.memo.contains_key(&n.a[k]) {
                    st.push(n.a[k]);
                    ready = false;
                }
            }
            if ready {
                let v = self.step(n);
                let v = match v {
                    Some(V::F(x)) if !x.is_finite() => None,
                    v => v,
                };
                self.memo.insert(t, v);
                st.pop();
            }
        }
        self.memo[&root]
    }
    fn f(&self, t: T) -> Option<f64> {
        match self.memo.get(&t)? {
            Some(V::F(x)) => Some(*x),
            _ => None,
        }
    }
    fn i(&self, t: T) -> Option<i128> {
        match self.memo.get(&t)? {
            Some(V::I(x)) => Some(*x),
            _ => None,
        }
    }
    fn b(&self, t: T) -> Option<bool> {
        match self.memo.get(&t)? {
            Some(V::B(x)) => Some(*x),
            _ => None,
        }
    }
    fn step(&self, n: &Node) -> Option<V> {
        use Op::*;
        let a = n.a;
        let w = if let Sort::Int(w) = n.sort { w } else { 64 };
        let int = |v: i128| Some(V::I(canon(v, w)));
        Some(match n.op {
            Const => match n.sort {
                Sort::Bool => V::B(n.k != 0),
                Sort::Int(_) => V::I(n.k as i128),
                Sort::Real => V::F(q_to_f64(&self.tt.rats[n.k as usize])),
                _ => return None,
            },
            Var => return None,
            Not => V::B(!self.b(a[0])?),
            And => match (self.b(a[0]), self.b(a[1])) {
                (Some(false), _) | (_, Some(false)) => V::B(false),
                (x, y) => V::B(x? && y?),
            },
            Or => match (self.b(a[0]), self.b(a[1])) {
                (Some(true), _) | (_, Some(true)) => V::B(true),
                (x, y) => V::B(x? || y?),
            },
            Xor => V::B(self.b(a[0])? ^ self.b(a[1])?),
            Ite => return if self.b(a[0])? { self.memo[&a[1]] } else { self.memo[&a[2]] },
            Add => return int(self.i(a[0])? + self.i(a[1])?),
            Sub => return int(self.i(a[0])? - self.i(a[1])?),
            Mul => return int(self.i(a[0])?.checked_mul(self.i(a[1])?)?),
            UDiv | URem | SDiv | SRem => {
                let (x, y) = (self.i(a[0])?, self.i(a[1])?);
                let (x, y) = if matches!(n.op, UDiv | URem) { (uns(x, w), uns(y, w)) } else { (x, y) };
                if y == 0 {
                    return None;
                }
                return int(if matches!(n.op, UDiv | SDiv) { x / y } else { x % y });
            }
            Shl | LShr | AShr => {
                let (x, s) = (self.i(a[0])?, self.i(a[1])?);
                if !(0..64).contains(&s) {
                    return None;
                }
                return int(match n.op {
                    Shl => x << s,
                    LShr => uns(x, w) >> s,
                    _ => x >> s,
                });
            }
            BAnd => return int(self.i(a[0])? & self.i(a[1])?),
            BOr => return int(self.i(a[0])? | self.i(a[1])?),
            BXor => return int(self.i(a[0])? ^ self.i(a[1])?),
            Trunc | SExt => return int(self.i(a[0])?),
            ZExt => return int(uns(self.i(a[0])?, self.tt.width(a[0]))),
            Eq => V::B(self.i(a[0])? == self.i(a[1])?),
            Slt => V::B(self.i(a[0])? < self.i(a[1])?),
            Sle => V::B(self.i(a[0])? <= self.i(a[1])?),
            Ult | Ule => {
                let w = self.tt.width(a[0]);
                let (x, y) = (uns(self.i(a[0])?, w), uns(self.i(a[1])?, w));
                V::B(if n.op == Ult { x < y } else { x <= y })
            }
            FAdd => V::F(self.f(a[0])? + self.f(a[1])?),
            FSub => V::F(self.f(a[0])? - self.f(a[1])?),
            FMul => V::F(self.f(a[0])? * self.f(a[1])?),
            FDiv => V::F(self.f(a[0])? / self.f(a[1])?),
            FNeg => V::F(-self.f(a[0])?),
            FAbs => V::F(self.f(a[0])?.abs()),
            FSqrt => V::F(self.f(a[0])?.max(0.0).sqrt()),
            FMin => V::F(self.f(a[0])?.min(self.f(a[1])?)),
            FMax => V::F(self.f(a[0])?.max(self.f(a[1])?)),
            FFma => V::F(self.f(a[0])? * self.f(a[1])? + self.f(a[2])?),
            FFloor => V::F(self.f(a[0])?.floor()),
            FCeil => V::F(self.f(a[0])?.ceil()),
            FTrunc => V::F(self.f(a[0])?.trunc()),
            FRound => V::F(self.f(a[0])?.round()),
            FEq => V::B(self.f(a[0])? == self.f(a[1])?),
            FLt => V::B(self.f(a[0])? < self.f(a[1])?),
            FLe => V::B(self.f(a[0])? <= self.f(a[1])?),
            FUno => V::B(false),
            FromS => V::F(self.i(a[0])? as f64),
            FromU => V::F(uns(self.i(a[0])?, self.tt.width(a[0])) as f64),
            ToS | ToU => return int(self.f(a[0])?.trunc() as i128),
            FCvt | RndErr => V::F(self.f(a[0])?),
            Uf => {
                let x = self.f(a[0])?;
                let y = if n.n > 1 { self.f(a[1])? } else { 0.0 };
                V::F(match self.tt.ufs[n.k as usize].as_str() {
                    "exp" => x.exp(),
                    "exp2" => x.exp2(),
                    "ln" => x.ln(),
                    "log2" => x.log2(),
                    "log10" => x.log10(),
                    "exp10" => 10f64.powf(x),
                    "sin" => x.sin(),
                    "cos" => x.cos(),
                    "tan" => x.tan(),
                    "sinh" => x.sinh(),
                    "cosh" => x.cosh(),
                    "pow" => x.powf(y),
                    "atan2" => x.atan2(y),
                    _ => return None,
                })
            }
            FRint | FInf | BitsOf | BitsKey | FromBits => return None,
        })
    }
    pub fn holds(&mut self, t: T) -> bool { matches!(self.get(t), Some(V::B(true))) }
}

/// the k-th point to try for an input of the given range
pub fn point(iv: &Iv, k: u64, rng: &mut u64) -> Option<V> {
    *rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    let x = *rng >> 33;
    match iv {
        Iv::R(l, h) if l.is_finite() && h.is_finite() => {
            let mut p = l + (h - l) * ((x / 8 % 1023 + 1) as f64 / 1024.0);
            if k % 4 == 1 {
                // mostly small values
                if *l <= 0.0 && *h >= 0.0 {
                    p = p / 64.0;
                }
            } else if k % 4 == 2 && x % 4 == 0 {
                p = *l;
            } else if k % 4 == 2 && x % 4 == 1 {
                p = *h;
            } else if k % 4 == 3 && x % 4 == 0 && *l <= 0.0 && *h >= 0.0 {
                p = 0.0;
            }
            Some(V::F(p))
        }
        Iv::I(l, h) => {
            let n = (h - l).to_u64()?;
            let r = match x % 4 {
                0 if k % 2 == 1 => 0,
                1 if k % 2 == 1 => n,
                _ => (x / 4) % (n.saturating_add(1)).max(1),
            };
            Some(V::I(l + r as i128))
        }
        _ => None,
    }
}
