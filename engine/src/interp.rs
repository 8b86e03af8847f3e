//! Symbolic interpreter for the LLVM IR of the real crate.
//! A state is an explicit stack of frames, a copy-on-write memory and a path condition; forks clone it.
use crate::ll::*;
use crate::smt::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(T),
    W(Box<u128>),
    /// a 128-bit integer made of two 64-bit halves (low, high), at least one symbolic
    P(Rc<(Val, Val)>),
    A(Rc<Vec<Val>>),
}

#[derive(Debug)]
pub enum Ev {
    /// needs the truth value of a condition
    Fork(T),
    /// needs the concrete value of an integer term
    Conc(T),
    Panic(String),
    AssumeFail,
    /// the path belongs to another shard
    Skip,
    /// fork into n concrete choices, stored under the given key
    Pick(String, u64),
    Done,
    Err(String),
}
pub type R<X> = Result<X, Ev>;
pub fn err<X>(s: impl Into<String>) -> R<X> {
    Err(Ev::Err(s.into()))
}

pub const FUNC_BASE: u64 = 0x7000_0000;

pub fn static_addr(c: &Const) -> Option<u64> {
    Some(match c {
        Const::Global(g) => (*g as u64 + 1) << 32,
        Const::Func(f) => (FUNC_BASE + *f as u64) << 32,
        Const::Off(b, o) => static_addr(b)?.wrapping_add(*o as u64),
        Const::Int(v) => *v as u64,
        Const::Zero | Const::Undef => 0,
        Const::Sub(a, b) => static_addr(a)?.wrapping_sub(static_addr(b)?),
        Const::Trunc(a, w) => mask128(static_addr(a)? as u128, *w) as u64,
        _ => return None,
    })
}

#[derive(Clone, Debug)]
pub struct Ent {
    pub len: u8,
    pub t: T,
}
#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, Ent>,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: BTreeMap::new() }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: usize,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub dst: u32,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub pc: Vec<T>,
    pub known: HashMap<T, bool>,
    pub kval: HashMap<T, i128>,
    pub picks: HashMap<String, u64>,
    pub names: HashMap<String, u32>,
    /// symbolic inputs of this path: (name, term, kind)
    pub inputs: Vec<(String, T, char)>,
    pub trace: Vec<(String, Val)>,
    pub files: Rc<BTreeMap<String, Vec<u8>>>,
    pub fds: Vec<Option<(String, u64)>>,
    pub steps: u64,
    pub unknown_pc: bool,
    /// already assigned to this shard
    pub mine: bool,
}

#[derive(Clone, Debug)]
pub struct Cex {
    pub kind: String,
    pub msg: String,
    pub model: Vec<(String, char, Q)>,
    pub picks: Vec<(String, u64)>,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_const: u64,
    pub proved: u64,
    pub undecided: Vec<String>,
    pub errors: Vec<String>,
    pub oneshot_queries: u64,
    pub oneshot_time: f64,
    pub by_solver: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub panics_checked: u64,
}

pub struct Opts {
    pub deadline: std::time::Instant,
    /// seconds to go on for after a counterexample
    pub hurry: Option<f64>,
    pub hunts: usize,
    pub q_timeout: f64,
    pub max_paths: u64,
    pub max_cex: usize,
    pub max_steps: u64,
    pub concrete: Option<HashMap<String, f64>>,
    pub shard: Option<(u64, u64)>,
    pub verbose: bool,
    pub tier: u64,
    pub fixed_picks: HashMap<String, u64>,
    pub merge: bool,
    /// assume that symbolic denominators are not zero
    pub nonzero: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum FK {
    Normal,
    Builtin,
    Panic,
    Unknown,
}

pub struct Eng {
    pub m: Module,
    pub tt: Terms,
    pub ses: Session,
    pub opts: Opts,
    pub stats: Stats,
    pub cex: Vec<Cex>,
    pub work: Vec<State>,
    kinds: Vec<Option<FK>>,
    gtemplates: HashMap<u32, Rc<Obj>>,
    pub fseen: HashSet<u32>,
    pub dbgseen: HashSet<u32>,
    pub canon: crate::poly::Canon,
    pub exps: Vec<(T, T)>,
    pub traces: Vec<Vec<(String, String)>>,
    pub cex_msgs: HashMap<String, u32>,
    pub slog: Vec<(String, f64)>,
    pub pdoms: HashMap<u32, Rc<Vec<u32>>>,
    pub regtypes: HashMap<u32, Rc<Vec<Option<Ty>>>>,
    pub merge_depth: u32,
    pub merge_queries: u32,
}

fn lo32(a: u64) -> u32 {
    a as u32
}

pub fn zero_val(t: &Ty) -> Val {
    match t {
        Ty::Int(w) if *w > 64 => Val::W(Box::new(0)),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero_val).collect())),
        Ty::Arr(n, e) | Ty::Vec(n, e) => {
            let z = zero_val(e);
            Val::A(Rc::new(vec![z; *n as usize]))
        }
        _ => Val::C(0),
    }
}
pub fn maskw(v: u64, w: u32) -> u64 {
    if w >= 64 { v } else { v & ((1u64 << w) - 1) }
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}

impl Eng {
    pub fn new(m: Module, mode: Mode, opts: Opts) -> Eng {
        let ses = Session::new(mode, (opts.q_timeout * 1000.0).min(4000.0) as u64);
        let n = m.fnames.len();
        Eng {
            m,
            tt: Terms::new(mode),
            ses,
            opts,
            stats: Stats::default(),
            cex: vec![],
            work: vec![],
            kinds: vec![None; n],
            gtemplates: HashMap::new(),
            fseen: HashSet::new(),
            dbgseen: HashSet::new(),
            canon: crate::poly::Canon::new(),
            exps: vec![],
            traces: vec![],
            cex_msgs: HashMap::new(),
            pdoms: HashMap::new(),
            regtypes: HashMap::new(),
            merge_depth: 0,
            merge_queries: 0,
            slog: vec![],
        }
    }
    pub fn real(&self) -> bool {
        self.tt.mode != Mode::Fp
    }

    pub fn init_state(&mut self, entry: &str) -> Result<State, String> {
        let id = *self.m.fmap.get(entry).ok_or_else(|| format!("no function {}", entry))?;
        let f = self.m.func(id).ok_or("entry has no body")?;
        let ng = self.m.globals.len();
        let mut st = State {
            frames: vec![],
            mem: vec![None; ng],
            free: vec![],
            pc: vec![],
            known: HashMap::new(),
            kval: HashMap::new(),
            picks: HashMap::new(),
            names: HashMap::new(),
            inputs: vec![],
            trace: vec![],
            files: Rc::new(BTreeMap::new()),
            fds: vec![None; 3],
            steps: 0,
            mine: false,
            unknown_pc: false,
        };
        let nregs = f.nregs;
        self.fseen.insert(id);
        st.frames.push(Frame { f, block: 0, ip: 0, regs: vec![Val::C(0); nregs], allocas: vec![], dst: NODST, normal: None });
        Ok(st)
    }

    // ---------------- memory
    pub fn alloc(&self, st: &mut State, n: usize) -> u64 {
        let o = Rc::new(Obj::new(n));
        if let Some(id) = st.free.pop() {
            st.mem[id as usize] = Some(o);
            return (id as u64 + 1) << 32;
        }
        st.mem.push(Some(o));
        (st.mem.len() as u64) << 32
    }
    pub fn release(&self, st: &mut State, id: u32) {
        st.mem[id as usize] = None;
        st.free.push(id);
    }
    fn global_obj(&mut self, g: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.gtemplates.get(&g) {
            return Ok(o.clone());
        }
        let (t, c) = self.m.global_init(g);
        let o = match c {
            None => Obj::new(4096),
            Some(c) => {
                let mut o = Obj::new(t.size() as usize);
                write_const(&mut o.data, 0, &t, &c)?;
                o
            }
        };
        let o = Rc::new(o);
        self.gtemplates.insert(g, o.clone());
        Ok(o)
    }
    pub fn locate(&mut self, st: &mut State, addr: u64, n: usize, what: &str) -> R<(usize, u32)> {
        let hi = addr >> 32;
        if hi == 0 || hi > st.mem.len() as u64 {
            return err(format!("{} at invalid address {:#x}", what, addr));
        }
        let id = (hi - 1) as usize;
        if st.mem[id].is_none() {
            if id < self.m.globals.len() {
                st.mem[id] = Some(self.global_obj(id as u32)?);
            } else {
                return err(format!("{} of freed memory", what));
            }
        }
        let off = lo32(addr);
        let len = st.mem[id].as_ref().unwrap().data.len();
        if off as usize + n > len {
            return err(format!("{} of {} bytes at offset {} of an object of {} bytes (out of bounds)", what, n, off, len));
        }
        Ok((id, off))
    }
    fn overlaps(o: &Obj, off: u32, n: u32) -> bool {
        if o.sym.is_empty() {
            return false;
        }
        for (k, e) in o.sym.range(off.saturating_sub(15)..off + n) {
            if *k + e.len as u32 > off {
                return true;
            }
        }
        false
    }
    pub fn load(&mut self, st: &mut State, ty: &Ty, addr: u64) -> R<Val> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                let (offs, _) = ty.layout();
                let mut v = vec![];
                for (i, o) in offs.iter().enumerate() {
                    v.push(self.load(st, &ty.elem(i), addr + o)?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
            Ty::Vec(n, e) => {
                let s = e.size();
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, e, addr + i * s)?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
            _ => {}
        }
        let n = ty.size() as usize;
        let (id, off) = self.locate(st, addr, n, "load")?;
        let o = st.mem[id].as_ref().unwrap().clone();
        if !Self::overlaps(&o, off, n as u32) {
            let d = &o.data[off as usize..off as usize + n];
            if n > 8 {
                let mut v = 0u128;
                for (i, b) in d.iter().take(16).enumerate() {
                    v |= (*b as u128) << (8 * i);
                }
                return Ok(Val::W(Box::new(v)));
            }
            let mut v = 0u64;
            for (i, b) in d.iter().enumerate() {
                v |= (*b as u64) << (8 * i);
            }
            return Ok(Val::C(if let Ty::Int(w) = ty { maskw(v, *w) } else { v }));
        }
        if n > 8 {
            let i64t = Ty::Int(64);
            let a = self.load(st, &i64t, addr)?;
            let b = self.load(st, &i64t, addr + 8)?;
            return Ok(Val::P(Rc::new((a, b))));
        }
        let t = self.load_bits(&o, off, n as u32, ty.is_float())?;
        match ty {
            Ty::Int(1) => self.trunc_bool(t),
            _ => Ok(self.sv(t, ty)),
        }
    }
    /// a choice between constant bit patterns as a choice between floats
    fn ite_float(&mut self, t: T, w: u32) -> Option<T> {
        if let Some(x) = self.tt.as_int(t) {
            let f = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as i64 as u64) };
            if self.real() && !f.is_finite() {
                return None;
            }
            return Some(self.tt.fconst(f, w));
        }
        let n = self.tt.node(t).clone();
        match n.op {
            Op::Ite => {
                let a = self.ite_float(n.a[1], w)?;
                let b = self.ite_float(n.a[2], w)?;
                Some(self.tt.ite(n.a[0], a, b))
            }
            Op::BitsOf => Some(n.a[0]),
            _ => None,
        }
    }
    pub fn load_bits(&mut self, o: &Obj, off: u32, n: u32, want_float: bool) -> R<T> {
        let isort = Sort::Int((8 * n) as u16);
        if let Some(e) = o.sym.get(&off) {
            if e.len as u32 == n {
                let s = self.tt.sort(e.t);
                let isf = !matches!(s, Sort::Int(_));
                return Ok(match (isf, want_float) {
                    (true, true) | (false, false) => e.t,
                    (true, false) => self.tt.un(Op::BitsOf, e.t, isort),
                    (false, true) => {
                        let fs = self.tt.fsort(8 * n);
                        if let Some(r) = self.ite_float(e.t, 8 * n) {
                            return Ok(r);
                        }
                        let r = self.tt.un(Op::FromBits, e.t, fs);
                        if fs == Sort::Real && self.tt.node(r).op == Op::FromBits {
                            return err("float made of symbolic integer bits");
                        }
                        r
                    }
                });
            }
        }
        // compose from pieces
        let mut acc = self.tt.int(0, (8 * n) as u16);
        let w = (8 * n) as u16;
        let mut p = off;
        while p < off + n {
            // entry covering p?
            let mut found = None;
            for (k, e) in o.sym.range(p.saturating_sub(15)..=p) {
                if *k + e.len as u32 > p {
                    found = Some((*k, e.clone()));
                }
            }
            match found {
                None => {
                    let b = o.data[p as usize];
                    let bt = self.tt.int(b as i128, 64);
                    let sh = self.tt.int(8 * (p - off) as i128, w);
                    let bt = self.tt.un(Op::Trunc, bt, Sort::Int(w));
                    let x = self.tt.ibin(Op::Shl, bt, sh);
                    acc = self.tt.ibin(Op::BOr, acc, x);
                    p += 1;
                }
                Some((k, e)) => {
                    let ew = 8 * e.len as u16;
                    let mut t = e.t;
                    if !matches!(self.tt.sort(t), Sort::Int(_)) {
                        t = self.tt.un(Op::BitsOf, t, Sort::Int(ew));
                    }
                    let start = p - k;
                    let take = (e.len as u32 - start).min(off + n - p);
                    let s = self.tt.int(8 * start as i128, ew);
                    let mut x = self.tt.ibin(Op::LShr, t, s);
                    let tw = (8 * take) as u16;
                    if tw < ew {
                        x = self.tt.un(Op::Trunc, x, Sort::Int(tw));
                    }
                    if w > tw {
                        x = self.tt.un(Op::ZExt, x, Sort::Int(w));
                    }
                    let sh = self.tt.int(8 * (p - off) as i128, w);
                    x = self.tt.ibin(Op::Shl, x, sh);
                    acc = self.tt.ibin(Op::BOr, acc, x);
                    p += take;
                }
            }
        }
        if want_float {
            let fs = self.tt.fsort(8 * n);
            let r = self.tt.un(Op::FromBits, acc, fs);
            if fs == Sort::Real && self.tt.node(r).op == Op::FromBits {
                if let Some(v) = self.tt.as_int(acc) {
                    if !f64::from_bits(v as i64 as u64).is_finite() {
                        return err("non-finite bits as a real");
                    }
                    return Ok(self.tt.fconst(f64::from_bits(v as i64 as u64), 64));
                }
                return err("float made of symbolic bytes");
            }
            return Ok(r);
        }
        Ok(acc)
    }
    /// remove symbolic entries in [off, off+n), splitting the ones that stick out
    fn clear_sym(&mut self, o: &mut Obj, off: u32, n: u32) {
        if o.sym.is_empty() {
            return;
        }
        let keys: Vec<u32> = o.sym.range(off.saturating_sub(15)..off + n).filter(|(k, e)| **k + e.len as u32 > off).map(|(k, _)| *k).collect();
        for k in keys {
            let e = o.sym.remove(&k).unwrap();
            let end = k + e.len as u32;
            if k >= off && end <= off + n {
                continue;
            }
            let ew = 8 * e.len as u16;
            let mut t = e.t;
            if !matches!(self.tt.sort(t), Sort::Int(_)) {
                t = self.tt.un(Op::BitsOf, t, Sort::Int(ew));
            }
            for b in k..end {
                if b >= off && b < off + n {
                    continue;
                }
                let s = self.tt.int(8 * (b - k) as i128, ew);
                let x = self.tt.ibin(Op::LShr, t, s);
                let x = self.tt.un(Op::Trunc, x, Sort::Int(8));
                match self.tt.as_int(x) {
                    Some(v) => o.data[b as usize] = v as u8,
                    None => {
                        o.sym.insert(b, Ent { len: 1, t: x });
                    }
                }
            }
        }
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, addr: u64) -> R<()> {
        if let Val::A(l) = v {
            let (offs, _) = ty.layout();
            for (i, o) in offs.iter().enumerate() {
                self.store(st, &ty.elem(i), &l[i], addr + o)?;
            }
            return Ok(());
        }
        let n = ty.size() as usize;
        let (id, off) = self.locate(st, addr, n, "store")?;
        if let Val::P(p) = v {
            let i64t = Ty::Int(64);
            self.store(st, &i64t, &p.0, addr)?;
            return self.store(st, &i64t, &p.1, addr + 8);
        }
        let o = Rc::make_mut(st.mem[id].as_mut().unwrap());
        self.clear_sym(o, off, n as u32);
        match v {
            Val::C(c) => {
                let b = c.to_le_bytes();
                if n > 8 {
                    o.data[off as usize..off as usize + 8].copy_from_slice(&b);
                    for x in &mut o.data[off as usize + 8..off as usize + n] {
                        *x = 0;
                    }
                } else {
                    o.data[off as usize..off as usize + n].copy_from_slice(&b[..n]);
                }
            }
            Val::W(w) => {
                let b = w.to_le_bytes();
                o.data[off as usize..off as usize + n].copy_from_slice(&b[..n]);
            }
            Val::S(t) => {
                let mut t = *t;
                match self.tt.sort(t) {
                    Sort::Bool => {
                        let a = self.tt.int(1, 8);
                        let b = self.tt.int(0, 8);
                        t = self.tt.ite(t, a, b);
                    }
                    Sort::Int(w) if w as usize != 8 * n => t = self.tt.un(Op::ZExt, t, Sort::Int(8 * n as u16)),
                    _ => {}
                }
                if let Some(x) = self.tt.as_int(t) {
                    let b = (x as i64).to_le_bytes();
                    o.data[off as usize..off as usize + n].copy_from_slice(&b[..n]);
                } else {
                    o.sym.insert(off, Ent { len: n as u8, t });
                }
            }
            _ => return err("store of this value"),
        }
        Ok(())
    }
    pub fn memcpy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, so) = self.locate(st, src, n, "memcpy source")?;
        let (did, d) = self.locate(st, dst, n, "memcpy destination")?;
        let s = st.mem[sid].as_ref().unwrap().clone();
        let mut ents: Vec<(u32, Ent)> = vec![];
        if Self::overlaps(&s, so, n as u32) {
            for (k, e) in s.sym.range(so.saturating_sub(15)..so + n as u32) {
                let end = *k + e.len as u32;
                if end <= so {
                    continue;
                }
                if *k >= so && end <= so + n as u32 {
                    ents.push((*k - so, e.clone()));
                } else {
                    // partial: split into bytes
                    for b in (*k).max(so)..end.min(so + n as u32) {
                        let t = self.load_bits(&s, b, 1, false)?;
                        ents.push((b - so, Ent { len: 1, t }));
                    }
                }
            }
        }
        let bytes = s.data[so as usize..so as usize + n].to_vec();
        let o = Rc::make_mut(st.mem[did].as_mut().unwrap());
        self.clear_sym(o, d, n as u32);
        o.data[d as usize..d as usize + n].copy_from_slice(&bytes);
        for (k, e) in ents {
            if e.len == 1 {
                if let Some(v) = self.tt.as_int(e.t) {
                    o.data[(d + k) as usize] = v as u8;
                    continue;
                }
            }
            o.sym.insert(d + k, e);
        }
        Ok(())
    }
    pub fn read_bytes(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<u8>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.locate(st, a, n, "read")?;
        let o = st.mem[id].as_ref().unwrap();
        if Self::overlaps(o, off, n as u32) {
            return err("concrete bytes expected");
        }
        Ok(o.data[off as usize..off as usize + n].to_vec())
    }
    pub fn write_bytes(&mut self, st: &mut State, a: u64, b: &[u8]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (id, off) = self.locate(st, a, b.len(), "write")?;
        let o = Rc::make_mut(st.mem[id].as_mut().unwrap());
        self.clear_sym(o, off, b.len() as u32);
        o.data[off as usize..off as usize + b.len()].copy_from_slice(b);
        Ok(())
    }

    // ---------------- values
    /// term -> value of the type (constants become concrete)
    pub fn sv(&mut self, t: T, ty: &Ty) -> Val {
        if let Some(b) = self.tt.as_bool(t) {
            return Val::C(b as u64);
        }
        if let Some(v) = self.tt.as_int(t) {
            return Val::C(maskw(v as i64 as u64, ty.width()));
        }
        if let Some(f) = self.tt.as_f(t) {
            return Val::C(if *ty == Ty::F32 { (f as f32).to_bits() as u64 } else { f.to_bits() });
        }
        if let Some(q) = self.tt.as_rat(t) {
            let f = q_to_f64(q);
            if *ty == Ty::F32 {
                if q_of_f64(f as f32 as f64).as_ref() == Some(q) {
                    return Val::C((f as f32).to_bits() as u64);
                }
            } else if q_of_f64(f).as_ref() == Some(q) {
                return Val::C(f.to_bits());
            }
        }
        Val::S(t)
    }
    pub fn cf(v: u64, ty: &Ty) -> f64 {
        if *ty == Ty::F32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) }
    }
    pub fn mkf(x: f64, ty: &Ty) -> Val {
        Val::C(if *ty == Ty::F32 { (x as f32).to_bits() as u64 } else { x.to_bits() })
    }
    pub fn tm(&mut self, v: &Val, ty: &Ty) -> R<T> {
        match v {
            Val::S(t) => Ok(*t),
            Val::C(c) => Ok(match ty {
                Ty::Int(1) => (c & 1) as T,
                Ty::Int(w) if *w <= 64 => self.tt.int(*c as i64 as i128, *w as u16),
                Ty::Ptr => self.tt.int(*c as i64 as i128, 64),
                Ty::F64 | Ty::F32 => {
                    let f = Self::cf(*c, ty);
                    if self.real() && !f.is_finite() {
                        return err("non-finite constant in real arithmetic");
                    }
                    self.tt.fconst(f, ty.width())
                }
                _ => return err(format!("term of type {:?}", ty)),
            }),
            _ => err(format!("term of an aggregate ({:?})", ty)),
        }
    }
    fn trunc_bool(&mut self, t: T) -> R<Val> {
        if self.tt.sort(t) == Sort::Bool {
            return Ok(Val::S(t));
        }
        let w = self.tt.width(t);
        let n = self.tt.node(t).clone();
        if let Some(v) = self.tt.as_int(t) {
            return Ok(Val::C((v & 1) as u64));
        }
        if n.op == Op::Ite {
            if let (Some(a), Some(b)) = (self.tt.as_int(n.a[1]), self.tt.as_int(n.a[2])) {
                let r = self.tt.ite(n.a[0], (a & 1) as T, (b & 1) as T);
                return Ok(self.sv(r, &Ty::Int(1)));
            }
        }
        if n.op == Op::ZExt || n.op == Op::SExt || (n.op == Op::Trunc) {
            return self.trunc_bool(n.a[0]);
        }
        let one = self.tt.int(1, w);
        let (l, h) = self.tt.ivi(t);
        let r = if l >= 0 && h <= 1 {
            self.tt.cmp(Op::Eq, t, one)
        } else {
            let x = self.tt.ibin(Op::BAnd, t, one);
            self.tt.cmp(Op::Eq, x, one)
        };
        Ok(self.sv(r, &Ty::Int(1)))
    }
    pub fn decide(&mut self, st: &State, c: T) -> R<bool> {
        if let Some(b) = self.tt.as_bool(c) {
            return Ok(b);
        }
        if let Some(b) = st.known.get(&c) {
            return Ok(*b);
        }
        let nc = self.tt.not(c);
        if let Some(b) = st.known.get(&nc) {
            return Ok(!*b);
        }
        let n = self.tt.node(c).clone();
        match n.op {
            Op::Not => return Ok(!self.decide(st, n.a[0])?),
            Op::And => {
                if !self.decide(st, n.a[0])? {
                    return Ok(false);
                }
                return self.decide(st, n.a[1]);
            }
            Op::Or => {
                if self.decide(st, n.a[0])? {
                    return Ok(true);
                }
                return self.decide(st, n.a[1]);
            }
            _ => {}
        }
        Err(Ev::Fork(c))
    }
    /// the addresses a choice between constants can take, with the conjunction selecting each
    pub fn ptr_leaves(&mut self, st: &State, t: T) -> Option<Vec<(u64, T)>> {
        let mut out: Vec<(u64, T)> = vec![];
        let mut work = vec![(t, 0i128, 1 as T)];
        let mut fuel = 400;
        while let Some((t, add, g)) = work.pop() {
            if fuel == 0 {
                return None;
            }
            fuel -= 1;
            if let Some(k) = self.tt.as_int(t) {
                let a = (k + add) as i64 as u64;
                match out.iter_mut().find(|x| x.0 == a) {
                    Some(x) => x.1 = self.tt.or(x.1, g),
                    None => out.push((a, g)),
                }
                continue;
            }
            let n = self.tt.node(t).clone();
            match n.op {
                Op::Add => work.push((n.a[0], add + self.tt.as_int(n.a[1])?, g)),
                Op::Ite => match st.known.get(&n.a[0]) {
                    Some(true) => work.push((n.a[1], add, g)),
                    Some(false) => work.push((n.a[2], add, g)),
                    None => {
                        let c = n.a[0];
                        let nc = self.tt.not(c);
                        let x = self.tt.and(g, c);
                        let y = self.tt.and(g, nc);
                        work.push((n.a[2], add, y));
                        work.push((n.a[1], add, x));
                    }
                },
                _ => return None,
            }
        }
        Some(out)
    }
    fn load_choice(&mut self, st: &mut State, ty: &Ty, t: T, add: i128, memo: &mut HashMap<(T, i128), Val>) -> R<Val> {
        if let Some(k) = self.tt.as_int(t) {
            return self.load(st, ty, (k + add) as i64 as u64);
        }
        if let Some(v) = memo.get(&(t, add)) {
            return Ok(v.clone());
        }
        let n = self.tt.node(t).clone();
        let v = match n.op {
            Op::Add => {
                let Some(k) = self.tt.as_int(n.a[1]) else { return err("address") };
                self.load_choice(st, ty, n.a[0], add + k, memo)?
            }
            Op::Ite => match st.known.get(&n.a[0]) {
                Some(true) => self.load_choice(st, ty, n.a[1], add, memo)?,
                Some(false) => self.load_choice(st, ty, n.a[2], add, memo)?,
                None => {
                    let x = self.load_choice(st, ty, n.a[1], add, memo)?;
                    let y = self.load_choice(st, ty, n.a[2], add, memo)?;
                    self.select(st, &Val::S(n.a[0]), ty, x, y)?
                }
            },
            _ => return err("address"),
        };
        memo.insert((t, add), v.clone());
        Ok(v)
    }
    fn load_at(&mut self, st: &mut State, ty: &Ty, a: &Val) -> R<Val> {
        if let (Val::S(t), true) = (a, self.opts.merge && !matches!(ty, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))) {
            if let Ok(v) = self.load_choice(st, ty, *t, 0, &mut HashMap::new()) {
                return Ok(v);
            }
        }
        let a = self.conc(st, a, &Ty::Ptr)?;
        self.load(st, ty, a)
    }
    fn store_at(&mut self, st: &mut State, ty: &Ty, v: &Val, a: &Val) -> R<()> {
        if let (Val::S(t), true) = (a, self.opts.merge && matches!(ty, Ty::Int(_) | Ty::F64 | Ty::F32)) {
            if let Some(l) = self.ptr_leaves(st, *t) {
                let mut w = vec![];
                for (a, g) in &l {
                    let Ok(o) = self.load(st, ty, *a) else { break };
                    let Ok(x) = self.select(st, &Val::S(*g), ty, v.clone(), o) else { break };
                    w.push((*a, x));
                }
                if w.len() == l.len() {
                    for (a, x) in w {
                        self.store(st, ty, &x, a)?;
                    }
                    return Ok(());
                }
            }
        }
        let a = self.conc(st, a, &Ty::Ptr)?;
        self.store(st, ty, v, a)
    }
    pub fn conc(&mut self, st: &State, v: &Val, ty: &Ty) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(t) => {
                if self.tt.sort(*t) == Sort::Bool {
                    return Ok(self.decide(st, *t)? as u64);
                }
                if !matches!(self.tt.sort(*t), Sort::Int(_)) {
                    return err("concrete value of a symbolic float needed");
                }
                if self.opts.merge && self.ptr_leaves(st, *t).is_some() {
                    // a choice between known addresses: decide the choice
                    let mut x = *t;
                    let mut add = 0i128;
                    loop {
                        let n = self.tt.node(x).clone();
                        if let Some(k) = self.tt.as_int(x) {
                            return Ok(maskw((k + add) as i64 as u64, ty.width()));
                        }
                        match n.op {
                            Op::Add => {
                                add += self.tt.as_int(n.a[1]).unwrap();
                                x = n.a[0];
                            }
                            _ => x = if self.decide(st, n.a[0])? { n.a[1] } else { n.a[2] },
                        }
                    }
                }
                // concretise the variable part
                let mut x = *t;
                let mut add = 0i128;
                loop {
                    let n = self.tt.node(x).clone();
                    if let (Op::Add, Some(k)) = (n.op, self.tt.as_int(n.a[1])) {
                        add += k;
                        x = n.a[0];
                    } else {
                        break;
                    }
                }
                match st.kval.get(&x) {
                    Some(k) => Ok(maskw((k + add) as i64 as u64, ty.width())),
                    None => Err(Ev::Conc(x)),
                }
            }
            _ => err("concrete value of an aggregate needed"),
        }
    }
    fn const_val(&mut self, c: &Const, ty: &Ty) -> R<Val> {
        Ok(match c {
            Const::Int(v) => {
                if ty.size() > 8 { Val::W(Box::new(*v)) } else { Val::C(*v as u64) }
            }
            Const::Zero | Const::Undef => zero_val(ty),
            Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
            Const::Agg(v) => {
                let mut o = vec![];
                for (t, c) in v {
                    o.push(self.const_val(c, t)?);
                }
                Val::A(Rc::new(o))
            }
            c => match static_addr(c) {
                Some(a) => Val::C(a),
                None => return err("constant expression"),
            },
        })
    }
    pub fn ev(&mut self, st: &State, o: &Opd, ty: &Ty) -> R<Val> {
        match o {
            Opd::R(k) => Ok(st.frames.last().unwrap().regs[*k as usize].clone()),
            Opd::C(c) => Ok(Val::C(*c)),
            Opd::K(c) => {
                let c = c.clone();
                self.const_val(&c, ty)
            }
            Opd::Asm(_) => err("inline assembly operand"),
        }
    }

    // ---------------- arithmetic
    pub fn ibin(&mut self, st: &State, op: Bin, ty: &Ty, a: &Val, b: &Val, nuw: bool, nsw: bool) -> R<Val> {
        if let Ty::Vec(_, e) = ty {
            let (Val::A(x), Val::A(y)) = (a, b) else { return err("vector operands") };
            let mut o = vec![];
            for i in 0..x.len() {
                o.push(if e.is_float() { self.fbin(st, op, e, &x[i], &y[i])? } else { self.ibin(st, op, e, &x[i], &y[i], nuw, nsw)? });
            }
            return Ok(Val::A(Rc::new(o)));
        }
        let w = ty.width();
        if w > 64 {
            return self.wide(op, w, a, b);
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Bin::Add => x.wrapping_add(y),
                Bin::Sub => x.wrapping_sub(y),
                Bin::Mul => x.wrapping_mul(y),
                Bin::UDiv => if y == 0 { return err("udiv by zero") } else { x / y },
                Bin::URem => if y == 0 { return err("urem by zero") } else { x % y },
                Bin::SDiv => if y == 0 { return err("sdiv by zero") } else { sx(x, w).wrapping_div(sx(y, w)) as u64 },
                Bin::SRem => if y == 0 { return err("srem by zero") } else { sx(x, w).wrapping_rem(sx(y, w)) as u64 },
                Bin::Shl => if y >= w as u64 { 0 } else { x << y },
                Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                Bin::AShr => (sx(x, w) >> y.min(63)) as u64,
                Bin::And => x & y,
                Bin::Or => x | y,
                Bin::Xor => x ^ y,
                _ => return err("float op on ints"),
            };
            return Ok(Val::C(maskw(r, w)));
        }
        let x = self.tm(a, ty)?;
        let y = self.tm(b, ty)?;
        if w == 1 {
            let r = match op {
                Bin::And | Bin::Mul => self.tt.and(x, y),
                Bin::Or => self.tt.or(x, y),
                Bin::Xor | Bin::Add | Bin::Sub => self.tt.xor(x, y),
                _ => return err("i1 op"),
            };
            return Ok(self.sv(r, ty));
        }
        let (x, y) = (self.unb(x, w), self.unb(y, w));
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            Bin::And => Op::BAnd,
            Bin::Or => Op::BOr,
            Bin::Xor => Op::BXor,
            _ => return err("op"),
        };
        if self.real() {
            // integer arithmetic needs known shift amounts and signs
            if matches!(op, Bin::Shl | Bin::LShr | Bin::AShr) && self.tt.as_int(y).is_none() {
                let c = self.conc(st, b, ty)?;
                return self.ibin(st, op, ty, a, &Val::C(c), nuw, nsw);
            }
            if matches!(op, Bin::UDiv | Bin::URem) && w <= 32 && (self.tt.ivi(x).0 < 0 || self.tt.ivi(y).0 < 0) {
                let i64t = Ty::Int(64);
                let p = self.cast(st, Cast::ZExt, ty, &i64t, a)?;
                let q = self.cast(st, Cast::ZExt, ty, &i64t, b)?;
                let r = self.ibin(st, op, &i64t, &p, &q, false, false)?;
                return self.cast(st, Cast::Trunc, &i64t, ty, &r);
            }
            if matches!(op, Bin::UDiv | Bin::URem) {
                // operands must be known non-negative
                for t in [x, y] {
                    if self.tt.ivi(t).0 < 0 {
                        let z = self.tt.int(0, w as u16);
                        let c = self.tt.cmp(Op::Slt, t, z);
                        if self.decide(st, c)? {
                            return err("unsigned division of a huge value");
                        }
                    }
                }
            }
            if matches!(op, Bin::SDiv | Bin::SRem) && self.tt.ivi(y).0 <= 0 {
                let z = self.tt.int(0, w as u16);
                let c = self.tt.cmp(Op::Sle, y, z);
                if self.decide(st, c)? {
                    return err("signed division by a non-positive value");
                }
            }
            let simple_mask = |m: i128| (m > 0 && (m & (m + 1)) == 0) || (m < 0 && ((-m) & (-m - 1)) == 0) || m == 0;
            let need = match op {
                Bin::And => {
                    let m = self.tt.as_int(y).or(self.tt.as_int(x));
                    let isbits = |s: &Self, t: T| s.tt.node(t).op == Op::BitsOf;
                    !(m.map(simple_mask).unwrap_or(false) || isbits(self, x) || isbits(self, y))
                }
                Bin::Xor => !(self.tt.as_int(y) == Some(-1) || self.tt.node(x).op == Op::BitsOf || {
                    let r = self.tt.ibin(o, x, y);
                    self.tt.node(r).op == Op::BitsKey
                }),
                _ => false,
            };
            if need {
                // try: values that are 0/1 flags
                let flag = |s: &Self, t: T| { let (l, h) = s.tt.ivi(t); l >= 0 && h <= 1 };
                if flag(self, x) && flag(self, y) {
                    let p = self.trunc_bool(x)?;
                    let q = self.trunc_bool(y)?;
                    let r = self.ibin(st, op, &Ty::Int(1), &p, &q, false, false)?;
                    return self.cast(st, Cast::ZExt, &Ty::Int(1), ty, &r);
                }
                if let (Bin::And, Some((v, m))) = (op, self.tt.as_int(y).map(|m| (x, m)).or(self.tt.as_int(x).map(|m| (y, m)))) {
                    let r = self.tt.ibin(o, x, y);
                    if self.tt.node(r).op != Op::BAnd {
                        return Ok(self.sv(r, ty));
                    }
                    // a sum over the mask's runs of ones
                    let mut m = crate::term::uns(m, w as u16) as u128;
                    let mut runs = vec![];
                    while m != 0 {
                        let l = m.trailing_zeros();
                        let k = (m >> l).trailing_ones();
                        runs.push((l, l + k));
                        m &= !(((1u128 << k) - 1) << l);
                    }
                    if runs.len() <= 4 {
                        let mut sum = self.tt.int(0, w as u16);
                        for (l, h) in runs {
                            let mut t = v;
                            if h < w {
                                let k = self.tt.int((1i128 << h) - 1, w as u16);
                                t = self.tt.ibin(Op::BAnd, t, k);
                            }
                            if l > 0 {
                                let k = self.tt.int(crate::term::canon(-(1i128 << l), w as u16), w as u16);
                                t = self.tt.ibin(Op::BAnd, t, k);
                            }
                            sum = self.tt.ibin(Op::Add, sum, t);
                        }
                        return Ok(self.sv(sum, ty));
                    }
                }
                if op == Bin::And {
                    // x & single bit or general: enumerate the symbolic operand
                    if matches!(a, Val::S(_)) {
                        let c = self.conc(st, a, ty)?;
                        return self.ibin(st, op, ty, &Val::C(c), b, nuw, nsw);
                    }
                }
                if matches!(a, Val::S(_)) {
                    let c = self.conc(st, a, ty)?;
                    return self.ibin(st, op, ty, &Val::C(c), b, nuw, nsw);
                }
                let c = self.conc(st, b, ty)?;
                return self.ibin(st, op, ty, a, &Val::C(c), nuw, nsw);
            }
            if op == Bin::Or {
                let r = self.tt.ibin(o, x, y);
                if self.tt.node(r).op == Op::BOr && crate::smt::expr(&self.tt, r).is_err() {
                    let flag = |s: &Self, t: T| { let (l, h) = s.tt.ivi(t); l >= 0 && h <= 1 };
                    if flag(self, x) && flag(self, y) {
                        let p = self.trunc_bool(x)?;
                        let q = self.trunc_bool(y)?;
                        let r = self.ibin(st, op, &Ty::Int(1), &p, &q, false, false)?;
                        return self.cast(st, Cast::ZExt, &Ty::Int(1), ty, &r);
                    }
                    if matches!(a, Val::S(_)) {
                        let c = self.conc(st, a, ty)?;
                        return self.ibin(st, op, ty, &Val::C(c), b, nuw, nsw);
                    }
                    let c = self.conc(st, b, ty)?;
                    return self.ibin(st, op, ty, a, &Val::C(c), nuw, nsw);
                }
                return Ok(self.sv(r, ty));
            }
        }
        let r = self.tt.ibin(o, x, y);
        Ok(self.sv(r, ty))
    }
    fn unb(&mut self, t: T, w: u32) -> T {
        if self.tt.sort(t) == Sort::Bool {
            let a = self.tt.int(1, w as u16);
            let b = self.tt.int(0, w as u16);
            return self.tt.ite(t, a, b);
        }
        t
    }
    fn wide(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        let g = |v: &Val| match v {
            Val::W(x) => Some(**x),
            Val::C(x) => Some(*x as u128),
            _ => None,
        };
        // symbolic halves: shifts by 64
        if let (Val::P(p), Some(k)) = (a, g(b)) {
            match (op, k) {
                (Bin::LShr, 64) => return Ok(Val::P(Rc::new((p.1.clone(), Val::C(0))))),
                (Bin::Shl, 64) => return Ok(Val::P(Rc::new((Val::C(0), p.0.clone())))),
                _ => {}
            }
        }
        if op == Bin::Or {
            let h = |v: &Val| -> Option<(Val, Val)> {
                match v {
                    Val::P(p) => Some((p.0.clone(), p.1.clone())),
                    v => g(v).map(|x| (Val::C(x as u64), Val::C((x >> 64) as u64))),
                }
            };
            if let (Some((a0, a1)), Some((b0, b1))) = (h(a), h(b)) {
                let z = |v: &Val| matches!(v, Val::C(0));
                let pick = |x: Val, y: Val| if z(&x) { Some(y) } else if z(&y) { Some(x) } else { None };
                if let (Some(l), Some(h)) = (pick(a0, b0), pick(a1, b1)) {
                    if let (Val::C(x), Val::C(y)) = (&l, &h) {
                        return Ok(Val::W(Box::new(*x as u128 | (*y as u128) << 64)));
                    }
                    return Ok(Val::P(Rc::new((l, h))));
                }
            }
        }
        let (Some(x), Some(y)) = (g(a), g(b)) else { return err(format!("symbolic {}-bit {:?}", w, op)) };
        let r = match op {
            Bin::Add => x.wrapping_add(y),
            Bin::Sub => x.wrapping_sub(y),
            Bin::Mul => x.wrapping_mul(y),
            Bin::UDiv => x / y,
            Bin::URem => x % y,
            Bin::Shl => if y >= w as u128 { 0 } else { x << y },
            Bin::LShr => if y >= w as u128 { 0 } else { x >> y },
            Bin::And => x & y,
            Bin::Or => x | y,
            Bin::Xor => x ^ y,
            _ => return err(format!("{}-bit {:?}", w, op)),
        };
        Ok(Val::W(Box::new(mask128(r, w))))
    }
    fn sgn(&mut self, st: &State, v: &Val, ty: &Ty) -> R<i32> {
        match v {
            Val::C(c) => {
                let f = Self::cf(*c, ty);
                Ok(if f.is_nan() { 2 } else if f == 0.0 { 0 } else if f > 0.0 { 1 } else { -1 })
            }
            Val::S(t) => {
                let z = self.tt.fconst(0.0, 64);
                let c = self.tt.cmp(Op::FLt, z, *t);
                if self.decide(st, c)? {
                    return Ok(1);
                }
                let c = self.tt.cmp(Op::FLt, *t, z);
                Ok(if self.decide(st, c)? { -1 } else { 0 })
            }
            _ => err("sign"),
        }
    }
    pub fn fbin(&mut self, st: &State, op: Bin, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(_, e) = ty {
            let (Val::A(x), Val::A(y)) = (a, b) else { return err("vector operands") };
            let mut o = vec![];
            for i in 0..x.len() {
                o.push(self.fbin(st, op, e, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(o)));
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if *ty == Ty::F32 {
                let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                let r = match op {
                    Bin::FAdd => x + y,
                    Bin::FSub => x - y,
                    Bin::FMul => x * y,
                    Bin::FDiv => x / y,
                    _ => x % y,
                };
                return Ok(Val::C(r.to_bits() as u64));
            }
            let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
            let r = match op {
                Bin::FAdd => x + y,
                Bin::FSub => x - y,
                Bin::FMul => x * y,
                Bin::FDiv => x / y,
                _ => x % y,
            };
            return Ok(Val::C(r.to_bits()));
        }
        let o = match op {
            Bin::FAdd => Op::FAdd,
            Bin::FSub => Op::FSub,
            Bin::FMul => Op::FMul,
            Bin::FDiv => Op::FDiv,
            _ => return err("symbolic float remainder"),
        };
        if self.real() {
            let nf = |v: &Val| match v {
                Val::C(c) => {
                    let f = Self::cf(*c, ty);
                    if f.is_finite() { None } else { Some(f) }
                }
                _ => None,
            };
            let (na, nb) = (nf(a), nf(b));
            if na.is_some() || nb.is_some() {
                if na.map(|x| x.is_nan()).unwrap_or(false) || nb.map(|x| x.is_nan()).unwrap_or(false) {
                    return Ok(Self::mkf(f64::NAN, ty));
                }
                let r = match (op, na, nb) {
                    (Bin::FAdd, Some(x), None) => x,
                    (Bin::FAdd, None, Some(y)) => y,
                    (Bin::FSub, Some(x), None) => x,
                    (Bin::FSub, None, Some(y)) => -y,
                    (Bin::FMul, Some(x), None) => match self.sgn(st, b, ty)? { 0 => f64::NAN, s => x * s as f64 },
                    (Bin::FMul, None, Some(y)) => match self.sgn(st, a, ty)? { 0 => f64::NAN, s => y * s as f64 },
                    (Bin::FDiv, None, Some(_)) => 0.0,
                    (Bin::FDiv, Some(x), None) => match self.sgn(st, b, ty)? { -1 => -x, _ => x },
                    (Bin::FAdd, Some(x), Some(y)) => x + y,
                    (Bin::FSub, Some(x), Some(y)) => x - y,
                    (Bin::FMul, Some(x), Some(y)) => x * y,
                    (_, Some(x), Some(y)) => x / y,
                    _ => unreachable!(),
                };
                return Ok(Self::mkf(r, ty));
            }
            if op == Bin::FDiv {
                let bz = match b {
                    Val::C(c) => Self::cf(*c, ty) == 0.0,
                    Val::S(t) => {
                        let (l, h) = self.tt.ivr(*t);
                        if l > 0.0 || h < 0.0 || self.opts.nonzero {
                            false
                        } else {
                            let z = self.tt.fconst(0.0, 64);
                            let c = self.tt.cmp(Op::FEq, *t, z);
                            self.decide(st, c)?
                        }
                    }
                    _ => false,
                };
                if bz {
                    let neg = matches!(b, Val::C(c) if Self::cf(*c, ty).is_sign_negative());
                    let s = self.sgn(st, a, ty)?;
                    let x = match s {
                        1 => f64::INFINITY,
                        -1 => f64::NEG_INFINITY,
                        _ => f64::NAN,
                    };
                    return Ok(Self::mkf(if neg { -x } else { x }, ty));
                }
            }
        }
        let x = self.tm(a, ty)?;
        let y = self.tm(b, ty)?;
        let r = self.tt.fop2(o, x, y);
        Ok(self.sv(r, ty))
    }
    pub fn fcmp(&mut self, _st: &State, p: FPred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        use FPred::*;
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (Self::cf(*x, ty), Self::cf(*y, ty));
            let u = x.is_nan() || y.is_nan();
            let r = match p {
                False => false,
                True => true,
                Oeq => x == y,
                Ogt => x > y,
                Oge => x >= y,
                Olt => x < y,
                Ole => x <= y,
                One => !u && x != y,
                Ord => !u,
                Ueq => u || x == y,
                Ugt => u || x > y,
                Uge => u || x >= y,
                Ult => u || x < y,
                Ule => u || x <= y,
                Une => x != y,
                Uno => u,
            };
            return Ok(Val::C(r as u64));
        }
        if self.real() {
            for (v, first) in [(a, true), (b, false)] {
                if let Val::C(c) = v {
                    let f = Self::cf(*c, ty);
                    if f.is_nan() {
                        return Ok(Val::C(matches!(p, True | Ueq | Ugt | Uge | Ult | Ule | Une | Uno) as u64));
                    }
                    if f.is_infinite() {
                        // the other side is finite
                        let lt = (f < 0.0) == first; // a < b ?
                        return Ok(Val::C(match p {
                            False | Oeq | Ueq | Uno => false,
                            True | One | Une | Ord => true,
                            Ogt | Oge | Ugt | Uge => !lt,
                            _ => lt,
                        } as u64));
                    }
                }
            }
        }
        let x = self.tm(a, ty)?;
        let y = self.tm(b, ty)?;
        let canon = &mut self.canon;
        let tt = &mut self.tt;
        let mut base = |tt: &mut Terms, p: FPred| -> T {
            let c = match p {
                Oeq | Ueq => tt.cmp(Op::FEq, x, y),
                Ogt | Ugt => tt.cmp(Op::FLt, y, x),
                Oge | Uge => tt.cmp(Op::FLe, y, x),
                Olt | Ult => tt.cmp(Op::FLt, x, y),
                _ => tt.cmp(Op::FLe, x, y),
            };
            if canon.squares && tt.mode == Mode::Real { canon.signed(tt, c) } else { c }
        };
        let uno = if tt.mode == Mode::Fp { tt.cmp(Op::FUno, x, y) } else { 0 };
        let r = match p {
            False => 0,
            True => 1,
            Oeq | Ogt | Oge | Olt | Ole => base(tt, p),
            One => {
                let e = base(tt, Oeq);
                let e = tt.not(e);
                let n = tt.not(uno);
                tt.and(e, n)
            }
            Une => {
                let e = base(tt, Oeq);
                tt.not(e)
            }
            Ord => tt.not(uno),
            Uno => uno,
            _ => {
                let e = base(tt, p);
                tt.or(e, uno)
            }
        };
        Ok(self.sv(r, &Ty::Int(1)))
    }
    pub fn icmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(_, e) = ty {
            let (Val::A(x), Val::A(y)) = (a, b) else { return err("vector operands") };
            let mut o = vec![];
            for i in 0..x.len() {
                o.push(self.icmp(p, e, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(o)));
        }
        let w = ty.width();
        let g = |v: &Val| match v {
            Val::W(x) => Some(**x),
            Val::C(x) => Some(*x as u128),
            _ => None,
        };
        if let (Some(x), Some(y)) = (g(a), g(b)) {
            let (sx_, sy) = (sext(x, w), sext(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx_ > sy,
                Pred::Sge => sx_ >= sy,
                Pred::Slt => sx_ < sy,
                Pred::Sle => sx_ <= sy,
            };
            return Ok(Val::C(r as u64));
        }
        let x = self.tm(a, ty)?;
        let y = self.tm(b, ty)?;
        let tt = &mut self.tt;
        if w == 1 {
            let r = match p {
                Pred::Eq => {
                    let r = tt.xor(x, y);
                    tt.not(r)
                }
                Pred::Ne => tt.xor(x, y),
                Pred::Ult | Pred::Sgt => {
                    let n = tt.not(x);
                    tt.and(n, y)
                }
                Pred::Ugt | Pred::Slt => {
                    let n = tt.not(y);
                    tt.and(x, n)
                }
                Pred::Ule | Pred::Sge => {
                    let n = tt.not(x);
                    tt.or(n, y)
                }
                Pred::Uge | Pred::Sle => {
                    let n = tt.not(y);
                    tt.or(x, n)
                }
            };
            return Ok(self.sv(r, ty));
        }
        let r = match p {
            Pred::Eq => tt.cmp(Op::Eq, x, y),
            Pred::Ne => {
                let r = tt.cmp(Op::Eq, x, y);
                tt.not(r)
            }
            Pred::Ugt => tt.cmp(Op::Ult, y, x),
            Pred::Uge => tt.cmp(Op::Ule, y, x),
            Pred::Ult => tt.cmp(Op::Ult, x, y),
            Pred::Ule => tt.cmp(Op::Ule, x, y),
            Pred::Sgt => tt.cmp(Op::Slt, y, x),
            Pred::Sge => tt.cmp(Op::Sle, y, x),
            Pred::Slt => tt.cmp(Op::Slt, x, y),
            Pred::Sle => tt.cmp(Op::Sle, x, y),
        };
        Ok(self.sv(r, &Ty::Int(1)))
    }
    pub fn cast(&mut self, st: &State, k: Cast, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if let (Ty::Vec(n, fe), Ty::Vec(m, te)) = (from, to) {
            if n == m {
                let Val::A(x) = v else { return err("vector cast") };
                let mut o = vec![];
                for e in x.iter() {
                    o.push(self.cast(st, k, fe, te, e)?);
                }
                return Ok(Val::A(Rc::new(o)));
            }
        }
        if k == Cast::BitCast && (matches!(from, Ty::Vec(..)) || matches!(to, Ty::Vec(..))) {
            return self.bitcast_vec(from, to, v);
        }
        match k {
            Cast::PtrToInt | Cast::IntToPtr => {
                let fw = from.width();
                let tw = to.width();
                if tw < fw {
                    return self.cast(st, Cast::Trunc, &Ty::Int(fw), &Ty::Int(tw), v);
                }
                return Ok(v.clone());
            }
            Cast::Trunc => {
                let tw = to.width();
                match v {
                    Val::C(c) => return Ok(Val::C(maskw(*c, tw))),
                    Val::W(x) => {
                        let r = mask128(**x, tw);
                        return Ok(if tw > 64 { Val::W(Box::new(r)) } else { Val::C(r as u64) });
                    }
                    Val::P(p) => {
                        if tw == 64 {
                            return Ok(p.0.clone());
                        }
                        if tw < 64 {
                            return self.cast(st, k, &Ty::Int(64), to, &p.0);
                        }
                        return err("trunc of 128-bit pair");
                    }
                    Val::S(t) => {
                        if tw == 1 {
                            return self.trunc_bool(*t);
                        }
                        let r = self.tt.un(Op::Trunc, *t, Sort::Int(tw as u16));
                        return Ok(self.sv(r, to));
                    }
                    _ => return err("trunc"),
                }
            }
            Cast::ZExt | Cast::SExt => {
                let (fw, tw) = (from.width(), to.width());
                match v {
                    Val::C(c) => {
                        if tw > 64 {
                            let x = if k == Cast::SExt { mask128(sext(*c as u128, fw) as u128, tw) } else { *c as u128 };
                            return Ok(Val::W(Box::new(x)));
                        }
                        return Ok(Val::C(if k == Cast::SExt { maskw(sx(*c, fw) as u64, tw) } else { *c }));
                    }
                    Val::W(x) => return Ok(Val::W(Box::new(if k == Cast::SExt { mask128(sext(**x, fw) as u128, tw) } else { **x }))),
                    Val::S(t) => {
                        if tw > 64 {
                            if k == Cast::ZExt {
                                let lo = self.cast(st, k, from, &Ty::Int(64), v)?;
                                return Ok(Val::P(Rc::new((lo, Val::C(0)))));
                            }
                            return err("sign extension to 128 bits");
                        }
                        if self.tt.sort(*t) == Sort::Bool {
                            let one = self.tt.int(if k == Cast::SExt { -1 } else { 1 }, tw as u16);
                            let z = self.tt.int(0, tw as u16);
                            let r = self.tt.ite(*t, one, z);
                            return Ok(self.sv(r, to));
                        }
                        let o = if k == Cast::SExt { Op::SExt } else { Op::ZExt };
                        let r = self.tt.un(o, *t, Sort::Int(tw as u16));
                        return Ok(self.sv(r, to));
                    }
                    _ => return err("ext"),
                }
            }
            Cast::FPExt | Cast::FPTrunc => match v {
                Val::C(c) => return Ok(Self::mkf(Self::cf(*c, from), to)),
                Val::S(t) => {
                    let s = self.tt.fsort(to.width());
                    let r = self.tt.un(Op::FCvt, *t, s);
                    return Ok(self.sv(r, to));
                }
                _ => return err("fpext"),
            },
            Cast::SIToFP | Cast::UIToFP => match v {
                Val::C(c) => {
                    let w = from.width();
                    if *to == Ty::F32 {
                        let f = if k == Cast::SIToFP { sx(*c, w) as f32 } else { *c as f32 };
                        return Ok(Val::C(f.to_bits() as u64));
                    }
                    let f = if k == Cast::SIToFP { sx(*c, w) as f64 } else { *c as f64 };
                    return Ok(Val::C(f.to_bits()));
                }
                Val::W(x) => return Ok(Self::mkf(**x as f64, to)),
                Val::S(t) => {
                    let mut t = *t;
                    if self.tt.sort(t) == Sort::Bool {
                        t = self.unb(t, 32);
                    }
                    let s = self.tt.fsort(to.width());
                    let r = self.tt.un(if k == Cast::SIToFP { Op::FromS } else { Op::FromU }, t, s);
                    return Ok(self.sv(r, to));
                }
                _ => return err("itofp"),
            },
            Cast::FPToSI | Cast::FPToUI => match v {
                Val::C(c) => {
                    let f = Self::cf(*c, from);
                    let w = to.width();
                    let r = if k == Cast::FPToSI { f as i64 as u64 } else { f as u64 };
                    return Ok(Val::C(maskw(r, w)));
                }
                Val::S(t) => {
                    let r = self.tt.un(if k == Cast::FPToSI { Op::ToS } else { Op::ToU }, *t, Sort::Int(to.width() as u16));
                    return Ok(self.sv(r, to));
                }
                _ => return err("fptoi"),
            },
            Cast::BitCast => {
                match v {
                    Val::S(t) => {
                        if to.is_float() && !from.is_float() {
                            let s = self.tt.fsort(to.width());
                            let r = self.tt.un(Op::FromBits, *t, s);
                            if s == Sort::Real && self.tt.node(r).op == Op::FromBits {
                                return self.from_bits_real(st, *t, to);
                            }
                            return Ok(self.sv(r, to));
                        }
                        if from.is_float() && !to.is_float() {
                            let r = self.tt.un(Op::BitsOf, *t, Sort::Int(to.width() as u16));
                            return Ok(self.sv(r, to));
                        }
                    }
                    _ => {}
                }
                Ok(v.clone())
            }
        }
    }
    /// float from integer bits in real mode: only bit patterns built from one value's sign/magnitude
    fn from_bits_real(&mut self, st: &State, t: T, to: &Ty) -> R<Val> {
        let n = self.tt.node(t).clone();
        if n.op == Op::Ite {
            let a = self.cast(st, Cast::BitCast, &Ty::Int(64), to, &Val::S(n.a[1]))?;
            let b = self.cast(st, Cast::BitCast, &Ty::Int(64), to, &Val::S(n.a[2]))?;
            let (x, y) = (self.tm(&a, to)?, self.tm(&b, to)?);
            let r = self.tt.ite(n.a[0], x, y);
            return Ok(self.sv(r, to));
        }
        err(format!("float from symbolic bits ({:?})", n.op))
    }
    fn bitcast_vec(&mut self, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        // through a bit string of concrete lanes
        let lanes: Vec<(Val, u32)> = match (from, v) {
            (Ty::Vec(_, e), Val::A(l)) => l.iter().map(|x| (x.clone(), e.width())).collect(),
            (t, v) => vec![(v.clone(), t.width())],
        };
        let mut bits: Vec<bool> = vec![];
        for (l, w) in &lanes {
            match l {
                Val::C(c) => (0..*w).for_each(|i| bits.push(c >> i & 1 == 1)),
                Val::W(c) => (0..*w).for_each(|i| bits.push(**c >> i & 1 == 1)),
                _ => {
                    // lane-preserving casts
                    if let Ty::Vec(_, te) = to {
                        if te.width() == *w && lanes.len() == to.count() {
                            let Ty::Vec(_, fe) = from else { return err("bitcast") };
                            let mut o = vec![];
                            for (l, _) in &lanes {
                                match l {
                                    Val::S(t) if te.is_float() != fe.is_float() => {
                                        let r = if te.is_float() {
                                            let s = self.tt.fsort(*w);
                                            self.tt.un(Op::FromBits, *t, s)
                                        } else {
                                            self.tt.un(Op::BitsOf, *t, Sort::Int(*w as u16))
                                        };
                                        o.push(self.sv(r, te));
                                    }
                                    x => o.push(x.clone()),
                                }
                            }
                            return Ok(Val::A(Rc::new(o)));
                        }
                    }
                    return err("vector bitcast of symbolic lanes");
                }
            }
        }
        let take = |s: usize, w: usize| -> Val {
            let mut x = 0u128;
            for i in 0..w {
                if bits[s + i] {
                    x |= 1 << i;
                }
            }
            if w > 64 { Val::W(Box::new(x)) } else { Val::C(x as u64) }
        };
        Ok(match to {
            Ty::Vec(n, e) => {
                let w = e.width() as usize;
                Val::A(Rc::new((0..*n as usize).map(|i| take(i * w, w)).collect()))
            }
            t => take(0, t.width() as usize),
        })
    }
    pub fn select(&mut self, st: &State, c: &Val, ty: &Ty, a: Val, b: Val) -> R<Val> {
        match c {
            Val::C(x) => Ok(if x & 1 == 1 { a } else { b }),
            Val::S(t) => {
                if let (Val::C(x), Val::C(y)) = (&a, &b) {
                    if x == y {
                        return Ok(a);
                    }
                }
                if let Some(k) = st.known.get(t) {
                    return Ok(if *k { a } else { b });
                }
                let scalar = match ty {
                    Ty::Int(w) => *w <= 64,
                    Ty::Ptr => self.opts.merge,
                    Ty::F64 | Ty::F32 => {
                        let fin = |v: &Val| match v {
                            Val::C(c) => Self::cf(*c, ty).is_finite(),
                            _ => true,
                        };
                        !self.real() || (fin(&a) && fin(&b))
                    }
                    _ => false,
                };
                if scalar {
                    let x = self.tm(&a, ty)?;
                    let y = self.tm(&b, ty)?;
                    let r = self.tt.ite(*t, x, y);
                    return Ok(self.sv(r, ty));
                }
                Ok(if self.decide(st, *t)? { a } else { b })
            }
            Val::A(l) => {
                let (Val::A(x), Val::A(y)) = (&a, &b) else { return err("vector select") };
                let e = ty.elem(0);
                let mut o = vec![];
                for i in 0..l.len() {
                    o.push(self.select(st, &l[i], &e, x[i].clone(), y[i].clone())?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => err("select"),
        }
    }

    // ---------------- stepping
    fn kind(&mut self, f: u32) -> FK {
        if let Some(k) = self.kinds[f as usize] {
            return k;
        }
        let n = &self.m.fnames[f as usize];
        let k = if crate::ext::is_panic(n) {
            FK::Panic
        } else if crate::ext::is_builtin(n) {
            FK::Builtin
        } else if self.m.fbody[f as usize].is_some() {
            FK::Normal
        } else {
            FK::Unknown
        };
        self.kinds[f as usize] = Some(k);
        k
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d != NODST {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    pub fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let (f, from) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.block)
        };
        let b = &f.blocks[to as usize];
        if b.nphi > 0 {
            let mut vals = Vec::with_capacity(b.nphi);
            for ins in &b.instrs[..b.nphi] {
                if let IK::Phi(t, v) = &ins.kind {
                    let (o, _) = match v.iter().find(|(_, l)| *l == from) {
                        Some(x) => x,
                        None => return err("phi without incoming edge"),
                    };
                    let x = self.ev(st, o, t)?;
                    vals.push((ins.dst, x));
                }
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, x) in vals {
                fr.regs[d as usize] = x;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.block = to;
        fr.ip = b.nphi;
        Ok(())
    }
    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| f.f.name.clone()).collect()
    }
    /// run until an event
    pub fn run(&mut self, st: &mut State) -> Ev {
        loop {
            let f = st.frames.last().unwrap().f.clone();
            let depth = st.frames.len();
            // inner loop while the frame stays the same
            loop {
                let (blk, ip) = {
                    let fr = st.frames.last().unwrap();
                    (fr.block, fr.ip)
                };
                let ins = &f.blocks[blk as usize].instrs[ip];
                if ins.dbg != 0 {
                    self.dbgseen.insert(ins.dbg);
                }
                st.steps += 1;
                self.stats.steps += 1;
                if st.steps & 0xfffff == 0 {
                    if std::time::Instant::now() > self.opts.deadline {
                        return Ev::Err("deadline".into());
                    }
                    if st.steps > self.opts.max_steps {
                        return Ev::Err("step limit".into());
                    }
                }
                match self.step(st, ins) {
                    Ok(()) => {}
                    Err(Ev::Fork(k)) if self.opts.merge => {
                        if !self.try_merge(st, k) {
                            return Ev::Fork(k);
                        }
                    }
                    Err(e) => return e,
                }
                if st.frames.is_empty() {
                    return Ev::Done;
                }
                if st.frames.len() != depth {
                    break;
                }
            }
        }
    }
    pub fn step(&mut self, st: &mut State, ins: &Instr) -> R<()> {
        let d = ins.dst;
        let r = match &ins.kind {
            IK::Bin(op, t, a, b, nuw, nsw) => {
                let x = self.ev(st, a, t)?;
                let y = self.ev(st, b, t)?;
                let fl = match t {
                    Ty::Vec(_, e) => e.is_float(),
                    t => t.is_float(),
                };
                if fl { self.fbin(st, *op, t, &x, &y)? } else { self.ibin(st, *op, t, &x, &y, *nuw, *nsw)? }
            }
            IK::FNeg(t, a) => {
                let x = self.ev(st, a, t)?;
                self.fneg(t, &x)?
            }
            IK::ICmp(p, t, a, b) => {
                let x = self.ev(st, a, t)?;
                let y = self.ev(st, b, t)?;
                self.icmp(*p, t, &x, &y)?
            }
            IK::FCmp(p, t, a, b) => {
                let x = self.ev(st, a, t)?;
                let y = self.ev(st, b, t)?;
                if let Ty::Vec(_, e) = t {
                    let (Val::A(x), Val::A(y)) = (x, y) else { return err("vector fcmp") };
                    let mut o = vec![];
                    for i in 0..x.len() {
                        o.push(self.fcmp(st, *p, e, &x[i], &y[i])?);
                    }
                    Val::A(Rc::new(o))
                } else {
                    self.fcmp(st, *p, t, &x, &y)?
                }
            }
            IK::Cast(k, from, to, a) => {
                let x = self.ev(st, a, from)?;
                self.cast(st, *k, from, to, &x)?
            }
            IK::Select(ct, c, t, a, b) => {
                let c = self.ev(st, c, ct)?;
                let x = self.ev(st, a, t)?;
                let y = self.ev(st, b, t)?;
                self.select(st, &c, t, x, y)?
            }
            IK::Phi(..) => return err("stray phi"),
            IK::Br(l) => return self.jump(st, *l),
            IK::CondBr(c, a, b) => {
                let c = self.ev(st, c, &Ty::Int(1))?;
                let v = match c {
                    Val::C(x) => x & 1 == 1,
                    Val::S(t) => match self.decide(st, t) {
                        Err(Ev::Fork(_)) if self.opts.merge => return Err(Ev::Fork(t)),
                        r => r?,
                    },
                    _ => return err("branch"),
                };
                return self.jump(st, if v { *a } else { *b });
            }
            IK::Switch(t, c, dflt, cases) => {
                let v = self.ev(st, c, t)?;
                match &v {
                    Val::C(x) => {
                        let l = cases.iter().find(|(k, _)| *k as u64 == *x).map(|x| x.1).unwrap_or(*dflt);
                        return self.jump(st, l);
                    }
                    Val::W(x) => {
                        let l = cases.iter().find(|(k, _)| k == &**x).map(|x| x.1).unwrap_or(*dflt);
                        return self.jump(st, l);
                    }
                    Val::S(_) => {
                        for (k, l) in cases {
                            let c = self.icmp(Pred::Eq, t, &v, &Val::C(*k as u64))?;
                            let b = match c {
                                Val::C(x) => x == 1,
                                Val::S(c) => self.decide(st, c)?,
                                _ => false,
                            };
                            if b {
                                return self.jump(st, *l);
                            }
                        }
                        return self.jump(st, *dflt);
                    }
                    _ => return err("switch"),
                }
            }
            IK::Ret(v) => {
                let x = match v {
                    Some((t, o)) => Some(self.ev(st, o, t)?),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    self.release(st, *a);
                }
                if st.frames.is_empty() {
                    return Ok(());
                }
                if let Some(x) = x {
                    self.set(st, fr.dst, x);
                }
                if let Some(n) = fr.normal {
                    return self.jump(st, n);
                }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            IK::Unreachable => return Err(Ev::Panic("reached an unreachable instruction".into())),
            IK::Call { ret, callee, args, normal } => return self.call(st, ins, ret, callee, args, *normal),
            IK::Load(t, p) => {
                let a = self.ev(st, p, &Ty::Ptr)?;
                self.load_at(st, t, &a)?
            }
            IK::Store(t, v, p) => {
                let a = self.ev(st, p, &Ty::Ptr)?;
                let v = self.ev(st, v, t)?;
                self.store_at(st, t, &v, &a)?;
                Val::C(0)
            }
            IK::Alloca(n) => {
                let a = self.alloc(st, *n as usize);
                st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32 - 1);
                Val::C(a)
            }
            IK::Gep(b, k, var) => {
                let base = self.ev(st, b, &Ty::Ptr)?;
                let mut sym: Option<T> = None;
                let mut c = *k as u64;
                match base {
                    Val::C(x) => c = c.wrapping_add(x),
                    Val::S(t) => sym = Some(t),
                    _ => return err("gep base"),
                }
                for (o, t, s) in var {
                    let v = self.ev(st, o, t)?;
                    match v {
                        Val::C(x) => c = c.wrapping_add((sx(x, t.width()) as u64).wrapping_mul(*s as u64)),
                        Val::S(x) => {
                            let mut x = x;
                            if t.width() < 64 {
                                x = self.tt.un(Op::SExt, x, Sort::Int(64));
                            }
                            let k = self.tt.int(*s as i128, 64);
                            let y = self.tt.ibin(Op::Mul, x, k);
                            sym = Some(match sym {
                                None => y,
                                Some(z) => self.tt.ibin(Op::Add, z, y),
                            });
                        }
                        _ => return err("vector gep"),
                    }
                }
                match sym {
                    None => Val::C(c),
                    Some(t) => {
                        let k = self.tt.int(c as i64 as i128, 64);
                        let r = self.tt.ibin(Op::Add, t, k);
                        self.sv(r, &Ty::Ptr)
                    }
                }
            }
            IK::ExtractValue(t, a, idx) => {
                let mut v = self.ev(st, a, t)?;
                for i in idx {
                    v = match v {
                        Val::A(l) if *i < l.len() => l[*i].clone(),
                        v => return err(format!("extractvalue of {:?} from {:?}", t, matches!(v, Val::A(_)))),
                    };
                }
                v
            }
            IK::InsertValue(t, a, t2, b, idx) => {
                let v = self.ev(st, a, t)?;
                let x = self.ev(st, b, t2)?;
                fn ins(v: Val, idx: &[usize], x: Val) -> Val {
                    if idx.is_empty() {
                        return x;
                    }
                    match v {
                        Val::A(mut l) => {
                            let m = Rc::make_mut(&mut l);
                            m[idx[0]] = ins(m[idx[0]].clone(), &idx[1..], x);
                            Val::A(l)
                        }
                        v => v,
                    }
                }
                ins(v, idx, x)
            }
            IK::ExtractElement(t, a, it, i) => {
                let v = self.ev(st, a, t)?;
                let i = self.ev(st, i, it)?;
                let i = self.conc(st, &i, it)?;
                match v {
                    Val::A(l) => l[i as usize].clone(),
                    _ => return err("extractelement"),
                }
            }
            IK::InsertElement(t, a, b, it, i) => {
                let v = self.ev(st, a, t)?;
                let e = t.elem(0);
                let x = self.ev(st, b, &e)?;
                let i = self.ev(st, i, it)?;
                let i = self.conc(st, &i, it)?;
                match v {
                    Val::A(mut l) => {
                        Rc::make_mut(&mut l)[i as usize] = x;
                        Val::A(l)
                    }
                    _ => return err("insertelement"),
                }
            }
            IK::Shuffle(t, a, b, mask) => {
                let x = self.ev(st, a, t)?;
                let y = self.ev(st, b, t)?;
                let (Val::A(x), Val::A(y)) = (x, y) else { return err("shuffle") };
                let n = x.len() as i32;
                let z = zero_val(&t.elem(0));
                Val::A(Rc::new(
                    mask.iter()
                        .map(|&m| if m < 0 { z.clone() } else if m < n { x[m as usize].clone() } else { y[(m - n) as usize].clone() })
                        .collect(),
                ))
            }
            IK::Freeze(t, a) => self.ev(st, a, t)?,
            IK::AtomicRmw(o, t, p, v) => {
                let a = self.ev(st, p, &Ty::Ptr)?;
                let a = self.conc(st, &a, &Ty::Ptr)?;
                let v = self.ev(st, v, t)?;
                let old = self.load(st, t, a)?;
                let new = match o.as_str() {
                    "xchg" => v,
                    "add" => self.ibin(st, Bin::Add, t, &old, &v, false, false)?,
                    "sub" => self.ibin(st, Bin::Sub, t, &old, &v, false, false)?,
                    "and" => self.ibin(st, Bin::And, t, &old, &v, false, false)?,
                    "or" => self.ibin(st, Bin::Or, t, &old, &v, false, false)?,
                    "xor" => self.ibin(st, Bin::Xor, t, &old, &v, false, false)?,
                    "umax" => if let (Val::C(x), Val::C(y)) = (&old, &v) { Val::C(*x.max(y)) } else { return err("umax") },
                    o => return err(format!("atomicrmw {}", o)),
                };
                self.store(st, t, &new, a)?;
                old
            }
            IK::CmpXchg(t, p, c, n) => {
                let a = self.ev(st, p, &Ty::Ptr)?;
                let a = self.conc(st, &a, &Ty::Ptr)?;
                let c = self.ev(st, c, t)?;
                let n = self.ev(st, n, t)?;
                let old = self.load(st, t, a)?;
                let e = self.icmp(Pred::Eq, t, &old, &c)?;
                let Val::C(e) = e else { return err("symbolic cmpxchg") };
                if e == 1 {
                    self.store(st, t, &n, a)?;
                }
                Val::A(Rc::new(vec![old, Val::C(e)]))
            }
            IK::Fence => Val::C(0),
            IK::Other(s) => return err(format!("instruction {}", s)),
        };
        let fr = st.frames.last_mut().unwrap();
        if d != NODST {
            fr.regs[d as usize] = r;
        }
        fr.ip += 1;
        Ok(())
    }
    pub fn fneg(&mut self, t: &Ty, x: &Val) -> R<Val> {
        Ok(match x {
            Val::C(c) => {
                if *t == Ty::F32 { Val::C(c ^ 0x8000_0000) } else { Val::C(c ^ (1 << 63)) }
            }
            Val::S(x) => {
                let s = self.tt.sort(*x);
                let r = self.tt.un(Op::FNeg, *x, s);
                self.sv(r, t)
            }
            Val::A(l) => {
                let e = t.elem(0);
                let mut o = vec![];
                for x in l.iter() {
                    o.push(self.fneg(&e, x)?);
                }
                Val::A(Rc::new(o))
            }
            _ => return err("fneg"),
        })
    }
    fn call(&mut self, st: &mut State, ins: &Instr, ret: &Ty, callee: &Opd, args: &[(Ty, Opd)], normal: Option<u32>) -> R<()> {
        let fid = match callee {
            Opd::Asm(s) => {
                let r = if s.contains("cpuid") {
                    zero_val(ret)
                } else if s.is_empty() || s.trim().is_empty() {
                    // optimisation barrier (black_box)
                    if *ret == Ty::Void {
                        Val::C(0)
                    } else if let Some((t, o)) = args.first() {
                        self.ev(st, o, t)?
                    } else {
                        zero_val(ret)
                    }
                } else if s.contains("xgetbv") {
                    zero_val(ret)
                } else {
                    return err(format!("inline assembly {:?}", s));
                };
                self.set(st, ins.dst, r);
                if let Some(n) = normal {
                    return self.jump(st, n);
                }
                st.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            o => {
                let v = self.ev(st, o, &Ty::Ptr)?;
                let a = self.conc(st, &v, &Ty::Ptr)?;
                let hi = a >> 32;
                if hi < FUNC_BASE || hi - FUNC_BASE >= self.m.fnames.len() as u64 {
                    return err(format!("call through a bad pointer {:#x}", a));
                }
                (hi - FUNC_BASE) as u32
            }
        };
        match self.kind(fid) {
            FK::Panic => {
                let mut vals = vec![];
                for (t, o) in args {
                    vals.push((t.clone(), self.ev(st, o, t)?));
                }
                let msg = self.panic_msg(st, fid, &vals);
                Err(Ev::Panic(msg))
            }
            FK::Unknown => {
                err(format!("unmodelled external function {}", self.m.fnames[fid as usize]))
            }
            FK::Builtin => {
                let mut vals = Vec::with_capacity(args.len());
                for (t, o) in args {
                    vals.push(self.ev(st, o, t)?);
                }
                let name = self.m.fnames[fid as usize].clone();
                let tys: Vec<Ty> = args.iter().map(|a| a.0.clone()).collect();
                let r = crate::ext::builtin(self, st, &name, ret, &tys, &vals)?;
                self.set(st, ins.dst, r);
                if let Some(n) = normal {
                    return self.jump(st, n);
                }
                st.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
            FK::Normal => {
                if st.frames.len() > 4000 {
                    return Err(Ev::Panic("stack overflow".into()));
                }
                let f = self.m.func(fid).unwrap();
                self.fseen.insert(fid);
                let mut regs = vec![Val::C(0); f.nregs];
                for (i, (t, o)) in args.iter().enumerate() {
                    regs[i] = self.ev(st, o, t)?;
                }
                st.frames.push(Frame { f, block: 0, ip: 0, regs, allocas: vec![], dst: ins.dst, normal });
                Ok(())
            }
        }
    }
    fn panic_msg(&mut self, st: &mut State, fid: u32, args: &[(Ty, Val)]) -> String {
        let name = self.m.fnames[fid as usize].clone();
        let mut s = crate::ext::short(&name);
        // a plain message: (ptr, len, &Location)
        for w in args.windows(2) {
            if let ((Ty::Ptr, Val::C(p)), (Ty::Int(64), Val::C(n))) = (&w[0], &w[1]) {
                if *n < 400 {
                    if let Ok(b) = self.read_bytes(st, *p, *n as usize) {
                        s.push_str(&format!(": {}", String::from_utf8_lossy(&b)));
                    }
                }
            }
        }
        if let Some((Ty::Ptr, Val::C(p))) = args.iter().rev().find(|x| x.0 == Ty::Ptr) {
            if let Ok(l) = self.read_location(st, *p) {
                s.push_str(&format!(" at {}", l));
            }
        }
        s
    }
    fn read_location(&mut self, st: &mut State, p: u64) -> R<String> {
        let f = self.load(st, &Ty::Ptr, p)?;
        let n = self.load(st, &Ty::Int(64), p + 8)?;
        let l = self.load(st, &Ty::Int(32), p + 16)?;
        if let (Val::C(f), Val::C(n), Val::C(l)) = (f, n, l) {
            if n > 0 && n < 300 {
                let b = self.read_bytes(st, f, n as usize)?;
                let s = String::from_utf8_lossy(b.strip_suffix(&[0]).unwrap_or(&b)).to_string();
                if s.contains(".rs") {
                    return Ok(format!("{}:{}", s, l));
                }
            }
        }
        err("no location")
    }

    // ---------------- exploration
    pub fn add_pc(&mut self, st: &mut State, c: T, v: bool) {
        st.known.insert(c, v);
        let t = if v { c } else { self.tt.not(c) };
        st.known.insert(t, true);
        if t != 1 && !st.pc.contains(&t) {
            st.pc.push(t);
        }
    }
    /// is pc /\ c satisfiable? (unknown counts as yes)
    pub fn feasible(&mut self, st: &State, c: T) -> Res {
        if c == 0 {
            return Res::Unsat;
        }
        let t0 = std::time::Instant::now();
        let cc = self.canon.canon(&mut self.tt, c);
        if cc == 0 {
            return Res::Unsat;
        }
        let mut pc: Vec<T> = vec![];
        for &p in &st.pc {
            let q = self.canon.canon(&mut self.tt, p);
            if q == 0 {
                return Res::Unsat;
            }
            if q != 1 && !pc.contains(&q) {
                pc.push(q);
            }
        }
        if cc == 1 && pc.is_empty() {
            return Res::Sat;
        }
        if cc != 1 {
            let ncc = self.tt.not(cc);
            if pc.contains(&ncc) {
                return Res::Unsat;
            }
        }
        if let Err(e) = self.ses.sync(&self.tt, &pc) {
            self.note(format!("path condition: {}", e.0));
            return Res::Unknown;
        }
        if cc == 1 {
            let r = self.ses.check();
            self.slog.push((format!("pc {:?}", r), t0.elapsed().as_secs_f64()));
            return r;
        }
        if let Err(e) = self.ses.push(&self.tt, cc) {
            self.note(format!("condition: {}", e.0));
            return Res::Unknown;
        }
        let r = self.ses.check();
        self.ses.pop();
        self.slog.push((format!("{:?} {:?}", r, self.tt.node(cc).op), t0.elapsed().as_secs_f64()));
        r
    }
    pub fn note(&mut self, s: String) {
        if !self.stats.errors.contains(&s) && self.stats.errors.len() < 30 {
            self.stats.errors.push(s);
        }
    }
    /// paths are distributed over the shards by the case splits made before the first other event
    pub fn mine(&mut self, st: &mut State) -> bool {
        if !st.mine {
            if let Some((i, m)) = self.opts.shard {
                let mut v: Vec<_> = st.picks.iter().collect();
                v.sort();
                let mut h = 0xcbf29ce484222325u64;
                for (k, x) in v {
                    for b in k.bytes().chain(x.to_le_bytes()) {
                        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                    }
                }
                h ^= h >> 29;
                h = h.wrapping_mul(0xbf58476d1ce4e5b9);
                h ^= h >> 32;
                if h % m != i {
                    return false;
                }
            }
            st.mine = true;
        }
        true
    }
    pub fn explore(&mut self, init: State) {
        self.work.push(init);
        while let Some(mut st) = self.work.pop() {
            if std::time::Instant::now() > self.opts.deadline {
                self.stats.undecided.push(format!("deadline reached with {} unexplored states", self.work.len() + 1));
                return;
            }
            if self.stats.paths >= self.opts.max_paths {
                self.stats.undecided.push("path limit reached".into());
                return;
            }
            if self.cex.len() >= self.opts.max_cex {
                return;
            }
            let mut e = self.run(&mut st);
            if !matches!(e, Ev::Pick(..)) && !self.mine(&mut st) {
                e = Ev::Skip;
            }
            match e {
                Ev::Skip => {}
                Ev::Done => {
                    self.stats.paths += 1;
                    if self.opts.verbose {
                        eprintln!("path {} done, {} steps, pc {}, work {}", self.stats.paths, st.steps, st.pc.len(), self.work.len());
                    }
                    self.finish_trace(&st);
                }
                Ev::AssumeFail => {
                    self.stats.infeasible += 1;
                }
                Ev::Fork(c) => {
                    self.stats.forks += 1;
                    let nc = self.tt.not(c);
                    let a = self.feasible(&st, c);
                    if a == Res::Unsat {
                        self.add_pc(&mut st, c, false);
                        self.work.push(st);
                        continue;
                    }
                    let b = self.feasible(&st, nc);
                    if b == Res::Unsat {
                        self.add_pc(&mut st, c, true);
                        if a == Res::Unknown {
                            st.unknown_pc = true;
                        }
                        self.work.push(st);
                        continue;
                    }
                    if self.opts.verbose {
                        let fr = st.frames.last().unwrap();
                        eprintln!("fork in {} ({}): {:?} {:?} {:?}", crate::ext::short(&fr.f.name), self.where_(&st), self.tt.node(c).op, a, b);
                    }
                    let mut s2 = st.clone();
                    self.add_pc(&mut s2, c, false);
                    s2.unknown_pc |= b == Res::Unknown;
                    self.add_pc(&mut st, c, true);
                    st.unknown_pc |= a == Res::Unknown;
                    self.work.push(s2);
                    self.work.push(st);
                }
                Ev::Conc(t) => {
                    let vals = match self.enumerate(&st, t) {
                        Ok(v) => v,
                        Err(m) => {
                            let w = self.where_(&st);
                            self.stats.undecided.push(format!("{} in {}", m, w));
                            continue;
                        }
                    };
                    if vals.is_empty() {
                        self.stats.infeasible += 1;
                    }
                    for v in vals {
                        let mut s = st.clone();
                        let w = self.tt.width(t);
                        let k = self.tt.int(v, w);
                        let c = self.tt.cmp(Op::Eq, t, k);
                        self.add_pc(&mut s, c, true);
                        s.kval.insert(t, v);
                        self.work.push(s);
                    }
                }
                Ev::Pick(k, n) => {
                    for v in (0..n).rev() {
                        if let Some(f) = self.opts.fixed_picks.get(&k) {
                            if *f != v {
                                continue;
                            }
                        }
                        let mut s = st.clone();
                        s.picks.insert(k.clone(), v);
                        self.work.push(s);
                    }
                }
                Ev::Panic(m) => {
                    self.stats.panics_checked += 1;
                    let w = self.where_(&st);
                    let msg = format!("{} (in {})", m, w);
                    if let Some(q) = self.opts.concrete.as_ref() {
                        let _ = q;
                        self.stats.errors.push(format!("panic: {}", msg));
                        continue;
                    }
                    match self.solve_pc(&st, 1, &[]) {
                        (Res::Unsat, _) => self.stats.infeasible += 1,
                        (Res::Sat, model) => {
                            self.stats.paths += 1;
                            self.add_cex(&st, "panic", &msg, model)
                        }
                        (Res::Unknown, _) => self.stats.undecided.push(format!("is the panic reachable? {}", msg)),
                    }
                }
                Ev::Err(m) => {
                    let w = self.where_(&st);
                    let stack = self.stack(&st).iter().map(|s| crate::ext::short(s)).collect::<Vec<_>>().join(" < ");
                    // an infeasible path does not matter
                    if st.unknown_pc {
                        if let (Res::Unsat, _) = self.solve_pc(&st, 1, &[]) {
                            self.stats.infeasible += 1;
                            continue;
                        }
                    }
                    self.stats.undecided.push(format!("{} in {} [{}]", m, w, stack));
                }
            }
        }
    }
    pub fn where_(&mut self, st: &State) -> String {
        // innermost frame of the crate with a source line
        for fr in st.frames.iter().rev() {
            let ins = &fr.f.blocks[fr.block as usize].instrs[fr.ip.min(fr.f.blocks[fr.block as usize].instrs.len() - 1)];
            if ins.dbg != 0 {
                if let Some(s) = crate::dbg::locate(&self.m, ins.dbg, true) {
                    return s;
                }
            }
        }
        st.frames.last().map(|f| crate::ext::short(&f.f.name)).unwrap_or_default()
    }
    fn enumerate(&mut self, st: &State, t: T) -> Result<Vec<i128>, String> {
        let (l, h) = self.tt.ivi(t);
        let w = self.tt.width(t);
        let mut out = vec![];
        if h - l <= 16 {
            for v in l..=h {
                let k = self.tt.int(v, w);
                let c = self.tt.cmp(Op::Eq, t, k);
                if self.feasible(st, c) != Res::Unsat {
                    out.push(v);
                }
            }
            return Ok(out);
        }
        let mut excl: Vec<T> = vec![];
        let tc = self.canon.canon(&mut self.tt, t);
        loop {
            let mut pc: Vec<T> = vec![];
            for &p in st.pc.iter().chain(excl.iter()) {
                let q = self.canon.canon(&mut self.tt, p);
                if q == 0 {
                    return Ok(out);
                }
                if q != 1 {
                    pc.push(q);
                }
            }
            if self.ses.sync(&self.tt, &pc).is_err() {
                return Err("cannot encode the path condition for a symbolic address or size".into());
            }
            match self.ses.check() {
                Res::Unsat => return Ok(out),
                Res::Unknown => return Err("solver cannot enumerate a symbolic address or size".into()),
                Res::Sat => {}
            }
            let v = match self.ses.value(&self.tt, tc) {
                Some(q) => q,
                None => return Err("no value for a symbolic address or size".into()),
            };
            use num_traits::ToPrimitive;
            let v = canon(v.to_integer().to_i128().unwrap_or(0), w);
            out.push(v);
            if out.len() > 300 {
                return Err("too many values of a symbolic address or size".into());
            }
            let k = self.tt.int(v, w);
            let c = self.tt.cmp(Op::Eq, t, k);
            excl.push(self.tt.not(c));
        }
    }
    /// satisfiability of pc /\ goal with the portfolio, model of the inputs on sat
    pub fn solve_pc(&mut self, st: &State, goal: T, hints: &[T]) -> (Res, Vec<(String, char, Q)>) {
        let _ = hints;
        self.solve_pinned(st, goal, None)
    }
    /// search for a counterexample of a query too hard in general: most inputs are pinned to
    /// chosen values (can only ever answer Sat; an Unsat here means nothing)
    fn hunt(&mut self, st: &State, goal: T) -> Option<Vec<(String, char, Q)>> {
        if self.opts.hunts >= 60 {
            return None;
        }
        for k in 0..6u64 {
            self.opts.hunts += 1;
            let left = self.opts.deadline.saturating_duration_since(std::time::Instant::now()).as_secs_f64();
            if left < 2.0 {
                return None;
            }
            if let (Res::Sat, m) = self.solve_pinned(st, goal, Some(k)) {
                return Some(m);
            }
        }
        None
    }
    /// evaluate the path condition and the goals at chosen points; a point that satisfies them is
    /// a proposed counterexample
    fn evaluate(&mut self, st: &State, goals: &[T]) -> Option<Vec<(String, char, Q)>> {
        use crate::eval::*;
        if self.tt.mode == Mode::Fp {
            return None;
        }
        let mut rng = 0x9e3779b97f4a7c15u64;
        for k in 0..48u64 {
            let mut env = HashMap::new();
            for (_, t, _) in &st.inputs {
                if let Some(v) = point(&self.tt.iv[*t as usize], k, &mut rng) {
                    env.insert(*t, v);
                }
            }
            let pt = env.clone();
            let mut ev = Ev::new(&self.tt, env);
            if !goals.iter().any(|g| ev.holds(*g)) || !st.pc.iter().all(|p| ev.holds(*p)) {
                continue;
            }
            let mut model = vec![];
            for (n, t, kd) in &st.inputs {
                let q = match pt.get(t) {
                    Some(V::F(x)) => q_of_f64(*x)?,
                    Some(V::I(x)) => Q::from_integer((*x).into()),
                    _ => return None,
                };
                model.push((n.clone(), *kd, q));
            }
            return Some(model);
        }
        None
    }
    fn solve_pinned(&mut self, st: &State, goal: T, pin: Option<u64>) -> (Res, Vec<(String, char, Q)>) {
        let inputs: Vec<T> = st.inputs.iter().map(|x| x.1).collect();
        let cone: Vec<T> = st.pc.iter().copied().chain([goal]).collect();
        let mut cone2 = vec![];
        for p in cone {
            let q = self.canon.canon(&mut self.tt, p);
            if q == 0 {
                return (Res::Unsat, vec![]);
            }
            if q != 1 {
                cone2.push(q);
            }
        }
        // only inputs that occur
        let occ: HashSet<T> = crate::smt::cone(&self.tt, &cone2).into_iter().collect();
        let get: Vec<T> = inputs.iter().copied().filter(|t| occ.contains(t)).collect();
        self.stats.oneshot_queries += 1;
        let mut to = self.opts.q_timeout;
        let left = self.opts.deadline.saturating_duration_since(std::time::Instant::now()).as_secs_f64();
        to = to.min(left.max(1.0));
        let mut extra = String::new();
        if let Some(k) = pin {
            to = to.min(4.0);
            let mut rng = (k + 1).wrapping_mul(0x9e3779b97f4a7c15) ^ (self.opts.hunts as u64) << 32;
            for t in &get {
                rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let x = rng >> 33;
                let keep = match k % 3 {
                    0 => 100,
                    1 => 80,
                    _ => 50,
                };
                if x / 64 % 100 >= keep {
                    continue;
                }
                if let (Sort::Real, Iv::R(l, h)) = (self.tt.sort(*t), self.tt.iv[*t as usize]) {
                    if l.is_finite() && h.is_finite() {
                        let v = l + (h - l) * ((x % 63 + 1) as f64 / 64.0);
                        if let Some(q) = q_of_f64(v) {
                            extra.push_str(&format!("(assert (= {} {}))", crate::smt::nm(*t), crate::smt::q_smt(&q)));
                        }
                    }
                }
            }
        }
        let r = match solve(&self.tt, &cone2, &get, to, &extra) {
            Ok(r) => r,
            Err(u) => {
                self.note(format!("query: {}", u.0));
                return (Res::Unknown, vec![]);
            }
        };
        self.stats.oneshot_time += r.time;
        if self.opts.verbose {
            eprintln!("query {:?} by {} in {:.2}s {}", r.res, r.solver, r.time, r.note);
        }
        if r.res != Res::Unknown {
            *self.stats.by_solver.entry(r.solver.clone()).or_default() += 1;
        }
        let mut model = vec![];
        if r.res == Res::Sat {
            use num_traits::Zero;
            for (n, t, k) in &st.inputs {
                let q = r.model.get(t).cloned().unwrap_or_else(|| {
                    // unconstrained: closest value to zero within the range
                    match self.tt.iv[*t as usize] {
                        Iv::I(l, h) => Q::from_integer(0i128.max(l).min(h).into()),
                        Iv::R(l, h) => q_of_f64(0f64.max(l).min(h)).unwrap_or(Q::zero()),
                        _ => Q::zero(),
                    }
                });
                let q = if let (Sort::Int(w), Mode::Fp) = (self.tt.sort(*t), self.tt.mode) {
                    use num_traits::ToPrimitive;
                    Q::from_integer(canon(q.to_integer().to_i128().unwrap_or(0), w).into())
                } else {
                    q
                };
                model.push((n.clone(), *k, q));
            }
        }
        (r.res, model)
    }
    pub fn add_cex(&mut self, st: &State, kind: &str, msg: &str, model: Vec<(String, char, Q)>) {
        let c = self.cex_msgs.entry(format!("{}{}", kind, msg)).or_default();
        *c += 1;
        if *c > 3 {
            return;
        }
        let mut picks: Vec<(String, u64)> = st.picks.iter().map(|(a, b)| (a.clone(), *b)).collect();
        picks.sort();
        if let Some(h) = self.opts.hurry {
            self.opts.deadline = self.opts.deadline.min(std::time::Instant::now() + std::time::Duration::from_secs_f64(h));
        }
        self.cex.push(Cex { kind: kind.into(), msg: msg.into(), model, picks, stack: self.stack(st).iter().map(|s| crate::ext::short(s)).collect() });
    }
    /// the assertion `c` must hold on this path
    pub fn check_assert(&mut self, st: &mut State, c: T, weak: &[T], msg: &str) -> R<()> {
        if !self.mine(st) {
            return Err(Ev::Skip);
        }
        self.stats.asserts += 1;
        if c == 1 {
            self.stats.asserts_const += 1;
            return Ok(());
        }
        if let Some(true) = st.known.get(&c) {
            self.stats.asserts_const += 1;
            return Ok(());
        }
        let neg = self.tt.not(c);
        if self.feasible(st, neg) == Res::Unsat {
            self.stats.proved += 1;
            self.add_pc(st, c, true);
            return Ok(());
        }
        let goals: Vec<T> = if weak.is_empty() { vec![neg] } else { weak.to_vec() };
        if let Some(model) = self.evaluate(st, &goals) {
            self.add_cex(st, "assert", msg, model);
            return Err(Ev::AssumeFail);
        }
        // large violations first: they survive floating-point replay
        for &w in weak {
            let (r, model) = self.solve_pc(st, w, &[]);
            match r {
                Res::Sat => {
                    self.add_cex(st, "assert", msg, model);
                    return Err(Ev::AssumeFail);
                }
                Res::Unsat => {}
                Res::Unknown => {
                    if let Some(model) = self.hunt(st, w) {
                        self.add_cex(st, "assert", msg, model);
                        return Err(Ev::AssumeFail);
                    }
                    break;
                }
            }
        }
        let (mut r, mut model) = self.solve_pc(st, neg, &[]);
        if r == Res::Unknown {
            if let Some(m) = self.hunt(st, neg) {
                r = Res::Sat;
                model = m;
            }
        }
        match r {
            Res::Unsat => self.stats.proved += 1,
            Res::Sat => {
                self.add_cex(st, "assert", msg, model);
                // go on with the inputs that satisfy it
                if self.feasible(st, c) == Res::Unsat {
                    return Err(Ev::AssumeFail);
                }
            }
            Res::Unknown => {
                let w = st.picks.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(",");
                self.stats.undecided.push(format!("assertion {:?} [{}]", msg, w));
            }
        }
        self.add_pc(st, c, true);
        Ok(())
    }
    fn finish_trace(&mut self, st: &State) {
        let mut v = vec![];
        for (n, x) in &st.trace {
            v.push((n.clone(), match x {
                Val::C(c) => format!("{:016x}", c),
                _ => "symbolic".to_string(),
            }));
        }
        if self.traces.len() < 50 && !v.is_empty() {
            self.traces.push(v);
        }
    }
    pub fn feasible_cover(&mut self, st: &State) -> bool {
        if !st.unknown_pc && st.pc.is_empty() {
            return true;
        }
        self.feasible(st, 1) == Res::Sat || {
            let (r, _) = self.solve_pc(st, 1, &[]);
            r == Res::Sat
        }
    }
}

fn write_const(d: &mut [u8], off: usize, t: &Ty, c: &Const) -> R<()> {
    let n = t.size() as usize;
    match c {
        Const::Zero | Const::Undef => {}
        Const::Int(v) => d[off..off + n.min(16)].copy_from_slice(&v.to_le_bytes()[..n.min(16)]),
        Const::Bytes(b) => d[off..off + b.len()].copy_from_slice(b),
        Const::Agg(v) => {
            let (offs, _) = t.layout();
            for (i, (et, ec)) in v.iter().enumerate() {
                write_const(d, off + offs[i] as usize, et, ec)?;
            }
        }
        c => match static_addr(c) {
            Some(a) => d[off..off + n].copy_from_slice(&a.to_le_bytes()[..n]),
            None => return err(format!("initialiser {:?}", c)),
        },
    }
    Ok(())
}

pub type Names = BTreeSet<String>;
