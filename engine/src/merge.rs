//! Merging of short side-effect-light branches: both sides are executed up to their common
//! post-dominator and the differing registers and stored cells become if-then-else terms.
use crate::interp::*;
use crate::ll::*;
use crate::term::T;

const NONE: u32 = u32::MAX;

fn succs(b: &Block) -> Vec<u32> {
    match b.instrs.last().map(|i| &i.kind) {
        Some(IK::Br(l)) => vec![*l],
        Some(IK::CondBr(_, a, c)) => vec![*a, *c],
        Some(IK::Switch(_, _, d, cs)) => {
            let mut v: Vec<u32> = cs.iter().map(|x| x.1).collect();
            v.push(*d);
            v
        }
        Some(IK::Call { normal: Some(n), .. }) => vec![*n],
        _ => vec![],
    }
}

/// immediate post-dominators, ignoring blocks from which no return is reachable
pub fn ipdom(f: &Func) -> Vec<u32> {
    let n = f.blocks.len();
    let exit = n as u32;
    let mut preds: Vec<Vec<u32>> = vec![vec![]; n + 1];
    let mut suc: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, b) in f.blocks.iter().enumerate() {
        if let Some(IK::Ret(_)) = b.instrs.last().map(|i| &i.kind) {
            suc[i].push(exit);
            preds[n].push(i as u32);
        }
        for s in succs(b) {
            suc[i].push(s);
            preds[s as usize].push(i as u32);
        }
    }
    // post-order of the reverse graph from the exit
    let mut num = vec![usize::MAX; n + 1];
    let mut order: Vec<u32> = vec![];
    let mut seen = vec![false; n + 1];
    let mut stack = vec![(exit, 0usize)];
    seen[n] = true;
    while let Some((b, k)) = stack.pop() {
        if let Some(&p) = preds[b as usize].get(k) {
            stack.push((b, k + 1));
            if !seen[p as usize] {
                seen[p as usize] = true;
                stack.push((p, 0));
            }
        } else {
            num[b as usize] = order.len();
            order.push(b);
        }
    }
    let mut d = vec![NONE; n + 1];
    d[n] = exit;
    loop {
        let mut ch = false;
        for &b in order.iter().rev() {
            if b == exit {
                continue;
            }
            let mut x = NONE;
            for &s in &suc[b as usize] {
                if num[s as usize] == usize::MAX || d[s as usize] == NONE {
                    continue;
                }
                if x == NONE {
                    x = s;
                } else {
                    let (mut p, mut q) = (x, s);
                    while p != q {
                        while num[p as usize] < num[q as usize] {
                            p = d[p as usize];
                        }
                        while num[q as usize] < num[p as usize] {
                            q = d[q as usize];
                        }
                    }
                    x = p;
                }
            }
            if x != NONE && d[b as usize] != x {
                d[b as usize] = x;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    d.truncate(n);
    for x in d.iter_mut() {
        if *x == exit {
            *x = NONE;
        }
    }
    d
}

const MAX_DEPTH: u32 = 4;

impl Eng {
    fn ipd(&mut self, f: &Func) -> std::rc::Rc<Vec<u32>> {
        if let Some(x) = self.pdoms.get(&f.id) {
            return x.clone();
        }
        let x = std::rc::Rc::new(ipdom(f));
        self.pdoms.insert(f.id, x.clone());
        x
    }

    /// may this call happen on one side only? (no observable effects besides memory)
    fn call_ok(&mut self, callee: &Opd) -> bool {
        let Opd::K(k) = callee else { return false };
        let Const::Func(id) = &**k else { return false };
        crate::ext::mergeable(&self.m.fnames[*id as usize])
    }

    /// run one side; with a join: until its first visit; without: as far as it goes, recording the blocks
    fn side(&mut self, st: &mut State, join: u32, fuel: &mut u32, trace: &mut Vec<u32>) -> bool {
        let base = st.frames.len();
        let f = st.frames.last().unwrap().f.clone();
        let mut entered = false;
        loop {
            let depth = st.frames.len();
            let (blk, ip) = {
                let fr = st.frames.last().unwrap();
                (fr.block, fr.ip)
            };
            if depth == base && entered {
                trace.push(blk);
                if blk == join {
                    return true;
                }
            }
            if *fuel == 0 {
                return false;
            }
            *fuel -= 1;
            let func = if depth == base { f.clone() } else { st.frames.last().unwrap().f.clone() };
            let ins = &func.blocks[blk as usize].instrs[ip];
            match &ins.kind {
                IK::Ret(_) if depth == base => return false,
                IK::Call { callee, .. } if !self.call_ok(callee) => {
                    if self.opts.verbose {
                        eprintln!("no merge in {}: {}", crate::ext::short(&func.name), format!("{:?}", ins.kind).chars().take(160).collect::<String>());
                    }
                    return false;
                }
                _ => {}
            }
            match self.step(st, ins) {
                Ok(()) => {}
                Err(Ev::Fork(k)) if join != NONE && self.merge_queries < 2000 => {
                    if self.try_merge(st, k) {
                        entered = st.frames.len() == base;
                        continue;
                    }
                    // one way may be impossible here
                    self.merge_queries += 1;
                    let nk = self.tt.not(k);
                    let v = if self.feasible(st, nk) == crate::smt::Res::Unsat {
                        true
                    } else if self.feasible(st, k) == crate::smt::Res::Unsat {
                        false
                    } else {
                        return false;
                    };
                    st.known.insert(k, v);
                    st.known.insert(nk, !v);
                    continue;
                }
                Err(e) => {
                    if self.opts.verbose && join != NONE {
                        eprintln!("no merge in {}: {:?} at {}", crate::ext::short(&func.name), e, format!("{:?}", ins.kind).chars().take(160).collect::<String>());
                    }
                    return false;
                }
            }
            entered = match &ins.kind {
                IK::Br(..) | IK::CondBr(..) | IK::Switch(..) | IK::Ret(..) | IK::Call { normal: Some(_), .. } => {
                    // arrived at a block's first instruction in the base frame?
                    st.frames.len() == base && {
                        let fr = st.frames.last().unwrap();
                        fr.ip == f.blocks[fr.block as usize].nphi && true
                    }
                }
                _ => false,
            };
            st.steps += 1;
            self.stats.steps += 1;
        }
    }

    /// try to execute both sides of a symbolic branch at once; true if the state moved to the join
    pub fn try_merge(&mut self, st: &mut State, c: T) -> bool {
        if self.merge_depth >= MAX_DEPTH {
            return false;
        }
        let f = st.frames.last().unwrap().f.clone();
        let here = st.frames.last().unwrap().block;
        if let IK::Call { callee, .. } = &f.blocks[here as usize].instrs[st.frames.last().unwrap().ip].kind {
            if !self.call_ok(callee) {
                return false;
            }
        }
        let nc = self.tt.not(c);
        let mut s1 = st.clone();
        s1.known.insert(c, true);
        s1.known.insert(nc, false);
        s1.pc.push(c);
        let mut s2 = st.clone();
        s2.known.insert(c, false);
        s2.known.insert(nc, true);
        s2.pc.push(nc);
        // the first block both sides reach without another open branch
        let save = self.merge_depth;
        self.merge_depth = MAX_DEPTH;
        let (mut t1, mut t2) = (vec![], vec![]);
        let verbose = std::mem::replace(&mut self.opts.verbose, false);
        self.side(&mut s1.clone(), NONE, &mut 300, &mut t1);
        self.side(&mut s2.clone(), NONE, &mut 300, &mut t2);
        self.opts.verbose = verbose;
        self.merge_depth = save;
        let mut best: Option<(usize, u32)> = None;
        for (i, x) in t1.iter().enumerate() {
            if let Some(j) = t2.iter().position(|y| y == x) {
                if best.map(|q| i + j < q.0).unwrap_or(true) && !t1[..i].contains(x) {
                    best = Some((i + j, *x));
                }
            }
        }
        self.merge_depth += 1;
        let mut r = false;
        if let Some((_, j)) = best {
            r = self.merge_at(st, c, &s1, &s2, j);
        }
        if !r {
            let j = self.ipd(&f)[here as usize];
            if j != NONE && best.map(|x| x.1) != Some(j) {
                r = self.merge_at(st, c, &s1, &s2, j);
            }
        }
        self.merge_depth -= 1;
        r
    }

    fn merge_at(&mut self, st: &mut State, c: T, s1: &State, s2: &State, join: u32) -> bool {
        let mut fuel = 3000;
        let mut x = s1.clone();
        if !self.side(&mut x, join, &mut fuel, &mut vec![]) {
            return false;
        }
        let mut y = s2.clone();
        if !self.side(&mut y, join, &mut fuel, &mut vec![]) {
            return false;
        }
        let Some(mem) = self.merge_mem(c, &x, &y) else { return false };
        // the registers the join and later code can see: differing ones become if-then-else
        let f = st.frames.last().unwrap().f.clone();
        let live = self.live_types(&f);
        let xr = std::mem::take(&mut x.frames.last_mut().unwrap().regs);
        let yr = std::mem::take(&mut y.frames.last_mut().unwrap().regs);
        let mut regs = xr.clone();
        for i in 0..regs.len() {
            if !same(&xr[i], &yr[i]) {
                let phi = f.blocks[join as usize].instrs[..f.blocks[join as usize].nphi].iter().any(|p| p.dst == i as u32);
                let v = match live.get(i).and_then(|t| t.clone()) {
                    Some(t) => self.join_val(st, c, &t, &xr[i], &yr[i]),
                    None => None,
                };
                regs[i] = match v {
                    Some(v) => v,
                    None if phi => return false,
                    // not usable after the join by SSA dominance; any use is an error
                    None => Val::A(std::rc::Rc::new(vec![])),
                };
            }
        }
        if x.frames.last().unwrap().allocas != y.frames.last().unwrap().allocas {
            return false;
        }
        st.steps = x.steps.max(y.steps);
        st.free = (0..mem.len() as u32).filter(|i| mem[*i as usize].is_none() && (x.free.contains(i) || y.free.contains(i))).collect();
        st.mem = mem;
        let fr = st.frames.last_mut().unwrap();
        fr.regs = regs;
        fr.block = join;
        fr.ip = f.blocks[join as usize].nphi;
        true
    }

    fn join_val(&mut self, st: &State, c: T, t: &Ty, x: &Val, y: &Val) -> Option<Val> {
        match (t, x, y) {
            (Ty::Struct(..) | Ty::Arr(..), Val::A(p), Val::A(q)) if p.len() == q.len() => {
                let mut o = vec![];
                for (i, (p, q)) in p.iter().zip(q.iter()).enumerate() {
                    o.push(if same(p, q) { p.clone() } else { self.join_val(st, c, &t.elem(i), p, q)? });
                }
                Some(Val::A(std::rc::Rc::new(o)))
            }
            _ => self.select(st, &Val::S(c), t, x.clone(), y.clone()).ok(),
        }
    }

    fn merge_mem(&mut self, c: T, x: &State, y: &State) -> Option<Vec<Option<std::rc::Rc<Obj>>>> {
        let n = x.mem.len().max(y.mem.len());
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            let p = x.mem.get(i).and_then(|o| o.as_ref());
            let q = y.mem.get(i).and_then(|o| o.as_ref());
            out.push(match (p, q) {
                (Some(p), Some(q)) => {
                    if std::rc::Rc::ptr_eq(p, q) {
                        Some(p.clone())
                    } else {
                        Some(self.merge_obj(c, p, q)?)
                    }
                }
                (Some(p), None) => Some(p.clone()),
                (None, Some(q)) => Some(q.clone()),
                (None, None) => None,
            });
        }
        Some(out)
    }

    fn merge_obj(&mut self, c: T, p: &std::rc::Rc<Obj>, q: &std::rc::Rc<Obj>) -> Option<std::rc::Rc<Obj>> {
        if p.data.len() != q.data.len() {
            return None;
        }
        let mut o: Obj = (**p).clone();
        // symbolic cells of either
        let mut cells: Vec<(u32, u8, bool)> = vec![];
        for (k, e) in p.sym.iter().chain(q.sym.iter()) {
            let fl = !matches!(self.tt.sort(e.t), crate::term::Sort::Int(_));
            match cells.iter_mut().find(|x| x.0 < *k + e.len as u32 && x.0 + x.1 as u32 > *k) {
                None => cells.push((*k, e.len, fl)),
                Some(x) if x.0 == *k && x.1 == e.len => x.2 |= fl,
                Some(_) => return None,
            }
        }
        let mut covered = vec![false; p.data.len()];
        for (k, len, fl) in cells {
            for b in k..k + len as u32 {
                covered[b as usize] = true;
            }
            if let (Some(a), Some(b)) = (p.sym.get(&k), q.sym.get(&k)) {
                if a.t == b.t {
                    continue;
                }
            }
            if len > 8 {
                return None;
            }
            let a = self.cell(p, k, len, fl)?;
            let b = self.cell(q, k, len, fl)?;
            let t = self.tt.ite(c, a, b);
            self.put(&mut o, k, len, t);
        }
        let mut i = 0usize;
        while i < p.data.len() {
            if covered[i] || p.data[i] == q.data[i] {
                i += 1;
                continue;
            }
            let w = [8usize, 4, 2, 1].into_iter().find(|w| {
                let s = i / w * w;
                s + w <= p.data.len() && !covered[s..s + w].iter().any(|x| *x)
            })?;
            let s = i / w * w;
            let a = self.cell(p, s as u32, w as u8, false)?;
            let b = self.cell(q, s as u32, w as u8, false)?;
            let t = self.tt.ite(c, a, b);
            self.put(&mut o, s as u32, w as u8, t);
            i = s + w;
        }
        Some(std::rc::Rc::new(o))
    }
    fn cell(&mut self, o: &Obj, off: u32, len: u8, float: bool) -> Option<T> {
        let t = self.load_bits(o, off, len as u32, float).ok()?;
        if float && self.real() {
            if let Some(f) = self.tt.as_f(t) {
                if !f.is_finite() {
                    return None;
                }
            }
        }
        Some(t)
    }
    fn put(&mut self, o: &mut Obj, off: u32, len: u8, t: T) {
        o.sym.remove(&off);
        if let (Some(x), true) = (self.tt.as_int(t), matches!(self.tt.sort(t), crate::term::Sort::Int(_))) {
            let b = (x as i64).to_le_bytes();
            o.data[off as usize..off as usize + len as usize].copy_from_slice(&b[..len as usize]);
        } else {
            o.sym.insert(off, Ent { len, t });
        }
    }

    fn live_types(&mut self, f: &Func) -> std::rc::Rc<Vec<Option<Ty>>> {
        if let Some(x) = self.regtypes.get(&f.id) {
            return x.clone();
        }
        let mut v: Vec<Option<Ty>> = vec![None; f.nregs];
        for b in &f.blocks {
            for i in &b.instrs {
                if i.dst == NODST {
                    continue;
                }
                let t = match &i.kind {
                    IK::Bin(_, t, ..) | IK::FNeg(t, _) | IK::Select(_, _, t, ..) | IK::Phi(t, _) | IK::Load(t, _) | IK::Freeze(t, _) => Some(t.clone()),
                    IK::ICmp(_, t, ..) | IK::FCmp(_, t, ..) => match t {
                        Ty::Vec(..) => None,
                        _ => Some(Ty::Int(1)),
                    },
                    IK::Cast(_, _, t, _) => Some(t.clone()),
                    IK::Call { ret, .. } => Some(ret.clone()),
                    IK::Gep(..) => Some(Ty::Ptr),
                    IK::ExtractValue(t, _, idx) => Some(idx.iter().fold(t.clone(), |t, i| t.elem(*i))),
                    IK::InsertValue(t, ..) => Some(t.clone()),
                    _ => None,
                };
                v[i.dst as usize] = t;
            }
        }
        let x = std::rc::Rc::new(v);
        self.regtypes.insert(f.id, x.clone());
        x
    }
}

fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::C(x), Val::C(y)) => x == y,
        (Val::W(x), Val::W(y)) => x == y,
        (Val::S(x), Val::S(y)) => x == y,
        (Val::A(x), Val::A(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q)),
        _ => false,
    }
}
