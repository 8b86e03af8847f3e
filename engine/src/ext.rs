//! LLVM intrinsics, the C library, libm and the harness interface.
use crate::interp::*;
use crate::ll::*;
use crate::smt::Res;
use crate::term::*;
use num_traits::{Signed, ToPrimitive, Zero};
use std::rc::Rc;

pub fn short(n: &str) -> String {
    let d = format!("{:#}", rustc_demangle::demangle(n));
    d
}

pub fn is_panic(n: &str) -> bool {
    if n.starts_with("_R") || n.starts_with("_ZN") {
        if n.contains("9panicking") {
            return !(n.contains("panic_count") || n.contains("panicking8panicking") || n.contains("drop_glue") || n.contains("_3std9panicking11panic_count"));
        }
        return n.contains("4core6option13unwrap_failed")
            || n.contains("4core6option13expect_failed")
            || n.contains("4core6result13unwrap_failed")
            || n.contains("slice_index_fail")
            || n.contains("slice_error_fail")
            || n.contains("_len_fail")
            || n.contains("_order_fail")
            || n.contains("_overflow_fail")
            || n.contains("18handle_alloc_error")
            || n.contains("7raw_vec12handle_error")
            || n.contains("17capacity_overflow")
            || n.contains("process5abort")
            || n.contains("__rust_abort")
            || n.contains("array_out_of_bounds");
    }
    matches!(n, "abort" | "rust_panic" | "rust_begin_unwind" | "__rust_start_panic")
}

const LIBC: &[&str] = &[
    "malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc", "free", "bcmp", "memcmp", "strlen", "memcpy", "memmove", "memset", "read", "write", "open64", "open", "close",
    "fstat64", "stat64", "statx", "lseek64", "getenv", "syscall", "__errno_location", "gettid", "getcwd", "readlink", "realpath", "mmap64", "munmap", "getrandom", "secure_getenv",
    "pthread_self", "exit", "_exit", "writev", "__cxa_thread_atexit_impl", "clock_gettime", "getauxval", "sysconf", "sched_getaffinity", "isatty", "poll", "sigaction", "signal",
    "__rust_no_alloc_shim_is_unstable_v2", "fcntl64", "fcntl",
];
const LIBM: &[&str] = &[
    "exp", "exp2", "log", "log10", "log2", "pow", "sin", "cos", "tan", "hypot", "atan2", "atan", "fmod", "cbrt", "expm1", "log1p", "tanh", "sinh", "cosh", "acos", "asin", "floor",
    "ceil", "round", "trunc", "rint", "sqrt", "fabs", "fmin", "fmax", "fma", "ldexp", "exp10", "roundeven",
];

pub fn is_builtin(n: &str) -> bool {
    n.starts_with("llvm.") || n.starts_with("sym_") || LIBC.contains(&n) || LIBM.contains(&n) || (n.ends_with('f') && LIBM.contains(&&n[..n.len() - 1]))
}

fn bools(e: &mut Eng, t: T) -> Val {
    e.sv(t, &Ty::Int(1))
}

/// calls that only touch memory and values, so that they may happen on one side of a merged branch
pub fn mergeable(n: &str) -> bool {
    if let Some(x) = n.strip_prefix("llvm.") {
        return !x.starts_with("trap") && !x.starts_with("ubsantrap");
    }
    if n.starts_with("sym_") || is_panic(n) {
        return false;
    }
    if LIBM.contains(&n) || n.ends_with('f') && LIBM.contains(&&n[..n.len() - 1]) {
        return true;
    }
    if LIBC.contains(&n) {
        return ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memcpy", "memmove", "memset", "memcmp", "bcmp"].contains(&n);
    }
    true
}

pub fn builtin(e: &mut Eng, st: &mut State, name: &str, ret: &Ty, tys: &[Ty], a: &[Val]) -> R<Val> {
    if let Some(n) = name.strip_prefix("llvm.") {
        return intrinsic(e, st, n, ret, tys, a);
    }
    if name.starts_with("sym_") {
        return sym(e, st, name, a);
    }
    if LIBM.contains(&name) || (name.ends_with('f') && LIBM.contains(&&name[..name.len() - 1])) {
        let f32_ = !LIBM.contains(&name);
        let base = if f32_ { &name[..name.len() - 1] } else { name };
        return libm(e, st, base, ret, a);
    }
    libc(e, st, name, tys, a)
}

fn base_name(n: &str) -> &str {
    // strip type suffixes
    let mut end = n.len();
    loop {
        let k = match n[..end].rfind('.') {
            Some(k) => k,
            None => break,
        };
        let s = &n[k + 1..end];
        let ty = (s.len() > 1 && (s.starts_with('i') || s.starts_with('f') || s.starts_with('p') || s.starts_with('v')) && s[1..].chars().next().unwrap().is_ascii_digit()) || s.starts_with("sl_");
        if ty {
            end = k;
        } else {
            break;
        }
    }
    &n[..end]
}

fn lanes(e: &mut Eng, st: &mut State, n: &str, ret: &Ty, tys: &[Ty], a: &[Val]) -> R<Val> {
    let Ty::Vec(k, el) = ret else { return err("lanes") };
    let mut o = vec![];
    for i in 0..*k as usize {
        let args: Vec<Val> = a
            .iter()
            .map(|v| match v {
                Val::A(l) => l[i].clone(),
                v => v.clone(),
            })
            .collect();
        let t: Vec<Ty> = tys
            .iter()
            .map(|t| match t {
                Ty::Vec(_, x) => (**x).clone(),
                t => t.clone(),
            })
            .collect();
        o.push(intrinsic(e, st, n, el, &t, &args)?);
    }
    Ok(Val::A(Rc::new(o)))
}

fn intrinsic(e: &mut Eng, st: &mut State, n: &str, ret: &Ty, tys: &[Ty], a: &[Val]) -> R<Val> {
    let b = base_name(n);
    match b {
        "memcpy" | "memmove" | "memcpy.inline" => {
            let len = e.conc(st, &a[2], &Ty::Int(64))?;
            if len == 0 {
                return Ok(Val::C(0));
            }
            let d = e.conc(st, &a[0], &Ty::Ptr)?;
            let s = e.conc(st, &a[1], &Ty::Ptr)?;
            e.memcpy(st, d, s, len as usize)?;
            return Ok(Val::C(0));
        }
        "memset" | "memset.inline" => {
            let len = e.conc(st, &a[2], &Ty::Int(64))?;
            if len == 0 {
                return Ok(Val::C(0));
            }
            let d = e.conc(st, &a[0], &Ty::Ptr)?;
            let v = e.conc(st, &a[1], &Ty::Int(8))? as u8;
            let buf = vec![v; len as usize];
            e.write_bytes(st, d, &buf)?;
            return Ok(Val::C(0));
        }
        "trap" | "debugtrap" => return Err(Ev::Panic("trap".into())),
        "threadlocal.address" | "expect" | "launder.invariant.group" | "strip.invariant.group" | "expect.with.probability" | "ssa.copy" => return Ok(a[0].clone()),
        "is.constant" => return Ok(Val::C(0)),
        "x86.sse2.pause" | "prefetch" | "donothing" | "stackrestore" | "va_start" | "va_end" | "sideeffect" => return Ok(Val::C(0)),
        "stacksave" => return Ok(Val::C(0)),
        "load.relative" => {
            let p = e.conc(st, &a[0], &Ty::Ptr)?;
            let o = e.conc(st, &a[1], &Ty::Int(64))?;
            let v = e.load(st, &Ty::Int(32), p.wrapping_add(o))?;
            let Val::C(v) = v else { return err("load.relative") };
            // the table holds truncated (target - table); both are static addresses, recover the high part
            return rel(e, st, p, o, v);
        }
        "objectsize" => return Ok(Val::C(u64::MAX)),
        _ => {}
    }
    if let Ty::Vec(..) = ret {
        if !b.starts_with("vector.reduce") {
            return lanes(e, st, n, ret, tys, a);
        }
    }
    if let Some(op) = b.strip_prefix("vector.reduce.") {
        return reduce(e, st, op, tys, a);
    }
    let t0 = tys.get(0).cloned().unwrap_or(Ty::Void);
    if b.ends_with(".with.overflow") {
        let op = &b[..4];
        return with_overflow(e, st, op, &t0, &a[0], &a[1]);
    }
    let w = match &t0 {
        Ty::Int(w) => *w,
        Ty::F64 | Ty::Ptr => 64,
        Ty::F32 => 32,
        _ => 0,
    };
    match b {
        "umax" | "umin" | "smax" | "smin" => {
            let p = match b {
                "umax" => Pred::Ugt,
                "umin" => Pred::Ult,
                "smax" => Pred::Sgt,
                _ => Pred::Slt,
            };
            let c = e.icmp(p, &t0, &a[0], &a[1])?;
            e.select(st, &c, &t0, a[0].clone(), a[1].clone())
        }
        "usub.sat" => {
            let c = e.icmp(Pred::Ult, &t0, &a[0], &a[1])?;
            let d = e.ibin(st, Bin::Sub, &t0, &a[0], &a[1], false, false)?;
            e.select(st, &c, &t0, Val::C(0), d)
        }
        "uadd.sat" => {
            let d = e.ibin(st, Bin::Add, &t0, &a[0], &a[1], false, false)?;
            let c = e.icmp(Pred::Ult, &t0, &d, &a[0])?;
            e.select(st, &c, &t0, Val::C(maskw(u64::MAX, w)), d)
        }
        "sadd.sat" | "ssub.sat" => {
            let r = with_overflow(e, st, if b == "sadd.sat" { "sadd" } else { "ssub" }, &t0, &a[0], &a[1])?;
            let Val::A(l) = r else { return err("sat") };
            let neg = e.icmp(Pred::Slt, &t0, &a[0], &Val::C(0))?;
            let mx = Val::C(maskw((1u64 << (w - 1)) - 1, w));
            let mn = Val::C(1u64 << (w - 1));
            let lim = e.select(st, &neg, &t0, mn, mx)?;
            e.select(st, &l[1], &t0, lim, l[0].clone())
        }
        "abs" => {
            let c = e.icmp(Pred::Slt, &t0, &a[0], &Val::C(0))?;
            let d = e.ibin(st, Bin::Sub, &t0, &Val::C(0), &a[0], false, false)?;
            e.select(st, &c, &t0, d, a[0].clone())
        }
        "ucmp" | "scmp" => {
            let rw = ret.width();
            let (lt, gt) = if b == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
            let l = e.icmp(lt, &t0, &a[0], &a[1])?;
            let g = e.icmp(gt, &t0, &a[0], &a[1])?;
            let x = e.select(st, &g, ret, Val::C(1), Val::C(0))?;
            e.select(st, &l, ret, Val::C(maskw(u64::MAX, rw)), x)
        }
        "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
            if e.tt.mode == Mode::Fp && matches!(a[0], Val::S(_)) && (b == "ctlz" || b == "cttz") {
                return Ok(count_zeros(e, b == "ctlz", &t0, &a[0])?);
            }
            if let (Mode::Fp, Val::S(t), "ctpop") = (e.tt.mode, &a[0], b) {
                let ww = e.tt.width(*t);
                let mut sum = e.tt.int(0, ww);
                let one = e.tt.int(1, ww);
                for i in 0..ww {
                    let k = e.tt.int(i as i128, ww);
                    let x = e.tt.ibin(Op::LShr, *t, k);
                    let x = e.tt.ibin(Op::BAnd, x, one);
                    sum = e.tt.ibin(Op::Add, sum, x);
                }
                return Ok(e.sv(sum, &t0));
            }
            let x = e.conc(st, &a[0], &t0)?;
            let v = match b {
                "ctpop" => x.count_ones() as u64,
                "ctlz" => (if x == 0 { w } else { x.leading_zeros() - (64 - w) }) as u64,
                "cttz" => (if x == 0 { w } else { x.trailing_zeros() }) as u64,
                "bswap" => x.swap_bytes() >> (64 - w),
                _ => x.reverse_bits() >> (64 - w),
            };
            Ok(Val::C(v))
        }
        "fshl" | "fshr" => {
            let s = e.conc(st, &a[2], &t0)? % w as u64;
            let left = b == "fshl";
            if s == 0 {
                return Ok(if left { a[0].clone() } else { a[1].clone() });
            }
            let (l, r) = if left { (s, w as u64 - s) } else { (w as u64 - s, s) };
            let x = e.ibin(st, Bin::Shl, &t0, &a[0], &Val::C(l), false, false)?;
            let y = e.ibin(st, Bin::LShr, &t0, &a[1], &Val::C(r), false, false)?;
            e.ibin(st, Bin::Or, &t0, &x, &y, false, false)
        }
        "sqrt" | "floor" | "ceil" | "round" | "trunc" | "rint" | "nearbyint" | "roundeven" | "fabs" | "exp" | "exp2" | "log" | "log10" | "log2" | "pow" | "sin" | "cos" | "exp10" => libm(e, st, b, ret, a),
        "powi" => {
            let k = e.conc(st, &a[1], &tys[1])?;
            let k = sx(k, tys[1].width());
            if let Val::C(x) = a[0] {
                return Ok(Eng::mkf(Eng::cf(x, ret).powi(k as i32), ret));
            }
            let mut r = Eng::mkf(1.0, ret);
            for _ in 0..k.unsigned_abs().min(64) {
                r = e.fbin(st, Bin::FMul, ret, &r, &a[0])?;
            }
            if k < 0 {
                r = e.fbin(st, Bin::FDiv, ret, &Eng::mkf(1.0, ret), &r)?;
            }
            Ok(r)
        }
        "fma" | "fmuladd" => {
            if let (Val::C(x), Val::C(y), Val::C(z)) = (&a[0], &a[1], &a[2]) {
                return Ok(Eng::mkf(Eng::cf(*x, ret).mul_add(Eng::cf(*y, ret), Eng::cf(*z, ret)), ret));
            }
            let m = e.fbin(st, Bin::FMul, ret, &a[0], &a[1])?;
            e.fbin(st, Bin::FAdd, ret, &m, &a[2])
        }
        "maxnum" | "minnum" | "maximum" | "minimum" | "maximumnum" | "minimumnum" => {
            let mx = b.starts_with("max");
            if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                let (x, y) = (Eng::cf(*x, ret), Eng::cf(*y, ret));
                return Ok(Eng::mkf(if mx { x.max(y) } else { x.min(y) }, ret));
            }
            // NaN operands yield the other one
            for (i, j) in [(0, 1), (1, 0)] {
                if let Val::C(c) = &a[i] {
                    if Eng::cf(*c, ret).is_nan() {
                        return Ok(a[j].clone());
                    }
                }
            }
            let nf = |v: &Val| matches!(v, Val::C(c) if !Eng::cf(*c, ret).is_finite());
            if e.real() && !nf(&a[0]) && !nf(&a[1]) {
                let x = e.tm(&a[0], ret)?;
                let y = e.tm(&a[1], ret)?;
                let t = e.tt.fop2(if mx { Op::FMax } else { Op::FMin }, x, y);
                return Ok(e.sv(t, ret));
            }
            let c = e.fcmp(st, if mx { FPred::Ogt } else { FPred::Olt }, ret, &a[0], &a[1])?;
            e.select(st, &c, ret, a[0].clone(), a[1].clone())
        }
        "copysign" => {
            if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                return Ok(Eng::mkf(Eng::cf(*x, ret).copysign(Eng::cf(*y, ret)), ret));
            }
            let x = libm(e, st, "fabs", ret, &a[..1])?;
            let neg = match &a[1] {
                Val::C(c) => Val::C(Eng::cf(*c, ret).is_sign_negative() as u64),
                v => e.fcmp(st, FPred::Olt, ret, v, &Val::C(0))?,
            };
            let nx = e.fneg(ret, &x)?;
            e.select(st, &neg, ret, nx, x)
        }
        "fptosi.sat" | "fptoui.sat" => {
            let signed = b == "fptosi.sat";
            let rw = ret.width();
            match &a[0] {
                Val::C(c) => {
                    let f = Eng::cf(*c, &t0);
                    let (lo, hi) = if signed { (-(2f64.powi(rw as i32 - 1)), 2f64.powi(rw as i32 - 1)) } else { (0.0, 2f64.powi(rw as i32)) };
                    let v: u64 = if f.is_nan() {
                        0
                    } else if f <= lo {
                        if signed { 1u64 << (rw - 1) } else { 0 }
                    } else if f >= hi {
                        if signed { maskw((1u64 << (rw - 1)).wrapping_sub(1), rw) } else { maskw(u64::MAX, rw) }
                    } else if signed {
                        f as i64 as u64
                    } else {
                        f as u64
                    };
                    Ok(Val::C(maskw(v, rw)))
                }
                Val::S(t) => {
                    let t = *t;
                    if e.tt.mode == Mode::Fp {
                        let nan = e.tt.cmp(Op::FUno, t, t);
                        if e.decide(st, nan)? {
                            return Ok(Val::C(0));
                        }
                    }
                    let lo = if signed { -(2f64.powi(rw as i32 - 1)) } else { 0.0 };
                    if e.real() && rw <= 32 {
                        let w = t0.width();
                        let hi = if signed { 2f64.powi(rw as i32 - 1) } else { 2f64.powi(rw as i32) } - 1.0;
                        let (l, h) = (e.tt.fconst(lo, w), e.tt.fconst(hi, w));
                        let x = e.tt.fop2(Op::FMax, t, l);
                        let x = e.tt.fop2(Op::FMin, x, h);
                        let r = e.tt.un(Op::ToS, x, Sort::Int(64));
                        let r = e.tt.un(Op::Trunc, r, Sort::Int(rw as u16));
                        return Ok(e.sv(r, ret));
                    }
                    let hi = if signed { 2f64.powi(rw as i32 - 1) } else { 2f64.powi(rw as i32) };
                    let w = t0.width();
                    let l = e.tt.fconst(lo, w);
                    let c = e.tt.cmp(Op::FLe, t, l);
                    if e.decide(st, c)? {
                        return Ok(Val::C(if signed { 1u64 << (rw - 1) } else { 0 }));
                    }
                    let h = e.tt.fconst(hi, w);
                    let c = e.tt.cmp(Op::FLe, h, t);
                    if e.decide(st, c)? {
                        return Ok(Val::C(if signed { maskw((1u64 << (rw - 1)).wrapping_sub(1), rw) } else { maskw(u64::MAX, rw) }));
                    }
                    if signed && rw < 64 || !signed && rw < 63 {
                        // through i64 keeps the sign convention of unsigned results
                        let r = e.tt.un(Op::ToS, t, Sort::Int(64));
                        let r = e.tt.un(Op::Trunc, r, Sort::Int(rw as u16));
                        return Ok(e.sv(r, ret));
                    }
                    let r = e.tt.un(if signed { Op::ToS } else { Op::ToU }, t, Sort::Int(rw as u16));
                    Ok(e.sv(r, ret))
                }
                _ => err("fptosi.sat"),
            }
        }
        "is.fpclass" => {
            let mask = e.conc(st, &a[1], &Ty::Int(32))?;
            match &a[0] {
                Val::C(c) => {
                    let f = Eng::cf(*c, &t0);
                    use std::num::FpCategory::*;
                    let neg = f.is_sign_negative();
                    let bit = match f.classify() {
                        Nan => 3,
                        Infinite => if neg { 4 } else { 0x200 },
                        Normal => if neg { 8 } else { 0x100 },
                        Subnormal => if neg { 0x10 } else { 0x80 },
                        Zero => if neg { 0x20 } else { 0x40 },
                    };
                    Ok(Val::C((mask & bit != 0) as u64))
                }
                Val::S(t) if e.real() => {
                    // finite: negative normals/subnormals, zero, positive
                    let z = e.tt.fconst(0.0, 64);
                    let neg = e.tt.cmp(Op::FLt, *t, z);
                    let pos = e.tt.cmp(Op::FLt, z, *t);
                    let zero = e.tt.cmp(Op::FEq, *t, z);
                    let m = |b: u64| (mask & b != 0) as T;
                    let x = e.tt.and(neg, m(8));
                    let y = e.tt.and(pos, m(0x100));
                    let u = e.tt.and(zero, m(0x60));
                    let r = e.tt.or(x, y);
                    let r = e.tt.or(r, u);
                    Ok(bools(e, r))
                }
                _ => err("is.fpclass"),
            }
        }
        _ => err(format!("intrinsic {}", n)),
    }
}

fn count_zeros(e: &mut Eng, lead: bool, t: &Ty, v: &Val) -> R<Val> {
    let w = t.width() as u16;
    let x = e.tm(v, t)?;
    let mut r = e.tt.int(w as i128, w);
    let z = e.tt.int(0, w);
    let order: Vec<u16> = if lead { (0..w).collect() } else { (0..w).rev().collect() };
    for b in order {
        let k = e.tt.int(if b == w - 1 { smin(w) } else { 1i128 << b }, w);
        let m = e.tt.ibin(Op::BAnd, x, k);
        let c = e.tt.cmp(Op::Eq, m, z);
        let n = e.tt.int(if lead { (w - 1 - b) as i128 } else { b as i128 }, w);
        r = e.tt.ite(c, r, n);
    }
    Ok(e.sv(r, t))
}

fn rel(e: &mut Eng, st: &mut State, p: u64, o: u64, v: u64) -> R<Val> {
    // recover the initialiser of the table element: trunc(sub(target, table))
    let g = (p >> 32) as u32 - 1;
    let base = p as u32 as u64 + o;
    if (g as usize) < e.m.globals.len() {
        let (t, c) = e.m.global_init(g);
        if let Some(c) = c {
            if let Some(a) = find_rel(&t, &c, 0, base) {
                return Ok(Val::C(a));
            }
        }
    }
    let _ = (st, v);
    err("load.relative table")
}
fn find_rel(t: &Ty, c: &Const, off: u64, want: u64) -> Option<u64> {
    match c {
        Const::Agg(v) => {
            let (offs, _) = t.layout();
            for (i, (et, ec)) in v.iter().enumerate() {
                let o = off + offs[i];
                if want >= o && want < o + et.size() {
                    return find_rel(et, ec, o, want);
                }
            }
            None
        }
        Const::Trunc(x, _) if off == want => match &**x {
            Const::Sub(a, _) => static_addr(a),
            _ => None,
        },
        _ => None,
    }
}

fn reduce(e: &mut Eng, st: &mut State, op: &str, tys: &[Ty], a: &[Val]) -> R<Val> {
    let op = base_name(op);
    let fl = matches!(op, "fadd" | "fmul");
    let (v, t) = if fl { (&a[1], &tys[1]) } else { (&a[0], &tys[0]) };
    let Val::A(l) = v else { return err("reduce") };
    let el = t.elem(0);
    let mut it = l.iter();
    let mut acc = if fl { a[0].clone() } else { it.next().unwrap().clone() };
    for x in it {
        acc = match op {
            "add" => e.ibin(st, Bin::Add, &el, &acc, x, false, false)?,
            "mul" => e.ibin(st, Bin::Mul, &el, &acc, x, false, false)?,
            "and" => e.ibin(st, Bin::And, &el, &acc, x, false, false)?,
            "or" => e.ibin(st, Bin::Or, &el, &acc, x, false, false)?,
            "xor" => e.ibin(st, Bin::Xor, &el, &acc, x, false, false)?,
            "fadd" => e.fbin(st, Bin::FAdd, &el, &acc, x)?,
            "fmul" => e.fbin(st, Bin::FMul, &el, &acc, x)?,
            "umax" | "umin" | "smax" | "smin" => intrinsic(e, st, op, &el, &[el.clone(), el.clone()], &[acc, x.clone()])?,
            _ => return err(format!("vector.reduce.{}", op)),
        };
    }
    Ok(acc)
}

fn with_overflow(e: &mut Eng, st: &mut State, op: &str, t: &Ty, a: &Val, b: &Val) -> R<Val> {
    let w = t.width();
    if let (Val::C(x), Val::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let (r, o) = match op {
            "umul" => {
                let p = x as u128 * y as u128;
                (p as u64, p != mask128(p, w))
            }
            "uadd" => {
                let p = x as u128 + y as u128;
                (p as u64, p != mask128(p, w))
            }
            "usub" => (x.wrapping_sub(y), x < y),
            _ => {
                let (sx_, sy) = (sx(x, w) as i128, sx(y, w) as i128);
                let p = match op {
                    "sadd" => sx_ + sy,
                    "ssub" => sx_ - sy,
                    _ => sx_ * sy,
                };
                (p as u64, p < smin(w as u16) || p > smax(w as u16))
            }
        };
        return Ok(Val::A(Rc::new(vec![Val::C(maskw(r, w)), Val::C(o as u64)])));
    }
    let bop = match op {
        "umul" | "smul" => Bin::Mul,
        "uadd" | "sadd" => Bin::Add,
        _ => Bin::Sub,
    };
    let r = e.ibin(st, bop, t, a, b, false, false)?;
    let x = e.tm(a, t)?;
    let y = e.tm(b, t)?;
    let o: Val = match op {
        "usub" => e.icmp(Pred::Ult, t, a, b)?,
        "uadd" if e.tt.mode == Mode::Fp => e.icmp(Pred::Ult, t, &r, a)?,
        _ if e.tt.mode == Mode::Fp && w < 64 || (e.tt.mode == Mode::Fp && op != "umul" && op != "smul" && w <= 64) => {
            // widen by one bit
            if bop == Bin::Mul {
                let ww = (2 * w) as u16;
                let ext = if op == "smul" { Op::SExt } else { Op::ZExt };
                let x2 = e.tt.un(ext, x, Sort::Int(ww));
                let y2 = e.tt.un(ext, y, Sort::Int(ww));
                let p = e.tt.ibin(Op::Mul, x2, y2);
                let lo = e.tt.un(Op::Trunc, p, Sort::Int(w as u16));
                let back = e.tt.un(ext, lo, Sort::Int(ww));
                let c = e.tt.cmp(Op::Eq, back, p);
                let c = e.tt.not(c);
                bools(e, c)
            } else {
                // signed add/sub: sign rule
                let zero = Val::C(0);
                let xn = e.icmp(Pred::Slt, t, a, &zero)?;
                let yn = e.icmp(Pred::Slt, t, b, &zero)?;
                let rn = e.icmp(Pred::Slt, t, &r, &zero)?;
                let i1 = Ty::Int(1);
                let d = e.icmp(Pred::Ne, &i1, &rn, &xn)?;
                let s = if op == "sadd" { e.icmp(Pred::Eq, &i1, &xn, &yn)? } else { e.icmp(Pred::Ne, &i1, &xn, &yn)? };
                e.ibin(st, Bin::And, &i1, &d, &s, false, false)?
            }
        }
        _ if e.tt.mode == Mode::Fp => {
            let (l, h) = (e.tt.ivi(x), e.tt.ivi(y));
            if l.0 >= 0 && h.0 >= 0 {
                if let Some(p) = l.1.checked_mul(h.1) {
                    if p <= smax(w as u16) {
                        return Ok(Val::A(Rc::new(vec![r, Val::C(0)])));
                    }
                }
            }
            return err("64-bit multiplication overflow in bit-vector mode");
        }
        _ => {
            // mathematical result against the range, using intervals first
            let (al, ah) = e.tt.ivi(x);
            let (bl, bh) = e.tt.ivi(y);
            let unsigned = op.starts_with('u');
            if op == "umul" && w <= 32 && matches!((a, b), (Val::S(_), Val::S(_))) {
                let i64t = Ty::Int(64);
                let p = e.cast(st, Cast::ZExt, t, &i64t, a)?;
                let q = e.cast(st, Cast::ZExt, t, &i64t, b)?;
                let (pt, qt) = (e.tm(&p, &i64t)?, e.tm(&q, &i64t)?);
                if e.tt.ivi(pt).1.saturating_mul(e.tt.ivi(qt).1) < i64::MAX as i128 {
                    let m = e.ibin(st, Bin::Mul, &i64t, &p, &q, true, true)?;
                    let o = e.icmp(Pred::Ugt, &i64t, &m, &Val::C((1u64 << w) - 1))?;
                    let r = e.cast(st, Cast::Trunc, &i64t, t, &m)?;
                    return Ok(Val::A(Rc::new(vec![r, o])));
                }
            }
            let (lo, hi) = if unsigned { (0, (1i128 << w) - 1) } else { (smin(w as u16), smax(w as u16)) };
            if unsigned && (al < 0 || bl < 0) {
                // the upper half of the unsigned range: settle the sign by forking
                for (t0, l) in [(x, al), (y, bl)] {
                    if l < 0 {
                        let z = e.tt.int(0, w as u16);
                        let c = e.tt.cmp(Op::Slt, t0, z);
                        if e.decide(st, c)? {
                            // value >= 2^(w-1)
                            return big_unsigned(e, st, op, t, a, b, r);
                        }
                    }
                }
            }
            let (al, ah, bl, bh) = if unsigned { (al.max(0), ah, bl.max(0), bh) } else { (al, ah, bl, bh) };
            let (rl, rh) = match bop {
                Bin::Add => (al + bl, ah + bh),
                Bin::Sub => (al - bh, ah - bl),
                _ => {
                    let v = [al.saturating_mul(bl), al.saturating_mul(bh), ah.saturating_mul(bl), ah.saturating_mul(bh)];
                    (*v.iter().min().unwrap(), *v.iter().max().unwrap())
                }
            };
            if rl >= lo && rh <= hi {
                Val::C(0)
            } else if bop == Bin::Add && !unsigned || bop == Bin::Sub {
                let zero = Val::C(0);
                let xn = e.icmp(Pred::Slt, t, a, &zero)?;
                let yn = e.icmp(Pred::Slt, t, b, &zero)?;
                let rn = e.icmp(Pred::Slt, t, &r, &zero)?;
                let i1 = Ty::Int(1);
                let d = e.icmp(Pred::Ne, &i1, &rn, &xn)?;
                let s = if op == "sadd" { e.icmp(Pred::Eq, &i1, &xn, &yn)? } else { e.icmp(Pred::Ne, &i1, &xn, &yn)? };
                e.ibin(st, Bin::And, &i1, &d, &s, false, false)?
            } else if bop == Bin::Add {
                // both below 2^(w-1): the unsigned sum fits
                Val::C(0)
            } else {
                // multiplication with a constant: compare with the quotient
                let (sv, k) = match (a, b) {
                    (Val::C(k), s) | (s, Val::C(k)) => (s.clone(), sx(*k, w) as i128),
                    _ => {
                        // enumerate the operand with the smaller range
                        let (s, o) = if ah - al <= bh - bl { (a, b) } else { (b, a) };
                        let c = e.conc(st, s, t)?;
                        return with_overflow(e, st, op, t, &Val::C(c), o);
                    }
                };
                if k == 0 {
                    Val::C(0)
                } else if k > 0 {
                    let mx = hi / k;
                    let over = e.icmp(if unsigned { Pred::Ugt } else { Pred::Sgt }, t, &sv, &Val::C(maskw(mx as u64, w)))?;
                    if unsigned {
                        over
                    } else {
                        let mn = -((-lo) / k);
                        let under = e.icmp(Pred::Slt, t, &sv, &Val::C(maskw(mn as i64 as u64, w)))?;
                        e.ibin(st, Bin::Or, &Ty::Int(1), &over, &under, false, false)?
                    }
                } else {
                    return err("overflow check of a multiplication by a negative constant");
                }
            }
        }
    };
    Ok(Val::A(Rc::new(vec![r, o])))
}
fn big_unsigned(e: &mut Eng, st: &mut State, op: &str, t: &Ty, a: &Val, b: &Val, r: Val) -> R<Val> {
    let _ = st;
    let o = match op {
        "uadd" => e.icmp(Pred::Ult, t, &r, a)?,
        "umul" => match (a, b) {
            (Val::C(0), _) | (_, Val::C(0)) | (Val::C(1), _) | (_, Val::C(1)) => Val::C(0),
            (Val::C(_), _) | (_, Val::C(_)) => Val::C(1),
            _ => return err("unsigned multiplication of a huge value"),
        },
        _ => return err("overflow"),
    };
    Ok(Val::A(Rc::new(vec![r, o])))
}

fn native1(n: &str, x: f64) -> Option<f64> {
    Some(match n {
        "exp" => x.exp(),
        "exp2" => x.exp2(),
        "exp10" => 10f64.powf(x),
        "log" => x.ln(),
        "log10" => x.log10(),
        "log2" => x.log2(),
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "atan" => x.atan(),
        "cbrt" => x.cbrt(),
        "expm1" => x.exp_m1(),
        "log1p" => x.ln_1p(),
        "tanh" => x.tanh(),
        "sinh" => x.sinh(),
        "cosh" => x.cosh(),
        "acos" => x.acos(),
        "asin" => x.asin(),
        "floor" => x.floor(),
        "ceil" => x.ceil(),
        "round" => x.round(),
        "trunc" => x.trunc(),
        "rint" | "nearbyint" | "roundeven" => x.round_ties_even(),
        "sqrt" => x.sqrt(),
        "fabs" => x.abs(),
        _ => return None,
    })
}
fn native1f(n: &str, x: f32) -> Option<f32> {
    Some(match n {
        "exp" => x.exp(),
        "exp2" => x.exp2(),
        "log" => x.ln(),
        "log10" => x.log10(),
        "log2" => x.log2(),
        "sin" => x.sin(),
        "cos" => x.cos(),
        "sqrt" => x.sqrt(),
        "fabs" => x.abs(),
        "floor" => x.floor(),
        "ceil" => x.ceil(),
        "round" => x.round(),
        "trunc" => x.trunc(),
        _ => return native1(n, x as f64).map(|v| v as f32),
    })
}

pub fn libm(e: &mut Eng, st: &mut State, n: &str, ret: &Ty, a: &[Val]) -> R<Val> {
    let f32_ = *ret == Ty::F32;
    let n = match n {
        "nearbyint" | "roundeven" => "rint",
        n => n,
    };
    if a.iter().all(|v| matches!(v, Val::C(_))) {
        let g = |i: usize| match a[i] {
            Val::C(c) => Eng::cf(c, ret),
            _ => 0.0,
        };
        if a.len() == 1 {
            if f32_ {
                if let Some(r) = native1f(n, g(0) as f32) {
                    return Ok(Eng::mkf(r as f64, ret));
                }
            }
            if let Some(r) = native1(n, g(0)) {
                return Ok(Eng::mkf(r, ret));
            }
        } else {
            let r = match n {
                "pow" => if f32_ { (g(0) as f32).powf(g(1) as f32) as f64 } else { g(0).powf(g(1)) },
                "hypot" => if f32_ { (g(0) as f32).hypot(g(1) as f32) as f64 } else { g(0).hypot(g(1)) },
                "atan2" => g(0).atan2(g(1)),
                "fmod" => g(0) % g(1),
                "fmin" => g(0).min(g(1)),
                "fmax" => g(0).max(g(1)),
                "fma" => g(0).mul_add(g(1), g(2)),
                _ => return err(format!("libm {}", n)),
            };
            return Ok(Eng::mkf(r, ret));
        }
        return err(format!("libm {}", n));
    }
    let fs = e.tt.fsort(ret.width());
    let un = |e: &mut Eng, op: Op, x: T| -> R<Val> {
        let r = e.tt.un(op, x, fs);
        Ok(e.sv(r, ret))
    };
    let simple = match n {
        "floor" => Some(Op::FFloor),
        "ceil" => Some(Op::FCeil),
        "round" => Some(Op::FRound),
        "trunc" => Some(Op::FTrunc),
        "rint" => Some(Op::FRint),
        "fabs" => Some(Op::FAbs),
        _ => None,
    };
    if let (Some(op), Val::S(x)) = (simple, &a[0]) {
        return un(e, op, *x);
    }
    if n == "sqrt" {
        let Val::S(x) = a[0] else { return err("sqrt") };
        if e.real() {
            if e.tt.ivr(x).0 < 0.0 {
                let z = e.tt.fconst(0.0, 64);
                let mut c = e.tt.cmp(Op::FLt, x, z);
                if e.canon.squares && e.tt.mode == Mode::Real {
                    c = e.canon.signed(&mut e.tt, c);
                }
                if e.decide(st, c)? {
                    return Ok(Eng::mkf(f64::NAN, ret));
                }
            }
            let r = e.tt.un(Op::FSqrt, x, fs);
            let r = e.tt.round(r);
            return Ok(e.sv(r, ret));
        }
        return un(e, Op::FSqrt, x);
    }
    if matches!(n, "fmin" | "fmax") {
        return intrinsic(e, st, if n == "fmin" { "minnum" } else { "maxnum" }, ret, &[ret.clone(), ret.clone()], a);
    }
    if !e.real() {
        return err(format!("libm {} in the floating-point theory", n));
    }
    match n {
        "log10" | "log2" | "log" => {
            let Val::S(x) = a[0] else { return err("log") };
            let z = e.tt.fconst(0.0, 64);
            if e.tt.ivr(x).0 <= 0.0 {
                let c = e.tt.cmp(Op::FLt, z, x);
                if !e.decide(st, c)? {
                    let c = e.tt.cmp(Op::FLt, x, z);
                    return Ok(Eng::mkf(if e.decide(st, c)? { f64::NAN } else { f64::NEG_INFINITY }, ret));
                }
            }
            let r = e.tt.uf(if n == "log" { "ln" } else { n }, &[x], fs);
            let r = e.tt.round(r);
            Ok(e.sv(r, ret))
        }
        "exp" | "exp2" | "exp10" => {
            let Val::S(x) = a[0] else { return err("exp") };
            let r = expo(e, n, x, fs);
            let r = e.tt.round(r);
            Ok(e.sv(r, ret))
        }
        "sin" | "cos" | "tan" | "atan" | "cbrt" | "expm1" | "log1p" | "tanh" | "acos" | "asin" => {
            let Val::S(x) = a[0] else { return err(n) };
            let r = e.tt.uf(n, &[x], fs);
            Ok(e.sv(r, ret))
        }
        "pow" => {
            if let Val::C(c) = a[1] {
                let k = Eng::cf(c, ret);
                if k == 0.5 {
                    return libm(e, st, "sqrt", ret, &a[..1]);
                }
                if k == k.trunc() && k.abs() <= 16.0 {
                    let mut r = Eng::mkf(1.0, ret);
                    for _ in 0..k.abs() as u32 {
                        r = e.fbin(st, Bin::FMul, ret, &r, &a[0])?;
                    }
                    if k < 0.0 {
                        r = e.fbin(st, Bin::FDiv, ret, &Eng::mkf(1.0, ret), &r)?;
                    }
                    return Ok(r);
                }
            }
            if let (Val::C(c), Val::S(y)) = (&a[0], &a[1]) {
                let b = Eng::cf(*c, ret);
                if b == 10.0 || b == 2.0 {
                    let r = expo(e, if b == 10.0 { "exp10" } else { "exp2" }, *y, fs);
                    return Ok(e.sv(r, ret));
                }
            }
            let x = e.tm(&a[0], ret)?;
            let y = e.tm(&a[1], ret)?;
            let r = e.tt.uf("pow", &[x, y], fs);
            Ok(e.sv(r, ret))
        }
        "hypot" => {
            let x = e.fbin(st, Bin::FMul, ret, &a[0], &a[0])?;
            let y = e.fbin(st, Bin::FMul, ret, &a[1], &a[1])?;
            let s = e.fbin(st, Bin::FAdd, ret, &x, &y)?;
            for (i, z) in [(0, &y), (1, &x)] {
                if let Val::C(c) = z {
                    if Eng::cf(*c, ret) == 0.0 {
                        return libm(e, st, "fabs", ret, &a[i..i + 1]);
                    }
                }
            }
            libm(e, st, "sqrt", ret, &[s])
        }
        "atan2" => {
            // the angle of a positive real number
            if let (Val::C(c), Val::S(x)) = (&a[0], &a[1]) {
                if e.real() && Eng::cf(*c, ret) == 0.0 {
                    let x = *x;
                    let z = e.tt.fconst(0.0, 64);
                    let c = e.tt.cmp(Op::FLt, z, x);
                    if e.decide(st, c)? {
                        return Ok(Eng::mkf(0.0, ret));
                    }
                }
            }
            let x = e.tm(&a[0], ret)?;
            let y = e.tm(&a[1], ret)?;
            let r = e.tt.uf("atan2", &[x, y], fs);
            Ok(e.sv(r, ret))
        }
        "fma" => {
            let m = e.fbin(st, Bin::FMul, ret, &a[0], &a[1])?;
            e.fbin(st, Bin::FAdd, ret, &m, &a[2])
        }
        "fmod" => err("symbolic float remainder"),
        _ => err(format!("libm {} of a symbolic value", n)),
    }
}

/// base^y, using base^(c * log_base z) = z^c for (half-)integer c
fn expo(e: &mut Eng, n: &str, y: T, fs: Sort) -> T {
    let log = match n {
        "exp" => "ln",
        "exp2" => "log2",
        _ => "log10",
    };
    if e.tt.mode == Mode::Real {
        if let Some(lin) = e.canon.linear_in_uf(&mut e.tt, y, log) {
            // lin: (sum of (coef, z)), constant
            let (terms, c0) = lin;
            if !terms.is_empty() {
                let mut r = if c0.is_zero() {
                    e.tt.rat(Q::from_integer(1.into()))
                } else {
                    let f = q_to_f64(&c0);
                    let v = match n {
                        "exp" => f.exp(),
                        "exp2" => f.exp2(),
                        _ => 10f64.powf(f),
                    };
                    e.tt.rat(q_of_f64(v).unwrap_or(Q::zero()))
                };
                for (twice, z) in terms {
                    let mut b = z;
                    if twice % 2 != 0 {
                        b = e.tt.un(Op::FSqrt, z, fs);
                    }
                    let k = if twice % 2 != 0 { twice } else { twice / 2 };
                    for _ in 0..k.abs() {
                        r = if k > 0 { e.tt.fop2(Op::FMul, r, b) } else { e.tt.fop2(Op::FDiv, r, b) };
                    }
                }
                return r;
            }
        }
        // integer parts of the coefficients of logarithms: base^(c log z + y) = z^floor(c) base^((c - floor(c)) log z + y)
        let parts = e.canon.log_parts(&mut e.tt, y, log);
        if !parts.is_empty() {
            let mut y2 = y;
            for &(k, _, l) in &parts {
                let kq = e.tt.rat(Q::from_integer(k.into()));
                let m = e.tt.fop2(Op::FMul, kq, l);
                y2 = e.tt.fop2(Op::FSub, y2, m);
            }
            let y2 = e.canon.canon(&mut e.tt, y2);
            let mut r = e.tt.uf(n, &[y2], fs);
            for (k, z, _) in parts {
                for _ in 0..k.abs() {
                    r = if k > 0 { e.tt.fop2(Op::FMul, r, z) } else { e.tt.fop2(Op::FDiv, r, z) };
                }
            }
            return r;
        }
        if e.canon.has_log(&mut e.tt, y, log) {
            let y = e.canon.canon(&mut e.tt, y);
            return e.tt.uf(n, &[y], fs);
        }
        // base^(2y) = (base^y)^2 and base^-y = 1/base^y, so that multiples of one exponent share one unknown
        if e.opts.nonzero && n == "exp" && e.tt.as_rat(y).is_none() {
            for i in 0..e.exps.len() {
                let (x, ex) = e.exps[i];
                let Some(k) = e.canon.multiple(&mut e.tt, y, x) else { continue };
                let mut r = e.tt.rat(Q::from_integer(1.into()));
                for _ in 0..k.abs() {
                    r = e.tt.fop2(if k > 0 { Op::FMul } else { Op::FDiv }, r, ex);
                }
                return r;
            }
            let r = e.tt.uf(n, &[y], fs);
            if e.exps.len() < 64 {
                e.exps.push((y, r));
            }
            return r;
        }
    }
    e.tt.uf(n, &[y], fs)
}

fn libc(e: &mut Eng, st: &mut State, name: &str, tys: &[Ty], a: &[Val]) -> R<Val> {
    let c = |e: &mut Eng, st: &State, i: usize| e.conc(st, &a[i], &tys[i]);
    match name {
        "malloc" => {
            let n = c(e, st, 0)?;
            if n > 1 << 31 {
                return err("huge allocation");
            }
            Ok(Val::C(e.alloc(st, n as usize)))
        }
        "calloc" => {
            let n = c(e, st, 0)?;
            let m = c(e, st, 1)?;
            if n.saturating_mul(m) > 1 << 31 {
                return err("huge allocation");
            }
            Ok(Val::C(e.alloc(st, (n * m) as usize)))
        }
        "aligned_alloc" => {
            let n = c(e, st, 1)?;
            Ok(Val::C(e.alloc(st, n as usize)))
        }
        "posix_memalign" => {
            let p = c(e, st, 0)?;
            let n = c(e, st, 2)?;
            let m = e.alloc(st, n as usize);
            e.store(st, &Ty::Ptr, &Val::C(m), p)?;
            Ok(Val::C(0))
        }
        "realloc" => {
            let p = c(e, st, 0)?;
            let n = c(e, st, 1)? as usize;
            if n > 1 << 31 {
                return err("huge allocation");
            }
            if p == 0 {
                return Ok(Val::C(e.alloc(st, n)));
            }
            let (id, _) = e.locate(st, p, 0, "realloc")?;
            let mut o = st.mem[id].clone().unwrap();
            let m = Rc::make_mut(&mut o);
            m.data.resize(n, 0);
            let drop: Vec<u32> = m.sym.range(n as u32..).map(|x| *x.0).collect();
            for k in drop {
                m.sym.remove(&k);
            }
            let q = e.alloc(st, 0);
            st.mem[(q >> 32) as usize - 1] = Some(o);
            e.release(st, id as u32);
            Ok(Val::C(q))
        }
        "free" => {
            let p = c(e, st, 0)?;
            if p != 0 {
                let (id, off) = e.locate(st, p, 0, "free")?;
                if off != 0 {
                    return err("free of an interior pointer");
                }
                e.release(st, id as u32);
            }
            Ok(Val::C(0))
        }
        "memcpy" | "memmove" => {
            let d = c(e, st, 0)?;
            let s = c(e, st, 1)?;
            let n = c(e, st, 2)?;
            e.memcpy(st, d, s, n as usize)?;
            Ok(Val::C(d))
        }
        "memset" => {
            let d = c(e, st, 0)?;
            let v = c(e, st, 1)?;
            let n = c(e, st, 2)?;
            e.write_bytes(st, d, &vec![v as u8; n as usize])?;
            Ok(Val::C(d))
        }
        "bcmp" | "memcmp" => {
            let p = c(e, st, 0)?;
            let q = c(e, st, 1)?;
            let n = c(e, st, 2)?;
            for i in 0..n {
                let x = e.load(st, &Ty::Int(8), p + i)?;
                let y = e.load(st, &Ty::Int(8), q + i)?;
                let ne = e.icmp(Pred::Ne, &Ty::Int(8), &x, &y)?;
                let ne = match ne {
                    Val::C(b) => b == 1,
                    Val::S(t) => e.decide(st, t)?,
                    _ => false,
                };
                if ne {
                    let lt = e.icmp(Pred::Ult, &Ty::Int(8), &x, &y)?;
                    let lt = match lt {
                        Val::C(b) => b == 1,
                        Val::S(t) => name == "bcmp" || e.decide(st, t)?,
                        _ => false,
                    };
                    return Ok(Val::C(if lt { 0xffff_ffff } else { 1 }));
                }
            }
            Ok(Val::C(0))
        }
        "strlen" => {
            let p = c(e, st, 0)?;
            let mut n = 0;
            loop {
                match e.load(st, &Ty::Int(8), p + n)? {
                    Val::C(0) => return Ok(Val::C(n)),
                    Val::C(_) => n += 1,
                    _ => return err("symbolic strlen"),
                }
            }
        }
        "__errno_location" => {
            let a = match st.picks.get("#errno") {
                Some(a) => *a,
                None => {
                    let a = e.alloc(st, 8);
                    st.picks.insert("#errno".into(), a);
                    a
                }
            };
            Ok(Val::C(a))
        }
        "getenv" | "secure_getenv" | "getcwd" | "realpath" => Ok(Val::C(0)),
        "gettid" | "pthread_self" => Ok(Val::C(1)),
        "syscall" => {
            let n = c(e, st, 0)?;
            match n {
                318 => {
                    let p = c(e, st, 1)?;
                    let k = c(e, st, 2)?;
                    e.write_bytes(st, p, &vec![0; k as usize])?;
                    Ok(Val::C(k))
                }
                202 => Ok(Val::C(0)),
                332 => {
                    set_errno(e, st, 38)?;
                    Ok(Val::C(u64::MAX))
                }
                _ => err(format!("syscall {}", n)),
            }
        }
        "getrandom" => {
            let p = c(e, st, 0)?;
            let k = c(e, st, 1)?;
            e.write_bytes(st, p, &vec![0; k as usize])?;
            Ok(Val::C(k))
        }
        "write" => Ok(a[2].clone()),
        "open64" | "open" => {
            let p = c(e, st, 0)?;
            let mut path = vec![];
            let mut i = 0;
            loop {
                let b = e.read_bytes(st, p + i, 1)?[0];
                if b == 0 {
                    break;
                }
                path.push(b);
                i += 1;
            }
            let path = String::from_utf8_lossy(&path).to_string();
            if !st.names.contains_key(&format!("file:{}", path)) {
                set_errno(e, st, 2)?;
                return Ok(Val::C(0xffff_ffff));
            }
            st.fds.push(Some((path, 0)));
            Ok(Val::C(st.fds.len() as u64 - 1))
        }
        "close" => Ok(Val::C(0)),
        "fcntl" | "fcntl64" | "poll" | "sigaction" | "signal" => Ok(Val::C(0)),
        "lseek64" => {
            let fd = c(e, st, 0)? as usize;
            let off = c(e, st, 1)? as i64;
            let wh = c(e, st, 2)?;
            let Some(Some((p, pos))) = st.fds.get(fd).cloned() else { return err("lseek on an unknown descriptor") };
            let len = st.picks[&format!("#flen:{}", p)] as i64;
            let np = match wh {
                0 => off,
                1 => pos as i64 + off,
                _ => len + off,
            };
            if np < 0 {
                set_errno(e, st, 22)?;
                return Ok(Val::C(u64::MAX));
            }
            st.fds[fd] = Some((p, np as u64));
            Ok(Val::C(np as u64))
        }
        "read" => {
            let fd = c(e, st, 0)? as usize;
            let buf = c(e, st, 1)?;
            let n = c(e, st, 2)?;
            let Some(Some((p, pos))) = st.fds.get(fd).cloned() else { return err("read on an unknown descriptor") };
            let base = st.picks[&format!("#faddr:{}", p)];
            let len = st.picks[&format!("#flen:{}", p)];
            let k = n.min(len.saturating_sub(pos));
            e.memcpy(st, buf, base + pos, k as usize)?;
            st.fds[fd] = Some((p, pos + k));
            Ok(Val::C(k))
        }
        "statx" | "stat64" | "fstat64" | "readlink" => {
            if name == "fstat64" {
                let fd = c(e, st, 0)? as usize;
                let buf = c(e, st, 1)?;
                if let Some(Some((p, _))) = st.fds.get(fd).cloned() {
                    let len = st.picks[&format!("#flen:{}", p)];
                    e.write_bytes(st, buf, &[0; 144])?;
                    e.write_bytes(st, buf + 24, &0o100644u32.to_le_bytes())?;
                    e.write_bytes(st, buf + 48, &len.to_le_bytes())?;
                    return Ok(Val::C(0));
                }
            }
            set_errno(e, st, 38)?;
            Ok(Val::C(0xffff_ffff))
        }
        "__cxa_thread_atexit_impl" | "__rust_no_alloc_shim_is_unstable_v2" | "isatty" => Ok(Val::C(0)),
        "getauxval" | "sysconf" => Ok(Val::C(4096)),
        "exit" | "_exit" => Err(Ev::Done),
        _ => err(format!("libc function {}", name)),
    }
}
fn set_errno(e: &mut Eng, st: &mut State, v: u32) -> R<()> {
    let a = match st.picks.get("#errno") {
        Some(a) => *a,
        None => {
            let a = e.alloc(st, 8);
            st.picks.insert("#errno".into(), a);
            a
        }
    };
    e.write_bytes(st, a, &v.to_le_bytes())
}

fn text(e: &mut Eng, st: &mut State, p: &Val, n: &Val) -> R<String> {
    let (Val::C(p), Val::C(n)) = (p, n) else { return err("name must be concrete") };
    let b = e.read_bytes(st, *p, *n as usize)?;
    Ok(String::from_utf8_lossy(&b).to_string())
}
fn fresh(st: &mut State, n: String) -> String {
    let k = st.names.entry(n.clone()).or_default();
    *k += 1;
    if *k == 1 { n } else { format!("{}#{}", n, *k - 1) }
}

fn sym(e: &mut Eng, st: &mut State, name: &str, a: &[Val]) -> R<Val> {
    let f64t = Ty::F64;
    let b1 = Ty::Int(1);
    match name {
        "sym_f64" => {
            let n = text(e, st, &a[0], &a[1])?;
            let (Val::C(lo), Val::C(hi)) = (&a[2], &a[3]) else { return err("symbolic range") };
            let (lo, hi) = (f64::from_bits(*lo), f64::from_bits(*hi));
            let n = fresh(st, n);
            if let Some(m) = &e.opts.concrete {
                let v = *m.get(&n).unwrap_or(&0f64.max(lo).min(hi));
                return Ok(Val::C(v.to_bits()));
            }
            let s = e.tt.fsort(64);
            let t = e.tt.var(&format!("{}@{:x}@{:x}", n, lo.to_bits(), hi.to_bits()), s, q_of_f64(lo), q_of_f64(hi));
            st.inputs.push((n, t, 'f'));
            Ok(Val::S(t))
        }
        "sym_int" => {
            let n = text(e, st, &a[0], &a[1])?;
            let (Val::C(lo), Val::C(hi)) = (&a[2], &a[3]) else { return err("symbolic range") };
            let (lo, hi) = (*lo as i64, *hi as i64);
            let n = fresh(st, n);
            if let Some(m) = &e.opts.concrete {
                let v = *m.get(&n).unwrap_or(&(0.max(lo).min(hi) as f64));
                return Ok(Val::C(v as i64 as u64));
            }
            if lo == hi {
                return Ok(Val::C(lo as u64));
            }
            let t = e.tt.var(&format!("{}@{}@{}", n, lo, hi), Sort::Int(64), Some(Q::from_integer(lo.into())), Some(Q::from_integer(hi.into())));
            st.inputs.push((n, t, 'i'));
            Ok(Val::S(t))
        }
        "sym_pick" => {
            let n = text(e, st, &a[0], &a[1])?;
            let Val::C(k) = a[2] else { return err("symbolic pick range") };
            let key = {
                let c = st.names.get(&n).copied().unwrap_or(0);
                if c == 0 { n.clone() } else { format!("{}#{}", n, c) }
            };
            if let Some(m) = &e.opts.concrete {
                fresh(st, n);
                return Ok(Val::C(*m.get(&key).unwrap_or(&0.0) as u64));
            }
            match st.picks.get(&key) {
                Some(v) => {
                    let v = *v;
                    fresh(st, n);
                    Ok(Val::C(v))
                }
                None => Err(Ev::Pick(key, k)),
            }
        }
        "sym_assume" => {
            let t = e.tm(&a[0], &b1)?;
            if t == 1 {
                return Ok(Val::C(0));
            }
            if t == 0 {
                return Err(Ev::AssumeFail);
            }
            if e.feasible(st, t) == Res::Unsat {
                return Err(Ev::AssumeFail);
            }
            e.add_pc(st, t, true);
            Ok(Val::C(0))
        }
        "sym_assert" => {
            let m = text(e, st, &a[1], &a[2])?;
            let t = e.tm(&a[0], &b1)?;
            if let Some(_) = &e.opts.concrete {
                let v = if t == 1 { 1f64 } else { 0.0 };
                st.trace.push(("assert".into(), Val::C(v.to_bits())));
                if t != 1 {
                    e.note(format!("concrete run: assertion failed: {}", m));
                }
                return Ok(Val::C(0));
            }
            e.check_assert(st, t, &[], &m)?;
            Ok(Val::C(0))
        }
        "sym_close" => {
            // |a - b| <= tol
            let m = text(e, st, &a[3], &a[4])?;
            let Val::C(tol) = a[2] else { return err("symbolic tolerance") };
            let tol = f64::from_bits(tol);
            if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                let ok = (x - y).abs() <= tol || x == y;
                if e.opts.concrete.is_some() {
                    for (n, v) in [("a", x), ("b", y)] {
                        let v = if v.is_nan() { 0x7ff8000000000000 } else { v.to_bits() };
                        st.trace.push((n.into(), Val::C(v)));
                    }
                    if !ok {
                        e.note(format!("concrete run: assertion failed: {}", m));
                    }
                    return Ok(Val::C(0));
                }
                e.check_assert(st, ok as T, &[], &m)?;
                return Ok(Val::C(0));
            }
            for v in &a[..2] {
                if let Val::C(c) = v {
                    if !f64::from_bits(*c).is_finite() {
                        e.check_assert(st, 0, &[], &m)?;
                        return Ok(Val::C(0));
                    }
                }
            }
            let x = e.tm(&a[0], &f64t)?;
            let y = e.tm(&a[1], &f64t)?;
            let d = if e.tt.mode == Mode::Rnd {
                // exact difference
                let r = e.tt.mode;
                e.tt.mode = Mode::Real;
                let d = e.tt.fop2(Op::FSub, x, y);
                e.tt.mode = r;
                d
            } else {
                e.tt.fop2(Op::FSub, x, y)
            };
            let s = e.tt.sort(d);
            let d = e.tt.un(Op::FAbs, d, s);
            let k = e.tt.fconst(tol, 64);
            let c = e.tt.cmp(Op::FLe, d, k);
            if e.tt.mode == Mode::Real {
                let cc = e.canon.canon(&mut e.tt, c);
                if cc == 1 {
                    e.stats.asserts += 1;
                    e.stats.asserts_const += 1;
                    return Ok(Val::C(0));
                }
            }
            let mut weak = vec![];
            for big in [1.0, 1e-2, 1e-5] {
                if big > tol * 2.0 {
                    let k = e.tt.fconst(big, 64);
                    weak.push(e.tt.cmp(Op::FLt, k, d));
                }
            }
            e.check_assert(st, c, &weak, &m)?;
            Ok(Val::C(0))
        }
        "sym_cover" => {
            let m = text(e, st, &a[0], &a[1])?;
            if e.opts.concrete.is_some() || e.stats.covers.get(&m).copied().unwrap_or(0) > 0 || e.feasible_cover(st) {
                *e.stats.covers.entry(m).or_default() += 1;
            }
            Ok(Val::C(0))
        }
        "sym_trace" => {
            let m = text(e, st, &a[0], &a[1])?;
            st.trace.push((m, a[2].clone()));
            Ok(Val::C(0))
        }
        "sym_file" => {
            // (path, len, data, n): a virtual file with the given (possibly symbolic) contents
            let p = text(e, st, &a[0], &a[1])?;
            let Val::C(d) = a[2] else { return err("file data") };
            let n = e.conc(st, &a[3], &Ty::Int(64))?;
            let m = e.alloc(st, n as usize);
            e.memcpy(st, m, d, n as usize)?;
            st.names.insert(format!("file:{}", p), 1);
            st.picks.insert(format!("#faddr:{}", p), m);
            st.picks.insert(format!("#flen:{}", p), n);
            Ok(Val::C(0))
        }
        // fork on the condition now, so that the value is concrete afterwards
        "sym_split" => {
            let t = e.tm(&a[0], &b1)?;
            match e.decide(st, t) {
                Err(Ev::Fork(_)) => Err(Ev::Fork(t)),
                r => Ok(Val::C(r? as u64)),
            }
        }
        "sym_conc" => {
            let v = e.conc(st, &a[0], &Ty::Int(64))?;
            Ok(Val::C(v))
        }
        "sym_engine" => Ok(Val::C(1)),
        "sym_tier" => Ok(Val::C(e.opts.tier)),
        _ => err(format!("harness function {}", name)),
    }
}
#[allow(dead_code)]
fn _q(q: &Q) -> f64 {
    let _ = q.is_negative();
    q.to_f64().unwrap_or(0.0)
}
