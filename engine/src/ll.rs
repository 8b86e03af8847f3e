//! Reader for the textual LLVM IR that rustc emits (only what the encoded module uses).
//! Function bodies are parsed lazily, on first call.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// Allocation size in bytes.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                w => align_up((*w as u64 + 7) / 8, 16),
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(..) => {
                let (offs, sz) = self.layout();
                let _ = offs;
                sz
            }
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut offs = vec![];
                for t in f.iter() {
                    if !*packed {
                        o = align_up(o, t.align());
                    }
                    offs.push(o);
                    o += t.size();
                }
                if !*packed {
                    o = align_up(o, self.align());
                }
                (offs, o)
            }
            Ty::Arr(n, t) => ((0..*n).map(|i| i * t.size()).collect(), n * t.size()),
            Ty::Vec(n, t) => ((0..*n).map(|i| i * t.size()).collect(), n * t.size()),
            _ => panic!("layout of {:?}", self),
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(self, Ty::F32 | Ty::F64)
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("width of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    W(&'a str),
    L(String),
    G(String),
    P(char),
    Str(&'a str),
    CStr(&'a str),
    Meta(&'a str),
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(32);
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'/' if i + 1 < b.len() && b[i + 1] == b'*' => {
                while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') {
                    i += 1;
                }
                i += 2;
            }
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let start;
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    start = i + 2;
                    let mut j = start;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = s[start..j].to_string();
                    i = j + 1;
                } else {
                    start = i + 1;
                    let mut j = start;
                    while j < b.len() && isid(b[j]) {
                        j += 1;
                    }
                    name = s[start..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'"' => {
                let start = i + 1;
                let mut j = start;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(&s[start..j]));
                i = j + 1;
            }
            b'!' => {
                let start = i + 1;
                let mut j = start;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                out.push(Tok::Meta(&s[start..j]));
                i = j;
            }
            b'#' => {
                let start = i;
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                out.push(Tok::Meta(&s[start..j]));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let start = i + 2;
                let mut j = start;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::CStr(&s[start..j]));
                i = j + 1;
            }
            _ if isid(c) => {
                let start = i;
                let mut j = i;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                out.push(Tok::W(&s[start..j]));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

/// Constants.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Zero,
    Undef,
    Bytes(Vec<u8>),
    Agg(Vec<(Ty, Const)>),
    Global(u32),
    Func(u32),
    /// base + offset
    Off(Box<Const>, i64),
    Sub(Box<Const>, Box<Const>),
    Trunc(Box<Const>, u32),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Rc<Const>),
    C(u64),
    /// symbolic address of a global/function with resolved numeric address
    Asm(Rc<str>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred {
    False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc, ZExt, SExt, FPTrunc, FPExt, FPToUI, FPToSI, UIToFP, SIToFP, PtrToInt, IntToPtr, BitCast,
}

#[derive(Clone, Debug)]
pub enum IK {
    Bin(Bin, Ty, Opd, Opd, bool, bool), // nuw, nsw
    FNeg(Ty, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(FPred, Ty, Opd, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Select(Ty, Opd, Ty, Opd, Opd),
    Phi(Ty, Vec<(Opd, u32)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Call { ret: Ty, callee: Opd, args: Vec<(Ty, Opd)>, normal: Option<u32> },
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u64),
    Gep(Opd, i64, Vec<(Opd, Ty, i64)>),
    ExtractValue(Ty, Opd, Vec<usize>),
    InsertValue(Ty, Opd, Ty, Opd, Vec<usize>),
    ExtractElement(Ty, Opd, Ty, Opd),
    InsertElement(Ty, Opd, Opd, Ty, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i32>),
    Freeze(Ty, Opd),
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    Other(String),
}

#[derive(Debug)]
pub struct Instr {
    pub dst: u32,
    pub kind: IK,
    pub dbg: u32,
}
pub const NODST: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block {
    pub instrs: Vec<Instr>,
    pub nphi: usize,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub ret: Ty,
    pub params: Vec<Ty>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: String,
    pub ty: Option<Ty>,
    pub init: Option<(usize, usize)>, // byte range of "TYPE INIT..." in the text
    pub constant: bool,
}

pub struct Module {
    pub text: Rc<str>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub fmap: HashMap<String, u32>,
    pub fnames: Vec<String>,
    /// byte range of the definition (None: declaration)
    pub fbody: Vec<Option<(usize, usize)>>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
    pub md: HashMap<u32, (usize, usize)>,
    cache: HashMap<u32, Rc<Func>>,
}

pub struct P<'a> {
    pub t: Vec<Tok<'a>>,
    pub i: usize,
}

impl<'a> P<'a> {
    pub fn new(s: &'a str) -> Self {
        P { t: lex(s), i: 0 }
    }
    pub fn peek(&self) -> Option<&Tok<'a>> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> Tok<'a> {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    pub fn isp(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    pub fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if *x == w)
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?} in {:?}", c, self.i, self.t);
        }
    }
    pub fn skip_balanced(&mut self) {
        // at an opening paren
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::L(_)) => true,
            Some(Tok::W(w)) => {
                matches!(*w, "void" | "float" | "double" | "half" | "ptr" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "bfloat")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            _ => false,
        }
    }
    fn skip_attrs_to_type(&mut self) {
        while !self.is_type_start() {
            match self.next() {
                Tok::W(_) | Tok::Str(_) | Tok::Meta(_) => {
                    if self.isp('(') {
                        self.skip_balanced();
                    }
                }
                t => panic!("unexpected token {:?} looking for a type in {:?}", t, self.t),
            }
        }
    }
}

impl Module {
    pub fn parse(text: String) -> Module {
        let text: Rc<str> = text.into();
        let mut m = Module {
            text: text.clone(),
            globals: vec![],
            gmap: HashMap::new(),
            fmap: HashMap::new(),
            fnames: vec![],
            fbody: vec![],
            types: HashMap::new(),
            aliases: HashMap::new(),
            md: HashMap::new(),
            cache: HashMap::new(),
        };
        let mut pos = 0;
        let n = text.len();
        let bytes = text.as_bytes();
        let mut typedefs = vec![];
        while pos < n {
            let eol = text[pos..].find('\n').map(|x| pos + x).unwrap_or(n);
            let line = &text[pos..eol];
            let mut next = eol + 1;
            match bytes.get(pos) {
                Some(b'@') => {
                    m.global_line(pos, eol);
                }
                Some(b'%') => {
                    typedefs.push((pos, eol));
                }
                Some(b'd') if line.starts_with("declare ") => {
                    let name = Self::fn_name(line);
                    m.add_fn(name, None);
                }
                Some(b'd') if line.starts_with("define ") => {
                    let name = Self::fn_name(line);
                    let end = text[pos..].find("\n}\n").map(|x| pos + x + 2).unwrap_or(n);
                    m.add_fn(name, Some((pos, end)));
                    next = end + 1;
                }
                Some(b'!') => {
                    // !123 = ...
                    let l = &line[1..];
                    let k = l.bytes().take_while(|c| c.is_ascii_digit()).count();
                    if k > 0 {
                        if let Ok(id) = l[..k].parse::<u32>() {
                            m.md.insert(id, (pos + 1 + k, eol));
                        }
                    }
                }
                _ => {}
            }
            pos = next;
        }
        for (a, b) in typedefs {
            let l = &text[a..b];
            if let Some(k) = l.find(" = type ") {
                let nm = l[1..k].trim_matches('"').to_string();
                let mut p = P::new(&l[k + 8..]);
                let t = if p.isw("opaque") { Ty::Other } else { m.ty(&mut p) };
                m.types.insert(nm, t);
            }
        }
        m
    }
    fn fn_name(line: &str) -> String {
        let k = line.find('@').unwrap();
        let r = &line[k + 1..];
        if r.starts_with('"') {
            let e = r[1..].find('"').unwrap();
            r[1..1 + e].to_string()
        } else {
            let e = r.find('(').unwrap();
            r[..e].to_string()
        }
    }
    fn add_fn(&mut self, name: String, body: Option<(usize, usize)>) {
        let id = self.fnames.len() as u32;
        self.fmap.insert(name.clone(), id);
        self.fnames.push(name);
        self.fbody.push(body);
    }
    fn global_line(&mut self, a: usize, b: usize) {
        let text = self.text.clone();
        let l = &text[a..b];
        let eq = l.find(" = ").unwrap();
        let name = l[1..eq].trim_matches('"').to_string();
        // find " global " or " constant " or " alias "
        let rest = &l[eq + 3..];
        let mut off = 0usize;
        let mut constant = false;
        let mut external = false;
        let mut found = false;
        for w in rest.split(' ') {
            let wl = w.len() + 1;
            if w == "external" || w == "extern_weak" {
                external = true;
            }
            if w == "global" || w == "constant" {
                constant = w == "constant";
                off += wl;
                found = true;
                break;
            }
            if w == "alias" {
                let k = rest.find("ptr @").unwrap();
                let tgt: String = rest[k + 5..].trim_start_matches('"').chars().take_while(|c| *c != '"' && *c != ',' && *c != ' ').collect();
                self.aliases.insert(name, tgt);
                return;
            }
            off += wl;
        }
        if !found {
            return;
        }
        let id = self.globals.len() as u32;
        self.gmap.insert(name.clone(), id);
        self.globals.push(Global {
            name,
            ty: None,
            init: if external { None } else { Some((a + eq + 3 + off, b)) },
            constant,
        });
    }

    pub fn ty(&self, p: &mut P) -> Ty {
        match p.next() {
            Tok::W(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if p.isw("addrspace") {
                        p.next();
                        p.skip_balanced();
                    }
                    Ty::Ptr
                }
                "double" => Ty::F64,
                "float" => Ty::F32,
                "label" | "metadata" | "token" | "half" | "x86_fp80" | "fp128" | "bfloat" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
                _ => panic!("bad type {:?} in {:?}", w, p.t),
            },
            Tok::L(n) => self.types.get(&n).cloned().unwrap_or_else(|| panic!("unknown type {}", n)),
            Tok::P('{') => {
                let mut f = vec![];
                while !p.eat('}') {
                    f.push(self.ty(p));
                    p.eat(',');
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('[') => {
                let n = match p.next() {
                    Tok::W(w) => w.parse().unwrap(),
                    t => panic!("{:?}", t),
                };
                assert!(p.eatw("x"));
                let t = self.ty(p);
                p.expect(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if p.eat('{') {
                    let mut f = vec![];
                    while !p.eat('}') {
                        f.push(self.ty(p));
                        p.eat(',');
                    }
                    p.expect('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = match p.next() {
                        Tok::W(w) => w.parse().unwrap(),
                        t => panic!("{:?}", t),
                    };
                    assert!(p.eatw("x"));
                    let t = self.ty(p);
                    p.expect('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            t => panic!("bad type token {:?} in {:?}", t, p.t),
        }
    }

    pub fn float_const(w: &str, ty: &Ty) -> Option<u64> {
        if let Some(h) = w.strip_prefix("0x") {
            let bits = u64::from_str_radix(h, 16).ok()?;
            return Some(match ty {
                Ty::F64 => bits,
                Ty::F32 => (f64::from_bits(bits) as f32).to_bits() as u64,
                _ => return None,
            });
        }
        // new style: f0x...
        if let Some(h) = w.strip_prefix("f0x") {
            return u64::from_str_radix(h, 16).ok();
        }
        let special = match w {
            "+inf" | "inf" => Some(f64::INFINITY),
            "-inf" => Some(f64::NEG_INFINITY),
            "+qnan" | "qnan" | "nan" => Some(f64::NAN),
            "-qnan" | "-nan" => Some(-f64::NAN),
            _ => None,
        };
        let v: f64 = special.or_else(|| w.parse().ok())?;
        Some(match ty {
            Ty::F64 => v.to_bits(),
            Ty::F32 => (v as f32).to_bits() as u64,
            _ => return None,
        })
    }

    pub fn constant(&self, p: &mut P, ty: &Ty) -> Const {
        match p.next() {
            Tok::W(w) => match w {
                "null" | "zeroinitializer" | "none" => Const::Zero,
                "undef" | "poison" => Const::Undef,
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "getelementptr" => {
                    while !p.isp('(') {
                        if matches!(p.next(), Tok::W("inrange")) && p.isp('(') {
                            p.skip_balanced();
                        }
                    }
                    p.expect('(');
                    let bt = self.ty(p);
                    p.expect(',');
                    let pt = self.ty(p);
                    let base = self.constant(p, &pt);
                    let mut idx = vec![];
                    while p.eat(',') {
                        let t = self.ty(p);
                        let c = self.constant(p, &t);
                        idx.push(match c {
                            Const::Int(v) => sext(v, t.width()) as i64,
                            Const::Zero => 0,
                            c => panic!("gep constexpr index {:?}", c),
                        });
                    }
                    p.expect(')');
                    let mut off = 0i64;
                    let mut cur = bt;
                    for (k, i) in idx.iter().enumerate() {
                        if k == 0 {
                            off += i * cur.size() as i64;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    off += cur.layout().0[*i as usize] as i64;
                                }
                                _ => off += i * cur.elem(0).size() as i64,
                            }
                            cur = cur.elem(*i as usize);
                        }
                    }
                    Const::Off(Box::new(base), off)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" => {
                    p.expect('(');
                    let t = self.ty(p);
                    let c = self.constant(p, &t);
                    assert!(p.eatw("to"));
                    self.ty(p);
                    p.expect(')');
                    c
                }
                "trunc" => {
                    p.expect('(');
                    let t = self.ty(p);
                    let c = self.constant(p, &t);
                    assert!(p.eatw("to"));
                    let t2 = self.ty(p);
                    p.expect(')');
                    Const::Trunc(Box::new(c), t2.width())
                }
                "sub" | "add" => {
                    while !p.isp('(') {
                        p.next();
                    }
                    p.expect('(');
                    let t = self.ty(p);
                    let a = self.constant(p, &t);
                    p.expect(',');
                    let t = self.ty(p);
                    let b = self.constant(p, &t);
                    p.expect(')');
                    if w == "sub" {
                        Const::Sub(Box::new(a), Box::new(b))
                    } else {
                        match b {
                            Const::Int(v) => Const::Off(Box::new(a), v as i64),
                            _ => panic!("add constexpr"),
                        }
                    }
                }
                "splat" => {
                    p.expect('(');
                    let t = self.ty(p);
                    let c = self.constant(p, &t);
                    p.expect(')');
                    let n = ty.count();
                    Const::Agg((0..n).map(|_| (t.clone(), c.clone())).collect())
                }
                _ => {
                    if ty.is_float() {
                        match Self::float_const(w, ty) {
                            Some(b) => Const::Int(b as u128),
                            None => panic!("float const {:?}", w),
                        }
                    } else if let Some(h) = w.strip_prefix("u0x") {
                        Const::Int(u128::from_str_radix(h, 16).unwrap())
                    } else if let Some(h) = w.strip_prefix("s0x") {
                        Const::Int(u128::from_str_radix(h, 16).unwrap())
                    } else {
                        let v: i128 = match w.parse::<i128>() {
                            Ok(v) => v,
                            Err(_) => match w.parse::<u128>() {
                                Ok(v) => v as i128,
                                Err(_) => panic!("int const {:?} of type {:?} in {:?}", w, ty, p.t),
                            },
                        };
                        let wd = if let Ty::Int(w) = ty { *w } else { 64 };
                        Const::Int(mask128(v as u128, wd))
                    }
                }
            },
            Tok::P('+') => self.constant(p, ty),
            Tok::G(n) => self.global_ref(&n),
            Tok::CStr(s) => Const::Bytes(unescape(s)),
            Tok::P('{') => {
                let mut v = vec![];
                while !p.eat('}') {
                    let t = self.ty(p);
                    let c = self.constant(p, &t);
                    v.push((t, c));
                    p.eat(',');
                }
                Const::Agg(v)
            }
            Tok::P('[') => {
                let mut v = vec![];
                while !p.eat(']') {
                    let t = self.ty(p);
                    let c = self.constant(p, &t);
                    v.push((t, c));
                    p.eat(',');
                }
                Const::Agg(v)
            }
            Tok::P('<') => {
                let packed = p.eat('{');
                let close = if packed { '}' } else { '>' };
                let mut v = vec![];
                while !p.eat(close) {
                    let t = self.ty(p);
                    let c = self.constant(p, &t);
                    v.push((t, c));
                    p.eat(',');
                }
                if packed {
                    p.expect('>');
                }
                Const::Agg(v)
            }
            t => panic!("bad const {:?} in {:?}", t, p.t),
        }
    }

    pub fn global_ref(&self, n: &str) -> Const {
        let n = self.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(&g) = self.gmap.get(n) {
            Const::Global(g)
        } else if let Some(&f) = self.fmap.get(n) {
            Const::Func(f)
        } else {
            panic!("unknown global @{}", n)
        }
    }

    pub fn global_init(&mut self, g: u32) -> (Ty, Option<Const>) {
        let text = self.text.clone();
        match self.globals[g as usize].init {
            None => (Ty::Int(64), None),
            Some((a, b)) => {
                let mut p = P::new(&text[a..b]);
                let t = self.ty(&mut p);
                let c = self.constant(&mut p, &t);
                (t, Some(c))
            }
        }
    }

    pub fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.cache.get(&id) {
            return Some(f.clone());
        }
        let (a, b) = self.fbody[id as usize]?;
        let text = self.text.clone();
        let f = Rc::new(self.parse_fn(id, &text[a..b]));
        self.cache.insert(id, f.clone());
        Some(f)
    }

    fn parse_fn(&mut self, id: u32, body: &str) -> Func {
        let mut lines = body.lines();
        let header = lines.next().unwrap();
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut p = P::new(header);
        // skip to return type: 'define' attrs type @name (
        p.next();
        p.skip_attrs_to_type();
        let ret = self.ty(&mut p);
        loop {
            match p.next() {
                Tok::G(_) => break,
                _ => {}
            }
        }
        p.expect('(');
        let mut params = vec![];
        while !p.eat(')') {
            if p.isp('.') || p.isw("...") {
                p.next();
                continue;
            }
            let t = self.ty(&mut p);
            // attributes then %name
            loop {
                match p.peek().cloned() {
                    Some(Tok::L(n)) => {
                        p.next();
                        let k = regs.len() as u32;
                        regs.insert(n, k);
                        break;
                    }
                    Some(Tok::P(',')) | Some(Tok::P(')')) => {
                        let k = regs.len() as u32;
                        regs.insert(format!("{}", params.len()), k);
                        break;
                    }
                    Some(Tok::P('(')) => p.skip_balanced(),
                    _ => {
                        p.next();
                    }
                }
            }
            params.push(t);
            p.eat(',');
        }
        // gather logical lines
        let mut logical: Vec<(Option<String>, String)> = vec![]; // (label start, line)
        let all: Vec<&str> = lines.collect();
        let mut i = 0;
        let mut pending: Option<String> = None;
        let mut first = true;
        while i < all.len() {
            let l = all[i];
            i += 1;
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with('}') || t.starts_with("#dbg") {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = l.split(':').next().unwrap().trim_matches('"').to_string();
                pending = Some(lab);
                first = false;
                continue;
            }
            if first {
                // implicit entry label
                pending = Some(String::new());
                first = false;
            }
            let mut s = l.to_string();
            if t.starts_with("switch ") && l.trim_end().ends_with('[') {
                while i < all.len() {
                    s.push(' ');
                    s.push_str(all[i].trim());
                    i += 1;
                    if all[i - 1].trim_start().starts_with(']') {
                        break;
                    }
                }
            } else if t.starts_with("invoke ") || t.contains(" = invoke ") {
                s.push(' ');
                s.push_str(all[i].trim());
                i += 1;
            } else if t.contains(" = landingpad ") {
                while i < all.len() && all[i].starts_with("          ") {
                    s.push(' ');
                    s.push_str(all[i].trim());
                    i += 1;
                }
            }
            logical.push((pending.take(), s));
        }
        // labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nb = 0;
        for (lab, _) in &logical {
            if let Some(l) = lab {
                labels.insert(l.clone(), nb);
                nb += 1;
            }
        }
        // the implicit entry label has the next unnamed number; rustc names it "start", std code may not
        if labels.contains_key("") {
            let unnamed = regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count();
            labels.insert(format!("{}", unnamed), labels[""]);
        }
        let mut blocks: Vec<Block> = vec![];
        for (lab, l) in &logical {
            if lab.is_some() {
                blocks.push(Block { instrs: vec![], nphi: 0 });
            }
            let ins = self.parse_instr(l, &mut regs, &labels);
            if let Some(ins) = ins {
                let b = blocks.last_mut().unwrap();
                if matches!(ins.kind, IK::Phi(..)) {
                    b.nphi += 1;
                }
                b.instrs.push(ins);
            }
        }
        Func { id, name: self.fnames[id as usize].clone(), ret, params, nregs: regs.len(), blocks }
    }

    fn opd(&self, p: &mut P, ty: &Ty, regs: &mut HashMap<String, u32>) -> Opd {
        if let Some(Tok::L(n)) = p.peek().cloned() {
            p.next();
            let k = regs.len() as u32;
            return Opd::R(*regs.entry(n).or_insert(k));
        }
        let c = self.constant(p, ty);
        match (&c, ty) {
            (Const::Int(v), Ty::Int(w)) if *w <= 64 => Opd::C(*v as u64),
            (Const::Int(v), Ty::F64 | Ty::F32 | Ty::Ptr) => Opd::C(*v as u64),
            (Const::Zero | Const::Undef, Ty::Int(w)) if *w <= 64 => Opd::C(0),
            (Const::Zero | Const::Undef, Ty::F64 | Ty::F32 | Ty::Ptr) => Opd::C(0),
            (_, Ty::Ptr) if crate::interp::static_addr(&c).is_some() => Opd::C(crate::interp::static_addr(&c).unwrap()),
            _ => Opd::K(Rc::new(c)),
        }
    }

    fn dbg(p: &P) -> u32 {
        let n = p.t.len();
        let mut i = n;
        while i >= 2 {
            i -= 1;
            if let (Tok::Meta("dbg"), Some(Tok::Meta(x))) = (&p.t[i - 1], p.t.get(i)) {
                return x.parse().unwrap_or(0);
            }
            if n - i > 12 {
                break;
            }
        }
        0
    }

    fn label(&self, p: &mut P, labels: &HashMap<String, u32>) -> u32 {
        assert!(p.eatw("label"));
        match p.next() {
            Tok::L(n) => *labels.get(&n).unwrap_or_else(|| panic!("label {} in {:?}", n, p.t)),
            t => panic!("{:?}", t),
        }
    }

    fn parse_instr(&mut self, l: &str, regs: &mut HashMap<String, u32>, labels: &HashMap<String, u32>) -> Option<Instr> {
        let mut p = P::new(l);
        let dbg = Self::dbg(&p);
        let mut dst = NODST;
        if let (Some(Tok::L(n)), Some(Tok::P('='))) = (p.t.get(0).cloned(), p.t.get(1)) {
            let k = regs.len() as u32;
            dst = *regs.entry(n).or_insert(k);
            p.i = 2;
        }
        let op = match p.next() {
            Tok::W(w) => w,
            t => panic!("instr {:?}: {}", t, l),
        };
        let fm = ["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        macro_rules! skip_fm {
            () => {
                while matches!(p.peek(), Some(Tok::W(w)) if fm.contains(w)) {
                    p.next();
                }
            };
        }
        let bin = match op {
            "add" => Some(Bin::Add), "sub" => Some(Bin::Sub), "mul" => Some(Bin::Mul), "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv), "urem" => Some(Bin::URem), "srem" => Some(Bin::SRem), "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr), "ashr" => Some(Bin::AShr), "and" => Some(Bin::And), "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor), "fadd" => Some(Bin::FAdd), "fsub" => Some(Bin::FSub), "fmul" => Some(Bin::FMul),
            "fdiv" => Some(Bin::FDiv), "frem" => Some(Bin::FRem), _ => None,
        };
        if let Some(b) = bin {
            let (mut nuw, mut nsw) = (false, false);
            loop {
                match p.peek() {
                    Some(Tok::W("nuw")) => { nuw = true; p.next(); }
                    Some(Tok::W("nsw")) => { nsw = true; p.next(); }
                    Some(Tok::W("exact")) | Some(Tok::W("disjoint")) => { p.next(); }
                    Some(Tok::W(w)) if fm.contains(w) => { p.next(); }
                    _ => break,
                }
            }
            let t = self.ty(&mut p);
            let a = self.opd(&mut p, &t, regs);
            p.expect(',');
            let c = self.opd(&mut p, &t, regs);
            return Some(Instr { dst, kind: IK::Bin(b, t, a, c, nuw, nsw), dbg });
        }
        let cast = match op {
            "trunc" => Some(Cast::Trunc), "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt), "fptrunc" => Some(Cast::FPTrunc),
            "fpext" => Some(Cast::FPExt), "fptoui" => Some(Cast::FPToUI), "fptosi" => Some(Cast::FPToSI), "uitofp" => Some(Cast::UIToFP),
            "sitofp" => Some(Cast::SIToFP), "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt), "inttoptr" => Some(Cast::IntToPtr),
            "bitcast" | "addrspacecast" => Some(Cast::BitCast), _ => None,
        };
        if let Some(c) = cast {
            while matches!(p.peek(), Some(Tok::W("nneg" | "nuw" | "nsw"))) || matches!(p.peek(), Some(Tok::W(w)) if fm.contains(w)) {
                p.next();
            }
            let t = self.ty(&mut p);
            let a = self.opd(&mut p, &t, regs);
            assert!(p.eatw("to"), "{}", l);
            let t2 = self.ty(&mut p);
            return Some(Instr { dst, kind: IK::Cast(c, t, t2, a), dbg });
        }
        let kind = match op {
            "fneg" => {
                skip_fm!();
                let t = self.ty(&mut p);
                let a = self.opd(&mut p, &t, regs);
                IK::FNeg(t, a)
            }
            "icmp" => {
                p.eatw("samesign");
                let pr = match p.next() {
                    Tok::W("eq") => Pred::Eq, Tok::W("ne") => Pred::Ne, Tok::W("ugt") => Pred::Ugt, Tok::W("uge") => Pred::Uge,
                    Tok::W("ult") => Pred::Ult, Tok::W("ule") => Pred::Ule, Tok::W("sgt") => Pred::Sgt, Tok::W("sge") => Pred::Sge,
                    Tok::W("slt") => Pred::Slt, Tok::W("sle") => Pred::Sle, t => panic!("{:?}", t),
                };
                let t = self.ty(&mut p);
                let a = self.opd(&mut p, &t, regs);
                p.expect(',');
                let b = self.opd(&mut p, &t, regs);
                IK::ICmp(pr, t, a, b)
            }
            "fcmp" => {
                skip_fm!();
                let pr = match p.next() {
                    Tok::W("false") => FPred::False, Tok::W("oeq") => FPred::Oeq, Tok::W("ogt") => FPred::Ogt, Tok::W("oge") => FPred::Oge,
                    Tok::W("olt") => FPred::Olt, Tok::W("ole") => FPred::Ole, Tok::W("one") => FPred::One, Tok::W("ord") => FPred::Ord,
                    Tok::W("ueq") => FPred::Ueq, Tok::W("ugt") => FPred::Ugt, Tok::W("uge") => FPred::Uge, Tok::W("ult") => FPred::Ult,
                    Tok::W("ule") => FPred::Ule, Tok::W("une") => FPred::Une, Tok::W("uno") => FPred::Uno, Tok::W("true") => FPred::True,
                    t => panic!("{:?}", t),
                };
                let t = self.ty(&mut p);
                let a = self.opd(&mut p, &t, regs);
                p.expect(',');
                let b = self.opd(&mut p, &t, regs);
                IK::FCmp(pr, t, a, b)
            }
            "select" => {
                skip_fm!();
                let ct = self.ty(&mut p);
                let c = self.opd(&mut p, &ct, regs);
                p.expect(',');
                let t = self.ty(&mut p);
                let a = self.opd(&mut p, &t, regs);
                p.expect(',');
                let _ = self.ty(&mut p);
                let b = self.opd(&mut p, &t, regs);
                IK::Select(ct, c, t, a, b)
            }
            "phi" => {
                skip_fm!();
                let t = self.ty(&mut p);
                let mut v = vec![];
                while p.eat('[') {
                    let a = self.opd(&mut p, &t, regs);
                    p.expect(',');
                    let lab = match p.next() {
                        Tok::L(n) => *labels.get(&n).unwrap_or_else(|| panic!("phi label {}: {}", n, l)),
                        t => panic!("{:?}", t),
                    };
                    p.expect(']');
                    v.push((a, lab));
                    p.eat(',');
                }
                IK::Phi(t, v)
            }
            "br" => {
                if p.isw("label") {
                    IK::Br(self.label(&mut p, labels))
                } else {
                    let t = self.ty(&mut p);
                    let c = self.opd(&mut p, &t, regs);
                    p.expect(',');
                    let a = self.label(&mut p, labels);
                    p.expect(',');
                    let b = self.label(&mut p, labels);
                    IK::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty(&mut p);
                let c = self.opd(&mut p, &t, regs);
                p.expect(',');
                let d = self.label(&mut p, labels);
                p.expect('[');
                let mut v = vec![];
                while !p.eat(']') {
                    let t2 = self.ty(&mut p);
                    let k = match self.constant(&mut p, &t2) {
                        Const::Int(v) => v,
                        Const::Zero => 0,
                        c => panic!("{:?}", c),
                    };
                    p.expect(',');
                    let lab = self.label(&mut p, labels);
                    v.push((k, lab));
                }
                IK::Switch(t, c, d, v)
            }
            "ret" => {
                let t = self.ty(&mut p);
                if t == Ty::Void {
                    IK::Ret(None)
                } else {
                    let a = self.opd(&mut p, &t, regs);
                    IK::Ret(Some((t, a)))
                }
            }
            "unreachable" => IK::Unreachable,
            "resume" => IK::Unreachable,
            "landingpad" => IK::Other(l.trim().to_string()),
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let inv = op == "invoke";
                if op == "tail" || op == "musttail" || op == "notail" {
                    p.next();
                }
                skip_fm!();
                p.skip_attrs_to_type();
                let ret = self.ty(&mut p);
                if p.isp('(') {
                    p.skip_balanced();
                }
                let callee = match p.peek().cloned() {
                    Some(Tok::W("asm")) => {
                        p.next();
                        let mut s = String::new();
                        loop {
                            match p.next() {
                                Tok::Str(x) => {
                                    s = x.to_string();
                                    break;
                                }
                                _ => {}
                            }
                        }
                        // constraints
                        p.expect(',');
                        p.next();
                        Opd::Asm(s.into())
                    }
                    Some(Tok::G(n)) if n.starts_with("llvm.") && !self.fmap.contains_key(&n) => {
                        panic!("undeclared {}", n)
                    }
                    Some(Tok::G(n)) => {
                        if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n == "llvm.assume" || n.starts_with("llvm.invariant") {
                            return None;
                        }
                        p.next();
                        Opd::K(Rc::new(self.global_ref(&n)))
                    }
                    _ => self.opd(&mut p, &Ty::Ptr, regs),
                };
                p.expect('(');
                let mut args = vec![];
                while !p.eat(')') {
                    let t = self.ty(&mut p);
                    if t == Ty::Other {
                        // metadata argument
                        let mut d = 0;
                        loop {
                            match p.peek() {
                                Some(Tok::P(',')) if d == 0 => break,
                                Some(Tok::P(')')) if d == 0 => break,
                                Some(Tok::P('(')) => d += 1,
                                Some(Tok::P(')')) => d -= 1,
                                _ => {}
                            }
                            p.next();
                        }
                        p.eat(',');
                        continue;
                    }
                    loop {
                        match p.peek() {
                            Some(Tok::W(w)) => {
                                let attr = matches!(*w,
                                    "noundef" | "nonnull" | "readonly" | "readnone" | "writeonly" | "zeroext" | "signext" | "inreg" | "noalias" | "nocapture"
                                    | "captures" | "align" | "dereferenceable" | "dereferenceable_or_null" | "range" | "initializes" | "returned" | "nofree"
                                    | "dead_on_unwind" | "writable" | "dead_on_return" | "sret" | "byval" | "allocptr" | "immarg" | "allocalign" | "nofpclass" | "noext" | "swiftself" | "nest" | "inalloca" | "elementtype" | "preallocated");
                                if !attr {
                                    break;
                                }
                                let isal = *w == "align";
                                p.next();
                                if p.isp('(') {
                                    p.skip_balanced();
                                } else if isal {
                                    p.next();
                                }
                            }
                            Some(Tok::Str(_)) => {
                                p.next();
                            }
                            _ => break,
                        }
                    }
                    let a = self.opd(&mut p, &t, regs);
                    args.push((t, a));
                    p.eat(',');
                }
                let normal = if inv {
                    while !p.isw("to") {
                        p.next();
                    }
                    p.next();
                    Some(self.label(&mut p, labels))
                } else {
                    None
                };
                IK::Call { ret, callee, args, normal }
            }
            "load" => {
                p.eatw("atomic");
                p.eatw("volatile");
                let t = self.ty(&mut p);
                p.expect(',');
                let pt = self.ty(&mut p);
                let a = self.opd(&mut p, &pt, regs);
                IK::Load(t, a)
            }
            "store" => {
                p.eatw("atomic");
                p.eatw("volatile");
                let t = self.ty(&mut p);
                let v = self.opd(&mut p, &t, regs);
                p.expect(',');
                let pt = self.ty(&mut p);
                let a = self.opd(&mut p, &pt, regs);
                IK::Store(t, v, a)
            }
            "alloca" => {
                let t = self.ty(&mut p);
                IK::Alloca(t.size().max(1))
            }
            "getelementptr" => {
                while matches!(p.peek(), Some(Tok::W("inbounds" | "nuw" | "nusw"))) {
                    p.next();
                }
                let bt = self.ty(&mut p);
                p.expect(',');
                let pt = self.ty(&mut p);
                let base = self.opd(&mut p, &pt, regs);
                let mut koff = 0i64;
                let mut var = vec![];
                let mut cur = bt;
                let mut k = 0;
                while p.eat(',') {
                    if matches!(p.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    let t = self.ty(&mut p);
                    let o = self.opd(&mut p, &t, regs);
                    let stride;
                    if k == 0 {
                        stride = cur.size() as i64;
                    } else if let Ty::Struct(..) = &cur {
                        let i = match o {
                            Opd::C(v) => v as usize,
                            _ => panic!("struct gep"),
                        };
                        koff += cur.layout().0[i] as i64;
                        cur = cur.elem(i);
                        k += 1;
                        continue;
                    } else {
                        cur = cur.elem(0);
                        stride = cur.size() as i64;
                    }
                    match o {
                        Opd::C(v) => koff += sext(v as u128, t.width()) as i64 * stride,
                        o => var.push((o, t, stride)),
                    }
                    k += 1;
                }
                IK::Gep(base, koff, var)
            }
            "extractvalue" => {
                let t = self.ty(&mut p);
                let a = self.opd(&mut p, &t, regs);
                let mut idx = vec![];
                while p.eat(',') {
                    match p.next() {
                        Tok::W(w) => idx.push(w.parse().unwrap()),
                        _ => break,
                    }
                }
                IK::ExtractValue(t, a, idx)
            }
            "insertvalue" => {
                let t = self.ty(&mut p);
                let a = self.opd(&mut p, &t, regs);
                p.expect(',');
                let t2 = self.ty(&mut p);
                let b = self.opd(&mut p, &t2, regs);
                let mut idx = vec![];
                while p.eat(',') {
                    match p.next() {
                        Tok::W(w) => idx.push(w.parse().unwrap()),
                        _ => break,
                    }
                }
                IK::InsertValue(t, a, t2, b, idx)
            }
            "extractelement" => {
                let t = self.ty(&mut p);
                let a = self.opd(&mut p, &t, regs);
                p.expect(',');
                let t2 = self.ty(&mut p);
                let b = self.opd(&mut p, &t2, regs);
                IK::ExtractElement(t, a, t2, b)
            }
            "insertelement" => {
                let t = self.ty(&mut p);
                let a = self.opd(&mut p, &t, regs);
                p.expect(',');
                let t1 = self.ty(&mut p);
                let b = self.opd(&mut p, &t1, regs);
                p.expect(',');
                let t2 = self.ty(&mut p);
                let c = self.opd(&mut p, &t2, regs);
                IK::InsertElement(t, a, b, t2, c)
            }
            "shufflevector" => {
                let t = self.ty(&mut p);
                let a = self.opd(&mut p, &t, regs);
                p.expect(',');
                let t2 = self.ty(&mut p);
                let b = self.opd(&mut p, &t2, regs);
                p.expect(',');
                let mt = self.ty(&mut p);
                let c = self.constant(&mut p, &mt);
                let n = mt.count();
                let mask = match c {
                    Const::Zero => vec![0; n],
                    Const::Undef => vec![-1; n],
                    Const::Agg(v) => v.iter().map(|(_, c)| match c { Const::Int(i) => *i as i32, Const::Zero => 0, _ => -1 }).collect(),
                    c => panic!("{:?}", c),
                };
                IK::Shuffle(t, a, b, mask)
            }
            "freeze" => {
                let t = self.ty(&mut p);
                let a = self.opd(&mut p, &t, regs);
                IK::Freeze(t, a)
            }
            "atomicrmw" => {
                p.eatw("volatile");
                let o = match p.next() {
                    Tok::W(w) => w.to_string(),
                    t => panic!("{:?}", t),
                };
                let pt = self.ty(&mut p);
                let a = self.opd(&mut p, &pt, regs);
                p.expect(',');
                let t = self.ty(&mut p);
                let b = self.opd(&mut p, &t, regs);
                IK::AtomicRmw(o, t, a, b)
            }
            "cmpxchg" => {
                p.eatw("weak");
                p.eatw("volatile");
                let pt = self.ty(&mut p);
                let a = self.opd(&mut p, &pt, regs);
                p.expect(',');
                let t = self.ty(&mut p);
                let b = self.opd(&mut p, &t, regs);
                p.expect(',');
                let t = self.ty(&mut p);
                let c = self.opd(&mut p, &t, regs);
                IK::CmpXchg(t, a, b, c)
            }
            "fence" => IK::Fence,
            _ => IK::Other(l.trim().to_string()),
        };
        Some(Instr { dst, kind, dbg })
    }
}

pub fn mask128(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
