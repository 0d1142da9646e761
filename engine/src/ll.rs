//! Lazy reader of textual LLVM IR: modules are indexed by symbol, functions parsed on first call.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, PartialEq, Eq, Hash, Clone)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Half,
    Float,
    Double,
    Array(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Vec<Rc<Ty>>, bool),
    Other,
}
pub type T = Rc<Ty>;

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() + 7) / 8,
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs {
                    if !packed { let a = f.align(); al = al.max(a); o = (o + a - 1) / a * a; }
                    o += f.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Half => 2,
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self { Ty::Int(w) => *w as u64, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, Ty::Half => 16, Ty::Vec(n, t) => n * t.bits(), _ => self.size() * 8 }
    }
    pub fn field_off(&self, i: u64) -> (u64, T) {
        match self {
            Ty::Array(_, t) | Ty::Vec(_, t) => (i * t.size(), t.clone()),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed { let a = f.align(); o = (o + a - 1) / a * a; }
                    if k as u64 == i { return (o, f.clone()); }
                    o += f.size();
                }
                panic!("field index")
            }
            _ => panic!("field_off of {:?}", self),
        }
    }
}

/// Constants as written; globals are resolved by the engine.
#[derive(Debug, Clone)]
pub enum Cst {
    Int(u128),
    Fp(u64),
    Null,
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(T, Cst)>),
    Splat(T, Box<Cst>),
    Global(String),
    Gep(T, Vec<(T, Cst)>),
    Cast(String, T, Box<Cst>, T),
    Bin(String, T, Box<Cst>, Box<Cst>),
}

#[derive(Debug, Clone, Copy)]
pub enum Opd {
    R(u32),
    C(u32),
}

#[derive(Debug, Clone)]
pub struct Arg { pub ty: T, pub v: Opd, pub byval: u64 }

#[derive(Debug, Clone)]
pub enum Ins {
    Bin { op: &'static str, ty: T, a: Opd, b: Opd },
    FNeg { ty: T, a: Opd },
    ICmp { pred: &'static str, ty: T, a: Opd, b: Opd },
    FCmp { pred: String, ty: T, a: Opd, b: Opd },
    Cast { op: &'static str, from: T, a: Opd, to: T },
    Load { ty: T, p: Opd },
    Store { ty: T, v: Opd, p: Opd },
    Gep { ty: T, base: Opd, bty: T, idx: Vec<(T, Opd)> },
    Alloca { ty: T, n: Opd, align: u64 },
    Call { ret: T, callee: Opd, args: Vec<Arg>, to: Option<u32>, asm: Option<String> },
    Select { cty: T, c: Opd, ty: T, a: Opd, b: Opd },
    ExtractValue { ty: T, a: Opd, idx: Vec<u64> },
    InsertValue { ty: T, a: Opd, ety: T, v: Opd, idx: Vec<u64> },
    ExtractElement { ty: T, a: Opd, i: Opd },
    InsertElement { ty: T, a: Opd, v: Opd, i: Opd },
    Shuffle { ty: T, a: Opd, b: Opd, mask: Cst, mty: T },
    AtomicRmw { op: String, ty: T, p: Opd, v: Opd },
    CmpXchg { ty: T, p: Opd, e: Opd, n: Opd },
    Freeze { a: Opd },
    Fence,
    Br { t: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { ty: T, v: Opd, d: u32, cases: Vec<(u128, u32)> },
    Ret { ty: T, v: Option<Opd> },
    Unreachable,
    Bad(String),
}

#[derive(Debug)]
pub struct Phi { pub dst: u32, pub ty: T, pub inc: Vec<(u32, Opd)> }
#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<Phi>, pub ins: Vec<(u32, Ins)> }
#[derive(Debug)]
pub struct RawFunc { pub params: Vec<(u32, T, u64)>, pub nregs: u32, pub blocks: Vec<Block>, pub consts: Vec<(T, Cst)> }
pub const NOREG: u32 = u32::MAX;

pub struct Lex<'a> { pub s: &'a [u8], pub i: usize, pub types: &'a HashMap<String, (usize, usize)>, pub all: &'a [u8] }

fn isid(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'$' | b'-') }

impl<'a> Lex<'a> {
    pub fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1 } }
                _ => break,
            }
        }
    }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) { panic!("expected '{}' at: {}", c as char, String::from_utf8_lossy(&self.s[self.i..(self.i + 200).min(self.s.len())])); }
    }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && isid(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str { self.ws(); let j = self.i; let w = self.word(); self.i = j; w }
    pub fn kw(&mut self, k: &str) -> bool { if self.peek_word() == k { self.word(); true } else { false } }
    pub fn num(&mut self) -> u64 { let w = self.word(); w.parse().unwrap_or_else(|_| panic!("number, got {w:?}")) }
    /// A name after % or @, quoted or not.
    pub fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = unescape(&self.s[st..self.i]);
            self.i += 1;
            String::from_utf8_lossy(&r).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len() && isid(self.s[self.i]) { self.i += 1; }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    pub fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1 } }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn ty(&mut self) -> T {
        let t = self.ty0();
        t
    }
    fn ty0(&mut self) -> T {
        match self.peek() {
            b'{' => { self.i += 1; let fs = self.tylist(b'}'); Rc::new(Ty::Struct(fs, false)) }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') { let fs = self.tylist(b'}'); self.expect(b'>'); return Rc::new(Ty::Struct(fs, true)); }
                let n = self.num();
                assert!(self.kw("x"));
                let t = self.ty();
                self.expect(b'>');
                Rc::new(Ty::Vec(n, t))
            }
            b'[' => {
                self.i += 1;
                let n = self.num();
                assert!(self.kw("x"));
                let t = self.ty();
                self.expect(b']');
                Rc::new(Ty::Array(n, t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name();
                let (a, b) = *self.types.get(&n).unwrap_or_else(|| panic!("type %{n}"));
                let mut l = Lex { s: &self.all[a..b], i: 0, types: self.types, all: self.all };
                l.ty()
            }
            _ => {
                let w = self.word();
                thread_local! { static CACHE: Vec<T> = (0..=128u16).map(|w| Rc::new(Ty::Int(w))).collect(); static PTR: T = Rc::new(Ty::Ptr); }
                match w {
                    "void" => Rc::new(Ty::Void),
                    "ptr" => { if self.peek_word() == "addrspace" { self.word(); self.ws(); self.skip_parens(); } PTR.with(|p| p.clone()) }
                    "half" => Rc::new(Ty::Half),
                    "float" => Rc::new(Ty::Float),
                    "double" => Rc::new(Ty::Double),
                    "label" | "metadata" | "token" | "opaque" | "x86_fp80" | "fp128" | "bfloat" => Rc::new(Ty::Other),
                    _ if w.starts_with('i') => {
                        let n: u16 = w[1..].parse().unwrap_or_else(|_| panic!("type {w}"));
                        if n <= 128 { CACHE.with(|c| c[n as usize].clone()) } else { Rc::new(Ty::Int(n)) }
                    }
                    _ => panic!("type {w:?} at {}", String::from_utf8_lossy(&self.s[self.i.saturating_sub(60)..(self.i + 60).min(self.s.len())])),
                }
            }
        }
    }
    fn tylist(&mut self, end: u8) -> Vec<T> {
        let mut v = vec![];
        if self.eat(end) { return v; }
        loop {
            v.push(self.ty());
            if self.eat(end) { return v; }
            self.expect(b',');
        }
    }
    /// Skips attributes between a type and a value, or before a type; returns byval size if any.
    pub fn attrs(&mut self) -> u64 {
        let mut byval = 0;
        loop {
            let c = self.peek();
            if c == b'#' { self.i += 1; self.word(); continue; }
            if c == b'"' { // string attribute
                self.i += 1;
                while self.s[self.i] != b'"' { self.i += 1 }
                self.i += 1;
                if self.eat(b'=') { self.expect(b'"'); while self.s[self.i] != b'"' { self.i += 1 } self.i += 1; }
                continue;
            }
            let w = self.peek_word();
            match w {
                "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "writable" | "zeroext" | "signext" | "inreg"
                | "immarg" | "nocapture" | "returned" | "nest" | "dead_on_unwind" | "dead_on_return" | "noext" | "allocptr" | "allocalign" | "swiftself" | "noreturn" | "nounwind" | "cold" | "inlinehint" | "noinline"
                | "unnamed_addr" | "local_unnamed_addr" | "dso_local" | "dso_preemptable" | "hidden" | "protected" | "default" => { self.word(); if w == "dead_on_return" && self.s[self.i] == b'(' { self.skip_parens(); } }
                "align" | "alignstack" => { self.word(); if self.peek() == b'(' { self.skip_parens() } else { self.word(); } }
                "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "sret" | "initializes" | "nofpclass" | "inalloca" | "preallocated" | "elementtype" | "memory" | "allockind" | "allocsize" | "vscale_range" => {
                    self.word(); self.ws(); if self.i < self.s.len() && self.s[self.i] == b'(' { self.skip_parens(); }
                }
                "byval" => {
                    self.word(); self.expect(b'(');
                    let t = self.ty(); byval = t.size(); self.expect(b')');
                }
                _ => return byval,
            }
        }
    }
    pub fn cst(&mut self, ty: &T) -> Cst {
        match self.peek() {
            b'@' => { self.i += 1; Cst::Global(self.name()) }
            b'{' => { self.i += 1; Cst::Agg(self.cstlist(b'}')) }
            b'[' => { self.i += 1; Cst::Agg(self.cstlist(b']')) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let l = self.cstlist(b'}'); self.expect(b'>'); Cst::Agg(l) } else { Cst::Agg(self.cstlist(b'>')) }
            }
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let st = self.i;
                while self.s[self.i] != b'"' { self.i += 1; }
                let b = unescape(&self.s[st..self.i]);
                self.i += 1;
                Cst::Bytes(b)
            }
            _ => {
                self.ws();
                let st = self.i;
                // numbers may carry +, e.g. 1.0e+00
                let mut w = self.word();
                if matches!(**ty, Ty::Float | Ty::Double | Ty::Half) && self.i < self.s.len() && self.s[self.i] == b'+' {
                    self.i += 1;
                    self.word();
                    w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                }
                match w {
                    "true" => Cst::Int(1),
                    "false" => Cst::Int(0),
                    "null" => Cst::Null,
                    "undef" | "poison" => Cst::Undef,
                    "zeroinitializer" | "none" => Cst::Zero,
                    "splat" => { self.expect(b'('); let t = self.ty(); let c = self.cst(&t); self.expect(b')'); Cst::Splat(t, Box::new(c)) }
                    "getelementptr" => {
                        while matches!(self.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") { let w = self.word(); if w == "inrange" { self.ws(); self.skip_parens(); } }
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        let l = self.cstlist(b')');
                        Cst::Gep(t, l)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "ptrtoaddr" => {
                        let k = w.to_string();
                        while self.peek_word() == "nuw" || self.peek_word() == "nsw" { self.word(); }
                        self.expect(b'(');
                        let t = self.ty();
                        let c = self.cst(&t);
                        assert!(self.kw("to"));
                        let t2 = self.ty();
                        self.expect(b')');
                        Cst::Cast(k, t, Box::new(c), t2)
                    }
                    "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
                        let k = w.to_string();
                        while self.peek_word() == "nuw" || self.peek_word() == "nsw" { self.word(); }
                        self.expect(b'(');
                        let t = self.ty();
                        let a = self.cst(&t);
                        self.expect(b',');
                        let t2 = self.ty();
                        let b = self.cst(&t2);
                        self.expect(b')');
                        Cst::Bin(k, t, Box::new(a), Box::new(b))
                    }
                    "dso_local_equivalent" | "no_cfi" => { self.expect(b'@'); Cst::Global(self.name()) }
                    "" => panic!("constant at {}", String::from_utf8_lossy(&self.s[st..(st + 80).min(self.s.len())])),
                    _ => {
                        match **ty {
                            Ty::Float | Ty::Double | Ty::Half => Cst::Fp(parse_fp(w, ty)),
                            _ => {
                                let v: i128 = if let Some(h) = w.strip_prefix("u0x") { u128::from_str_radix(h, 16).unwrap() as i128 } else {
                                    w.parse::<i128>().or_else(|_| w.parse::<u128>().map(|x| x as i128)).unwrap_or_else(|_| panic!("constant {w:?} of {ty:?}")) };
                                let wd = ty.bits() as u16;
                                Cst::Int(v as u128 & crate::expr::mask(wd.max(1)))
                            }
                        }
                    }
                }
            }
        }
    }
    fn cstlist(&mut self, end: u8) -> Vec<(T, Cst)> {
        let mut v = vec![];
        if self.eat(end) { return v; }
        loop {
            let t = self.ty();
            if self.peek_word() == "inrange" { self.word(); }
            let c = self.cst(&t);
            v.push((t, c));
            if self.eat(end) { return v; }
            self.expect(b',');
        }
    }
}

fn parse_fp(w: &str, ty: &T) -> u64 {
    if let Some(h) = w.strip_prefix("0x") {
        let bits = if h.starts_with('H') { u64::from_str_radix(&h[1..], 16).unwrap() } else { u64::from_str_radix(h, 16).unwrap() };
        return match **ty { Ty::Float => (f64::from_bits(bits) as f32).to_bits() as u64, _ => bits };
    }
    if let Some(h) = w.strip_prefix("f0x") { return u64::from_str_radix(h, 16).unwrap(); }
    let special = match w { "inf" | "+inf" => Some(f64::INFINITY), "-inf" => Some(f64::NEG_INFINITY), "qnan" | "nan" | "+qnan" => Some(f64::NAN), _ => None };
    let d: f64 = special.unwrap_or_else(|| w.parse().unwrap_or_else(|_| panic!("fp {w}")));
    match **ty { Ty::Float => (d as f32).to_bits() as u64, _ => d.to_bits() }
}

pub fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            o.push(h(s[i + 1]) * 16 + h(s[i + 2]));
            i += 3;
        } else { o.push(s[i]); i += 1; }
    }
    o
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SymKind { Func, Global, Alias }

pub struct Module {
    pub path: String,
    pub text: &'static [u8],
    pub types: HashMap<String, (usize, usize)>,
    pub syms: HashMap<String, (SymKind, usize, usize, bool)>, // kind, start, end, local
}

pub fn mmap_file(path: &str) -> &'static [u8] {
    use std::os::fd::AsRawFd;
    let f = std::fs::File::open(path).unwrap_or_else(|e| { eprintln!("open {path}: {e}"); std::process::exit(3) });
    let n = f.metadata().unwrap().len() as usize;
    unsafe {
        let p = crate::sys::mmap(std::ptr::null_mut(), n.max(1), 1, 2, f.as_raw_fd(), 0);
        assert!(p as isize != -1, "mmap {path}");
        std::slice::from_raw_parts(p as *const u8, n)
    }
}

fn find_nl(s: &[u8], i: usize) -> usize {
    match s[i..].iter().position(|c| *c == b'\n') { Some(p) => i + p, None => s.len() }
}

/// One pass over the top-level lines of a module.
pub fn scan(text: &'static [u8]) -> (HashMap<String, (usize, usize)>, HashMap<String, (SymKind, usize, usize, bool)>) {
    let mut types = HashMap::new();
    let mut syms = HashMap::new();
    let mut i = 0;
    let n = text.len();
    while i < n {
        let e = find_nl(text, i);
        match text[i] {
            b'@' => {
                let mut l = Lex { s: &text[..e], i: i + 1, types: &types, all: text };
                let name = l.name();
                l.expect(b'=');
                let mut local = false;
                let mut ext = false;
                let mut kind = SymKind::Global;
                loop {
                    let w = l.word();
                    match w {
                        "private" | "internal" => local = true,
                        "external" | "extern_weak" => ext = true,
                        "alias" => { kind = SymKind::Alias; break }
                        "global" | "constant" => break,
                        "thread_local" => { if l.peek() == b'(' { l.skip_parens(); } }
                        "addrspace" => { l.ws(); l.skip_parens(); }
                        "" => break,
                        _ => {}
                    }
                }
                if !ext { syms.insert(name, (kind, l.i, e, local)); }
                i = e + 1;
            }
            b'%' => {
                let mut l = Lex { s: &text[..e], i: i + 1, types: &types, all: text };
                let name = l.name();
                l.expect(b'=');
                assert!(l.kw("type"));
                let st = l.i;
                types.insert(name, (st, e));
                i = e + 1;
            }
            b'd' if text[i..].starts_with(b"define") => {
                // name: first '@' outside of quotes/parens
                let line = &text[i..e];
                let mut j = 0;
                let mut d = 0i32;
                while j < line.len() {
                    match line[j] { b'(' => d += 1, b')' => d -= 1, b'"' => { j += 1; while line[j] != b'"' { j += 1 } } b'@' if d == 0 => break, _ => {} }
                    j += 1;
                }
                let mut l = Lex { s: text, i: i + j + 1, types: &types, all: text };
                let name = l.name();
                let head = &line[..j];
                let local = head.windows(9).any(|w| w == b" internal") || head.windows(8).any(|w| w == b" private");
                let avail = head.windows(21).any(|w| w == b" available_externally");
                // end: line that is "}"
                let mut k = e + 1;
                while !(text[k] == b'}' && (k + 1 >= n || text[k + 1] == b'\n')) { k = find_nl(text, k) + 1; }
                if !avail { syms.insert(name, (SymKind::Func, i, k, local)); }
                i = k + 2;
            }
            _ => i = e + 1,
        }
    }
    (types, syms)
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = mmap_file(path);
        let (types, syms) = scan(text);
        Module { path: path.to_string(), text, types, syms }
    }
    pub fn lex(&self, a: usize, b: usize) -> Lex<'_> { Lex { s: &self.text[..b], i: a, types: &self.types, all: self.text } }

    pub fn parse_func(&self, start: usize, end: usize) -> RawFunc {
        let mut l = self.lex(start, end);
        let mut regs: HashMap<String, u32> = HashMap::new();
        // header: seek '@'
        let mut d = 0i32;
        loop {
            match l.s[l.i] { b'(' => d += 1, b')' => d -= 1, b'"' => { l.i += 1; while l.s[l.i] != b'"' { l.i += 1 } } b'@' if d == 0 => break, _ => {} }
            l.i += 1;
        }
        l.i += 1;
        l.name();
        l.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !l.eat(b')') {
            loop {
                if l.peek() == b'.' { l.i += 3; l.expect(b')'); break; }
                let t = l.ty();
                let bv = l.attrs();
                let name = if l.eat(b'%') { let n = l.name(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } n } else { let n = unnamed.to_string(); unnamed += 1; n };
                let r = regs.len() as u32;
                regs.insert(name, r);
                params.push((r, t, bv));
                if l.eat(b')') { break; }
                l.expect(b',');
            }
        }
        // to the end of the header line
        while l.s[l.i] != b'\n' { l.i += 1; }
        // blocks
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut blocks: Vec<Block> = vec![];
        let lab = |labels: &mut HashMap<String, u32>, blocks: &mut Vec<Block>, n: String| -> u32 {
            *labels.entry(n).or_insert_with(|| { blocks.push(Block::default()); blocks.len() as u32 - 1 })
        };
        let mut cur: Option<u32> = None;
        let mut consts: Vec<(T, Cst)> = vec![];
        macro_rules! reg { ($n:expr) => {{ let n = $n; let k = regs.len() as u32; *regs.entry(n).or_insert(k) }} }
        macro_rules! opd { ($l:expr, $t:expr) => {{ if $l.peek() == b'%' { $l.i += 1; let n = $l.name(); Opd::R(reg!(n)) } else { let k = $l.cst($t); consts.push(($t.clone(), k)); Opd::C(consts.len() as u32 - 1) } }} }
        macro_rules! label { ($l:expr) => {{ assert!($l.kw("label")); $l.expect(b'%'); let n = $l.name(); lab(&mut labels, &mut blocks, n) }} }
        loop {
            l.ws();
            if l.i >= end || l.s[l.i] == b'}' { break; }
            // label?
            {
                let save = l.i;
                if l.s[l.i] == b'"' || isid(l.s[l.i]) {
                    let n = l.name();
                    if l.i < l.s.len() && l.s[l.i] == b':' {
                        l.i += 1;
                        let b = lab(&mut labels, &mut blocks, n);
                        cur = Some(b);
                        continue;
                    }
                }
                l.i = save;
            }
            if cur.is_none() { cur = Some(lab(&mut labels, &mut blocks, unnamed.to_string())); }
            let bi = cur.unwrap() as usize;
            let mut dst = NOREG;
            if l.peek() == b'%' { l.i += 1; let n = l.name(); dst = reg!(n); l.expect(b'='); }
            let line_start = l.i;
            let mut w = l.word();
            if matches!(w, "tail" | "musttail" | "notail") { w = l.word(); }
            let ins: Ins = match w {
                "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor"
                | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    let op: &'static str = Box::leak(w.to_string().into_boxed_str());
                    while matches!(l.peek_word(), "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { l.word(); }
                    let ty = l.ty();
                    let a = opd!(l, &ty);
                    l.expect(b',');
                    let b = opd!(l, &ty);
                    Ins::Bin { op, ty, a, b }
                }
                "fneg" => { let ty = l.ty(); let a = opd!(l, &ty); Ins::FNeg { ty, a } }
                "icmp" => {
                    while l.peek_word() == "samesign" { l.word(); }
                    let p: &'static str = Box::leak(l.word().to_string().into_boxed_str());
                    let ty = l.ty();
                    let a = opd!(l, &ty);
                    l.expect(b',');
                    let b = opd!(l, &ty);
                    Ins::ICmp { pred: p, ty, a, b }
                }
                "fcmp" => {
                    while matches!(l.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { l.word(); }
                    let p = l.word().to_string();
                    let ty = l.ty();
                    let a = opd!(l, &ty);
                    l.expect(b',');
                    let b = opd!(l, &ty);
                    Ins::FCmp { pred: p, ty, a, b }
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                    let op: &'static str = Box::leak(w.to_string().into_boxed_str());
                    while matches!(l.peek_word(), "nuw" | "nsw" | "nneg" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { l.word(); }
                    let from = l.ty();
                    let a = opd!(l, &from);
                    assert!(l.kw("to"));
                    let to = l.ty();
                    Ins::Cast { op, from, a, to }
                }
                "load" => {
                    while matches!(l.peek_word(), "atomic" | "volatile") { l.word(); }
                    let ty = l.ty();
                    l.expect(b',');
                    let pt = l.ty();
                    let p = opd!(l, &pt);
                    Ins::Load { ty, p }
                }
                "store" => {
                    while matches!(l.peek_word(), "atomic" | "volatile") { l.word(); }
                    let ty = l.ty();
                    let v = opd!(l, &ty);
                    l.expect(b',');
                    let pt = l.ty();
                    let p = opd!(l, &pt);
                    Ins::Store { ty, v, p }
                }
                "getelementptr" => {
                    while matches!(l.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") { l.word(); }
                    let ty = l.ty();
                    l.expect(b',');
                    let bty = l.ty();
                    let base = opd!(l, &bty);
                    let mut idx = vec![];
                    while l.peek() == b',' {
                        let save = l.i;
                        l.i += 1;
                        if l.peek() == b'!' { l.i = save; break; }
                        let t = l.ty();
                        let o = opd!(l, &t);
                        idx.push((t, o));
                    }
                    Ins::Gep { ty, base, bty, idx }
                }
                "alloca" => {
                    let ty = l.ty();
                    consts.push((Rc::new(Ty::Int(64)), Cst::Int(1)));
                    let mut n = Opd::C(consts.len() as u32 - 1);
                    let mut align = 16;
                    while l.peek() == b',' {
                        l.i += 1;
                        if l.peek() == b'!' { break; }
                        if l.kw("align") { align = l.num(); } else { let t = l.ty(); n = opd!(l, &t); }
                    }
                    Ins::Alloca { ty, n, align }
                }
                "call" | "invoke" => {
                    let inv = w == "invoke";
                    loop {
                        match l.peek_word() {
                            "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "preserve_nonecc" | "x86_64_sysvcc" | "tailcc" => { l.word(); }
                            "cc" => { l.word(); l.word(); }
                            _ => break,
                        }
                    }
                    l.attrs();
                    let ret = l.ty();
                    l.attrs();
                    if l.peek() == b'(' { l.skip_parens(); } // explicit function type
                    if l.peek_word() == "asm" {
                        l.word();
                        while matches!(l.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") { l.word(); }
                        l.expect(b'"');
                        let st = l.i;
                        while l.s[l.i] != b'"' { l.i += 1; }
                        let txt = String::from_utf8_lossy(&l.s[st..l.i]).into_owned();
                        let mut args = vec![];
                        if txt.starts_with("/*") && txt.ends_with("*/") && txt.matches("*/").count() == 1 {
                            // a comment only (an optimisation barrier): the tied operand is the result
                            l.i += 1;
                            l.expect(b',');
                            l.expect(b'"');
                            let st = l.i;
                            while l.s[l.i] != b'"' { l.i += 1; }
                            if l.s[st..l.i].starts_with(b"=&r,0,") {
                                l.i += 1;
                                l.expect(b'(');
                                let ty = l.ty();
                                l.attrs();
                                let v = opd!(l, &ty);
                                args.push(Arg { ty, v, byval: 0 });
                            }
                        }
                        Ins::Call { ret, callee: Opd::C(0), args, to: None, asm: Some(txt) }
                    } else {
                        let pt = Rc::new(Ty::Ptr);
                        let callee = opd!(l, &pt);
                        l.expect(b'(');
                        let mut args = vec![];
                        if !l.eat(b')') {
                            loop {
                                if l.peek_word() == "metadata" {
                                    // skip
                                    let mut d = 0;
                                    loop { match l.s[l.i] { b'(' | b'{' => d += 1, b')' | b'}' if d > 0 => d -= 1, b')' | b',' if d == 0 => break, _ => {} } l.i += 1; }
                                } else {
                                    let ty = l.ty();
                                    let byval = l.attrs();
                                    let v = opd!(l, &ty);
                                    args.push(Arg { ty, v, byval });
                                }
                                if l.eat(b')') { break; }
                                l.expect(b',');
                            }
                        }
                        let mut to = None;
                        if inv {
                            // attributes up to "to"
                            loop {
                                l.attrs();
                                if l.kw("to") { break; }
                                if l.peek() == b'[' { while l.s[l.i] != b']' { l.i += 1 } l.i += 1; } else if l.peek_word() != "" { l.word(); } else { l.i += 1; }
                            }
                            to = Some(label!(l));
                            assert!(l.kw("unwind"));
                            let _ = label!(l);
                        }
                        Ins::Call { ret, callee, args, to, asm: None }
                    }
                }
                "select" => {
                    while matches!(l.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { l.word(); }
                    let cty = l.ty();
                    let c = opd!(l, &cty);
                    l.expect(b',');
                    let ty = l.ty();
                    let a = opd!(l, &ty);
                    l.expect(b',');
                    let t2 = l.ty();
                    let b = opd!(l, &t2);
                    Ins::Select { cty, c, ty, a, b }
                }
                "phi" => {
                    while matches!(l.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { l.word(); }
                    let ty = l.ty();
                    let mut inc = vec![];
                    loop {
                        l.expect(b'[');
                        let v = opd!(l, &ty);
                        l.expect(b',');
                        l.expect(b'%');
                        let n = l.name();
                        let b = lab(&mut labels, &mut blocks, n);
                        l.expect(b']');
                        inc.push((b, v));
                        let save = l.i;
                        if !l.eat(b',') { break; }
                        if l.peek() != b'[' { l.i = save; break; }
                    }
                    blocks[bi].phis.push(Phi { dst, ty, inc });
                    while l.i > line_start && matches!(l.s[l.i - 1], b' ' | b'\n' | b'\t') { l.i -= 1; }
                    let e = find_nl(l.s, l.i);
                    l.i = e;
                    continue;
                }
                "extractvalue" => {
                    let ty = l.ty();
                    let a = opd!(l, &ty);
                    let mut idx = vec![];
                    while l.eat(b',') { if l.peek() == b'!' { break; } idx.push(l.num()); }
                    Ins::ExtractValue { ty, a, idx }
                }
                "insertvalue" => {
                    let ty = l.ty();
                    let a = opd!(l, &ty);
                    l.expect(b',');
                    let ety = l.ty();
                    let v = opd!(l, &ety);
                    let mut idx = vec![];
                    while l.eat(b',') { if l.peek() == b'!' { break; } idx.push(l.num()); }
                    Ins::InsertValue { ty, a, ety, v, idx }
                }
                "extractelement" => {
                    let ty = l.ty();
                    let a = opd!(l, &ty);
                    l.expect(b',');
                    let it = l.ty();
                    let i = opd!(l, &it);
                    Ins::ExtractElement { ty, a, i }
                }
                "insertelement" => {
                    let ty = l.ty();
                    let a = opd!(l, &ty);
                    l.expect(b',');
                    let et = l.ty();
                    let v = opd!(l, &et);
                    l.expect(b',');
                    let it = l.ty();
                    let i = opd!(l, &it);
                    Ins::InsertElement { ty, a, v, i }
                }
                "shufflevector" => {
                    let ty = l.ty();
                    let a = opd!(l, &ty);
                    l.expect(b',');
                    let t2 = l.ty();
                    let b = opd!(l, &t2);
                    l.expect(b',');
                    let mty = l.ty();
                    let mask = l.cst(&mty);
                    Ins::Shuffle { ty, a, b, mask, mty }
                }
                "atomicrmw" => {
                    if l.peek_word() == "volatile" { l.word(); }
                    let op = l.word().to_string();
                    let pt = l.ty();
                    let p = opd!(l, &pt);
                    l.expect(b',');
                    let ty = l.ty();
                    let v = opd!(l, &ty);
                    Ins::AtomicRmw { op, ty, p, v }
                }
                "cmpxchg" => {
                    while matches!(l.peek_word(), "weak" | "volatile") { l.word(); }
                    let pt = l.ty();
                    let p = opd!(l, &pt);
                    l.expect(b',');
                    let ty = l.ty();
                    let e = opd!(l, &ty);
                    l.expect(b',');
                    let t2 = l.ty();
                    let n = opd!(l, &t2);
                    Ins::CmpXchg { ty, p, e, n }
                }
                "freeze" => { let ty = l.ty(); let a = opd!(l, &ty); let _ = ty; Ins::Freeze { a } }
                "fence" => Ins::Fence,
                "br" => {
                    if l.peek_word() == "label" { let t = label!(l); Ins::Br { t } } else {
                        let ty = l.ty();
                        let c = opd!(l, &ty);
                        l.expect(b',');
                        let t = label!(l);
                        l.expect(b',');
                        let f = label!(l);
                        Ins::CondBr { c, t, f }
                    }
                }
                "switch" => {
                    let ty = l.ty();
                    let v = opd!(l, &ty);
                    l.expect(b',');
                    let d = label!(l);
                    l.expect(b'[');
                    let mut cases = vec![];
                    while !l.eat(b']') {
                        let t = l.ty();
                        let c = match l.cst(&t) { Cst::Int(v) => v, x => panic!("case {x:?}") };
                        l.expect(b',');
                        let b = label!(l);
                        cases.push((c, b));
                    }
                    Ins::Switch { ty, v, d, cases }
                }
                "ret" => { let ty = l.ty(); let v = if matches!(*ty, Ty::Void) { None } else { Some(opd!(l, &ty)) }; Ins::Ret { ty, v } }
                "unreachable" => Ins::Unreachable,
                "landingpad" => {
                    // skip clauses
                    let e = find_nl(l.s, l.i);
                    l.i = e;
                    loop {
                        let save = l.i;
                        let w = l.peek_word();
                        if matches!(w, "catch" | "cleanup" | "filter") { let e = find_nl(l.s, l.i); l.i = e; } else { l.i = save; break; }
                    }
                    blocks[bi].ins.push((dst, Ins::Bad("landingpad".into())));
                    continue;
                }
                _ => Ins::Bad(String::from_utf8_lossy(&l.s[line_start..find_nl(l.s, line_start)]).into_owned()),
            };
            // look-ahead may have skipped the line end
            while l.i > line_start && matches!(l.s[l.i - 1], b' ' | b'\n' | b'\t') { l.i -= 1; }
            let e = find_nl(l.s, l.i);
            l.i = e;
            blocks[bi].ins.push((dst, ins));
        }
        RawFunc { params, nregs: regs.len() as u32, blocks, consts }
    }
}
