//! The symbolic machine: memory, path condition, forking, instruction semantics.
use crate::expr::*;
use crate::ll::*;
use crate::sys;
use crate::z3::{Res, Z3};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val { C(u128), E(Ex), A(Rc<Vec<Val>>) }
use Val::*;

pub const DATA: u64 = 0x2000_0000_0000;
pub const DATA_SZ: u64 = 1 << 32;
pub const SHADOW: u64 = 0x3000_0000_0000;
pub const FN_BASE: u64 = 0x1000_0000_0000;
const GLOB: u64 = DATA + 0x1_0000;
const HEAP: u64 = DATA + 0x4000_0000;
const STACK: u64 = DATA + 0xC000_0000;

pub struct Func {
    pub name: String,
    pub f: RawFunc,
    pub consts: Vec<Val>,
}
pub type Hook = fn(&mut Engine, &HookArgs) -> Option<Val>;
pub struct HookArgs<'a> { pub v: &'a [Val], pub tys: &'a [Arg], pub ret: &'a T, pub name: &'a str }
pub struct FnInfo {
    pub name: String,
    pub at: Option<(usize, usize, usize)>,
    pub hook: Option<Hook>,
    pub body: Option<&'static Func>,
}

pub struct Frame { func: &'static Func, base: usize, bb: u32, pc: usize, prev: u32, dst: u32, to: Option<u32>, sp: u64 }

#[repr(C)]
#[derive(Default)]
pub struct Shared {
    pub active: AtomicI64,
    pub stop: AtomicI64,
    pub paths: AtomicU64,
    pub instrs: AtomicU64,
    pub forks: AtomicU64,
    pub q_sat: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_unknown: AtomicU64,
    pub q_dom: AtomicU64,
    pub solver_ns: AtomicU64,
    pub asserts_solver: AtomicU64,
    pub asserts_concrete: AtomicU64,
    pub violations: AtomicU64,
    pub errors: AtomicU64,
    pub pruned: AtomicU64,
    pub cut: AtomicU64,
    pub branches: AtomicU64,
}

pub struct Conf {
    pub jobs: i64,
    pub max_instr: u64,
    pub deadline: Instant,
    pub results: i32,
    pub funcs_log: i32,
    pub max_viol: u64,
    pub trace: bool,
    pub tier: u64,
    pub itrace: bool,
    pub forkprof: bool,
    pub max_paths: u64,
}

pub enum Input { Bytes(Vec<Val>) }

pub struct Engine {
    pub mods: Vec<Option<Module>>,
    pub mod_paths: Vec<String>,
    pub gsyms: HashMap<String, (usize, Option<(SymKind, usize, usize)>)>,
    pub fns: Vec<FnInfo>,
    pub fn_ids: HashMap<(usize, String), usize>,
    pub globs: HashMap<(usize, String), u64>,
    glob_init: Vec<(usize, usize, usize, u64)>,
    glob_next: u64,
    pub p: Pool,
    pub z3: Z3,
    pub model: Vec<u128>,
    dom: Vec<[u64; 4]>,
    entangled: Vec<bool>,
    pub pc: Vec<Ex>,
    synced: usize,
    pageflag: Vec<u8>,
    pub heap_next: u64,
    pub sizes: HashMap<u64, u64>,
    sp: u64,
    frames: Vec<Frame>,
    regs: Vec<Val>,
    pub sh: &'static Shared,
    pub conf: Conf,
    pub instrs: u64,
    flushed: u64,
    pub inputs: Vec<Vec<Val>>,
    pub covers: Vec<String>,
    pub observed: Vec<(String, Vec<Val>)>,
    pub dry: bool,
    kids: u32,
    pub sequential: bool,
    pub notes: Vec<String>,
    pub depth: u32,
    pub errno: u64,
    pub rng: u64,
    pub sha_apps: Vec<(Vec<Val>, Vec<Val>)>,
    /// Equalities over symbolic bytes that were simplified away on this path; the solver confirms them at its end.
    pub folded: Vec<(Ex, Ex)>,
    pub hash_apps: usize,
    nfuncs_logged: usize,
    query_cache: HashMap<Vec<Ex>, bool>,
}

pub enum Stop { Path }

impl Engine {
    pub fn new(sh: &'static Shared, conf: Conf) -> Engine {
        unsafe {
            let f = 0x22 | 0x4000 | 0x100000; // PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
            let a = sys::mmap(DATA as *mut _, DATA_SZ as usize, 3, f, -1, 0);
            let b = sys::mmap(SHADOW as *mut _, (DATA_SZ * 4) as usize, 3, f, -1, 0);
            if a as u64 != DATA || b as u64 != SHADOW { eprintln!("cannot map memory"); std::process::exit(3); }
        }
        Engine {
            mods: vec![], mod_paths: vec![], gsyms: HashMap::new(), fns: vec![], fn_ids: HashMap::new(), globs: HashMap::new(), glob_init: vec![], glob_next: GLOB,
            p: Pool::new(), z3: Z3::new(), model: vec![], dom: vec![], entangled: vec![], pc: vec![], synced: 0,
            pageflag: vec![0; (DATA_SZ >> 12) as usize], heap_next: HEAP, sizes: HashMap::new(), sp: STACK, frames: vec![], regs: vec![],
            sh, conf, instrs: 0, flushed: 0, inputs: vec![], covers: vec![], observed: vec![], dry: false, kids: 0, sequential: false, notes: vec![], depth: 0, errno: 0, rng: 0x9E3779B97F4A7C15, sha_apps: vec![], folded: vec![], hash_apps: 0, nfuncs_logged: 0, query_cache: HashMap::new(),
        }
    }
    /// Forget the path (after a dry run), keep what was parsed.
    pub fn reset(&mut self) {
        unsafe {
            sys::madvise(DATA as *mut _, DATA_SZ as usize, 4);
            sys::madvise(SHADOW as *mut _, (DATA_SZ * 4) as usize, 4);
        }
        self.pageflag.iter_mut().for_each(|x| *x = 0);
        self.heap_next = HEAP;
        self.sizes.clear();
        self.sp = STACK;
        self.frames.clear();
        self.regs.clear();
        self.p = Pool::new();
        self.z3 = Z3::new();
        self.model.clear();
        self.dom.clear();
        self.entangled.clear();
        self.pc.clear();
        self.synced = 0;
        self.instrs = 0;
        self.flushed = 0;
        self.inputs.clear();
        self.covers.clear();
        self.observed.clear();
        self.notes.clear();
        self.sha_apps.clear();
        self.folded.clear();
        self.hash_apps = 0;
        self.query_cache.clear();
        self.rng = 0x9E3779B97F4A7C15;
        let l = std::mem::take(&mut self.glob_init);
        for (m, a, b, addr) in &l { self.init_global(*m, *a, *b, *addr); }
        self.glob_init = l;
    }

    // ---------------------------------------------------------------- symbols
    pub fn add_module_eager(&mut self, path: &str) {
        let id = self.mods.len();
        let m = Module::load(path);
        for (n, (k, a, b, local)) in &m.syms {
            if !local { self.gsyms.insert(n.clone(), (id, Some((*k, *a, *b)))); }
        }
        self.mod_paths.push(path.to_string());
        self.mods.push(Some(m));
    }
    pub fn add_index(&mut self, path: &str) {
        let t = std::fs::read(path).unwrap_or_else(|e| { eprintln!("{path}: {e}"); std::process::exit(3) });
        let mut cur = 0;
        for line in t.split(|c| *c == b'\n') {
            if line.is_empty() { continue; }
            let s = unsafe { std::str::from_utf8_unchecked(line) };
            if let Some(f) = s.strip_prefix("#M ") {
                cur = self.mods.len();
                self.mods.push(None);
                self.mod_paths.push(f.to_string());
            } else {
                self.gsyms.entry(s.to_string()).or_insert((cur, None));
            }
        }
    }
    fn ensure_mod(&mut self, id: usize) {
        if self.mods[id].is_none() { self.mods[id] = Some(Module::load(&self.mod_paths[id].clone())); }
    }
    /// (module, kind, start, end) of a symbol seen from module `m`.
    fn resolve(&mut self, m: usize, name: &str) -> Option<(usize, SymKind, usize, usize, bool)> {
        if let Some(md) = &self.mods[m] {
            if let Some((k, a, b, local)) = md.syms.get(name) { if *local { return Some((m, *k, *a, *b, true)); } }
        }
        let (id, _) = *self.gsyms.get(name)?;
        self.ensure_mod(id);
        let (k, a, b, _) = *self.mods[id].as_ref().unwrap().syms.get(name)?;
        Some((id, k, a, b, false))
    }
    /// Address of a function or global.
    pub fn sym_addr(&mut self, m: usize, name: &str) -> u64 {
        if name.starts_with("llvm.") { return self.fn_addr(usize::MAX, name, None); }
        match self.resolve(m, name) {
            Some((id, SymKind::Func, a, b, local)) => self.fn_addr(if local { id } else { usize::MAX }, name, Some((id, a, b))),
            Some((id, SymKind::Alias, a, b, _)) => {
                // ..., ptr @target
                let md = self.mods[id].as_ref().unwrap();
                let s = &md.text[a..b];
                let pos = s.iter().rposition(|c| *c == b'@').unwrap();
                let mut l = md.lex(a + pos + 1, b);
                let t = l.name();
                self.sym_addr(id, &t)
            }
            Some((id, SymKind::Global, a, b, local)) => {
                let key = (if local { id } else { usize::MAX }, name.to_string());
                if let Some(x) = self.globs.get(&key) { return *x; }
                let md = self.mods[id].as_ref().unwrap();
                let mut l = md.lex(a, b);
                let ty = l.ty();
                let sz = ty.size();
                // explicit alignment at the end of the line
                let line = String::from_utf8_lossy(&md.text[a..b]).into_owned();
                let al = line.rfind(", align ").and_then(|p| line[p + 8..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<u64>().ok()).unwrap_or(16).max(1);
                let addr = (self.glob_next + al - 1) / al * al;
                self.glob_next = addr + sz.max(1) + 16;
                if self.glob_next >= HEAP { self.error("globals region exhausted".into()); }
                self.globs.insert(key, addr);
                self.glob_init.push((id, a, b, addr));
                self.init_global(id, a, b, addr);
                addr
            }
            None => self.fn_addr(usize::MAX, name, None), // external: a hook, or an error when called
        }
    }
    fn init_global(&mut self, id: usize, a: usize, b: usize, addr: u64) {
        let (ty, c) = {
            let md = self.mods[id].as_ref().unwrap();
            let mut l = md.lex(a, b);
            let ty = l.ty();
            let c = l.cst(&ty);
            (ty, c)
        };
        self.init_mem(id, &ty, &c, addr);
    }
    fn init_mem(&mut self, m: usize, ty: &T, c: &Cst, addr: u64) {
        match c {
            Cst::Zero | Cst::Undef | Cst::Null => {}
            Cst::Bytes(b) => unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), addr as *mut u8, b.len()) },
            Cst::Agg(l) => for (i, (t, x)) in l.iter().enumerate() { let (o, _) = ty.field_off(i as u64); self.init_mem(m, t, x, addr + o) },
            _ => { let v = self.cst_val(m, ty, c); self.store(ty, &v, addr) }
        }
    }
    pub fn fn_addr(&mut self, scope: usize, name: &str, at: Option<(usize, usize, usize)>) -> u64 {
        let key = (scope, name.to_string());
        if let Some(i) = self.fn_ids.get(&key) { return FN_BASE + *i as u64 * 16; }
        let i = self.fns.len();
        let hook = crate::hooks::find(name);
        self.fns.push(FnInfo { name: name.to_string(), at, hook, body: None });
        self.fn_ids.insert(key, i);
        FN_BASE + i as u64 * 16
    }
    pub fn zero(ty: &T) -> Val {
        match &**ty {
            Ty::Struct(fs, _) => A(Rc::new(fs.iter().map(Self::zero).collect())),
            Ty::Array(n, t) | Ty::Vec(n, t) => A(Rc::new((0..*n).map(|_| Self::zero(t)).collect())),
            _ => C(0),
        }
    }
    fn cst_val(&mut self, m: usize, ty: &T, c: &Cst) -> Val {
        match c {
            Cst::Int(v) => C(*v),
            Cst::Fp(v) => C(*v as u128),
            Cst::Null => C(0),
            Cst::Undef | Cst::Zero => Self::zero(ty),
            Cst::Bytes(b) => A(Rc::new(b.iter().map(|x| C(*x as u128)).collect())),
            Cst::Agg(l) => A(Rc::new(l.iter().map(|(t, x)| self.cst_val(m, t, x)).collect())),
            Cst::Splat(t, x) => {
                let v = self.cst_val(m, t, x);
                let n = match &**ty { Ty::Vec(n, _) => *n, _ => panic!("splat") };
                A(Rc::new((0..n).map(|_| v.clone()).collect()))
            }
            Cst::Global(n) => C(self.sym_addr(m, n) as u128),
            Cst::Gep(t, l) => {
                let mut a = match self.cst_val(m, &l[0].0, &l[0].1) { C(x) => x as u64, _ => panic!() };
                let mut cur = t.clone();
                for (i, (it, ix)) in l[1..].iter().enumerate() {
                    let k = match self.cst_val(m, it, ix) { C(x) => sx(x, it.bits() as u16) as i64, _ => panic!() };
                    if i == 0 { a = a.wrapping_add((k as u64).wrapping_mul(cur.size())); } else { let (o, t2) = cur.field_off(k as u64); a = a.wrapping_add(o); cur = t2; }
                }
                C(a as u128)
            }
            Cst::Cast(_, t, x, t2) => {
                let v = self.cst_val(m, t, x);
                match v { C(x) => C(x & mask(t2.bits().clamp(1, 128) as u16)), o => o }
            }
            Cst::Bin(op, t, a, b) => {
                let (x, y) = (self.cst_val(m, t, a), self.cst_val(m, t, b));
                let o = match op.as_str() { "add" => Op::Add, "sub" => Op::Sub, "xor" => Op::Xor, "mul" => Op::Mul, "and" => Op::And, "or" => Op::Or, "shl" => Op::Shl, _ => Op::LShr };
                match (x, y) { (C(x), C(y)) => C(fold(o, t.bits() as u16, x, y)), _ => panic!() }
            }
        }
    }
    fn body(&mut self, i: usize) -> Option<&'static Func> {
        if let Some(b) = self.fns[i].body { return Some(b); }
        let (m, a, b) = self.fns[i].at?;
        let raw = self.mods[m].as_ref().unwrap().parse_func(a, b);
        let cs: Vec<(T, Cst)> = raw.consts.clone();
        let mut consts = Vec::with_capacity(cs.len());
        for (t, c) in &cs { consts.push(self.cst_val(m, t, c)); }
        let f: &'static Func = Box::leak(Box::new(Func { name: self.fns[i].name.clone(), f: raw, consts }));
        self.fns[i].body = Some(f);
        let line = format!("{}\n", f.name);
        self.nfuncs_logged += 1;
        unsafe { sys::write(self.conf.funcs_log, line.as_ptr() as *const _, line.len()); }
        Some(f)
    }

    // ---------------------------------------------------------------- memory
    #[inline]
    fn chk(&mut self, a: u64, n: u64) {
        if a < DATA + 4096 || a.wrapping_add(n) > DATA + DATA_SZ || a.wrapping_add(n) < a {
            self.violation(format!("memory access outside of any object: address {a:#x} size {n}"));
        }
    }
    #[inline]
    fn flagged(&self, a: u64, n: u64) -> bool {
        if n == 0 { return false; }
        let (x, y) = ((a - DATA) >> 12, (a + n - 1 - DATA) >> 12);
        for i in x..=y { if self.pageflag[i as usize] != 0 { return true; } }
        false
    }
    #[inline]
    fn sh(a: u64) -> *mut u32 { (SHADOW + (a - DATA) * 4) as *mut u32 }
    pub fn byte(&self, a: u64) -> Val {
        unsafe {
            if self.flagged(a, 1) { let s = *Self::sh(a); if s != 0 { return E(s - 1); } }
            C(*(a as *const u8) as u128)
        }
    }
    pub fn set_byte(&mut self, a: u64, v: &Val) {
        unsafe {
            match v {
                C(x) => { *(a as *mut u8) = *x as u8; if self.flagged(a, 1) { *Self::sh(a) = 0; } }
                E(e) => {
                    if let Some(c) = self.p.as_const(*e) { return self.set_byte(a, &C(c)); }
                    self.pageflag[((a - DATA) >> 12) as usize] = 1;
                    *Self::sh(a) = *e + 1;
                    *(a as *mut u8) = 0xAA;
                }
                A(_) => unreachable!(),
            }
        }
    }
    pub fn bytes(&mut self, a: u64, n: u64) -> Vec<Val> { if n > 0 { self.chk(a, n); } (0..n).map(|i| self.byte(a + i)).collect() }
    fn load_bits(&mut self, a: u64, bits: u16) -> Val {
        let n = (bits as u64 + 7) / 8;
        self.chk(a, n);
        unsafe {
            if self.flagged(a, n) {
                let mut any = false;
                for i in 0..n { if *Self::sh(a + i) != 0 { any = true; break; } }
                if any {
                    let mut acc: Option<Ex> = None;
                    for i in (0..n).rev() {
                        let s = *Self::sh(a + i);
                        let e = if s != 0 { s - 1 } else { self.p.c(8, *((a + i) as *const u8) as u128) };
                        // most significant first
                        acc = Some(match acc { None => e, Some(h) => { self.concat_lo(h, e) } });
                    }
                    let mut e = acc.unwrap();
                    if bits % 8 != 0 { e = self.p.extract(e, 0, bits); }
                    return self.ev(e);
                }
            }
            let v = match n {
                1 => *(a as *const u8) as u128,
                2 => (a as *const u16).read_unaligned() as u128,
                4 => (a as *const u32).read_unaligned() as u128,
                8 => (a as *const u64).read_unaligned() as u128,
                16 => (a as *const u128).read_unaligned(),
                _ => { let mut v = 0u128; for i in (0..n).rev() { v = v << 8 | *((a + i) as *const u8) as u128; } v }
            };
            C(v & mask(bits))
        }
    }
    fn concat_lo(&mut self, h: Ex, l: Ex) -> Ex { self.p.concat(h, l) }
    fn store_bits(&mut self, a: u64, bits: u16, v: &Val) {
        let n = (bits as u64 + 7) / 8;
        self.chk(a, n);
        match v {
            C(x) => unsafe {
                match n {
                    1 => *(a as *mut u8) = *x as u8,
                    2 => (a as *mut u16).write_unaligned(*x as u16),
                    4 => (a as *mut u32).write_unaligned(*x as u32),
                    8 => (a as *mut u64).write_unaligned(*x as u64),
                    _ => for i in 0..n { *((a + i) as *mut u8) = (*x >> (8 * i)) as u8 },
                }
                if self.flagged(a, n) { for i in 0..n { *Self::sh(a + i) = 0; } }
            },
            E(e) => {
                let mut e = *e;
                let w = self.p.w(e);
                if (w as u64) < n * 8 { e = self.p.zext(e, (n * 8) as u16); }
                for i in 0..n {
                    let b = self.p.extract(e, (i * 8) as u16, 8);
                    self.set_byte(a + i, &E(b));
                }
            }
            A(_) => panic!("store_bits aggregate"),
        }
    }
    pub fn load(&mut self, ty: &T, a: u64) -> Val {
        match &**ty {
            Ty::Int(w) => self.load_bits(a, *w),
            Ty::Ptr | Ty::Double => self.load_bits(a, 64),
            Ty::Float => self.load_bits(a, 32),
            Ty::Half => self.load_bits(a, 16),
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let tot = (n * t.bits()) as u16;
                let v = self.load_bits(a, tot);
                A(Rc::new((0..*n).map(|i| self.extract(&v, tot, (i * t.bits()) as u16, t.bits() as u16)).collect()))
            }
            Ty::Array(n, t) | Ty::Vec(n, t) => A(Rc::new((0..*n).map(|i| self.load(t, a + i * t.size())).collect())),
            Ty::Struct(fs, _) => A(Rc::new((0..fs.len()).map(|i| { let (o, t) = ty.field_off(i as u64); self.load(&t, a + o) }).collect())),
            Ty::Void | Ty::Other => C(0),
        }
    }
    pub fn store(&mut self, ty: &T, v: &Val, a: u64) {
        match &**ty {
            Ty::Int(w) => self.store_bits(a, *w, v),
            Ty::Ptr | Ty::Double => self.store_bits(a, 64, v),
            Ty::Float => self.store_bits(a, 32, v),
            Ty::Half => self.store_bits(a, 16, v),
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let l = match v { A(l) => l.clone(), _ => panic!() };
                let tot = (n * t.bits()) as u16;
                let mut acc = l[0].clone();
                for i in 1..*n as usize { acc = self.concat(&l[i], t.bits() as u16, &acc, (i as u64 * t.bits()) as u16); }
                self.store_bits(a, tot, &acc)
            }
            Ty::Array(_, t) | Ty::Vec(_, t) => { let l = match v { A(l) => l.clone(), _ => panic!("store {v:?}") }; let s = t.size(); for (i, x) in l.iter().enumerate() { self.store(t, x, a + i as u64 * s) } }
            Ty::Struct(..) => { let l = match v { A(l) => l.clone(), _ => panic!() }; for (i, x) in l.iter().enumerate() { let (o, t) = ty.field_off(i as u64); self.store(&t, x, a + o) } }
            Ty::Void | Ty::Other => {}
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s { return; }
        self.chk(d, n);
        self.chk(s, n);
        unsafe {
            let fs = self.flagged(s, n);
            let fd = self.flagged(d, n);
            std::ptr::copy(s as *const u8, d as *mut u8, n as usize);
            if fs {
                std::ptr::copy(Self::sh(s), Self::sh(d), n as usize);
                for i in (d - DATA) >> 12..=(d + n - 1 - DATA) >> 12 { self.pageflag[i as usize] = 1; }
            } else if fd {
                std::ptr::write_bytes(Self::sh(d), 0, n as usize);
            }
        }
    }
    pub fn fill(&mut self, d: u64, v: &Val, n: u64) {
        if n == 0 { return; }
        self.chk(d, n);
        match v {
            C(x) => unsafe {
                std::ptr::write_bytes(d as *mut u8, *x as u8, n as usize);
                if self.flagged(d, n) { std::ptr::write_bytes(Self::sh(d), 0, n as usize); }
            },
            _ => for i in 0..n { self.set_byte(d + i, v) },
        }
    }
    pub fn alloc(&mut self, n: u64, al: u64) -> u64 {
        let al = al.max(16);
        let a = (self.heap_next + al - 1) / al * al;
        self.heap_next = a + n.max(1);
        if self.heap_next >= STACK { self.error("heap exhausted".into()); }
        self.sizes.insert(a, n);
        a
    }
    fn salloc(&mut self, n: u64, al: u64) -> u64 {
        let al = al.max(16);
        let a = (self.sp + al - 1) / al * al;
        self.sp = a + n.max(1);
        if self.sp >= DATA + DATA_SZ - 4096 { self.error("stack exhausted".into()); }
        a
    }
    pub fn cstr(&mut self, a: u64, n: u64) -> String {
        let b = self.bytes(a, n);
        let mut memo = HashMap::new();
        let v: Vec<u8> = b.iter().map(|x| match x { C(c) => *c as u8, E(e) => self.p.eval(*e, &self.model, &mut memo) as u8, _ => 0 }).collect();
        String::from_utf8_lossy(&v).into_owned()
    }

    // ---------------------------------------------------------------- values
    #[inline]
    pub fn ev(&self, e: Ex) -> Val { match self.p.as_const(e) { _ if e == SIP => E(SIP), Some(c) => C(c), None => E(e) } }
    pub fn ex(&mut self, v: &Val, w: u16) -> Ex { match v { C(c) => self.p.c(w, *c), E(e) => { debug_assert_eq!(self.p.w(*e), w); *e }, A(_) => panic!("aggregate as scalar") } }
    pub fn bin(&mut self, op: Op, w: u16, a: &Val, b: &Val) -> Val {
        if let (C(x), C(y)) = (a, b) { return C(fold(op, w, *x, *y)); }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.p.bin(op, x, y);
        self.ev(r)
    }
    pub fn ite(&mut self, w: u16, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            C(x) => if *x == 1 { a.clone() } else { b.clone() },
            E(c) => { let (x, y) = (self.ex(a, w), self.ex(b, w)); let r = self.p.ite(*c, x, y); self.ev(r) }
            _ => panic!(),
        }
    }
    pub fn extract(&mut self, v: &Val, w: u16, lo: u16, len: u16) -> Val {
        match v { C(x) => C((x >> lo) & mask(len)), _ => { let e = self.ex(v, w); let r = self.p.extract(e, lo, len); self.ev(r) } }
    }
    pub fn concat(&mut self, h: &Val, wh: u16, l: &Val, wl: u16) -> Val {
        match (h, l) { (C(x), C(y)) => C(x << wl | y), _ => { let (a, b) = (self.ex(h, wh), self.ex(l, wl)); let r = self.p.concat(a, b); self.ev(r) } }
    }
    pub fn zext(&mut self, v: &Val, w: u16, to: u16) -> Val {
        match v { C(x) => C(*x), _ => { let e = self.ex(v, w); let r = self.p.zext(e, to); self.ev(r) } }
    }
    pub fn sext(&mut self, v: &Val, w: u16, to: u16) -> Val {
        match v { C(x) => C(sx(*x, w) as u128 & mask(to)), _ => { let e = self.ex(v, w); let r = self.p.sext(e, to); self.ev(r) } }
    }
    pub fn not1(&mut self, v: &Val) -> Val { self.bin(Op::Xor, 1, v, &C(1)) }

    // ---------------------------------------------------------------- path condition
    pub fn new_var(&mut self, w: u16, dom0: Vec<bool>) -> Ex {
        let mut d = [0u64; 4];
        let mut first = None;
        if dom0.is_empty() { d = [u64::MAX; 4]; first = Some(0); } else {
            for (i, b) in dom0.iter().enumerate() { if *b { d[i / 64] |= 1 << (i % 64); if first.is_none() { first = Some(i as u128); } } }
        }
        let e = self.p.var(w, dom0);
        self.model.push(first.expect("empty domain"));
        self.dom.push(d);
        self.entangled.push(false);
        e
    }
    fn unary(&self, e: Ex) -> Option<(u32, [u64; 4])> {
        let (x, t) = self.p.as_lut(e)?;
        if let K::Var(v) = self.p.nodes[x as usize].k {
            let n = 1usize << self.p.w(x);
            let mut m = [0u64; 4];
            for i in 0..n { let b = match &t { None => i as u64, Some(t) => t[i] }; if b == 1 { m[i / 64] |= 1 << (i % 64); } }
            return Some((v, m));
        }
        None
    }
    pub fn add(&mut self, e: Ex) {
        if let Some(c) = self.p.as_const(e) { if c == 0 { self.error("adding a false constraint".into()); } return; }
        if let K::Bin(Op::And, a, b) = self.p.nodes[e as usize].k { if self.p.w(a) == 1 { self.add(a); self.add(b); return; } }
        if let Some((v, m)) = self.unary(e) {
            for i in 0..4 { self.dom[v as usize][i] &= m[i]; }
        } else {
            let mut s = vec![];
            self.p.support(e, &mut Default::default(), &mut s);
            for v in s { self.entangled[v as usize] = true; }
        }
        self.pc.push(e);
    }
    fn sync(&mut self) {
        while self.synced < self.pc.len() { let e = self.pc[self.synced]; self.z3.assert(&self.p, e); self.synced += 1; }
    }
    pub fn solve(&mut self, e: Ex, model: &mut Vec<u128>) -> Res {
        self.sync();
        let t = Instant::now();
        let r = self.z3.check(&self.p, &[e], Some(model));
        self.sh.solver_ns.fetch_add(t.elapsed().as_nanos() as u64, SeqCst);
        match r { Res::Sat => &self.sh.q_sat, Res::Unsat => &self.sh.q_unsat, Res::Unknown => &self.sh.q_unknown }.fetch_add(1, SeqCst);
        if self.conf.trace { eprintln!("[{}] query {:?} {:?}us {} in {}", unsafe { sys::getpid() }, r, t.elapsed().as_micros(), self.p.show(e, 6), self.frames.last().map_or("", |f| &f.func.name)); }
        r
    }
    /// A model of the path condition and `e`, if there is one.
    pub fn feasible(&mut self, e: Ex) -> Option<Vec<u128>> {
        if let Some(c) = self.p.as_const(e) { return if c == 1 { Some(self.model.clone()) } else { None }; }
        if let Some((v, m)) = self.unary(e) {
            let mut any = None;
            for i in 0..4 { let b = self.dom[v as usize][i] & m[i]; if b != 0 { any = Some(i as u32 * 64 + b.trailing_zeros()); break; } }
            match any {
                None => { self.sh.q_dom.fetch_add(1, SeqCst); return None; }
                Some(x) => if !self.entangled[v as usize] {
                    self.sh.q_dom.fetch_add(1, SeqCst);
                    let mut md = self.model.clone();
                    md[v as usize] = x as u128;
                    return Some(md);
                },
            }
        }
        if self.forced(e, false, &mut HashMap::new()) { self.sh.q_dom.fetch_add(1, SeqCst); return None; }
        let mut md = vec![];
        match self.solve(e, &mut md) {
            Res::Sat => Some(md),
            Res::Unsat => None,
            Res::Unknown => { self.error("solver gave up on a query".into()); None }
        }
    }
    /// Whether the domains of the single variables alone force `e` to be `val` (sound, incomplete).
    fn forced(&self, e: Ex, val: bool, memo: &mut HashMap<(Ex, bool), bool>) -> bool {
        if let Some(c) = self.p.as_const(e) { return (c == 1) == val; }
        if let Some(&r) = memo.get(&(e, val)) { return r; }
        let r = match self.p.nodes[e as usize].k {
            K::Bin(Op::And, a, b) => if val { self.forced(a, true, memo) && self.forced(b, true, memo) } else { self.forced(a, false, memo) || self.forced(b, false, memo) },
            K::Bin(Op::Or, a, b) => if val { self.forced(a, true, memo) || self.forced(b, true, memo) } else { self.forced(a, false, memo) && self.forced(b, false, memo) },
            K::Bin(Op::Xor, a, b) if self.p.as_const(b) == Some(1) => self.forced(a, !val, memo),
            _ => match self.unary(e) {
                Some((v, m)) => (0..4).all(|i| self.dom[v as usize][i] & if val { !m[i] } else { m[i] } == 0),
                None => false,
            },
        };
        memo.insert((e, val), r);
        r
    }
    pub fn eval(&self, e: Ex) -> u128 { self.p.eval(e, &self.model, &mut HashMap::new()) }
    /// Decides a symbolic branch, forking when both sides are feasible.
    pub fn decide(&mut self, c: Ex) -> bool {
        if let Some(v) = self.p.as_const(c) { return v == 1; }
        self.sh.branches.fetch_add(1, SeqCst);
        let d = self.eval(c) == 1;
        let nc = self.p.not(c);
        let (this, other) = if d { (c, nc) } else { (nc, c) };
        if self.dry { self.add(this); return d; }
        match self.feasible(other) {
            None => d,
            Some(m2) => {
                if self.fork() {
                    self.model = m2;
                    self.add(other);
                    !d
                } else {
                    self.add(this);
                    d
                }
            }
        }
    }
    /// A concrete value for `v` on this path (forks over the others).
    pub fn concretize(&mut self, v: &Val, w: u16) -> u128 {
        match v {
            C(x) => *x,
            E(e) => loop {
                let e = *e;
                if let Some(c) = self.p.as_const(e) { return c; }
                let x = self.eval(e);
                let k = self.p.c(w, x);
                let eq = self.p.bin(Op::Eq, e, k);
                if self.decide(eq) { return x; }
            },
            A(_) => panic!("concretize aggregate"),
        }
    }

    // ---------------------------------------------------------------- processes
    fn flush(&mut self) {
        self.sh.instrs.fetch_add(self.instrs - self.flushed, SeqCst);
        self.flushed = self.instrs;
    }
    /// True in the child.
    fn fork(&mut self) -> bool {
        self.flush();
        if self.sh.stop.load(SeqCst) != 0 { self.sh.cut.fetch_add(1, SeqCst); self.exit_path(); }
        self.sh.forks.fetch_add(1, SeqCst);
        if self.conf.forkprof { eprintln!("FORK {}", self.frames.iter().rev().take(6).map(|f| f.func.name.clone()).collect::<Vec<_>>().join(" < ")); }
        // reserve a slot
        let mut par = false;
        loop {
            let a = self.sh.active.load(SeqCst);
            if a >= self.conf.jobs { break; }
            if self.sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_ok() { par = true; break; }
        }
        unsafe {
            let mut pid = sys::fork();
            let mut tries = 0;
            while pid < 0 && tries < 50 { sys::usleep(20_000); pid = sys::fork(); tries += 1; }
            if pid < 0 { if par { self.sh.active.fetch_sub(1, SeqCst); } self.error("fork failed".into()); }
            if pid == 0 {
                self.kids = 0;
                self.flushed = self.instrs;
                self.depth += 1;
                self.sequential = !par;
                return true;
            }
            if par { self.kids += 1; } else {
                // the child runs in our slot; if a slot becomes free meanwhile the child uses it to fork
                let mut st = 0;
                sys::waitpid(pid, &mut st, 0);
                if st != 0 { self.crash(st); }
            }
        }
        false
    }
    fn crash(&mut self, st: i32) {
        self.sh.errors.fetch_add(1, SeqCst);
        self.sh.stop.store(1, SeqCst);
        let l = format!("{{\"st\":\"err\",\"msg\":\"a worker process ended with status {st}\"}}\n");
        unsafe { sys::write(self.conf.results, l.as_ptr() as *const _, l.len()); }
    }
    pub fn exit_path(&mut self) -> ! {
        self.flush();
        unsafe {
            self.sh.active.fetch_sub(1, SeqCst);
            while self.kids > 0 {
                let mut st = 0;
                sys::waitpid(-1, &mut st, 0);
                if st != 0 { self.crash(st); }
                self.kids -= 1;
            }
            // a sequential child hands its slot back to the waiting parent
            if self.sequential { self.sh.active.fetch_add(1, SeqCst); }
            sys::_exit(0)
        }
    }
    pub fn record(&mut self, st: &str, msg: &str) {
        let mut memo = HashMap::new();
        let mut inp = String::new();
        for b in self.inputs.iter().flatten() {
            let x = match b { C(c) => *c, E(e) => self.p.eval(*e, &self.model, &mut memo), _ => 0 };
            inp.push_str(&format!("{x:02x}"));
        }
        let mut h = 0xcbf29ce484222325u64;
        let mut obs_txt = String::new();
        for (n, v) in &self.observed {
            obs_txt.push_str(&format!("{}=", n.replace(['"', '\\'], "?")));
            for b in n.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
            for b in v {
                let x = match b { C(c) => *c as u8, E(e) => self.p.eval(*e, &self.model, &mut memo) as u8, _ => 0 };
                h = (h ^ x as u64).wrapping_mul(0x100000001b3);
                let ch = x as char;
                if ch.is_ascii_graphic() && ch != '"' && ch != '\\' { obs_txt.push(ch) } else { obs_txt.push('.') }
            }
            h = (h ^ 0xff).wrapping_mul(0x100000001b3);
            obs_txt.push(';');
        }
        let cov: Vec<String> = self.covers.iter().map(|c| format!("\"{}\"", c)).collect();
        let notes: Vec<String> = self.notes.iter().map(|c| format!("\"{}\"", c.replace(['"', '\\', '\n'], "?"))).collect();
        let bt = if st == "ok" { String::new() } else {
            self.frames.iter().rev().take(14).map(|f| f.func.name.clone()).collect::<Vec<_>>().join(" < ")
        };
        let l = format!("{{\"st\":\"{st}\",\"msg\":\"{}\",\"in\":\"{inp}\",\"obs\":\"{h:016x}\",\"obstxt\":\"{}\",\"cov\":[{}],\"notes\":[{}],\"instr\":{},\"pc\":{},\"bt\":\"{}\"}}\n",
            msg.replace(['"', '\\', '\n'], "?"), obs_txt.chars().take(2000).collect::<String>(), cov.join(","), notes.join(","), self.instrs, self.pc.len(), bt.replace(['"', '\\'], "?"));
        unsafe { sys::write(self.conf.results, l.as_ptr() as *const _, l.len()); }
    }
    fn confirm(&mut self) {
        let mut l = std::mem::take(&mut self.folded);
        l.sort();
        l.dedup();
        if l.is_empty() { return; }
        let all = self.p.raw_equal(&l);
        let n = self.p.not(all);
        match self.solve(n, &mut vec![]) {
            Res::Unsat => { self.sh.asserts_solver.fetch_add(1, SeqCst); }
            Res::Sat => self.error("the solver refutes an equality the simplifier decided".into()),
            Res::Unknown => self.error("solver gave up on an assertion".into()),
        }
    }
    pub fn done(&mut self) -> ! {
        if self.dry { std::panic::panic_any(Stop::Path) }
        self.confirm();
        self.sh.paths.fetch_add(1, SeqCst);
        self.record("ok", "");
        self.exit_path()
    }
    pub fn prune(&mut self) -> ! {
        if self.dry { self.dry_end() }
        self.sh.pruned.fetch_add(1, SeqCst);
        self.exit_path()
    }
    pub fn dry_end(&mut self) -> ! { std::panic::panic_any(Stop::Path) }
    pub fn violation(&mut self, msg: String) -> ! {
        if self.dry { self.dry_end() }
        self.sh.paths.fetch_add(1, SeqCst);
        let n = self.sh.violations.fetch_add(1, SeqCst) + 1;
        if n >= self.conf.max_viol { self.sh.stop.store(1, SeqCst); }
        self.record("viol", &msg);
        self.exit_path()
    }
    pub fn error(&mut self, msg: String) -> ! {
        if self.dry { eprintln!("dry run: {msg}\n  {}", self.frames.iter().rev().take(12).map(|f| f.func.name.clone()).collect::<Vec<_>>().join("\n  ")); self.dry_end() }
        // a path that cannot be executed leaves the others to be explored
        if self.sh.errors.fetch_add(1, SeqCst) >= 40 || msg == "time limit" { self.sh.stop.store(1, SeqCst); }
        self.record("err", &msg);
        self.exit_path()
    }

    // ---------------------------------------------------------------- calls
    pub fn start(&mut self, name: &str) {
        let a = self.sym_addr(0, name);
        let i = ((a - FN_BASE) / 16) as usize;
        let f = match self.body(i) { Some(f) => f, None => { eprintln!("no entry {name}"); std::process::exit(3) } };
        self.push_frame(f, vec![], NOREG, None);
    }
    fn push_frame(&mut self, f: &'static Func, args: Vec<Val>, dst: u32, to: Option<u32>) {
        let base = self.regs.len();
        self.regs.resize(base + f.f.nregs as usize, C(0));
        let sp = self.sp;
        for (k, v) in args.into_iter().enumerate() {
            if k >= f.f.params.len() { break; }
            let (r, _, byval) = f.f.params[k];
            let v = if byval > 0 {
                let src = self.concretize(&v, 64) as u64;
                let d = self.salloc(byval, 16);
                self.copy(d, src, byval);
                C(d as u128)
            } else { v };
            self.regs[base + r as usize] = v;
        }
        if self.frames.len() > 20000 { self.error("call depth".into()); }
        self.frames.push(Frame { func: f, base, bb: 0, pc: 0, prev: u32::MAX, dst, to, sp });
    }
    #[inline]
    fn val(&self, base: usize, f: &'static Func, o: Opd) -> Val {
        match o { Opd::R(r) => self.regs[base + r as usize].clone(), Opd::C(c) => f.consts[c as usize].clone() }
    }
    fn goto(&mut self, t: u32) {
        let fi = self.frames.len() - 1;
        let (f, base, cur) = { let fr = &self.frames[fi]; (fr.func, fr.base, fr.bb) };
        let b = &f.f.blocks[t as usize];
        match b.phis.len() {
            0 => {}
            1 => { let v = self.phi(f, base, &b.phis[0], cur); self.regs[base + b.phis[0].dst as usize] = v; }
            _ => {
                let vs: Vec<Val> = b.phis.iter().map(|p| self.phi(f, base, p, cur)).collect();
                for (p, v) in b.phis.iter().zip(vs) { self.regs[base + p.dst as usize] = v; }
            }
        }
        let fr = &mut self.frames[fi];
        fr.prev = cur;
        fr.bb = t;
        fr.pc = 0;
    }
    #[inline]
    fn phi(&self, f: &'static Func, base: usize, p: &Phi, from: u32) -> Val {
        for (b, o) in &p.inc { if *b == from { return self.val(base, f, *o); } }
        panic!("phi without predecessor in {}", f.name)
    }

    pub fn run(&mut self) -> ! {
        loop {
            self.instrs += 1;
            if self.instrs & 0xfff == 0 {
                if self.instrs > self.conf.max_instr { self.error(format!("instruction limit in {}", self.frames.last().unwrap().func.name)); }
                if self.sh.stop.load(SeqCst) != 0 && !self.dry { self.sh.cut.fetch_add(1, SeqCst); self.exit_path(); }
                if self.instrs & 0xffff == 0 && Instant::now() > self.conf.deadline { self.error("time limit".into()); }
            }
            let fi = self.frames.len() - 1;
            let (f, base, bb, pc) = { let fr = &mut self.frames[fi]; let x = (fr.func, fr.base, fr.bb, fr.pc); fr.pc += 1; x };
            let (dst, ins) = &f.f.blocks[bb as usize].ins[pc];
            let dst = *dst;
            if self.conf.itrace { eprintln!("  bb{bb} pc{pc} -> {dst}: {ins:?}"); }
            macro_rules! v { ($o:expr) => { self.val(base, f, *$o) } }
            macro_rules! set { ($x:expr) => {{ let x = $x; if self.conf.itrace { eprintln!("    = {x:?}"); } self.regs[base + dst as usize] = x; }} }
            match ins {
                Ins::Bin { op, ty, a, b } => { let (x, y) = (v!(a), v!(b)); let r = self.binop(op, ty, &x, &y); set!(r) }
                Ins::ICmp { pred, ty, a, b } => { let (x, y) = (v!(a), v!(b)); let r = self.icmp(pred, ty, &x, &y); set!(r) }
                Ins::Cast { op, from, a, to } => { let x = v!(a); let r = self.cast(op, from, &x, to); set!(r) }
                Ins::Load { ty, p } => {
                    let a = v!(p);
                    let r = match a { C(a) => self.load(ty, a as u64), E(e) => self.load_sym(ty, e), _ => panic!() };
                    set!(r)
                }
                Ins::Store { ty, v, p } => {
                    let x = v!(v);
                    let a = v!(p);
                    let a = self.concretize(&a, 64) as u64;
                    self.store(ty, &x, a)
                }
                Ins::Gep { ty, base: b, bty: _, idx } => {
                    let bv = v!(b);
                    if let A(_) = bv { self.error("vector gep".into()) }
                    let mut off = C(0u128);
                    let mut cur: T = ty.clone();
                    for (i, (it, io)) in idx.iter().enumerate() {
                        let iv = v!(io);
                        let w = it.bits() as u16;
                        if i > 0 {
                            if let Ty::Struct(..) = &*cur {
                                let k = match iv { C(k) => k as u64, _ => panic!("struct index") };
                                let (o, t2) = cur.field_off(k);
                                off = self.bin(Op::Add, 64, &off, &C(o as u128));
                                cur = t2;
                                continue;
                            }
                            let (_, t2) = cur.field_off(0);
                            cur = t2;
                        }
                        let iv = if w < 64 { self.sext(&iv, w, 64) } else if w > 64 { self.extract(&iv, w, 0, 64) } else { iv };
                        let s = self.bin(Op::Mul, 64, &iv, &C(cur.size() as u128));
                        off = self.bin(Op::Add, 64, &off, &s);
                    }
                    let r = self.bin(Op::Add, 64, &bv, &off);
                    set!(r)
                }
                Ins::Br { t } => self.goto(*t),
                Ins::CondBr { c, t, f: e } => {
                    let d = match v!(c) { C(x) => x == 1, E(x) => self.decide(x), _ => panic!() };
                    self.goto(if d { *t } else { *e });
                }
                Ins::Switch { ty, v, d, cases } => {
                    let x = v!(v);
                    let w = ty.bits() as u16;
                    match x {
                        C(x) => { let t = cases.iter().find(|(c, _)| *c == x).map(|c| c.1).unwrap_or(*d); self.goto(t) }
                        E(e) => {
                            // the target under the current model first, then fork over the other targets
                            let t = loop {
                                let cur = self.eval(e);
                                let t = cases.iter().find(|(c, _)| *c == cur).map(|c| c.1).unwrap_or(*d);
                                let mut cond: Option<Ex> = None;
                                if t != *d {
                                    for (c, b) in cases { if *b == t { let k = self.p.c(w, *c); let q = self.p.bin(Op::Eq, e, k); cond = Some(match cond { None => q, Some(o) => self.p.bin(Op::Or, o, q) }); } }
                                } else {
                                    let mut any = self.p.c(1, 0);
                                    for (c, b) in cases { if *b != t { let k = self.p.c(w, *c); let q = self.p.bin(Op::Eq, e, k); any = self.p.bin(Op::Or, any, q); } }
                                    cond = Some(self.p.not(any));
                                }
                                if self.decide(cond.unwrap()) { break t; }
                            };
                            self.goto(t)
                        }
                        _ => panic!(),
                    }
                }
                Ins::Ret { v, .. } => {
                    let r = match v { Some(o) => Some(v!(o)), None => None };
                    let fr = self.frames.pop().unwrap();
                    self.regs.truncate(fr.base);
                    self.sp = fr.sp;
                    if self.frames.is_empty() { self.done(); }
                    let caller = self.frames.last().unwrap();
                    let cb = caller.base;
                    if fr.dst != NOREG { if let Some(r) = r { self.regs[cb + fr.dst as usize] = r; } }
                    if let Some(t) = fr.to { self.goto(t); }
                }
                Ins::Call { ret, callee, args, to, asm } => {
                    if let Some(txt) = asm {
                        let r = match args.first() { Some(a) => v!(&a.v), None => crate::hooks::inline_asm(self, txt, ret) };
                        if dst != NOREG { set!(r) }
                        continue;
                    }
                    let cv = v!(callee);
                    let ca = self.concretize(&cv, 64) as u64;
                    let i = (ca.wrapping_sub(FN_BASE) / 16) as usize;
                    if ca < FN_BASE || i >= self.fns.len() { self.violation(format!("call of a non-function address {ca:#x}")); }
                    let av: Vec<Val> = args.iter().map(|a| v!(&a.v)).collect();
                    if let Some(h) = self.fns[i].hook {
                        let name: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(self.fns[i].name.as_str()) };
                        if let Some(r) = h(self, &HookArgs { v: &av, tys: args, ret, name }) {
                            if dst != NOREG { set!(r) }
                            if let Some(t) = to { self.goto(*t); }
                            continue;
                        }
                    }
                    match self.body(i) {
                        Some(g) => {
                            if self.conf.trace { eprintln!("{}{}", " ".repeat(self.frames.len()), g.name); }
                            self.push_frame(g, av, dst, *to)
                        }
                        None => { let n = self.fns[i].name.clone(); self.error(format!("call of undefined function {n}")) }
                    }
                }
                Ins::Select { cty, c, ty, a, b } => {
                    let (c, x, y) = (v!(c), v!(a), v!(b));
                    let r = self.select(cty, &c, ty, &x, &y);
                    set!(r)
                }
                Ins::Alloca { ty, n, align } => {
                    let k = v!(n);
                    let k = self.concretize(&k, 64) as u64;
                    let a = self.salloc(ty.size() * k, *align);
                    set!(C(a as u128))
                }
                Ins::ExtractValue { a, idx, .. } => {
                    let mut x = v!(a);
                    for i in idx { x = match &x { A(l) => l[*i as usize].clone(), _ => panic!() } }
                    set!(x)
                }
                Ins::InsertValue { a, v, idx, .. } => {
                    let x = v!(a);
                    let y = v!(v);
                    let r = Self::insert(&x, &y, idx);
                    set!(r)
                }
                Ins::ExtractElement { ty, a, i } => {
                    let x = v!(a);
                    let iv = v!(i);
                    let k = self.concretize(&iv, match iv { E(e) => self.p.w(e), _ => 64 }) as usize;
                    let _ = ty;
                    let r = match &x { A(l) => l[k].clone(), _ => panic!() };
                    set!(r)
                }
                Ins::InsertElement { a, v, i, .. } => {
                    let x = v!(a);
                    let y = v!(v);
                    let iv = v!(i);
                    let k = self.concretize(&iv, match iv { E(e) => self.p.w(e), _ => 64 }) as u64;
                    let r = Self::insert(&x, &y, &[k]);
                    set!(r)
                }
                Ins::Shuffle { a, b, mask, mty, .. } => {
                    let (x, y) = (v!(a), v!(b));
                    let (x, y) = match (&x, &y) { (A(x), A(y)) => (x.clone(), y.clone()), _ => panic!() };
                    let m = self.cst_val(0, mty, mask);
                    let l = match m { A(l) => l, _ => panic!() };
                    let r = l.iter().map(|k| match k { C(k) => { let k = *k as u32 as usize; if k < x.len() { x[k].clone() } else if k < x.len() + y.len() { y[k - x.len()].clone() } else { C(0) } } _ => C(0) }).collect();
                    set!(A(Rc::new(r)))
                }
                Ins::AtomicRmw { op, ty, p, v } => {
                    let a = v!(p);
                    let a = self.concretize(&a, 64) as u64;
                    let x = v!(v);
                    let old = self.load(ty, a);
                    let w = ty.bits() as u16;
                    let n = match op.as_str() {
                        "xchg" => x,
                        "add" => self.bin(Op::Add, w, &old, &x),
                        "sub" => self.bin(Op::Sub, w, &old, &x),
                        "and" => self.bin(Op::And, w, &old, &x),
                        "or" => self.bin(Op::Or, w, &old, &x),
                        "xor" => self.bin(Op::Xor, w, &old, &x),
                        "umax" => { let c = self.bin(Op::Ult, w, &old, &x); self.ite(w, &c, &x, &old) }
                        "umin" => { let c = self.bin(Op::Ult, w, &old, &x); self.ite(w, &c, &old, &x) }
                        o => self.error(format!("atomicrmw {o}")),
                    };
                    self.store(ty, &n, a);
                    if dst != NOREG { set!(old) }
                }
                Ins::CmpXchg { ty, p, e, n } => {
                    let a = v!(p);
                    let a = self.concretize(&a, 64) as u64;
                    let (e, n) = (v!(e), v!(n));
                    let old = self.load(ty, a);
                    let w = ty.bits() as u16;
                    let eq = self.bin(Op::Eq, w, &old, &e);
                    let eq = match eq { C(x) => x == 1, E(x) => self.decide(x), _ => panic!() };
                    if eq { self.store(ty, &n, a); }
                    if dst != NOREG { set!(A(Rc::new(vec![old, C(eq as u128)]))) }
                }
                Ins::Freeze { a } => { let x = v!(a); set!(x) }
                Ins::Fence => {}
                Ins::FNeg { ty, a } => {
                    let x = v!(a);
                    let w = ty.bits() as u16;
                    let r = self.bin(Op::Xor, w, &x, &C(1u128 << (w - 1)));
                    set!(r)
                }
                Ins::FCmp { pred, ty, a, b } => {
                    let (x, y) = (v!(a), v!(b));
                    let (x, y) = (self.fp(ty, &x), self.fp(ty, &y));
                    let un = x.is_nan() || y.is_nan();
                    let r = match pred.as_str() {
                        "oeq" => !un && x == y, "one" => !un && x != y, "olt" => x < y, "ole" => x <= y, "ogt" => x > y, "oge" => x >= y, "ord" => !un,
                        "ueq" => un || x == y, "une" => un || x != y, "ult" => un || x < y, "ule" => un || x <= y, "ugt" => un || x > y, "uge" => un || x >= y, "uno" => un,
                        "true" => true, _ => false,
                    };
                    set!(C(r as u128))
                }
                Ins::Unreachable => self.violation("reached an 'unreachable' instruction (undefined behaviour)".into()),
                Ins::Bad(s) => self.error(format!("unsupported instruction {s} in {}", f.name)),
            }
        }
    }
    fn insert(x: &Val, y: &Val, idx: &[u64]) -> Val {
        if idx.is_empty() { return y.clone(); }
        match x {
            A(l) => { let mut n = (**l).clone(); n[idx[0] as usize] = Self::insert(&n[idx[0] as usize], y, &idx[1..]); A(Rc::new(n)) }
            _ => panic!("insertvalue"),
        }
    }
    pub fn select(&mut self, cty: &T, c: &Val, ty: &T, x: &Val, y: &Val) -> Val {
        if let (Ty::Vec(..), A(cs)) = (&**cty, c) {
            let et = match &**ty { Ty::Vec(_, t) => t.clone(), _ => panic!() };
            let (xs, ys) = match (x, y) { (A(a), A(b)) => (a.clone(), b.clone()), _ => panic!() };
            let i1: T = Rc::new(Ty::Int(1));
            return A(Rc::new(cs.clone().iter().enumerate().map(|(i, c)| self.select(&i1, c, &et, &xs[i], &ys[i])).collect()));
        }
        match c {
            C(b) => if *b == 1 { x.clone() } else { y.clone() },
            E(e) => match (&**ty, x, y) {
                (Ty::Struct(..) | Ty::Array(..) | Ty::Vec(..), A(xs), A(ys)) => {
                    let (xs, ys) = (xs.clone(), ys.clone());
                    let i1: T = Rc::new(Ty::Int(1));
                    let r = (0..xs.len()).map(|i| { let (_, t) = ty.field_off(i as u64); self.select(&i1, c, &t, &xs[i], &ys[i]) }).collect();
                    A(Rc::new(r))
                }
                _ => { let w = ty.bits() as u16; let (a, b) = (self.ex(x, w), self.ex(y, w)); let r = self.p.ite(*e, a, b); self.ev(r) }
            },
            _ => panic!(),
        }
    }
    fn fp(&mut self, ty: &T, v: &Val) -> f64 {
        match v {
            C(x) => match &**ty { Ty::Float => f32::from_bits(*x as u32) as f64, _ => f64::from_bits(*x as u64) },
            _ => self.error("symbolic floating point".into()),
        }
    }
    fn unfp(ty: &T, d: f64) -> Val { match &**ty { Ty::Float => C((d as f32).to_bits() as u128), _ => C(d.to_bits() as u128) } }
    /// Concrete integers wider than 128 bits (u128 formatting uses i256): [low, high].
    fn wide(&mut self, v: &Val, w: usize) -> [u128; 2] {
        if w > 256 { self.error(format!("i{w}")); }
        match v { C(x) => [*x, 0], A(l) => match (&l[0], &l[1]) { (C(a), C(b)) if l.len() == 2 => [*a, *b], _ => self.error(format!("symbolic i{w}")) }, _ => self.error(format!("symbolic i{w}")) }
    }
    fn wideop(&mut self, op: &str, w: usize, a: &Val, b: &Val) -> Val {
        let (x, y) = (self.wide(a, w), self.wide(b, w));
        let r = match op {
            "mul" => {
                let d = |v: [u128; 2]| [v[0] as u64, (v[0] >> 64) as u64, v[1] as u64, (v[1] >> 64) as u64];
                let (x, y, mut r) = (d(x), d(y), [0u64; 4]);
                for i in 0..4 {
                    let mut c = 0u128;
                    for j in 0..4 - i { let t = x[i] as u128 * y[j] as u128 + r[i + j] as u128 + c; r[i + j] = t as u64; c = t >> 64; }
                }
                [r[0] as u128 | (r[1] as u128) << 64, r[2] as u128 | (r[3] as u128) << 64]
            }
            "lshr" if y[1] == 0 && y[0] < w as u128 => { let n = y[0]; if n == 0 { x } else if n < 128 { [x[0] >> n | x[1] << (128 - n), x[1] >> n] } else { [x[1] >> (n - 128), 0] } }
            _ => self.error(format!("{op} i{w}")),
        };
        if w != 256 { self.error(format!("i{w}")); }
        A(Rc::new(vec![C(r[0]), C(r[1])]))
    }
    pub fn binop(&mut self, op: &str, ty: &T, a: &Val, b: &Val) -> Val {
        if let Ty::Int(n) = &**ty { if *n > 128 { return self.wideop(op, *n as usize, a, b); } }
        if let (A(x), A(y)) = (a, b) {
            let t = match &**ty { Ty::Vec(_, t) => t.clone(), _ => panic!() };
            let (x, y) = (x.clone(), y.clone());
            return A(Rc::new((0..x.len()).map(|i| self.binop(op, &t, &x[i], &y[i])).collect()));
        }
        let w = ty.bits() as u16;
        let o = match op {
            "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "urem" => Op::URem, "sdiv" => Op::SDiv, "srem" => Op::SRem,
            "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor,
            _ => {
                let (x, y) = (self.fp(ty, a), self.fp(ty, b));
                return match (&**ty, op) {
                    (Ty::Float, "fadd") => C(((x as f32) + (y as f32)).to_bits() as u128),
                    (Ty::Float, "fsub") => C(((x as f32) - (y as f32)).to_bits() as u128),
                    (Ty::Float, "fmul") => C(((x as f32) * (y as f32)).to_bits() as u128),
                    (Ty::Float, "fdiv") => C(((x as f32) / (y as f32)).to_bits() as u128),
                    (_, "fadd") => Self::unfp(ty, x + y),
                    (_, "fsub") => Self::unfp(ty, x - y),
                    (_, "fmul") => Self::unfp(ty, x * y),
                    (_, "fdiv") => Self::unfp(ty, x / y),
                    _ => Self::unfp(ty, x % y),
                };
            }
        };
        self.bin(o, w, a, b)
    }
    pub fn icmp(&mut self, pred: &str, ty: &T, a: &Val, b: &Val) -> Val {
        if let Ty::Int(n) = &**ty { if *n > 128 { self.error(format!("icmp {pred} i{n}")); } }
        if let (A(x), A(y)) = (a, b) {
            let t = match &**ty { Ty::Vec(_, t) => t.clone(), _ => panic!() };
            let (x, y) = (x.clone(), y.clone());
            return A(Rc::new((0..x.len()).map(|i| self.icmp(pred, &t, &x[i], &y[i])).collect()));
        }
        let w = ty.bits() as u16;
        match pred {
            "eq" => self.bin(Op::Eq, w, a, b),
            "ne" => { let r = self.bin(Op::Eq, w, a, b); self.not1(&r) }
            "ult" => self.bin(Op::Ult, w, a, b),
            "ule" => self.bin(Op::Ule, w, a, b),
            "ugt" => self.bin(Op::Ult, w, b, a),
            "uge" => self.bin(Op::Ule, w, b, a),
            "slt" => self.bin(Op::Slt, w, a, b),
            "sle" => self.bin(Op::Sle, w, a, b),
            "sgt" => self.bin(Op::Slt, w, b, a),
            "sge" => self.bin(Op::Sle, w, b, a),
            _ => panic!("icmp {pred}"),
        }
    }
    fn lanes(&mut self, ty: &T, v: &Val) -> (Vec<Val>, u16) {
        match (&**ty, v) { (Ty::Vec(_, t), A(l)) => ((**l).clone(), t.bits() as u16), _ => (vec![v.clone()], ty.bits() as u16) }
    }
    fn cast(&mut self, op: &str, from: &T, a: &Val, to: &T) -> Val {
        if let (Ty::Int(f), Ty::Int(t)) = (&**from, &**to) {
            if *f > 128 || *t > 128 {
                let (f, t) = (*f as usize, *t as usize);
                let x = self.wide(a, f.max(t));
                return match op {
                    "zext" if f <= 128 && t == 256 => A(Rc::new(vec![C(x[0]), C(0)])),
                    "trunc" if t <= 128 => C(x[0] & mask(t as u16)),
                    _ => self.error(format!("{op} i{f} to i{t}")),
                };
            }
        }
        if op == "bitcast" {
            let (ls, w1) = self.lanes(from, a);
            let (n2, w2, isvec) = match &**to { Ty::Vec(n, t) => (*n as usize, t.bits() as u16, true), _ => (1, to.bits() as u16, false) };
            let mut out = vec![];
            if w1.max(w2) > 128 { self.error(format!("bitcast i{w1} to i{w2}")); }
            if w1 == w2 { out = ls; } else if w2 > w1 {
                let k = (w2 / w1) as usize;
                for i in 0..n2 {
                    let mut acc = ls[i * k].clone();
                    for j in 1..k { acc = self.concat(&ls[i * k + j], w1, &acc, w1 * j as u16); }
                    out.push(acc);
                }
            } else {
                let k = (w1 / w2) as usize;
                for l in ls { for j in 0..k { out.push(self.extract(&l, w1, (j as u16) * w2, w2)); } }
            }
            return if isvec { A(Rc::new(out)) } else { out.pop().unwrap() };
        }
        if let (Ty::Vec(_, tf), A(l), Ty::Vec(_, tt)) = (&**from, a, &**to) {
            let (tf, tt, l) = (tf.clone(), tt.clone(), l.clone());
            return A(Rc::new(l.iter().map(|x| self.cast(op, &tf, x, &tt)).collect()));
        }
        let (w1, w2) = (from.bits() as u16, to.bits() as u16);
        match op {
            "trunc" => self.extract(a, w1, 0, w2),
            "zext" => self.zext(a, w1, w2),
            "sext" => self.sext(a, w1, w2),
            "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => if w1 == w2 { a.clone() } else if w2 < w1 { self.extract(a, w1, 0, w2) } else { self.zext(a, w1, w2) },
            "sitofp" => { let x = match a { C(x) => sx(*x, w1), _ => self.error("symbolic sitofp".into()) }; match &**to { Ty::Float => C((x as f32).to_bits() as u128), _ => C((x as f64).to_bits() as u128) } }
            "uitofp" => { let x = match a { C(x) => *x, _ => self.error("symbolic uitofp".into()) }; match &**to { Ty::Float => C((x as f32).to_bits() as u128), _ => C((x as f64).to_bits() as u128) } }
            "fptosi" => { let d = self.fp(from, a); C(d as i128 as u128 & mask(w2)) }
            "fptoui" => { let d = self.fp(from, a); C(d as u128 & mask(w2)) }
            "fpext" | "fptrunc" => { let d = self.fp(from, a); Self::unfp(to, d) }
            _ => panic!("cast {op}"),
        }
    }
    /// Load through a symbolic address.
    fn load_sym(&mut self, ty: &T, e: Ex) -> Val {
        if let Ty::Struct(..) | Ty::Array(..) | Ty::Vec(..) = &**ty {
            let n = match &**ty { Ty::Struct(f, _) => f.len() as u64, Ty::Array(n, _) | Ty::Vec(n, _) => *n, _ => 0 };
            return A(Rc::new((0..n).map(|i| {
                let (o, t) = ty.field_off(i);
                let oe = self.p.c(64, o as u128);
                let a = self.p.bin(Op::Add, e, oe);
                match self.ev(a) { C(x) => self.load(&t, x as u64), E(a) => self.load_sym(&t, a), _ => panic!() }
            }).collect()));
        }
        let w = ty.bits() as u16;
        let nb = (w as u64 + 7) / 8;
        let inb = |a: u128| a as u64 >= DATA + 4096 && (a as u64).wrapping_add(nb) <= DATA + DATA_SZ;
        // a few constant candidates
        let mut leaves = vec![];
        if self.p.ite_leaves(e, &mut leaves, 16) && leaves.iter().all(|a| inb(*a)) {
            let mut acc: Option<Val> = None;
            for l in leaves {
                let v = self.load(ty, l as u64);
                acc = Some(match acc { None => v, Some(o) => { let k = self.p.c(64, l); let c = self.p.bin(Op::Eq, e, k); let c = self.ev(c); self.ite(w, &c, &v, &o) } });
            }
            return acc.unwrap();
        }
        // base + small index
        let (mut base, mut idx) = (0u128, e);
        if let K::Bin(Op::Add, x, y) = self.p.nodes[e as usize].k { if let Some(c) = self.p.as_const(y) { base = c; idx = x; } }
        let mut small: Option<(Ex, Vec<u128>)> = None; // base expression, address per value
        if let Some((x, t)) = self.p.as_lut(idx) {
            let n = 1usize << self.p.w(x);
            small = Some((x, (0..n).map(|i| base.wrapping_add(match &t { None => i as u128, Some(t) => t[i] as u128 }) & mask(64)).collect()));
        } else {
            let m = self.p.maskof(idx);
            let top = 128 - m.leading_zeros() as u16;
            let lo = m.trailing_zeros() as u16;
            if m != 0 && top - lo <= 12 {
                let x = self.p.extract(idx, lo, top - lo);
                let n = 1usize << (top - lo);
                small = Some((x, (0..n).map(|i| base.wrapping_add((i as u128) << lo) & mask(64)).collect()));
            }
        }
        if let Some((x, addrs)) = small {
            let xw = self.p.w(x);
            // current domain of a plain variable
            let dom = if let K::Var(v) = self.p.nodes[x as usize].k { Some(self.dom[v as usize]) } else { None };
            let live: Vec<usize> = (0..addrs.len()).filter(|i| dom.map_or(true, |d| d[*i / 64] >> (*i % 64) & 1 == 1)).collect();
            if live.iter().all(|i| inb(addrs[*i])) {
                let vals: Vec<(usize, Val)> = live.iter().map(|i| (*i, self.load(ty, addrs[*i] as u64))).collect();
                if w <= 64 && xw <= 10 && vals.iter().all(|(_, v)| matches!(v, C(_))) {
                    let mut t = vec![0u64; addrs.len()];
                    // values outside the current domain repeat a live one (they cannot occur on this path)
                    let fill = match vals.first() { Some((_, C(c))) => *c as u64, _ => 0 };
                    t.iter_mut().for_each(|x| *x = fill);
                    for (i, v) in &vals { if let C(c) = v { t[*i] = *c as u64; } }
                    let r = self.p.mk_lut(x, t, w);
                    return self.ev(r);
                }
                // distinct values grouped
                let mut acc: Option<Val> = None;
                let mut groups: Vec<(Val, Vec<usize>)> = vec![];
                for (i, v) in vals {
                    let pos = groups.iter().position(|g| match (&g.0, &v) { (C(a), C(b)) => a == b, (E(a), E(b)) => a == b, _ => false });
                    match pos { Some(k) => groups[k].1.push(i), None => groups.push((v, vec![i])) }
                }
                if groups.len() <= 300 {
                    groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                    for (v, is) in groups {
                        acc = Some(match acc {
                            None => v,
                            Some(o) => {
                                let mut c = self.p.c(1, 0);
                                for i in is { let k = self.p.c(xw, i as u128); let q = self.p.bin(Op::Eq, x, k); c = self.p.bin(Op::Or, c, q); }
                                let c = self.ev(c);
                                self.ite(w, &c, &v, &o)
                            }
                        });
                    }
                    return acc.unwrap();
                }
            }
        }
        let a = self.concretize(&E(e), 64) as u64;
        self.load(ty, a)
    }
}
