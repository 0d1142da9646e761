//! Minimal Z3 C API binding and the translation of expressions.
#![allow(non_camel_case_types, non_snake_case)]
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::abort();
}

pub struct Z3 {
    c: P,
    s: P,
    bv: HashMap<Ex, P>,
    bo: HashMap<Ex, P>,
    vars: Vec<P>,
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Res { Sat, Unsat, Unknown }

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            for (k, v) in [("auto_config", "true")] {
                let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
                Z3_global_param_set(k.as_ptr(), v.as_ptr());
            }
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let logic = CString::new("QF_BV").unwrap();
            let s = if std::env::var("SYMEX_SIMPLE").is_ok() { Z3_mk_simple_solver(c) } else {
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, logic.as_ptr())) };
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 400_000_000);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: HashMap::new(), bo: HashMap::new(), vars: vec![] }
        }
    }
    fn num(&self, w: u16, v: u128) -> P {
        unsafe {
            let so = Z3_mk_bv_sort(self.c, w as c_uint);
            if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, so) } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), so)
            }
        }
    }
    fn var(&mut self, p: &Pool, v: u32) -> P {
        while self.vars.len() <= v as usize {
            let i = self.vars.len();
            let w = p.vars[i].w;
            unsafe {
                let n = CString::new(format!("v{i}")).unwrap();
                let x = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bv_sort(self.c, w as c_uint));
                self.vars.push(x);
                let d = &p.vars[i].dom0;
                if !d.is_empty() && !d.iter().all(|b| *b) {
                    let t: Vec<bool> = d.clone();
                    let e = self.in_set(x, w, &t);
                    Z3_solver_assert(self.c, self.s, e);
                }
            }
        }
        self.vars[v as usize]
    }
    fn in_range(&self, x: P, w: u16, lo: u64, hi: u64) -> P {
        unsafe {
            let top = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            if lo == hi { return Z3_mk_eq(self.c, x, self.num(w, lo as u128)); }
            let a = Z3_mk_bvule(self.c, self.num(w, lo as u128), x);
            let b = Z3_mk_bvule(self.c, x, self.num(w, hi as u128));
            if lo == 0 { return b; }
            if hi == top { return a; }
            Z3_mk_and(self.c, 2, [a, b].as_ptr())
        }
    }
    fn in_set(&self, x: P, w: u16, t: &[bool]) -> P {
        let mut parts = vec![];
        let mut i = 0;
        while i < t.len() {
            if t[i] {
                let mut j = i;
                while j + 1 < t.len() && t[j + 1] { j += 1; }
                parts.push(self.in_range(x, w, i as u64, j as u64));
                i = j + 1;
            } else { i += 1; }
        }
        unsafe {
            match parts.len() {
                0 => Z3_mk_false(self.c),
                1 => parts[0],
                n => Z3_mk_or(self.c, n as c_uint, parts.as_ptr()),
            }
        }
    }
    pub fn boo(&mut self, p: &Pool, e: Ex) -> P {
        debug_assert_eq!(p.w(e), 1);
        if let Some(&x) = self.bo.get(&e) { return x; }
        let c = self.c;
        let r = unsafe {
            match p.nodes[e as usize].k.clone() {
                K::Const(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                K::Lut(x, t) => {
                    let xw = p.w(x);
                    let px = self.bv(p, x);
                    let set: Vec<bool> = t.iter().map(|v| *v == 1).collect();
                    self.in_set(px, xw, &set)
                }
                K::Bin(op, a, b) => {
                    if p.w(a) == 1 && matches!(op, Op::And | Op::Or | Op::Xor | Op::Eq) {
                        let (x, y) = (self.boo(p, a), self.boo(p, b));
                        match op {
                            Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                            Op::Xor => if p.as_const(b) == Some(1) { Z3_mk_not(c, x) } else { Z3_mk_xor(c, x, y) },
                            _ => Z3_mk_eq(c, x, y),
                        }
                    } else {
                        let (x, y) = (self.bv(p, a), self.bv(p, b));
                        match op {
                            Op::Eq => Z3_mk_eq(c, x, y),
                            Op::Ult => Z3_mk_bvult(c, x, y),
                            Op::Ule => Z3_mk_bvule(c, x, y),
                            Op::Slt => Z3_mk_bvslt(c, x, y),
                            Op::Sle => Z3_mk_bvsle(c, x, y),
                            _ => { let v = self.bv_raw(p, e); Z3_mk_eq(c, v, self.num(1, 1)) }
                        }
                    }
                }
                K::Ite(q, a, b) => { let (q, x, y) = (self.boo(p, q), self.boo(p, a), self.boo(p, b)); Z3_mk_ite(c, q, x, y) }
                _ => { let v = self.bv_raw(p, e); Z3_mk_eq(c, v, self.num(1, 1)) }
            }
        };
        self.bo.insert(e, r);
        r
    }
    pub fn bv(&mut self, p: &Pool, e: Ex) -> P {
        if let Some(&x) = self.bv.get(&e) { return x; }
        let boolish = p.w(e) == 1 && match &p.nodes[e as usize].k {
            K::Lut(..) | K::Ite(..) => true,
            K::Bin(op, a, _) => is_cmp(*op) || (p.w(*a) == 1 && matches!(op, Op::And | Op::Or | Op::Xor)),
            _ => false,
        };
        let r = if boolish {
            let b = self.boo(p, e);
            unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(1, 0)) }
        } else { self.bv_raw(p, e) };
        self.bv.insert(e, r);
        r
    }
    fn bv_raw(&mut self, p: &Pool, e: Ex) -> P {
        let c = self.c;
        let w = p.w(e);
        unsafe {
            match p.nodes[e as usize].k.clone() {
                K::Const(v) => self.num(w, v),
                K::Var(v) => self.var(p, v),
                K::Lut(x, t) => {
                    let xw = p.w(x);
                    let px = self.bv(p, x);
                    // segments: constant runs or slope-one runs
                    let n = t.len();
                    let m = mask(w) as u64;
                    let mut segs: Vec<(usize, usize, bool, u64)> = vec![];
                    let mut i = 0;
                    while i < n {
                        let mut j = i;
                        while j + 1 < n && t[j + 1] == t[i] { j += 1; }
                        let mut k = i;
                        while k + 1 < n && t[k + 1] == t[k].wrapping_add(1) & m { k += 1; }
                        if k > j { segs.push((i, k, true, t[i].wrapping_sub(i as u64) & m)); i = k + 1; }
                        else { segs.push((i, j, false, t[i])); i = j + 1; }
                    }
                    let wide = if w > xw { Z3_mk_zero_ext(c, (w - xw) as c_uint, px) } else if w < xw { Z3_mk_extract(c, w as c_uint - 1, 0, px) } else { px };
                    // group by value
                    let mut groups: Vec<((bool, u64), Vec<(usize, usize)>)> = vec![];
                    for (a, b, s, v) in segs {
                        if let Some(g) = groups.iter_mut().find(|g| g.0 == (s, v)) { g.1.push((a, b)) } else { groups.push(((s, v), vec![(a, b)])) }
                    }
                    groups.sort_by_key(|g| g.1.len());
                    let mut acc: Option<P> = None;
                    for ((slope, v), rs) in groups.into_iter().rev() {
                        let val = if slope { if v == 0 { wide } else { Z3_mk_bvadd(c, wide, self.num(w, v as u128)) } } else { self.num(w, v as u128) };
                        acc = Some(match acc {
                            None => val,
                            Some(o) => {
                                let parts: Vec<P> = rs.iter().map(|(a, b)| self.in_range(px, xw, *a as u64, *b as u64)).collect();
                                let cond = if parts.len() == 1 { parts[0] } else { Z3_mk_or(c, parts.len() as c_uint, parts.as_ptr()) };
                                Z3_mk_ite(c, cond, val, o)
                            }
                        });
                    }
                    acc.unwrap()
                }
                K::Bin(op, a, b) => {
                    let (x, y) = (self.bv(p, a), self.bv(p, b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                        _ => unreachable!("cmp handled as bool"),
                    }
                }
                K::Extract(a, lo) => { let x = self.bv(p, a); Z3_mk_extract(c, lo as c_uint + w as c_uint - 1, lo as c_uint, x) }
                K::Concat(a, b) => { let (x, y) = (self.bv(p, a), self.bv(p, b)); Z3_mk_concat(c, x, y) }
                K::Sext(a) => { let x = self.bv(p, a); Z3_mk_sign_ext(c, (w - p.w(a)) as c_uint, x) }
                K::Ite(q, a, b) => { let q = self.boo(p, q); let (x, y) = (self.bv(p, a), self.bv(p, b)); Z3_mk_ite(c, q, x, y) }
            }
        }
    }
    pub fn assert(&mut self, p: &Pool, e: Ex) {
        let b = self.boo(p, e);
        unsafe { Z3_solver_assert(self.c, self.s, b) }
    }
    /// Satisfiability of the asserted constraints together with `extra`; on Sat the model is read back.
    pub fn check(&mut self, p: &Pool, extra: &[Ex], model: Option<&mut Vec<u128>>) -> Res {
        let ts: Vec<P> = extra.iter().map(|e| self.boo(p, *e)).collect();
        if !p.vars.is_empty() { self.var(p, p.vars.len() as u32 - 1); }
        unsafe {
            Z3_solver_push(self.c, self.s);
            for t in ts { Z3_solver_assert(self.c, self.s, t); }
            let r = match Z3_solver_check(self.c, self.s) { 1 => Res::Sat, -1 => Res::Unsat, _ => Res::Unknown };
            if r == Res::Sat {
                if let Some(out) = model {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    out.clear();
                    for i in 0..p.vars.len() {
                        let mut v: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, self.vars[i], true, &mut v);
                        let mut u = 0u64;
                        if !Z3_get_numeral_uint64(self.c, v, &mut u) { eprintln!("z3: no numeral"); std::process::abort(); }
                        out.push(u as u128);
                    }
                    Z3_model_dec_ref(self.c, m);
                }
            }
            Z3_solver_pop(self.c, self.s, 1);
            r
        }
    }
}
