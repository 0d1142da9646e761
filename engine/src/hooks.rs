//! Functions that are not interpreted from IR: LLVM intrinsics, the allocator, libc, harness calls.
use crate::exec::{Engine, Hook, HookArgs, Val};
use crate::expr::*;
use crate::ll::*;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use Val::*;

fn unit(_: &mut Engine, _: &HookArgs) -> Option<Val> { Some(C(0)) }
fn one(_: &mut Engine, _: &HookArgs) -> Option<Val> { Some(C(1)) }

fn addr(e: &mut Engine, v: &Val) -> u64 { e.concretize(v, 64) as u64 }

fn h_alloc(e: &mut Engine, a: &HookArgs) -> Option<Val> { let n = addr(e, &a.v[0]); let al = addr(e, &a.v[1]); Some(C(e.alloc(n, al) as u128)) }
fn h_realloc(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let p = addr(e, &a.v[0]);
    let old = addr(e, &a.v[1]);
    let al = addr(e, &a.v[2]);
    let n = addr(e, &a.v[3]);
    // the last block can grow in place
    if p + old == e.heap_next && n >= old && old > 0 { e.heap_next = p + n; e.sizes.insert(p, n); return Some(C(p as u128)); }
    if n <= old { return Some(C(p as u128)); }
    let q = e.alloc(n, al);
    e.copy(q, p, old.min(n));
    Some(C(q as u128))
}
fn h_malloc(e: &mut Engine, a: &HookArgs) -> Option<Val> { let n = addr(e, &a.v[0]); Some(C(e.alloc(n, 16) as u128)) }
fn h_calloc(e: &mut Engine, a: &HookArgs) -> Option<Val> { let n = addr(e, &a.v[0]) * addr(e, &a.v[1]); Some(C(e.alloc(n, 16) as u128)) }
fn h_crealloc(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let p = addr(e, &a.v[0]);
    let n = addr(e, &a.v[1]);
    let q = e.alloc(n, 16);
    if p != 0 { let old = *e.sizes.get(&p).unwrap_or(&0); e.copy(q, p, old.min(n)); }
    Some(C(q as u128))
}
fn h_memalign(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let pp = addr(e, &a.v[0]);
    let al = addr(e, &a.v[1]);
    let n = addr(e, &a.v[2]);
    let q = e.alloc(n, al);
    let t: T = Rc::new(Ty::Ptr);
    e.store(&t, &C(q as u128), pp);
    Some(C(0))
}
fn h_memcpy(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let (d, s, n) = (addr(e, &a.v[0]), addr(e, &a.v[1]), addr(e, &a.v[2]));
    e.copy(d, s, n);
    Some(C(d as u128))
}
fn h_memset(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let d = addr(e, &a.v[0]);
    let n = addr(e, &a.v[2]);
    let w = a.tys[1].ty.bits() as u16;
    let b = e.extract(&a.v[1], w, 0, 8);
    e.fill(d, &b, n);
    Some(C(d as u128))
}
/// 0 if equal, 1 otherwise, as one expression.
fn h_bcmp(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let (p, q, n) = (addr(e, &a.v[0]), addr(e, &a.v[1]), addr(e, &a.v[2]));
    if n == 0 { return Some(C(0)); }
    let (x, y) = (e.bytes(p, n), e.bytes(q, n));
    // concrete difference anywhere decides
    for i in 0..n as usize { if let (C(a), C(b)) = (&x[i], &y[i]) { if a != b { return Some(C(1)); } } }
    let mut acc = C(1u128);
    for i in 0..n as usize {
        let c = e.bin(Op::Eq, 8, &x[i], &y[i]);
        acc = e.bin(Op::And, 1, &acc, &c);
        if let C(0) = acc { return Some(C(1)); }
    }
    let r = e.ite(32, &acc, &C(0), &C(1));
    Some(r)
}
fn h_memcmp(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let (p, q, n) = (addr(e, &a.v[0]), addr(e, &a.v[1]), addr(e, &a.v[2]));
    if n == 0 { return Some(C(0)); }
    let (x, y) = (e.bytes(p, n), e.bytes(q, n));
    let mut acc = C(0u128);
    for i in (0..n as usize).rev() {
        match (&x[i], &y[i]) {
            (C(a), C(b)) => if a != b { acc = C(if a < b { mask(32) } else { 1 }); },
            _ => {
                let eq = e.bin(Op::Eq, 8, &x[i], &y[i]);
                let lt = e.bin(Op::Ult, 8, &x[i], &y[i]);
                let d = e.ite(32, &lt, &C(mask(32)), &C(1));
                acc = e.ite(32, &eq, &acc, &d);
            }
        }
    }
    Some(acc)
}
fn h_strlen(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let p = addr(e, &a.v[0]);
    let mut n = 0;
    loop { let b = e.byte(p + n); if e.concretize(&b, 8) == 0 { break; } n += 1; }
    Some(C(n as u128))
}
/// core::slice::memchr style: returns Option<usize> as {i64, i64}; used for symbolic haystacks only.
fn find_byte(e: &mut Engine, p: u64, n: u64, needle: &Val, rev: bool) -> Option<u64> {
    let idx: Vec<u64> = if rev { (0..n).rev().collect() } else { (0..n).collect() };
    for i in idx {
        let b = e.byte(p + i);
        let c = e.bin(Op::Eq, 8, &b, needle);
        let hit = match c { C(x) => x == 1, E(x) => e.decide(x), _ => false };
        if hit { return Some(i); }
    }
    None
}
fn h_memchr_libc(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let p = addr(e, &a.v[0]);
    let n = addr(e, &a.v[2]);
    let w = a.tys[1].ty.bits() as u16;
    let nd = e.extract(&a.v[1], w, 0, 8);
    let r = find_byte(e, p, n, &nd, a.name == "memrchr");
    Some(C(r.map_or(0, |i| (p + i) as u128)))
}
/// serde_json::read::SliceRead::skip_to_escape, byte by byte instead of eight at a time.
fn h_skip_to_escape(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    if a.v.len() != 2 { return None; }
    let t: T = Rc::new(Ty::Int(64));
    let s = addr(e, &a.v[0]);
    let (p, n, i) = match (e.load(&t, s), e.load(&t, s + 8), e.load(&t, s + 16)) { (C(p), C(n), C(i)) => (p as u64, n as u64, i as u64), _ => return None };
    if i > n || !(i..n).any(|k| matches!(e.byte(p + k), E(_))) { return None; }
    let w = a.tys[1].ty.bits() as u16;
    let forbid = e.concretize(&a.v[1], w) & 1 == 1;
    let mut k = i;
    while k < n {
        let b = e.byte(p + k);
        let q = e.bin(Op::Eq, 8, &b, &C(34));
        let bs = e.bin(Op::Eq, 8, &b, &C(92));
        let mut c = e.bin(Op::Or, 1, &q, &bs);
        if forbid { let l = e.bin(Op::Ult, 8, &b, &C(32)); c = e.bin(Op::Or, 1, &c, &l); }
        let hit = match c { C(x) => x == 1, E(x) => e.decide(x), _ => false };
        if hit { break; }
        k += 1;
    }
    e.store(&t, &C(k as u128), s + 16);
    Some(C(0))
}
fn h_core_memchr(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    // (needle: u8, ptr, len) -> { i64, i64 }
    if a.v.len() != 3 || a.tys[0].ty.bits() != 8 { return None; }
    match &**a.ret { Ty::Struct(f, _) if f.len() == 2 => {} _ => return None }
    let p = addr(e, &a.v[1]);
    let n = addr(e, &a.v[2]);
    let r = find_byte(e, p, n, &a.v[0].clone(), a.name.contains("memrchr"));
    Some(A(Rc::new(vec![C(r.is_some() as u128), C(r.unwrap_or(0) as u128)])))
}

fn h_panic(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let mut loc = String::new();
    if let Some(C(p)) = a.v.last() {
        let p = *p as u64;
        if p > crate::exec::DATA {
            let t: T = Rc::new(Ty::Int(64));
            let t32: T = Rc::new(Ty::Int(32));
            if let (C(f), C(n)) = (e.load(&t, p), e.load(&t, p + 8)) {
                if (n as u64) < 1000 && f as u64 > crate::exec::DATA {
                    let l = e.load(&t32, p + 16);
                    let file = e.cstr(f as u64, n as u64);
                    loc = format!("{} line {:?}", file.trim_end_matches('\0'), match l { C(x) => x, _ => 0 });
                }
            }
        }
    }
    if std::env::var("SYMEX_BT").is_ok() { eprintln!("panic: {loc} {}", a.name); }
    e.violation(format!("panic: {} at {}", short(a.name), loc))
}
pub fn short(n: &str) -> String { if n.contains("panic_fmt") { "panic".into() } else { n.into() } }
fn h_abort(e: &mut Engine, a: &HookArgs) -> Option<Val> { e.violation(format!("abort: {}", a.name)) }

fn h_getrandom(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let p = addr(e, &a.v[0]);
    let n = addr(e, &a.v[1]);
    for i in 0..n {
        e.rng ^= e.rng << 13; e.rng ^= e.rng >> 7; e.rng ^= e.rng << 17;
        let b = C((e.rng >> 24) as u8 as u128);
        e.set_byte(p + i, &b);
    }
    Some(C(n as u128))
}
fn h_dlsym(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let p = addr(e, &a.v[1]);
    let n = e.cstr(p, 10);
    Some(C(if n.trim_end_matches('\0') == "getrandom" { e.fn_addr(usize::MAX, "getrandom", None) as u128 } else { 0 }))
}
fn h_syscall(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    match &a.v[0] {
        C(318) => { let b = HookArgs { v: &a.v[1..], tys: &a.tys[1..], ret: a.ret, name: a.name }; h_getrandom(e, &b) }
        C(202) => Some(C(0)),
        x => e.error(format!("syscall {x:?}")),
    }
}
fn h_write(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let p = addr(e, &a.v[1]);
    let n = addr(e, &a.v[2]);
    if std::env::var("SYMEX_STDOUT").is_ok() { let s = e.cstr(p, n); eprint!("{s}"); }
    Some(C(n as u128))
}
fn h_errno(e: &mut Engine, _: &HookArgs) -> Option<Val> {
    if e.errno == 0 { e.errno = e.alloc(8, 8); }
    Some(C(e.errno as u128))
}
fn h_clock(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let p = addr(e, &a.v[1]);
    let t: T = Rc::new(Ty::Int(64));
    e.store(&t, &C(1_760_000_000), p);
    e.store(&t, &C(0), p + 8);
    Some(C(0))
}

// ---------------------------------------------------------------- harness interface
fn v_bytes(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    // (ptr, len, alphabet ptr, alphabet len): every byte ranges over the alphabet (all 256 values if empty)
    let (p, n, ap, an) = (addr(e, &a.v[0]), addr(e, &a.v[1]), addr(e, &a.v[2]), addr(e, &a.v[3]));
    let al: Vec<u8> = e.bytes(ap, an).iter().map(|b| match b { C(c) => *c as u8, _ => 0 }).collect();
    let dom: Vec<bool> = (0..256).map(|i| al.is_empty() || al.contains(&(i as u8))).collect();
    let mut l = vec![];
    for i in 0..n {
        let x = e.new_var(8, dom.clone());
        let v = e.ev(x);
        e.set_byte(p + i, &v);
        l.push(v);
    }
    e.inputs.push(l);
    Some(C(0))
}
fn v_choose(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let n = addr(e, &a.v[0]) as usize;
    if n <= 1 { e.inputs.push(vec![C(0)]); return Some(C(0)); }
    if n > 256 { e.error("choose > 256".into()) }
    let dom: Vec<bool> = (0..256).map(|i| i < n).collect();
    let x = e.new_var(8, dom);
    let v = e.ev(x);
    e.inputs.push(vec![v.clone()]);
    let c = e.concretize(&v, 8);
    Some(C(c))
}
/// A symbolic boolean/number below n that is not enumerated.
fn v_sym(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let n = addr(e, &a.v[0]) as usize;
    let dom: Vec<bool> = (0..256).map(|i| i < n).collect();
    let x = e.new_var(8, dom);
    let v = e.ev(x);
    e.inputs.push(vec![v.clone()]);
    let r = e.zext(&v, 8, 64);
    Some(r)
}
fn v_assume(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let w = a.tys[0].ty.bits() as u16;
    let c = e.extract(&a.v[0], w, 0, 1);
    match c {
        C(1) => {}
        C(_) => e.prune(),
        E(x) => {
            if e.eval(x) != 1 {
                match e.feasible(x) { None => e.prune(), Some(m) => e.model = m }
            }
            e.add(x);
        }
        _ => {}
    }
    Some(C(0))
}
fn v_assert(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let w = a.tys[0].ty.bits() as u16;
    let c = e.extract(&a.v[0], w, 0, 1);
    let (p, n) = (addr(e, &a.v[1]), addr(e, &a.v[2]));
    match c {
        C(1) => { e.sh.asserts_concrete.fetch_add(1, SeqCst); }
        C(_) => { let m = e.cstr(p, n); e.violation(m) }
        E(x) => {
            let nx = e.p.not(x);
            let mut md = vec![];
            match e.solve(nx, &mut md) {
                crate::z3::Res::Unsat => { e.sh.asserts_solver.fetch_add(1, SeqCst); }
                crate::z3::Res::Sat => { let m = e.cstr(p, n); e.model = md; e.violation(m) }
                _ => e.error("solver gave up on an assertion".into()),
            }
        }
        _ => {}
    }
    Some(C(0))
}
fn v_cover(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let (p, n) = (addr(e, &a.v[0]), addr(e, &a.v[1]));
    let s = e.cstr(p, n);
    e.covers.push(s);
    Some(C(0))
}
fn v_note(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let (p, n) = (addr(e, &a.v[0]), addr(e, &a.v[1]));
    let s = e.cstr(p, n);
    if std::env::var("SYMEX_NOTES").is_ok() { eprintln!("note: {s}"); }
    e.notes.push(s);
    Some(C(0))
}
fn v_observe(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let (np, nn, p, n) = (addr(e, &a.v[0]), addr(e, &a.v[1]), addr(e, &a.v[2]), addr(e, &a.v[3]));
    let name = e.cstr(np, nn);
    let b = e.bytes(p, n);
    e.observed.push((name, b));
    Some(C(0))
}
fn v_eq(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    // (p, n, q, m) -> bool as one expression, no branching
    let (p, n, q, m) = (addr(e, &a.v[0]), addr(e, &a.v[1]), addr(e, &a.v[2]), addr(e, &a.v[3]));
    if n != m { return Some(C(0)); }
    let mut acc = C(1u128);
    for i in 0..n {
        let (x, y) = (e.byte(p + i), e.byte(q + i));
        let c = e.bin(Op::Eq, 8, &x, &y);
        if let C(1) = c {
            let pair = match (&x, &y) { (E(a), E(b)) => Some((*a, *b)), (E(a), C(b)) => { let b = e.p.c(8, *b); Some((*a, b)) } (C(a), E(b)) => { let a = e.p.c(8, *a); Some((a, *b)) } _ => None };
            if let Some(p) = pair { if e.folded.len() < 20000 { e.folded.push(p); } }
        }
        acc = e.bin(Op::And, 1, &acc, &c);
    }
    let w = a.ret.bits() as u16;
    Some(if w == 1 { acc } else { e.zext(&acc, 1, w) })
}
fn v_tier(e: &mut Engine, _: &HookArgs) -> Option<Val> { Some(C(e.conf.tier as u128)) }
fn v_prune(e: &mut Engine, _: &HookArgs) -> Option<Val> { e.prune() }

// ---------------------------------------------------------------- SHA-256 compression on symbolic data
fn h_sha256(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    // compress256(state: &mut [u32; 8], blocks: &[[u8; 64]])
    let (sp, bp, nb) = (addr(e, &a.v[0]), addr(e, &a.v[1]), addr(e, &a.v[2]));
    for k in 0..nb {
        let st = e.bytes(sp, 32);
        let bl = e.bytes(bp + k * 64, 64);
        let mut inp = st.clone();
        inp.extend(bl);
        let conc: Option<Vec<u8>> = inp.iter().map(|b| match b { C(c) => Some(*c as u8), _ => None }).collect();
        // same input expression -> same output
        let same = e.sha_apps.iter().position(|(i, _)| i.iter().zip(&inp).all(|(x, y)| match (x, y) { (C(a), C(b)) => a == b, (E(a), E(b)) => a == b, _ => false }));
        let out: Vec<Val> = if let Some(k) = same { e.sha_apps[k].1.clone() } else {
            let concrete = conc.is_some();
            let out: Vec<Val> = match conc {
                Some(c) => sha256_block(&c).iter().map(|b| C(*b as u128)).collect(),
                None => (0..32).map(|_| { let x = e.new_var(8, vec![true; 256]); e.ev(x) }).collect(),
            };
            // equal outputs <=> equal inputs (collision resistance is an assumption of the check)
            let apps = e.sha_apps.clone();
            for (i2, o2) in apps {
                if concrete && o2.iter().all(|b| matches!(b, C(_))) { continue; }
                let mut ie = C(1u128);
                for (x, y) in i2.iter().zip(&inp) { let c = e.bin(Op::Eq, 8, x, y); ie = e.bin(Op::And, 1, &ie, &c); }
                let mut oe = C(1u128);
                for (x, y) in o2.iter().zip(&out) { let c = e.bin(Op::Eq, 8, x, y); oe = e.bin(Op::And, 1, &oe, &c); }
                let iff = e.bin(Op::Eq, 1, &ie, &oe);
                if let E(x) = iff {
                    if e.eval(x) != 1 { match e.feasible(x) { Some(m) => e.model = m, None => e.error("hash axioms inconsistent".into()) } }
                    e.add(x);
                }
            }
            e.sha_apps.push((inp, out.clone()));
            out
        };
        e.hash_apps += 1;
        for (i, b) in out.iter().enumerate() { e.set_byte(sp + i as u64, b); }
    }
    Some(C(0))
}
fn sha256_block(c: &[u8]) -> Vec<u8> {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
        0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
        0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
        0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2];
    let mut s: Vec<u32> = (0..8).map(|i| u32::from_le_bytes(c[i * 4..i * 4 + 4].try_into().unwrap())).collect();
    let mut w: Vec<u32> = (0..16).map(|i| u32::from_be_bytes(c[32 + i * 4..36 + i * 4].try_into().unwrap())).collect();
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ w[i - 15] >> 3;
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ w[i - 2] >> 10;
        w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
    }
    let o = s.clone();
    for i in 0..64 {
        let s1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
        let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
        let t1 = s[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
        let mj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
        let t2 = s0.wrapping_add(mj);
        s = vec![t1.wrapping_add(t2), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
    }
    (0..8).flat_map(|i| s[i].wrapping_add(o[i]).to_le_bytes()).collect()
}

// ---------------------------------------------------------------- intrinsics
fn map_lanes(e: &mut Engine, a: &HookArgs, f: &mut dyn FnMut(&mut Engine, &[Val], u16) -> Val) -> Val {
    if let Ty::Vec(n, t) = &**a.ret {
        let w = t.bits() as u16;
        let r = (0..*n as usize).map(|i| {
            let l: Vec<Val> = a.v.iter().map(|x| match x { A(l) => l[i].clone(), o => o.clone() }).collect();
            f(e, &l, w)
        }).collect();
        return A(Rc::new(r));
    }
    f(e, a.v, a.tys[0].ty.bits() as u16)
}
fn i_minmax(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let nm = a.name;
    Some(map_lanes(e, a, &mut |e, v, w| {
        let (op, swap) = if nm.starts_with("llvm.umin") { (Op::Ult, false) } else if nm.starts_with("llvm.umax") { (Op::Ult, true) } else if nm.starts_with("llvm.smin") { (Op::Slt, false) } else { (Op::Slt, true) };
        let c = e.bin(op, w, &v[0], &v[1]);
        if swap { e.ite(w, &c, &v[1], &v[0]) } else { e.ite(w, &c, &v[0], &v[1]) }
    }))
}
fn i_abs(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    Some(map_lanes(e, a, &mut |e, v, w| { let c = e.bin(Op::Slt, w, &v[0], &C(0)); let n = e.bin(Op::Sub, w, &C(0), &v[0]); e.ite(w, &c, &n, &v[0]) }))
}
fn i_cmp3(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let rw = a.ret.bits() as u16;
    let w = a.tys[0].ty.bits() as u16;
    let op = if a.name.starts_with("llvm.scmp") { Op::Slt } else { Op::Ult };
    let lt = e.bin(op, w, &a.v[0], &a.v[1]);
    let gt = e.bin(op, w, &a.v[1], &a.v[0]);
    let r = e.ite(rw, &gt, &C(1), &C(0));
    Some(e.ite(rw, &lt, &C(mask(rw)), &r))
}
fn i_sat(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let nm = a.name;
    Some(map_lanes(e, a, &mut |e, v, w| {
        if nm.starts_with("llvm.usub.sat") {
            let c = e.bin(Op::Ult, w, &v[0], &v[1]);
            let d = e.bin(Op::Sub, w, &v[0], &v[1]);
            e.ite(w, &c, &C(0), &d)
        } else if nm.starts_with("llvm.uadd.sat") {
            let d = e.bin(Op::Add, w, &v[0], &v[1]);
            let c = e.bin(Op::Ult, w, &d, &v[0]);
            e.ite(w, &c, &C(mask(w)), &d)
        } else { e.error(format!("intrinsic {nm}")) }
    }))
}
fn i_ovf(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let w = a.tys[0].ty.bits() as u16;
    let (x, y) = (&a.v[0], &a.v[1]);
    let n = a.name;
    let signed = n.starts_with("llvm.s");
    let op = if n.contains("add.") { Op::Add } else if n.contains("sub.") { Op::Sub } else { Op::Mul };
    let r = e.bin(op, w, x, y);
    let o = match op {
        Op::Mul if w > 64 => match (x, y) {
            (C(a), C(b)) => {
                if signed { let (a, b) = (sx(*a, w), sx(*b, w)); C(a.checked_mul(b).map_or(true, |v| sx(v as u128 & mask(w), w) != v) as u128) }
                else { C(a.checked_mul(*b).map_or(true, |v| v & mask(w) != v) as u128) }
            }
            _ => e.error("symbolic wide multiplication".into()),
        },
        Op::Mul => {
            let w2 = w * 2;
            let (a2, b2) = if signed { (e.sext(x, w, w2), e.sext(y, w, w2)) } else { (e.zext(x, w, w2), e.zext(y, w, w2)) };
            let p = e.bin(Op::Mul, w2, &a2, &b2);
            let back = if signed { e.sext(&r, w, w2) } else { e.zext(&r, w, w2) };
            let q = e.bin(Op::Eq, w2, &p, &back);
            e.not1(&q)
        }
        _ if !signed => if op == Op::Add { e.bin(Op::Ult, w, &r, x) } else { e.bin(Op::Ult, w, x, y) },
        _ => {
            let s = |e: &mut Engine, v: &Val| e.extract(v, w, w - 1, 1);
            let (sx_, sy, sr) = (s(e, x), s(e, y), s(e, &r));
            // add: same signs, different result; sub: different signs, result differs from x
            let d1 = e.bin(Op::Xor, 1, &sx_, &sy);
            let d1 = if op == Op::Add { e.not1(&d1) } else { d1 };
            let d2 = e.bin(Op::Xor, 1, &sx_, &sr);
            e.bin(Op::And, 1, &d1, &d2)
        }
    };
    Some(A(Rc::new(vec![r, o])))
}
fn i_bits(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let nm = a.name;
    Some(map_lanes(e, a, &mut |e, v, w| match (&v[0], nm) {
        (C(x), n) if n.starts_with("llvm.ctpop") => C(x.count_ones() as u128),
        (C(x), n) if n.starts_with("llvm.ctlz") => C(if *x == 0 { w as u128 } else { (x.leading_zeros() as u16 - (128 - w)) as u128 }),
        (C(x), n) if n.starts_with("llvm.cttz") => C(if *x == 0 { w as u128 } else { x.trailing_zeros() as u128 }),
        (C(x), n) if n.starts_with("llvm.bitreverse") => C(x.reverse_bits() >> (128 - w)),
        (x, n) => {
            // bit by bit
            let x = x.clone();
            if n.starts_with("llvm.ctpop") {
                let mut s = C(0);
                for i in 0..w { let b = e.extract(&x, w, i, 1); let z = e.zext(&b, 1, w); s = e.bin(Op::Add, w, &s, &z); }
                s
            } else if n.starts_with("llvm.bitreverse") { e.error("bitreverse".into()) } else {
                // decided bit by bit: the result is an index
                let lead = n.starts_with("llvm.ctlz");
                for k in 0..w {
                    let i = if lead { w - 1 - k } else { k };
                    let hit = match e.extract(&x, w, i, 1) { C(b) => b == 1, E(b) => e.decide(b), _ => false };
                    if hit { return C(k as u128); }
                }
                C(w as u128)
            }
        }
    }))
}
fn i_bswap(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    Some(map_lanes(e, a, &mut |e, v, w| {
        let n = w / 8;
        let mut acc = e.extract(&v[0], w, w - 8, 8);
        for i in 1..n { let b = e.extract(&v[0], w, w - 8 * (i + 1), 8); acc = e.concat(&b, 8, &acc, 8 * i); }
        acc
    }))
}
fn i_fsh(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let left = a.name.starts_with("llvm.fshl");
    Some(map_lanes(e, a, &mut |e, v, w| {
        let k = e.concretize(&v[2], w) as u16 % w;
        if k == 0 { return if left { v[0].clone() } else { v[1].clone() }; }
        if w == 64 && (matches!((&v[0], &v[1]), (E(SIP), E(SIP))) || matches!(if left { k } else { 64 - k }, 13 | 17 | 21) && match (&v[0], &v[1]) { (C(x), C(y)) => x == y, (E(x), E(y)) => x == y, _ => false }) { return E(SIP); }
        if left {
            let h = e.extract(&v[0], w, 0, w - k);
            let l = e.extract(&v[1], w, w - k, k);
            e.concat(&h, w - k, &l, k)
        } else {
            let h = e.extract(&v[0], w, 0, k);
            let l = e.extract(&v[1], w, k, w - k);
            e.concat(&h, k, &l, w - k)
        }
    }))
}
fn i_reduce(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let (l, t) = match (&a.v[0], &*a.tys[0].ty) { (A(l), Ty::Vec(_, t)) => (l.clone(), t.clone()), _ => panic!() };
    let w = t.bits() as u16;
    let k = a.name.trim_start_matches("llvm.vector.reduce.");
    let mut acc = l[0].clone();
    for x in &l[1..] {
        acc = if k.starts_with("add") { e.bin(Op::Add, w, &acc, x) } else if k.starts_with("or") { e.bin(Op::Or, w, &acc, x) } else if k.starts_with("and") { e.bin(Op::And, w, &acc, x) } else if k.starts_with("xor") { e.bin(Op::Xor, w, &acc, x) } else if k.starts_with("mul") { e.bin(Op::Mul, w, &acc, x) } else {
            let c = if k.starts_with('u') { e.bin(Op::Ult, w, &acc, x) } else { e.bin(Op::Slt, w, &acc, x) };
            if k.contains("min") { e.ite(w, &c, &acc, x) } else { e.ite(w, &c, x, &acc) }
        };
    }
    Some(acc)
}
fn i_first(_: &mut Engine, a: &HookArgs) -> Option<Val> { Some(a.v[0].clone()) }
fn i_loadrel(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let p = addr(e, &a.v[0]);
    let o = &a.v[1];
    let w = a.tys[1].ty.bits() as u16;
    let o = e.concretize(o, w) as u64;
    let t: T = Rc::new(Ty::Int(32));
    let v = e.load(&t, p.wrapping_add(o));
    let d = match v { C(x) => sx(x, 32) as i64 as u64, _ => e.error("load.relative".into()) };
    Some(C(p.wrapping_add(d) as u128))
}
fn i_ptrmask(e: &mut Engine, a: &HookArgs) -> Option<Val> { Some(e.bin(Op::And, 64, &a.v[0], &a.v[1])) }
fn i_fabs(e: &mut Engine, a: &HookArgs) -> Option<Val> { let w = a.ret.bits() as u16; Some(e.bin(Op::And, w, &a.v[0], &C(mask(w - 1)))) }
fn i_f1(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    match (&a.v[0], &**a.ret) {
        (C(x), Ty::Double) => {
            let d = f64::from_bits(*x as u64);
            let n = a.name;
            let r = if n.starts_with("llvm.floor") { d.floor() } else if n.starts_with("llvm.ceil") { d.ceil() } else if n.starts_with("llvm.trunc") { d.trunc() } else if n.starts_with("llvm.sqrt") { d.sqrt() } else if n.starts_with("llvm.rint") { d.round_ties_even() } else { e.error(format!("intrinsic {n}")) };
            Some(C(r.to_bits() as u128))
        }
        _ => e.error(format!("intrinsic {}", a.name)),
    }
}
fn i_fpsat(e: &mut Engine, a: &HookArgs) -> Option<Val> {
    let w = a.ret.bits() as u16;
    match (&a.v[0], &*a.tys[0].ty) {
        (C(x), t) => {
            let d = match t { Ty::Float => f32::from_bits(*x as u32) as f64, _ => f64::from_bits(*x as u64) };
            Some(C(if a.name.starts_with("llvm.fptoui") { (d as u128).min(mask(w)) } else { let m = (mask(w) >> 1) as i128; (d as i128).clamp(-m - 1, m) as u128 & mask(w) }))
        }
        _ => e.error("symbolic fp".into()),
    }
}
fn bad_intr(e: &mut Engine, a: &HookArgs) -> Option<Val> { e.error(format!("intrinsic {}", a.name)) }

pub fn inline_asm(e: &mut Engine, txt: &str, ret: &T) -> Val {
    if txt.contains("cpuid") || txt.is_empty() || txt.contains("pause") || txt.contains("xgetbv") { return Engine::zero(ret); }
    e.error(format!("inline asm {txt}"))
}

pub fn find(n: &str) -> Option<Hook> {
    if let Some(r) = n.strip_prefix("llvm.") {
        let s = |p: &str| r.starts_with(p);
        return Some(if s("memcpy") || s("memmove") { h_memcpy } else if s("memset") { h_memset }
            else if s("lifetime") || s("assume") || s("experimental.noalias") || s("dbg.") || s("invariant") || s("prefetch") || s("x86.sse2.pause") || s("donothing") || s("va_") || s("sideeffect") { unit }
            else if s("umin") || s("umax") || s("smin") || s("smax") { i_minmax }
            else if s("abs.") { i_abs }
            else if s("scmp") || s("ucmp") { i_cmp3 }
            else if s("usub.sat") || s("uadd.sat") { i_sat }
            else if r.contains(".with.overflow.") { i_ovf }
            else if s("ctpop") || s("ctlz") || s("cttz") || s("bitreverse") { i_bits }
            else if s("bswap") { i_bswap }
            else if s("fshl") || s("fshr") { i_fsh }
            else if s("vector.reduce.") { i_reduce }
            else if s("expect") || s("threadlocal.address") || s("launder") || s("strip") || s("ssa.copy") || s("arithmetic.fence") { i_first }
            else if s("is.constant") { unit }
            else if s("load.relative") { i_loadrel }
            else if s("ptrmask") { i_ptrmask }
            else if s("fabs") { i_fabs }
            else if s("fptoui.sat") || s("fptosi.sat") { i_fpsat }
            else if s("floor") || s("ceil") || s("trunc.") || s("sqrt") || s("rint") { i_f1 }
            else if s("trap") || s("ubsantrap") { h_abort }
            else { bad_intr });
    }
    let h: Hook = match n {
        "malloc" => h_malloc, "calloc" => h_calloc, "realloc" => h_crealloc, "free" => unit, "posix_memalign" => h_memalign,
        "memcpy" | "memmove" => h_memcpy, "memset" => h_memset, "bcmp" => h_bcmp, "memcmp" => h_memcmp, "strlen" => h_strlen,
        "memchr" | "memrchr" => h_memchr_libc,
        "getenv" | "secure_getenv" => unit,
        "getrandom" => h_getrandom,
        "dlsym" => h_dlsym,
        "syscall" => h_syscall,
        "write" => h_write,
        "__errno_location" => h_errno,
        "clock_gettime" => h_clock,
        "abort" | "exit" | "_exit" => h_abort,
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" | "pthread_rwlock_rdlock" | "pthread_rwlock_unlock" => unit,
        "gettid" | "getpid" | "pthread_self" => one,
        "vsym_bytes" => v_bytes, "vsym_choose" => v_choose, "vsym_sym" => v_sym, "vsym_assume" => v_assume, "vsym_assert" => v_assert, "vsym_cover" => v_cover,
        "vsym_note" => v_note, "vsym_observe" => v_observe, "vsym_eq" => v_eq, "vsym_prune" => v_prune, "vsym_tier" => v_tier,
        _ => {
            if n.contains("___rustc") {
                if n.ends_with("14___rust_dealloc") || n.contains("___rust_no_alloc_shim") { return Some(unit); }
                if n.ends_with("19___rust_alloc_zeroed") || n.ends_with("12___rust_alloc") { return Some(h_alloc); }
                if n.ends_with("14___rust_realloc") { return Some(h_realloc); }
                if n.contains("rust_begin_unwind") || n.contains("alloc_error_handler") { return Some(h_abort); }
            }
            if n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind") || n.contains("9panicking19panic_cannot_unwind") { return Some(h_panic); }
            if n.contains("5alloc18handle_alloc_error") || n.contains("7raw_vec12handle_error") { return Some(h_abort); }
            if n.contains("4core5slice6memchr14memchr_aligned") || n.contains("4core5slice6memchr7memrchr") { return Some(h_core_memchr); }
            if n.contains("9SliceRead14skip_to_escape") { return Some(h_skip_to_escape); }
            if n.contains("4sha26sha25611compress256") { return Some(h_sha256); }
            return None;
        }
    };
    Some(h)
}
