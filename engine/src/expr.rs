//! Hash-consed bit-vector expressions (width 1..=128) with a normal form tuned to byte-parsing
//! code: every function of one small (<= 10 bit) sub-expression is kept as a lookup table.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Lut(Ex, Rc<Vec<u64>>),
    Bin(Op, Ex, Ex),
    Extract(Ex, u8),
    Concat(Ex, Ex),
    Sext(Ex),
    Ite(Ex, Ex, Ex),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u16,
}

pub struct VarInfo {
    pub w: u16,
    pub dom0: Vec<bool>, // permanent domain, 2^w entries (w <= 8); empty for wider variables
}

#[derive(Default)]
pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Ex>,
    pub vars: Vec<VarInfo>,
    masks: Vec<u128>,
}

/// The state of a SipHash that has taken a round: hash tables work whatever the hash is, so every hash is taken to be
/// zero, and keys that are symbolic need no reasoning about hashes. It stays itself under the operations of the
/// algorithm (additions, exclusive ors, rotations) and is zero to everything else.
pub const SIP: Ex = 0;
pub fn mask(w: u16) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn fold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y)) as u128 & m }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y)) as u128 & m }
        }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b as u32) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b as u32 },
        Op::AShr => {
            let s = sx(a, w);
            let k = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((s >> k.min(127)) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
    }
}
pub fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

const MAXBASE: u16 = 10;

impl Pool {
    pub fn new() -> Self {
        let mut p = Self::default();
        p.nodes.push(Node { k: K::Const(0), w: 64 });
        p.masks.push(0);
        p
    }

    fn intern(&mut self, k: K, w: u16) -> Ex {
        debug_assert!(w >= 1 && w <= 128);
        let n = Node { k, w };
        if let Some(&e) = self.map.get(&n) { return e; }
        let m = self.calc_mask(&n);
        let e = self.nodes.len() as Ex;
        self.nodes.push(n.clone());
        self.masks.push(m);
        self.map.insert(n, e);
        e
    }
    fn calc_mask(&self, n: &Node) -> u128 {
        let full = mask(n.w);
        match &n.k {
            K::Const(c) => *c,
            K::Var(v) => {
                let d = &self.vars[*v as usize].dom0;
                if d.is_empty() { full } else {
                    d.iter().enumerate().filter(|(_, &b)| b).fold(0u128, |m, (i, _)| m | i as u128)
                }
            }
            K::Lut(x, t) => {
                let dom = self.domain(*x);
                t.iter().enumerate().filter(|(i, _)| dom.map_or(true, |d| d[*i])).fold(0u128, |m, (_, v)| m | *v as u128)
            }
            K::Bin(Op::And, a, b) => self.masks[*a as usize] & self.masks[*b as usize],
            K::Bin(Op::Or, a, b) | K::Bin(Op::Xor, a, b) => self.masks[*a as usize] | self.masks[*b as usize],
            K::Bin(op, _, _) if is_cmp(*op) => 1,
            K::Bin(Op::URem, _, b) | K::Bin(Op::UDiv, b, _) => {
                let m = self.masks[*b as usize];
                if m == 0 { full } else { (u128::MAX >> m.leading_zeros()) & full }
            }
            K::Extract(a, lo) => (self.masks[*a as usize] >> *lo) & full,
            K::Concat(a, b) => {
                let wb = self.nodes[*b as usize].w;
                ((self.masks[*a as usize] << wb) | self.masks[*b as usize]) & full
            }
            K::Ite(_, a, b) => self.masks[*a as usize] | self.masks[*b as usize],
            _ => full,
        }
    }
    fn domain(&self, x: Ex) -> Option<&Vec<bool>> {
        if let K::Var(v) = self.nodes[x as usize].k {
            let d = &self.vars[v as usize].dom0;
            if d.is_empty() { None } else { Some(d) }
        } else { None }
    }
    /// The conjunction of equalities exactly as written, for the solver rather than the simplifier to decide.
    pub fn raw_equal(&mut self, l: &[(Ex, Ex)]) -> Ex {
        let mut acc: Option<Ex> = None;
        for &(a, b) in l {
            let e = self.intern(K::Bin(Op::Eq, a, b), 1);
            acc = Some(match acc { None => e, Some(x) => self.intern(K::Bin(Op::And, x, e), 1) });
        }
        acc.unwrap()
    }
    pub fn w(&self, e: Ex) -> u16 { self.nodes[e as usize].w }
    pub fn maskof(&self, e: Ex) -> u128 { self.masks[e as usize] }
    pub fn as_const(&self, e: Ex) -> Option<u128> {
        if let K::Const(c) = self.nodes[e as usize].k { Some(c) } else { None }
    }
    pub fn c(&mut self, w: u16, v: u128) -> Ex { self.intern(K::Const(v & mask(w)), w) }
    pub fn var(&mut self, w: u16, dom0: Vec<bool>) -> Ex {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { w, dom0 });
        self.intern(K::Var(id), w)
    }
    /// (base, table) if `e` is a function of one small base expression.
    pub fn as_lut(&self, e: Ex) -> Option<(Ex, Option<Rc<Vec<u64>>>)> {
        let n = &self.nodes[e as usize];
        match &n.k {
            K::Var(_) if n.w <= 8 => Some((e, None)),
            K::Lut(x, t) => Some((*x, Some(t.clone()))),
            _ => None,
        }
    }
    fn lut_at(t: &Option<Rc<Vec<u64>>>, i: usize) -> u64 {
        match t { None => i as u64, Some(t) => t[i] }
    }
    pub fn mk_lut(&mut self, x: Ex, mut t: Vec<u64>, w: u16) -> Ex {
        let xw = self.w(x);
        debug_assert!(w <= 64 && t.len() == 1 << xw);
        if let K::Lut(y, u) = self.nodes[x as usize].k.clone() {
            let t2 = u.iter().map(|i| t[*i as usize]).collect();
            return self.mk_lut(y, t2, w);
        }
        let mut first = None;
        let mut constant = true;
        let mut ident = w >= xw;
        {
            let dom = self.domain(x).cloned();
            for i in 0..t.len() {
                if dom.as_ref().map_or(true, |d| d[i]) {
                    match first { None => first = Some(t[i]), Some(f) => if f != t[i] { constant = false } }
                    if t[i] != i as u64 { ident = false }
                } else {
                    t[i] = 0; // canonical outside the domain
                }
            }
        }
        if constant { return self.c(w, first.unwrap_or(0) as u128); }
        if ident {
            if w == xw { return x; }
            if !matches!(self.nodes[x as usize].k, K::Var(_)) {
                return self.zext(x, w);
            }
        }
        self.intern(K::Lut(x, Rc::new(t)), w)
    }

    pub fn not(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let ones = self.c(w, mask(w));
        self.bin(Op::Xor, a, ones)
    }

    fn try_lut2(&mut self, op: Op, a: Ex, b: Ex, rw: u16) -> Option<Ex> {
        let w = self.w(a);
        if rw > 64 || w > 64 { return None; }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let (x, ta, tb): (Ex, Box<dyn Fn(usize) -> u64>, Box<dyn Fn(usize) -> u64>) = match (ca, cb) {
            (None, Some(c)) => { let (x, t) = self.as_lut(a)?; (x, Box::new(move |i| Self::lut_at(&t, i)), Box::new(move |_| c as u64)) }
            (Some(c), None) => { let (x, t) = self.as_lut(b)?; (x, Box::new(move |_| c as u64), Box::new(move |i| Self::lut_at(&t, i))) }
            (None, None) => {
                let (x, t) = self.as_lut(a)?;
                let (y, u) = self.as_lut(b)?;
                if x != y { return None; }
                (x, Box::new(move |i| Self::lut_at(&t, i)), Box::new(move |i| Self::lut_at(&u, i)))
            }
            _ => return None,
        };
        let n = 1usize << self.w(x);
        let tab: Vec<u64> = (0..n).map(|i| fold(op, w, ta(i) as u128, tb(i) as u128) as u64).collect();
        Some(self.mk_lut(x, tab, rw))
    }

    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch {:?} {:?} {:?}", op, self.nodes[a as usize], self.nodes[b as usize]);
        let rw = if is_cmp(op) { 1 } else { w };
        if (a == SIP || b == SIP) && matches!(op, Op::Add | Op::Xor) { return SIP; }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.c(rw, fold(op, w, x, y)); }
        // constants to the right for commutative operators
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        let (a, b, ca, cb) = if comm && ca.is_some() || (comm && cb.is_none() && a > b) { (b, a, cb, ca) } else { (a, b, ca, cb) };
        let m = mask(w);
        // identities
        match op {
            Op::Add => if cb == Some(0) { return a; },
            Op::Sub => { if cb == Some(0) { return a; } if a == b { return self.c(w, 0); }
                if let Some(c) = cb { let nc = self.c(w, c.wrapping_neg()); return self.bin(Op::Add, a, nc); } }
            Op::Mul => { if cb == Some(0) { return b; } if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.c(w, c.trailing_zeros() as u128); return self.bin(Op::Shl, a, k); } } }
            Op::UDiv => if let Some(c) = cb { if c == 1 { return a; } if c.is_power_of_two() { let k = self.c(w, c.trailing_zeros() as u128); return self.bin(Op::LShr, a, k); } },
            Op::URem => if let Some(c) = cb { if c.is_power_of_two() { let k = self.c(w, c - 1); return self.bin(Op::And, a, k); } },
            Op::And => { if cb == Some(0) { return b; } if cb == Some(m) || a == b { return a; }
                if let Some(c) = cb { if self.maskof(a) & !c == 0 { return a; } } }
            Op::Or => { if cb == Some(0) || a == b { return a; } if cb == Some(m) { return b; } }
            Op::Xor => { if cb == Some(0) { return a; } if a == b { return self.c(w, 0); } }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return a; }
            }
            Op::Eq => { if a == b { return self.c(1, 1); }
                if w == 1 { if cb == Some(1) { return a; } if cb == Some(0) { return self.not(a); } }
                if let Some(c) = cb { if c & !self.maskof(a) != 0 { return self.c(1, 0); } } }
            Op::Ult => { if a == b || cb == Some(0) { return self.c(1, 0); }
                if let Some(c) = cb { if self.maskof(a) < c { return self.c(1, 1); } if c == 1 { let z = self.c(w, 0); return self.bin(Op::Eq, a, z); } }
                if let Some(c) = ca { if c >= self.maskof(b) { return self.c(1, 0); } if c == 0 { let z = self.c(w, 0); let e = self.bin(Op::Eq, b, z); return self.not(e); } } }
            Op::Ule => { if a == b { return self.c(1, 1); } let r = self.bin(Op::Ult, b, a); return self.not(r); }
            Op::Slt => { if a == b { return self.c(1, 0); } }
            Op::Sle => { if a == b { return self.c(1, 1); } let r = self.bin(Op::Slt, b, a); return self.not(r); }
            _ => {}
        }
        if let Some(e) = self.try_lut2(op, a, b, rw) { return e; }
        // structural rules
        match op {
            Op::Shl => if let Some(c) = cb {
                if c >= w as u128 { return self.c(w, 0); }
                let k = c as u16;
                let lo = self.extract(a, 0, w - k);
                let z = self.c(k, 0);
                return self.concat(lo, z);
            },
            Op::LShr => if let Some(c) = cb {
                if c >= w as u128 { return self.c(w, 0); }
                let k = c as u16;
                let hi = self.extract(a, k, w - k);
                return self.zext(hi, w);
            },
            Op::AShr => if let Some(c) = cb {
                let k = if c >= w as u128 { w - 1 } else { c as u16 };
                let hi = self.extract(a, k, w - k);
                return self.sext(hi, w);
            },
            Op::And | Op::Or | Op::Xor => {
                if w > 1 {
                    if let Some(c) = cb {
                        // cut the constant into runs of equal bits
                        let concat_a = matches!(self.nodes[a as usize].k, K::Concat(..));
                        if op != Op::Xor || concat_a {
                            let mut runs = vec![];
                            let mut i = 0u16;
                            while i < w {
                                let bit = (c >> i) & 1;
                                let mut j = i + 1;
                                while j < w && (c >> j) & 1 == bit { j += 1; }
                                runs.push((i, j - i, bit == 1));
                                i = j;
                            }
                            if runs.len() <= 20 && (runs.len() > 1) {
                                let mut acc: Option<Ex> = None;
                                for (lo, len, one) in runs {
                                    let part = match (op, one) {
                                        (Op::And, true) | (Op::Or, false) | (Op::Xor, false) => self.extract(a, lo, len),
                                        (Op::And, false) => self.c(len, 0),
                                        (Op::Or, true) => self.c(len, mask(len)),
                                        (_, _) => { let x = self.extract(a, lo, len); self.not(x) }
                                    };
                                    acc = Some(match acc { None => part, Some(l) => self.concat(part, l) });
                                }
                                return acc.unwrap();
                            }
                            if op == Op::Xor && runs.len() == 1 && concat_a {
                                if let K::Concat(h, l) = self.nodes[a as usize].k {
                                    let (nh, nl) = (self.not(h), self.not(l));
                                    return self.concat(nh, nl);
                                }
                            }
                        }
                    } else {
                        // concat op concat with the same split
                        if let (K::Concat(h1, l1), K::Concat(h2, l2)) = (self.nodes[a as usize].k.clone(), self.nodes[b as usize].k.clone()) {
                            if self.w(l1) == self.w(l2) {
                                let h = self.bin(op, h1, h2);
                                let l = self.bin(op, l1, l2);
                                return self.concat(h, l);
                            }
                        }
                        if op != Op::And { if let Some(e) = self.disjoint(a, b) { return e; } }
                    }
                }
                if w == 1 {
                    // x & !x, x | !x
                    let na = self.not_of(a);
                    let nb = self.not_of(b);
                    if na == Some(b) || nb == Some(a) {
                        return self.c(1, if op == Op::And { 0 } else { 1 });
                    }
                    if op == Op::Xor && cb == Some(1) {
                        if let K::Bin(Op::Xor, x, y) = self.nodes[a as usize].k {
                            if self.as_const(y) == Some(1) { return x; }
                        }
                    }
                }
            }
            Op::Add => {
                if let Some(c) = cb {
                    if let K::Bin(Op::Add, x, y) = self.nodes[a as usize].k {
                        if let Some(c1) = self.as_const(y) {
                            let s = self.c(w, c.wrapping_add(c1));
                            return self.bin(Op::Add, x, s);
                        }
                    }
                } else if let Some(e) = self.disjoint(a, b) { return e; }
                // hoist constants
                if cb.is_none() {
                    for (p, q) in [(a, b), (b, a)] {
                        if let K::Bin(Op::Add, x, y) = self.nodes[p as usize].k {
                            if self.as_const(y).is_some() {
                                let s = self.bin(Op::Add, x, q);
                                return self.bin(Op::Add, s, y);
                            }
                        }
                    }
                }
            }
            Op::Eq => {
                if let K::Concat(h, l) = self.nodes[a as usize].k {
                    if cb.is_some() || matches!(self.nodes[b as usize].k, K::Concat(..)) {
                        let wl = self.w(l);
                        let bl = self.extract(b, 0, wl);
                        let bh = self.extract(b, wl, w - wl);
                        let e1 = self.bin(Op::Eq, h, bh);
                        if self.as_const(e1) == Some(0) { return e1; }
                        let e2 = self.bin(Op::Eq, l, bl);
                        return self.bin(Op::And, e1, e2);
                    }
                }
                if let K::Concat(h, l) = self.nodes[b as usize].k {
                    let _ = (h, l);
                    if ca.is_some() { return self.bin(Op::Eq, b, a); }
                }
                if let Some(c) = cb {
                    if let K::Bin(Op::Add, x, y) = self.nodes[a as usize].k {
                        if let Some(c1) = self.as_const(y) {
                            let d = self.c(w, c.wrapping_sub(c1));
                            return self.bin(Op::Eq, x, d);
                        }
                    }
                    if let K::Bin(Op::Xor, x, y) = self.nodes[a as usize].k {
                        if let Some(c1) = self.as_const(y) {
                            let d = self.c(w, c ^ c1);
                            return self.bin(Op::Eq, x, d);
                        }
                    }
                    if let K::Sext(x) = self.nodes[a as usize].k {
                        let wx = self.w(x);
                        let cx = c & mask(wx);
                        if sx(cx, wx) as u128 & m != c { return self.c(1, 0); }
                        let d = self.c(wx, cx);
                        return self.bin(Op::Eq, x, d);
                    }
                }
            }
            Op::Ult => {
                let top = self.maskof(a) | self.maskof(b);
                let need = 128 - top.leading_zeros() as u16;
                if need < w {
                    let k = need.max(1);
                    let x = self.extract(a, 0, k);
                    let y = self.extract(b, 0, k);
                    return self.bin(Op::Ult, x, y);
                }
            }
            Op::Slt => {
                let top = self.maskof(a) | self.maskof(b);
                if top >> (w - 1) & 1 == 0 { return self.bin(Op::Ult, a, b); }
                if cb == Some(0) { return self.extract(a, w - 1, 1); }
                if cb == Some(1) { // x < 1  <=>  x <= 0
                    let z = self.c(w, 0);
                    let s = self.extract(a, w - 1, 1);
                    let e = self.bin(Op::Eq, a, z);
                    return self.bin(Op::Or, s, e);
                }
                if ca == Some(m) { // -1 < x
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
            }
            _ => {}
        }
        // push through ite with constant arms
        if let Some(e) = self.push_ite(op, a, b) { return e; }
        self.intern(K::Bin(op, a, b), rw)
    }
    fn push_ite(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        if self.as_const(b).is_some() {
            if let K::Ite(c, x, y) = self.nodes[a as usize].k {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let p = self.bin(op, x, b);
                    let q = self.bin(op, y, b);
                    return Some(self.ite(c, p, q));
                }
            }
        }
        if self.as_const(a).is_some() {
            if let K::Ite(c, x, y) = self.nodes[b as usize].k {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let p = self.bin(op, a, x);
                    let q = self.bin(op, a, y);
                    return Some(self.ite(c, p, q));
                }
            }
        }
        None
    }
    fn not_of(&self, a: Ex) -> Option<Ex> {
        if let K::Bin(Op::Xor, x, y) = self.nodes[a as usize].k {
            if self.as_const(y) == Some(1) { return Some(x); }
        }
        None
    }
    /// a | b (= a + b = a ^ b) when no bit can be set in both: rebuilt as a concatenation.
    fn disjoint(&mut self, a: Ex, b: Ex) -> Option<Ex> {
        let (ma, mb) = (self.maskof(a), self.maskof(b));
        if ma & mb != 0 || ma == 0 || mb == 0 { return None; }
        let w = self.w(a);
        for (hi, lo) in [(a, b), (b, a)] {
            let (mh, ml) = (self.maskof(hi), self.maskof(lo));
            let k = mh.trailing_zeros() as u16;
            let l = 128 - ml.leading_zeros() as u16;
            if k >= l && k > 0 && k < w {
                let h = self.extract(hi, k, w - k);
                let l = self.extract(lo, 0, k);
                return Some(self.concat(h, l));
            }
        }
        // split at the lowest boundary where both have a clean cut
        for (p, q) in [(a, b), (b, a)] {
            let (mp, mq) = (self.maskof(p), self.maskof(q));
            let lp = mp.trailing_zeros() as u16;
            if lp > 0 && lp < w && mq & mask(lp) != 0 {
                let qh = self.extract(q, lp, w - lp);
                let ql = self.extract(q, 0, lp);
                let ph = self.extract(p, lp, w - lp);
                let h = self.bin(Op::Or, ph, qh);
                return Some(self.concat(h, ql));
            }
        }
        None
    }

    pub fn extract(&mut self, a: Ex, lo: u16, len: u16) -> Ex {
        let w = self.w(a);
        debug_assert!(lo + len <= w && len > 0);
        if len == w { return a; }
        if self.maskof(a) >> lo & mask(len) == 0 { return self.c(len, 0); }
        let k = self.nodes[a as usize].k.clone();
        match k {
            K::Const(c) => return self.c(len, c >> lo),
            K::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl { return self.extract(h, lo - wl, len); }
                if lo + len <= wl { return self.extract(l, lo, len); }
                let x = self.extract(h, 0, lo + len - wl);
                let y = self.extract(l, lo, wl - lo);
                return self.concat(x, y);
            }
            K::Extract(x, l2) => return self.extract(x, lo + l2 as u16, len),
            K::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let p = self.extract(x, lo, len);
                let q = self.extract(y, lo, len);
                return self.bin(op, p, q);
            }
            K::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, 0, len);
                let q = self.extract(y, 0, len);
                return self.bin(op, p, q);
            }
            K::Ite(c, x, y) => {
                let p = self.extract(x, lo, len);
                let q = self.extract(y, lo, len);
                return self.ite(c, p, q);
            }
            K::Sext(x) => {
                let wx = self.w(x);
                if lo + len <= wx { return self.extract(x, lo, len); }
                if lo < wx { let p = self.extract(x, lo, wx - lo); return self.sext(p, len); }
                let s = self.extract(x, wx - 1, 1);
                return self.sext(s, len);
            }
            _ => {}
        }
        if w <= 64 {
            if let Some((x, t)) = self.as_lut(a) {
                let n = 1usize << self.w(x);
                let tab = (0..n).map(|i| (Self::lut_at(&t, i) >> lo) & mask(len) as u64).collect();
                return self.mk_lut(x, tab, len);
            }
        }
        self.intern(K::Extract(a, lo as u8), len)
    }

    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) { return self.c(w, x << wl | y); }
        // right-associate
        if let K::Concat(a, b) = self.nodes[h as usize].k {
            let r = self.concat(b, l);
            return self.concat(a, r);
        }
        // merge with the head of l
        if let K::Concat(a, b) = self.nodes[l as usize].k {
            if let Some(m) = self.merge(h, a) { return self.concat(m, b); }
        } else if let Some(m) = self.merge(h, l) { return m; }
        self.intern(K::Concat(h, l), w)
    }
    fn merge(&mut self, h: Ex, l: Ex) -> Option<Ex> {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) { return Some(self.c(w, x << wl | y)); }
        if let (K::Extract(a, lo1), K::Extract(b, lo2)) = (self.nodes[h as usize].k.clone(), self.nodes[l as usize].k.clone()) {
            if a == b && lo1 as u16 == lo2 as u16 + wl { return Some(self.extract(a, lo2 as u16, w)); }
        }
        if w <= 64 {
            let lh = self.as_lut(h);
            let ll = self.as_lut(l);
            match (lh, ll, self.as_const(h), self.as_const(l)) {
                (Some((x, t)), Some((y, u)), _, _) if x == y => {
                    let n = 1usize << self.w(x);
                    let tab = (0..n).map(|i| Self::lut_at(&t, i) << wl | Self::lut_at(&u, i)).collect();
                    return Some(self.mk_lut(x, tab, w));
                }
                // zero-extension of a table (only zero, so that byte strings stay concatenations)
                (None, Some((x, t)), Some(c), _) if c == 0 => {
                    let n = 1usize << self.w(x);
                    let tab = (0..n).map(|i| Self::lut_at(&t, i)).collect::<Vec<u64>>();
                    if matches!(self.nodes[x as usize].k, K::Var(_)) {
                        return Some(self.mk_lut(x, tab, w));
                    }
                }
                _ => {}
            }
        }
        None
    }
    pub fn zext(&mut self, a: Ex, w: u16) -> Ex {
        let wa = self.w(a);
        if wa == w { return a; }
        let z = self.c(w - wa, 0);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: Ex, w: u16) -> Ex {
        let wa = self.w(a);
        if wa == w { return a; }
        if self.maskof(a) >> (wa - 1) & 1 == 0 { return self.zext(a, w); }
        if let Some(c) = self.as_const(a) { return self.c(w, sx(c, wa) as u128); }
        if let K::Sext(x) = self.nodes[a as usize].k { return self.sext(x, w); }
        if w <= 64 {
            if let Some((x, t)) = self.as_lut(a) {
                let n = 1usize << self.w(x);
                let tab = (0..n).map(|i| (sx(Self::lut_at(&t, i) as u128, wa) as u128 & mask(w)) as u64).collect();
                return self.mk_lut(x, tab, w);
            }
        }
        if let K::Ite(c, x, y) = self.nodes[a as usize].k {
            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                let p = self.sext(x, w);
                let q = self.sext(y, w);
                return self.ite(c, p, q);
            }
        }
        self.intern(K::Sext(a), w)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(v) = self.as_const(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        if let Some(n) = self.not_of(c) { return self.ite(n, b, a); }
        let w = self.w(a);
        let (ka, kb) = (self.as_const(a), self.as_const(b));
        if w == 1 {
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        if w <= 64 {
            if let Some((x, t)) = self.as_lut(c) {
                let la = if let Some(k) = ka { Some(None::<Option<Rc<Vec<u64>>>>).map(|_| (k as u64, None, true)) } else {
                    self.as_lut(a).filter(|(y, _)| *y == x).map(|(_, t)| (0, Some(t), false)) };
                let lb = if let Some(k) = kb { Some((k as u64, None, true)) } else {
                    self.as_lut(b).filter(|(y, _)| *y == x).map(|(_, t)| (0, Some(t), false)) };
                if let (Some(la), Some(lb)) = (la, lb) {
                    let get = |s: &(u64, Option<Option<Rc<Vec<u64>>>>, bool), i: usize| if s.2 { s.0 } else { Self::lut_at(s.1.as_ref().unwrap(), i) };
                    let n = 1usize << self.w(x);
                    let tab = (0..n).map(|i| if Self::lut_at(&t, i) == 1 { get(&la, i) } else { get(&lb, i) }).collect();
                    return self.mk_lut(x, tab, w);
                }
            }
        }
        // ite(c, ite(c,x,_), b)
        if let K::Ite(c2, x, _) = self.nodes[a as usize].k { if c2 == c { return self.ite(c, x, b); } }
        if let K::Ite(c2, _, y) = self.nodes[b as usize].k { if c2 == c { return self.ite(c, a, y); } }
        self.intern(K::Ite(c, a, b), w)
    }

    /// Constant leaves of a nest of ites, if that is all there is.
    pub fn ite_leaves(&self, e: Ex, out: &mut Vec<u128>, budget: usize) -> bool {
        if out.len() > budget { return false; }
        match self.nodes[e as usize].k {
            K::Const(c) => { if !out.contains(&c) { out.push(c) } true }
            K::Ite(_, a, b) => self.ite_leaves(a, out, budget) && self.ite_leaves(b, out, budget),
            _ => false,
        }
    }

    pub fn eval(&self, e: Ex, model: &[u128], memo: &mut HashMap<Ex, u128>) -> u128 {
        let n = &self.nodes[e as usize];
        match &n.k {
            K::Const(c) => return *c,
            K::Var(v) => return model[*v as usize],
            _ => {}
        }
        if let Some(&v) = memo.get(&e) { return v; }
        let r = match &n.k {
            K::Lut(x, t) => t[self.eval(*x, model, memo) as usize] as u128,
            K::Bin(op, a, b) => { let wa = self.w(*a); fold(*op, wa, self.eval(*a, model, memo), self.eval(*b, model, memo)) }
            K::Extract(a, lo) => (self.eval(*a, model, memo) >> *lo) & mask(n.w),
            K::Concat(a, b) => { let wb = self.w(*b); self.eval(*a, model, memo) << wb | self.eval(*b, model, memo) }
            K::Sext(a) => { let wa = self.w(*a); sx(self.eval(*a, model, memo), wa) as u128 & mask(n.w) }
            K::Ite(c, a, b) => if self.eval(*c, model, memo) == 1 { self.eval(*a, model, memo) } else { self.eval(*b, model, memo) },
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
    pub fn support(&self, e: Ex, seen: &mut std::collections::HashSet<Ex>, out: &mut Vec<u32>) {
        if !seen.insert(e) { return; }
        match &self.nodes[e as usize].k {
            K::Const(_) => {}
            K::Var(v) => if !out.contains(v) { out.push(*v) },
            K::Lut(x, _) | K::Extract(x, _) | K::Sext(x) => self.support(*x, seen, out),
            K::Bin(_, a, b) | K::Concat(a, b) => { self.support(*a, seen, out); self.support(*b, seen, out) }
            K::Ite(c, a, b) => { self.support(*c, seen, out); self.support(*a, seen, out); self.support(*b, seen, out) }
        }
    }

    pub fn show(&self, e: Ex, d: u32) -> String {
        let n = &self.nodes[e as usize];
        if d == 0 { return format!("#{e}:{}", n.w); }
        match &n.k {
            K::Const(c) => format!("{c:#x}:{}", n.w),
            K::Var(v) => format!("v{v}"),
            K::Lut(x, t) => format!("lut:{}[{}]({})", n.w, t.len(), self.show(*x, d - 1)),
            K::Bin(o, a, b) => format!("({o:?}:{} {} {})", n.w, self.show(*a, d - 1), self.show(*b, d - 1)),
            K::Extract(a, lo) => format!("{}[{}+:{}]", self.show(*a, d - 1), lo, n.w),
            K::Concat(a, b) => format!("{{{} . {}}}", self.show(*a, d - 1), self.show(*b, d - 1)),
            K::Sext(a) => format!("sext{}({})", n.w, self.show(*a, d - 1)),
            K::Ite(c, a, b) => format!("ite({}, {}, {})", self.show(*c, d - 1), self.show(*a, d - 1), self.show(*b, d - 1)),
        }
    }
}
