//! Hash-consed bit-vector expressions (width 1..=128) over 8-bit symbolic input variables.
//! Width-1 expressions double as booleans.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;
pub const MAXVARS: usize = 128;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<u128>,
    range: Vec<(u128, u128)>, // variable mask of each node
    /// structural hashes: with the variable identities, and with them abstracted away
    pub hv: Vec<u128>,
    pub ha: Vec<u128>,
    map: FxMap<Node, E>,
    ev_epoch: u32,
    ev_mark: Vec<u32>,
    ev_val: Vec<u128>,
}

/// 128-bit mixing for structural hashes.
pub fn mix(h: u128, x: u128) -> u128 {
    let mut z = (h.rotate_left(41) ^ x).wrapping_add(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835);
    z = (z ^ (z >> 67)).wrapping_mul(0x2360_ed05_1fc6_5da4_4385_df64_9fcc_f645);
    z = (z ^ (z >> 61)).wrapping_mul(0xda94_2042_e4dd_58b5_bf58_476d_1ce4_e5b9);
    z ^ (z >> 64)
}
pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext_to(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// Concrete semantics of a binary operator.
pub fn fold(op: Op, w: u8, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        And => x & y,
        Or => x | y,
        Xor => x ^ y,
        Add => x.wrapping_add(y) & m,
        Sub => x.wrapping_sub(y) & m,
        Mul => x.wrapping_mul(y) & m,
        UDiv => if y == 0 { m } else { x / y },
        URem => if y == 0 { x } else { x % y },
        SDiv => {
            let (a, b) = (sext_to(x, w), sext_to(y, w));
            if b == 0 { if a < 0 { 1 } else { m } } else { (a.wrapping_div(b) as u128) & m }
        }
        SRem => {
            let (a, b) = (sext_to(x, w), sext_to(y, w));
            if b == 0 { x } else { (a.wrapping_rem(b) as u128) & m }
        }
        Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        LShr => if y >= w as u128 { 0 } else { x >> y },
        AShr => {
            let s = sext_to(x, w);
            let n = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            ((s >> n) as u128) & m
        }
        Eq => (x == y) as u128,
        Ult => (x < y) as u128,
        Ule => (x <= y) as u128,
        Slt => (sext_to(x, w) < sext_to(y, w)) as u128,
        Sle => (sext_to(x, w) <= sext_to(y, w)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            vars: vec![],
            range: vec![],
            hv: vec![],
            ha: vec![],
            map: FxMap::default(),
            ev_epoch: 0,
            ev_mark: vec![],
            ev_val: vec![],
        };
        // index 0: false, index 1: true
        a.cst(1, 0);
        a.cst(1, 1);
        a
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let vm = match n.op {
            Const => 0,
            Var => 1u128 << n.k,
            Not | Extract | ZExt | SExt => self.vars[n.a as usize],
            Ite => self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
            _ => self.vars[n.a as usize] | self.vars[n.b as usize],
        };
        let (mut v, mut b) = (mix(n.op as u128 + 1, n.w as u128), 0);
        match n.op {
            Var => {
                b = v;
                v = mix(v, n.k + 1);
            }
            Const => {
                v = mix(v, n.k);
                b = v;
            }
            _ => {
                v = mix(v, n.k);
                b = mix(b, v);
                for (i, x) in [n.a, n.b, n.c].into_iter().enumerate() {
                    let used = match n.op {
                        Not | Extract | ZExt | SExt => i == 0,
                        Ite => true,
                        _ => i < 2,
                    };
                    if used {
                        v = mix(v, self.hv[x as usize]);
                        b = mix(b, self.ha[x as usize]);
                    }
                }
            }
        }
        self.hv.push(v);
        self.ha.push(b);
        let r = self.range_of(&n);
        self.range.push(r);
        self.nodes.push(n);
        self.vars.push(vm);
        self.ev_mark.push(0);
        self.ev_val.push(0);
        self.map.insert(n, e);
        e
    }
    /// Unsigned bounds of the value, from the operands' bounds.
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let r = |e: E| self.range[e as usize];
        match n.op {
            Const => (n.k, n.k),
            Var => (0, 255),
            ZExt => r(n.a),
            Ite => {
                let (x, y) = (r(n.b), r(n.c));
                (x.0.min(y.0), x.1.max(y.1))
            }
            Concat => {
                let (x, y, lw) = (r(n.a), r(n.b), self.w(n.b));
                (x.0 << lw | y.0, x.1 << lw | y.1)
            }
            Extract => {
                let x = r(n.a);
                if x.1 >> n.k <= m { (x.0 >> n.k, x.1 >> n.k) } else { (0, m) }
            }
            And => (0, r(n.a).1.min(r(n.b).1)),
            Or => {
                let (x, y) = (r(n.a), r(n.b));
                (x.0.max(y.0), mask(128 - (x.1 | y.1).leading_zeros() as u8).min(m))
            }
            Add => {
                let (x, y) = (r(n.a), r(n.b));
                match x.1.checked_add(y.1) {
                    Some(h) if h <= m => (x.0 + y.0, h),
                    _ => (0, m),
                }
            }
            LShr => match self.as_const(n.b) {
                Some(k) if k < 128 => (r(n.a).0 >> k, r(n.a).1 >> k),
                _ => (0, r(n.a).1),
            },
            _ => (0, m),
        }
    }
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn cst(&mut self, w: u8, k: u128) -> E {
        self.intern(Node { op: Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: usize) -> E {
        assert!(i < MAXVARS);
        self.intern(Node { op: Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Const { Some(n.k) } else { None }
    }
    fn mk(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u128) -> E {
        self.intern(Node { op, w, a, b, c, k })
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Const => self.cst(n.w, !n.k),
            Not => n.a,
            _ => {
                if n.w == 1 {
                    match n.op {
                        Ult => return self.bin(Ule, n.b, n.a),
                        Ule => return self.bin(Ult, n.b, n.a),
                        Slt => return self.bin(Sle, n.b, n.a),
                        Sle => return self.bin(Slt, n.b, n.a),
                        _ => {}
                    }
                }
                self.mk(Not, n.w, a, 0, 0, 0)
            }
        }
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Const => self.cst(w, n.k),
            ZExt => self.zext(n.a, w),
            _ if n.w == 1 => {
                let (o, z) = (self.cst(w, 1), self.cst(w, 0));
                self.ite(a, o, z)
            }
            Ite if self.ite_const_leaves(a, 8).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Const => self.cst(w, sext_to(n.k, n.w) as u128),
            ZExt => self.zext(n.a, w),
            _ if n.w == 1 => {
                let (o, z) = (self.cst(w, u128::MAX), self.cst(w, 0));
                self.ite(a, o, z)
            }
            Ite if self.ite_const_leaves(a, 8).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(SExt, w, a, 0, 0, 0),
        }
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        match n.op {
            Const => self.cst(w, n.k >> lo),
            Extract => self.extract(n.a, lo + n.k as u8, w),
            Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    self.cst(w, 0)
                } else if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let l = self.extract(n.a, lo, iw - lo);
                    self.zext(l, w)
                }
            }
            SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            And | Or | Xor if w <= 8 || lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Add | Sub | Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            LShr if self.as_const(n.b).is_some() => {
                let s = self.as_const(n.b).unwrap();
                if s + (lo as u128) + (w as u128) <= n.w as u128 {
                    self.extract(n.a, lo + s as u8, w)
                } else {
                    self.mk(Extract, w, a, 0, 0, lo as u128)
                }
            }
            Shl if self.as_const(n.b).is_some() => {
                let s = self.as_const(n.b).unwrap();
                if (lo as u128) >= s {
                    self.extract(n.a, lo - s as u8, w)
                } else if (lo + w) as u128 <= s {
                    self.cst(w, 0)
                } else {
                    self.mk(Extract, w, a, 0, 0, lo as u128)
                }
            }
            _ => self.mk(Extract, w, a, 0, 0, lo as u128),
        }
    }
    /// `a` is the high part.
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        if na.op == Const && nb.op == Const {
            return self.cst(w, na.k << nb.w | nb.k);
        }
        if na.op == Const && na.k == 0 {
            return self.zext(b, w);
        }
        if na.op == Extract && nb.op == Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return self.extract(na.a, nb.k as u8, w);
        }
        // (hi . x[..]) . x[..] merging: ((p . x[hi]) . x[lo]) -> p . x[..]
        if na.op == Concat && nb.op == Extract {
            let r = self.n(na.b);
            if r.op == Extract && r.a == nb.a && r.k == nb.k + nb.w as u128 {
                let m = self.extract(nb.a, nb.k as u8, r.w + nb.w);
                return self.concat(na.a, m);
            }
        }
        // extraction of the low bits of x followed by the high ones = x itself (extract(lo=0) is
        // simplified to inner nodes sometimes), covered by the first rule otherwise.
        self.mk(Concat, w, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, x: E, y: E) -> E {
        if c == 1 {
            return x;
        }
        if c == 0 {
            return y;
        }
        if x == y {
            return x;
        }
        let nc = self.n(c);
        if nc.op == Not {
            return self.ite(nc.a, y, x);
        }
        if self.w(x) == 1 {
            match (x, y) {
                (1, 0) => return c,
                (0, 1) => return self.not(c),
                (1, _) => return self.bin(Or, c, y),
                (0, _) => {
                    let n = self.not(c);
                    return self.bin(And, n, y);
                }
                (_, 1) => {
                    let n = self.not(c);
                    return self.bin(Or, n, x);
                }
                (_, 0) => return self.bin(And, c, x),
                _ => {}
            }
        }
        let ny = self.n(y);
        if ny.op == Ite && ny.a == c {
            return self.ite(c, x, ny.c);
        }
        if ny.op == Ite && ny.b == x {
            let d = self.bin(Or, c, ny.a);
            return self.ite(d, x, ny.c);
        }
        let nx = self.n(x);
        if nx.op == Ite && nx.a == c {
            return self.ite(c, nx.b, y);
        }
        let w = nx.w;
        self.mk(Ite, w, c, x, y, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Eq, a, b)
    }
    /// Number of leaves of an Ite tree with all-constant leaves; None if a leaf is not constant.
    fn ite_const_leaves(&self, e: E, lim: u32) -> Option<u32> {
        let n = self.n(e);
        match n.op {
            Const => Some(1),
            Ite if lim > 0 => {
                let l = self.ite_const_leaves(n.b, lim - 1)?;
                let r = self.ite_const_leaves(n.c, lim - 1)?;
                Some(l + r)
            }
            _ => None,
        }
    }
    fn push_ite(&mut self, op: Op, e: E, k: E, left: bool) -> E {
        let n = self.n(e);
        if n.op == Ite {
            let x = self.push_ite(op, n.b, k, left);
            let y = self.push_ite(op, n.c, k, left);
            self.ite(n.a, x, y)
        } else if left {
            self.bin(op, e, k)
        } else {
            self.bin(op, k, e)
        }
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let (mut na, mut nb) = (self.n(a), self.n(b));
        debug_assert_eq!(na.w, nb.w, "{:?} {:?} {:?}", op, na, nb);
        let w = na.w;
        let rw = if matches!(op, Eq | Ult | Ule | Slt | Sle) { 1 } else { w };
        if na.op == Const && nb.op == Const {
            let r = fold(op, w, na.k, nb.k);
            return self.cst(rw, r);
        }
        if matches!(op, And | Or | Xor | Add | Mul | Eq)
            && (na.op == Const || (nb.op != Const && a > b))
        {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut na, &mut nb);
        }
        let kb = if nb.op == Const { Some(nb.k) } else { None };
        let ka = if na.op == Const { Some(na.k) } else { None };
        if kb.is_some() && na.op == Ite && self.ite_const_leaves(a, 8).is_some() {
            return self.push_ite(op, a, b, true);
        }
        if ka.is_some() && nb.op == Ite && self.ite_const_leaves(b, 8).is_some() {
            return self.push_ite(op, b, a, false);
        }
        if matches!(op, Eq | Ult | Ule) {
            let (x, y) = (self.range[a as usize], self.range[b as usize]);
            match op {
                Eq if x.1 < y.0 || y.1 < x.0 => return 0,
                Ult if x.1 < y.0 => return 1,
                Ult if x.0 >= y.1 => return 0,
                Ule if x.1 <= y.0 => return 1,
                Ule if x.0 > y.1 => return 0,
                _ => {}
            }
        }
        match op {
            And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == mask(w) {
                        return a;
                    }
                    if na.op == And {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(w, k & k2);
                            return self.bin(And, na.a, c);
                        }
                    }
                    if na.op == ZExt {
                        let iw = self.w(na.a);
                        let c = self.cst(iw, k);
                        let r = self.bin(And, na.a, c);
                        return self.zext(r, w);
                    }
                    if na.op == Ite && self.ite_const_leaves(a, 8).is_some() {
                        return self.push_ite(op, a, b, true);
                    }
                    // mask of low bits
                    if k & (k + 1) == 0 {
                        let bits = (128 - k.leading_zeros()) as u8;
                        let l = self.extract(a, 0, bits);
                        return self.zext(l, w);
                    }
                }
                if w == 1 && ((na.op == Not && na.a == b) || (nb.op == Not && nb.a == a)) {
                    return 0;
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == mask(w) {
                        return b;
                    }
                    if na.op == ZExt {
                        let iw = self.w(na.a);
                        if k <= mask(iw) {
                            let c = self.cst(iw, k);
                            let r = self.bin(Or, na.a, c);
                            return self.zext(r, w);
                        }
                    }
                }
                if w == 1 && ((na.op == Not && na.a == b) || (nb.op == Not && nb.a == a)) {
                    return 1;
                }
                // zext(x) | (y << k) with disjoint bits -> concat (byte assembly idiom)
                if w > 8 {
                    if let Some(r) = self.or_concat(a, b, w) {
                        return r;
                    }
                    if let Some(r) = self.or_concat(b, a, w) {
                        return r;
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == mask(w) {
                        return self.not(a);
                    }
                    if na.op == ZExt && k <= mask(self.w(na.a)) {
                        let iw = self.w(na.a);
                        let c = self.cst(iw, k);
                        let r = self.bin(Xor, na.a, c);
                        return self.zext(r, w);
                    }
                    if na.op == Xor {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(w, k ^ k2);
                            return self.bin(Xor, na.a, c);
                        }
                    }
                    if na.op == Ite && self.ite_const_leaves(a, 8).is_some() {
                        return self.push_ite(op, a, b, true);
                    }
                }
            }
            Add => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.cst(w, k.wrapping_add(k2));
                            return self.bin(Add, na.a, c);
                        }
                    }
                    if na.op == Ite && self.ite_const_leaves(a, 8).is_some() {
                        return self.push_ite(op, a, b, true);
                    }
                }
                // (x + k) + y -> (x + y) + k
                if kb.is_none() && na.op == Add && self.as_const(na.b).is_some() {
                    let s = self.bin(Add, na.a, b);
                    return self.bin(Add, s, na.b);
                }
                if kb.is_none() && nb.op == Add && self.as_const(nb.b).is_some() {
                    let s = self.bin(Add, a, nb.a);
                    return self.bin(Add, s, nb.b);
                }
            }
            Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(k) = kb {
                    let c = self.cst(w, k.wrapping_neg());
                    return self.bin(Add, a, c);
                }
                if na.op == Add && na.a == b {
                    return na.b;
                }
                if na.op == Add && na.b == b {
                    return na.a;
                }
            }
            Mul => {
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let c = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(Shl, a, c);
                    }
                }
            }
            UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(LShr, a, c);
                    }
                    if na.op == ZExt {
                        let iw = self.w(na.a);
                        if k > mask(iw) {
                            return self.cst(w, 0);
                        }
                        let c = self.cst(iw, k);
                        let r = self.bin(UDiv, na.a, c);
                        return self.zext(r, w);
                    }
                }
            }
            URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let c = self.cst(w, k - 1);
                        return self.bin(And, a, c);
                    }
                }
            }
            SDiv | SRem => {}
            Shl | LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(w, 0);
                    }
                    if op == LShr {
                        let h = self.extract(a, k as u8, w - k as u8);
                        return self.zext(h, w);
                    }
                    // Shl: concat(extract(a), zeros)
                    let h = self.extract(a, 0, w - k as u8);
                    let z = self.cst(k as u8, 0);
                    return self.concat(h, z);
                }
                if ka == Some(0) {
                    return a;
                }
            }
            AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u8;
                    let h = self.extract(a, k, w - k);
                    return self.sext(h, w);
                }
            }
            Eq => {
                if a == b {
                    return 1;
                }
                if w == 1 {
                    if b == 1 {
                        return a;
                    }
                    if b == 0 {
                        return self.not(a);
                    }
                }
                if let Some(k) = kb {
                    match na.op {
                        Concat => {
                            let lw = self.w(na.b);
                            let hk = self.cst(w - lw, k >> lw);
                            let lk = self.cst(lw, k);
                            let l = self.bin(Eq, na.b, lk);
                            if l == 0 {
                                return 0;
                            }
                            let h = self.bin(Eq, na.a, hk);
                            return self.bin(And, h, l);
                        }
                        ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return 0;
                            }
                            let c = self.cst(iw, k);
                            return self.bin(Eq, na.a, c);
                        }
                        SExt => {
                            let iw = self.w(na.a);
                            let t = sext_to(k & mask(iw), iw) as u128 & mask(w);
                            if t != k {
                                return 0;
                            }
                            let c = self.cst(iw, k);
                            return self.bin(Eq, na.a, c);
                        }
                        Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let c = self.cst(w, k.wrapping_sub(k2));
                                return self.bin(Eq, na.a, c);
                            }
                        }
                        Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                let c = self.cst(w, k ^ k2);
                                return self.bin(Eq, na.a, c);
                            }
                        }
                        Not => {
                            let c = self.cst(w, !k);
                            return self.bin(Eq, na.a, c);
                        }
                        Ite => {
                            let (kx, ky) = (self.as_const(na.b), self.as_const(na.c));
                            if kx.is_some() || ky.is_some() {
                                let x = self.bin(Eq, na.b, b);
                                let y = self.bin(Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Eq, na.a, nb.a);
                }
                if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                    let l = self.bin(Eq, na.b, nb.b);
                    if l == 0 {
                        return 0;
                    }
                    let h = self.bin(Eq, na.a, nb.a);
                    return self.bin(And, h, l);
                }
                if w == 1 && na.op == Not && na.a == b || w == 1 && nb.op == Not && nb.a == a {
                    return 0;
                }
            }
            Ult | Ule => {
                if a == b {
                    return (op == Ule) as E;
                }
                if let Some(k) = kb {
                    if op == Ult && k == 0 {
                        return 0;
                    }
                    if op == Ule && k == mask(w) {
                        return 1;
                    }
                    if op == Ult && k == 1 {
                        let z = self.cst(w, 0);
                        return self.bin(Eq, a, z);
                    }
                    if op == Ule && k == 0 {
                        return self.bin(Eq, a, b);
                    }
                    if na.op == ZExt {
                        let iw = self.w(na.a);
                        if k > mask(iw) {
                            return 1;
                        }
                        let c = self.cst(iw, k);
                        return self.bin(op, na.a, c);
                    }
                    if na.op == Ite && self.ite_const_leaves(a, 12).is_some() {
                        return self.push_ite(op, a, b, true);
                    }
                    // normalise x <= k to x < k+1
                    if op == Ule {
                        let c = self.cst(w, k + 1);
                        return self.bin(Ult, a, c);
                    }
                }
                if let Some(k) = ka {
                    if op == Ule && k == 0 {
                        return 1;
                    }
                    if op == Ult && k == mask(w) {
                        return 0;
                    }
                    if op == Ult && k == 0 {
                        let e = self.bin(Eq, b, a);
                        return self.not(e);
                    }
                    if nb.op == ZExt {
                        let iw = self.w(nb.a);
                        if k > mask(iw) {
                            return 0;
                        }
                        let c = self.cst(iw, k);
                        return self.bin(op, c, nb.a);
                    }
                    if nb.op == Ite && self.ite_const_leaves(b, 12).is_some() {
                        return self.push_ite(op, b, a, false);
                    }
                    if op == Ult {
                        // k < x  ==  !(x < k+1)
                        let c = self.cst(w, k + 1);
                        return self.bin(Ule, c, b);
                    }
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
            }
            Slt | Sle => {
                if a == b {
                    return (op == Sle) as E;
                }
                // zero-extended operands are non-negative
                if na.op == ZExt && (nb.op == ZExt || kb.map_or(false, |k| k >> (w - 1) == 0)) {
                    return self.bin(if op == Slt { Ult } else { Ule }, a, b);
                }
                if nb.op == ZExt && ka.map_or(false, |k| k >> (w - 1) == 0) {
                    return self.bin(if op == Slt { Ult } else { Ule }, a, b);
                }
                if na.op == ZExt && kb.map_or(false, |k| k >> (w - 1) == 1) {
                    return 0;
                }
                if nb.op == ZExt && ka.map_or(false, |k| k >> (w - 1) == 1) {
                    return 1;
                }
                if kb.is_some() && na.op == Ite && self.ite_const_leaves(a, 12).is_some() {
                    return self.push_ite(op, a, b, true);
                }
                if ka.is_some() && nb.op == Ite && self.ite_const_leaves(b, 12).is_some() {
                    return self.push_ite(op, b, a, false);
                }
            }
            _ => unreachable!(),
        }
        self.mk(op, rw, a, b, 0, 0)
    }
    /// low | high where `high` has its low `n` bits zero and `low` fits in n bits.
    fn or_concat(&mut self, low: E, high: E, w: u8) -> Option<E> {
        let nl = self.n(low);
        if nl.op != ZExt {
            return None;
        }
        let lw = self.w(nl.a);
        let nh = self.n(high);
        let (hz, body): (u8, E) = match nh.op {
            Concat if self.as_const(nh.b) == Some(0) => (self.w(nh.b), nh.a),
            ZExt => {
                let ni = self.n(nh.a);
                if ni.op == Concat && self.as_const(ni.b) == Some(0) {
                    (self.w(ni.b), ni.a)
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        if lw > hz {
            return None;
        }
        let l = self.zext(nl.a, hz);
        let c = self.concat(body, l);
        Some(self.zext(c, w))
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Or, a, b)
    }

    pub fn eval(&mut self, e: E, asg: &[u8]) -> u128 {
        self.ev_epoch += 1;
        if self.ev_epoch == u32::MAX {
            self.ev_mark.iter_mut().for_each(|m| *m = 0);
            self.ev_epoch = 1;
        }
        self.ev(e, asg)
    }
    fn ev(&mut self, e: E, asg: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Const => return n.k,
            Var => return asg.get(n.k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.ev_mark[e as usize] == self.ev_epoch {
            return self.ev_val[e as usize];
        }
        let v = match n.op {
            Not => !self.ev(n.a, asg) & mask(n.w),
            ZExt => self.ev(n.a, asg),
            SExt => sext_to(self.ev(n.a, asg), self.w(n.a)) as u128 & mask(n.w),
            Extract => (self.ev(n.a, asg) >> n.k) & mask(n.w),
            Concat => {
                let lw = self.w(n.b);
                self.ev(n.a, asg) << lw | self.ev(n.b, asg)
            }
            Ite => if self.ev(n.a, asg) != 0 { self.ev(n.b, asg) } else { self.ev(n.c, asg) },
            op => {
                let x = self.ev(n.a, asg);
                let y = self.ev(n.b, asg);
                fold(op, self.w(n.a), x, y)
            }
        };
        self.ev_mark[e as usize] = self.ev_epoch;
        self.ev_val[e as usize] = v;
        v
    }
}

impl Arena {
    /// For debugging.
    pub fn show(&self, e: E) -> String {
        let n = self.n(e);
        match n.op {
            Const => format!("{:#x}:{}", n.k, n.w),
            Var => format!("v{}", n.k),
            Not => format!("!{}", self.show(n.a)),
            ZExt => format!("zx{}({})", n.w, self.show(n.a)),
            SExt => format!("sx{}({})", n.w, self.show(n.a)),
            Extract => format!("{}[{}+{}]", self.show(n.a), n.k, n.w),
            Ite => format!("({} ? {} : {})", self.show(n.a), self.show(n.b), self.show(n.c)),
            op => format!("({:?} {} {})", op, self.show(n.a), self.show(n.b)),
        }
    }
    /// For debugging: each node once.
    pub fn show_dag(&self, es: &[E]) -> String {
        let mut seen = std::collections::BTreeSet::new();
        let mut todo = es.to_vec();
        while let Some(e) = todo.pop() {
            let n = self.n(e);
            if seen.insert(e) && !matches!(n.op, Const | Var) {
                todo.push(n.a);
                if !matches!(n.op, Not | ZExt | SExt | Extract) {
                    todo.push(n.b);
                }
                if n.op == Ite {
                    todo.push(n.c);
                }
            }
        }
        let leaf = |e: E| match self.n(e).op {
            Const => format!("{:#x}:{}", self.n(e).k, self.n(e).w),
            Var => format!("v{}", self.n(e).k),
            _ => format!("t{e}"),
        };
        let mut s = format!("size {}\n", seen.len());
        for e in seen {
            let n = self.n(e);
            s += &match n.op {
                Const | Var => continue,
                Not | ZExt | SExt => format!("  t{e} = {:?} {} :{}\n", n.op, leaf(n.a), n.w),
                Extract => format!("  t{e} = {}[{}+{}]\n", leaf(n.a), n.k, n.w),
                Ite => format!("  t{e} = {} ? {} : {}\n", leaf(n.a), leaf(n.b), leaf(n.c)),
                _ => format!("  t{e} = {:?} {} {}\n", n.op, leaf(n.a), leaf(n.b)),
            };
        }
        s + "  all of " + &es.iter().map(|e| leaf(*e)).collect::<Vec<_>>().join(" ")
    }
}
