//! Parser for textual LLVM IR (as printed by llvm-dis) into a compact executable form.
use crate::expr::{mask, Op};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u8),
    Ptr,
    Other(u32), // floating point of that many bits, labels, metadata: not executable
    Arr(u64, Arc<Ty>),
    Vec(u32, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
}

/// A value: concrete, symbolic (expression of a worker's arena), aggregate or undefined.
#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    Agg(Arc<Vec<Val>>),
    U,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit, // same-width reinterpretation (ptrtoint, inttoptr, freeze, bitcast of scalars)
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ext(u32),
    Ind(Opd),
    Nop,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Op, ty: Ty, a: Opd, b: Opd },
    ICmp { pred: Pred, ty: Ty, a: Opd, b: Opd },
    Cast { k: CastK, from: Ty, to: Ty, a: Opd },
    Load { ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { base: Opd, off: u64, idx: Vec<(Opd, u64, u8)> },
    Alloca { size: u64, n: Option<(Opd, u64)> },
    Select { ty: Ty, c: Opd, cty: Ty, a: Opd, b: Opd },
    ExtractValue { a: Opd, idx: Vec<u32> },
    InsertValue { ty: Ty, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElem { ty: Ty, a: Opd, i: Opd },
    InsertElem { ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { n: u32, a: Opd, b: Opd, m: Vec<Option<u32>> },
    Call { callee: Callee, args: Vec<(Opd, Ty)>, ret: Ty, normal: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { ty: Ty, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Rmw { op: String, ty: Ty, p: Opd, v: Opd },
    CmpXchg { ty: Ty, p: Opd, c: Opd, n: Opd },
    Nop,
    Unsupported(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub struct Ins {
    pub dst: u32, // u32::MAX: none
    pub i: I,
}
#[derive(Clone)]
pub struct Block {
    /// (dst, by predecessor block)
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<Ins>,
}
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub err: Option<String>,
}
pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub undef: Vec<(usize, usize)>,
    pub constant: bool,
}
pub struct Prog {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub exts: Vec<String>,
    pub globals: Vec<Global>,
}

pub const BASE: u64 = 0x1000_0000;
pub const FN_ID: u64 = 0x4000_0000;
pub fn addr_of(obj: u64) -> u64 {
    obj << 32 | BASE
}

pub fn size_align(t: &Ty) -> (u64, u64) {
    match t {
        Ty::Void => (0, 1),
        Ty::Int(w) => {
            let b = (*w as u64 + 7) / 8;
            let s = b.next_power_of_two();
            (s, s.min(16))
        }
        Ty::Ptr => (8, 8),
        Ty::Other(b) => ((*b as u64 + 7) / 8, ((*b as u64 + 7) / 8).max(1)),
        Ty::Arr(n, t) => {
            let (s, a) = size_align(t);
            (s * n, a)
        }
        Ty::Vec(n, t) => {
            let bits = match **t {
                Ty::Int(w) => w as u64,
                Ty::Ptr => 64,
                Ty::Other(b) => b as u64,
                _ => 64,
            };
            let s = (bits * *n as u64 + 7) / 8;
            (s, s.next_power_of_two())
        }
        Ty::Struct(f, packed) => {
            let (mut off, mut al) = (0u64, 1u64);
            for t in f.iter() {
                let (s, a) = size_align(t);
                let a = if *packed { 1 } else { a };
                off = (off + a - 1) / a * a + s;
                al = al.max(a);
            }
            ((off + al - 1) / al * al, al)
        }
    }
}
pub fn field_off(f: &[Ty], packed: bool, i: usize) -> u64 {
    let mut off = 0u64;
    for (j, t) in f.iter().enumerate() {
        let (s, a) = size_align(t);
        let a = if packed { 1 } else { a };
        off = (off + a - 1) / a * a;
        if j == i {
            return off;
        }
        off += s;
    }
    off
}
pub fn width(t: &Ty) -> u8 {
    match t {
        Ty::Int(w) => *w,
        Ty::Ptr => 64,
        Ty::Other(b) => *b as u8,
        _ => 0,
    }
}

type R<T> = Result<T, String>;

struct Cur<'a> {
    s: &'a [u8],
    p: usize,
}

struct Ctx {
    types: HashMap<String, String>,
    gaddr: HashMap<String, u64>,
    faddr: HashMap<String, u64>,
    fidx: HashMap<String, u32>,
    exts: Vec<String>,
    extidx: HashMap<String, u32>,
    weak: std::collections::HashSet<String>,
}

struct Regs {
    m: HashMap<String, u32>,
}
impl Regs {
    fn get(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.m.get(n) {
            return r;
        }
        let r = self.m.len() as u32;
        self.m.insert(n.to_string(), r);
        r
    }
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t' || self.s[self.p] == b'\n') {
            self.p += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.p).unwrap_or(&0)
    }
    fn rest(&self) -> &'a str {
        std::str::from_utf8(&self.s[self.p..]).unwrap_or("<non-utf8>")
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            let e = self.p + t.len();
            let last = t.as_bytes()[t.len() - 1];
            if (last.is_ascii_alphanumeric() || last == b'_')
                && self.s.get(e).map_or(false, |&c| c.is_ascii_alphanumeric() || c == b'_')
            {
                return false;
            }
            self.p = e;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            let r = self.rest();
            Err(format!("expected {t:?} at {:?}", &r[..r.len().min(60)]))
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'_') {
            self.p += 1;
        }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let p = self.p;
        let w = self.word();
        self.p = p;
        w
    }
    /// name after % or @ (the sigil has been consumed)
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            let st = self.p + 1;
            self.p = st;
            while self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            self.p += 1;
            return r;
        }
        let st = self.p;
        while self.p < self.s.len() && is_idc(self.s[self.p]) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn balanced(&mut self) {
        // at an opening bracket: skip to the matching close
        let mut d = 0i32;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'(' | b'{' | b'[' | b'<' => d += 1,
                b')' | b'}' | b']' | b'>' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.p < self.s.len() && self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn int(&mut self) -> R<i128> {
        self.ws();
        let st = self.p;
        if self.s.get(self.p) == Some(&b'-') {
            self.p += 1;
        }
        while self.p < self.s.len() && self.s[self.p].is_ascii_digit() {
            self.p += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.p]).unwrap();
        t.parse::<i128>()
            .or_else(|_| t.parse::<u128>().map(|x| x as i128))
            .map_err(|_| format!("bad int {t:?}"))
    }
    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            b'i' => self.s.get(self.p + 1).map_or(false, |c| c.is_ascii_digit()),
            _ => matches!(
                self.peek_word(),
                "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "fp128" | "x86_fp80" | "bfloat" | "token"
            ),
        }
    }
    fn ty(&mut self, cx: &Ctx) -> R<Ty> {
        match self.peek() {
            b'{' => {
                self.p += 1;
                let f = self.ty_list(cx, b'}')?;
                Ok(Ty::Struct(Arc::new(f), false))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    self.p += 1;
                    let f = self.ty_list(cx, b'}')?;
                    self.expect(">")?;
                    Ok(Ty::Struct(Arc::new(f), true))
                } else {
                    let n = self.int()?;
                    self.expect("x")?;
                    let t = self.ty(cx)?;
                    self.expect(">")?;
                    Ok(Ty::Vec(n as u32, Arc::new(t)))
                }
            }
            b'[' => {
                self.p += 1;
                let n = self.int()?;
                self.expect("x")?;
                let t = self.ty(cx)?;
                self.expect("]")?;
                Ok(Ty::Arr(n as u64, Arc::new(t)))
            }
            b'%' => {
                self.p += 1;
                let n = self.name();
                let d = cx.types.get(&n).ok_or_else(|| format!("unknown type %{n}"))?.clone();
                Cur::new(&d).ty(cx)
            }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => {
                        if self.eat("addrspace") {
                            self.ws();
                            self.balanced();
                        }
                        Ok(Ty::Ptr)
                    }
                    "void" => Ok(Ty::Void),
                    "float" => Ok(Ty::Other(32)),
                    "double" => Ok(Ty::Other(64)),
                    "half" | "bfloat" => Ok(Ty::Other(16)),
                    "x86_fp80" | "fp128" => Ok(Ty::Other(128)),
                    "label" | "metadata" | "token" => Ok(Ty::Other(0)),
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                        let n = w[1..].parse::<u32>().unwrap();
                        if n > 128 {
                            return Err(format!("type {w} too wide"));
                        }
                        Ok(Ty::Int(n as u8))
                    }
                    _ => Err(format!("bad type {w:?} {:?}", &self.rest().chars().take(40).collect::<String>())),
                }
            }
        }
    }
    fn ty_list(&mut self, cx: &Ctx, close: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.peek() == close {
            self.p += 1;
            return Ok(v);
        }
        loop {
            v.push(self.ty(cx)?);
            if self.peek() == b',' {
                self.p += 1;
                continue;
            }
            if self.peek() == close {
                self.p += 1;
                return Ok(v);
            }
            return Err("bad type list".into());
        }
    }
    fn at_operand(&mut self) -> bool {
        match self.peek() {
            b'%' | b'@' | b'-' | b'{' | b'[' | b'<' | b'!' => true,
            c if c.is_ascii_digit() => true,
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => true,
            _ => matches!(
                self.peek_word(),
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr"
                    | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "none" | "asm"
                    | "addrspacecast" | "ptrtoaddr"
            ),
        }
    }
    /// Skip parameter/return attributes up to a type (`stop_ty`) or an operand.
    fn skip_attrs(&mut self, stop_ty: bool) -> R<()> {
        loop {
            if stop_ty {
                if self.at_type() {
                    return Ok(());
                }
            } else if self.at_operand() {
                return Ok(());
            }
            match self.peek() {
                b'"' => {
                    self.p += 1;
                    while self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                    self.p += 1;
                    if self.p < self.s.len() && self.s[self.p] == b'=' {
                        self.p += 1;
                    }
                }
                b'#' => {
                    self.p += 1;
                    self.int()?;
                }
                _ => {
                    let w = self.word();
                    if w.is_empty() {
                        return Err(format!("stuck in attributes at {:?}", self.rest().chars().take(60).collect::<String>()));
                    }
                    if w == "align" || w == "cc" {
                        if self.peek() == b'(' {
                            self.balanced();
                        } else {
                            self.int()?;
                        }
                    } else if self.s.get(self.p) == Some(&b'(') {
                        self.balanced();
                    }
                }
            }
        }
    }
    /// A constant of type `t`.
    fn konst(&mut self, cx: &Ctx, t: &Ty) -> R<Val> {
        match self.peek() {
            b'@' => {
                self.p += 1;
                let n = self.name();
                cx.addr(&n).map(|a| Val::C(a as u128)).ok_or_else(|| format!("unknown @{n}"))
            }
            b'{' | b'[' | b'<' => {
                let packed = self.s[self.p] == b'<' && self.s.get(self.p + 1) == Some(&b'{');
                self.p += if packed { 2 } else { 1 };
                let mut v = vec![];
                loop {
                    if matches!(self.peek(), b'}' | b']' | b'>') {
                        self.p += 1;
                        break;
                    }
                    let et = self.ty(cx)?;
                    v.push(self.konst(cx, &et)?);
                    if self.peek() == b',' {
                        self.p += 1;
                    }
                }
                if packed {
                    self.expect(">")?;
                }
                Ok(Val::Agg(Arc::new(v)))
            }
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                self.p += 2;
                let mut v = vec![];
                while self.s[self.p] != b'"' {
                    if self.s[self.p] == b'\\' {
                        if self.s[self.p + 1] == b'\\' {
                            v.push(Val::C(b'\\' as u128));
                            self.p += 2;
                        } else {
                            let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                            v.push(Val::C(u8::from_str_radix(h, 16).map_err(|e| e.to_string())? as u128));
                            self.p += 3;
                        }
                    } else {
                        v.push(Val::C(self.s[self.p] as u128));
                        self.p += 1;
                    }
                }
                self.p += 1;
                Ok(Val::Agg(Arc::new(v)))
            }
            c if c == b'-' || c.is_ascii_digit() => {
                if self.s[self.p..].starts_with(b"0x") {
                    self.word();
                    return Ok(Val::U); // floating point constant
                }
                let v = self.int()?;
                if self.s.get(self.p) == Some(&b'.') {
                    while self.p < self.s.len() && !b", )]}>".contains(&self.s[self.p]) {
                        self.p += 1;
                    }
                    return Ok(Val::U);
                }
                Ok(Val::C(v as u128 & mask(width(t).max(1))))
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Ok(Val::C(1)),
                    "false" => Ok(Val::C(0)),
                    "null" | "none" => Ok(Val::C(0)),
                    "undef" | "poison" => Ok(Val::U),
                    "zeroinitializer" => Ok(zero(t)),
                    "splat" => {
                        self.expect("(")?;
                        let et = self.ty(cx)?;
                        let v = self.konst(cx, &et)?;
                        self.expect(")")?;
                        match t {
                            Ty::Vec(n, _) => Ok(Val::Agg(Arc::new(vec![v; *n as usize]))),
                            _ => Err("splat of non-vector".into()),
                        }
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' {
                            if self.word().is_empty() {
                                return Err("gep".into());
                            }
                            if self.peek() == b'(' && self.s[self.p - 1] == b'e' && self.s[..self.p].ends_with(b"inrange") {
                                self.balanced();
                            }
                        }
                        self.expect("(")?;
                        let st = self.ty(cx)?;
                        self.expect(",")?;
                        let pt = self.ty(cx)?;
                        let base = self.konst(cx, &pt)?;
                        let Val::C(mut a) = base else { return Err("gep base".into()) };
                        let mut idx = vec![];
                        while self.peek() == b',' {
                            self.p += 1;
                            let it = self.ty(cx)?;
                            let Val::C(v) = self.konst(cx, &it)? else { return Err("gep idx".into()) };
                            idx.push(crate::expr::sext_to(v, width(&it)) as i64);
                        }
                        self.expect(")")?;
                        let mut ct = st;
                        for (j, i) in idx.iter().enumerate() {
                            if j == 0 {
                                a = a.wrapping_add((size_align(&ct).0 as i64 * i) as u128);
                            } else {
                                let (o, nt) = step_ty(&ct, *i)?;
                                a = a.wrapping_add(o as u128);
                                ct = nt;
                            }
                        }
                        Ok(Val::C(a & mask(64)))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                        self.expect("(")?;
                        let ft = self.ty(cx)?;
                        let v = self.konst(cx, &ft)?;
                        self.expect("to")?;
                        let tt = self.ty(cx)?;
                        self.expect(")")?;
                        match v {
                            Val::C(x) => Ok(Val::C(x & mask(width(&tt).max(1)))),
                            o => Ok(o),
                        }
                    }
                    "add" | "sub" | "xor" => {
                        while self.peek() != b'(' {
                            if self.word().is_empty() {
                                return Err("cexpr".into());
                            }
                        }
                        self.expect("(")?;
                        let ft = self.ty(cx)?;
                        let a = self.konst(cx, &ft)?;
                        self.expect(",")?;
                        let gt = self.ty(cx)?;
                        let b = self.konst(cx, &gt)?;
                        self.expect(")")?;
                        let (Val::C(a), Val::C(b)) = (a, b) else { return Err("cexpr".into()) };
                        let op = match w {
                            "add" => Op::Add,
                            "sub" => Op::Sub,
                            _ => Op::Xor,
                        };
                        Ok(Val::C(crate::expr::fold(op, width(&ft), a, b)))
                    }
                    _ => Err(format!("bad constant {w:?} {:?}", self.rest().chars().take(40).collect::<String>())),
                }
            }
        }
    }
    fn opd(&mut self, cx: &Ctx, rg: &mut Regs, t: &Ty) -> R<Opd> {
        if self.peek() == b'%' {
            self.p += 1;
            let n = self.name();
            Ok(Opd::R(rg.get(&n)))
        } else {
            Ok(Opd::K(self.konst(cx, t)?))
        }
    }
    fn ty_opd(&mut self, cx: &Ctx, rg: &mut Regs) -> R<(Ty, Opd)> {
        let t = self.ty(cx)?;
        self.skip_attrs(false)?;
        let o = self.opd(cx, rg, &t)?;
        Ok((t, o))
    }
}

pub fn zero(t: &Ty) -> Val {
    match t {
        Ty::Arr(n, e) => Val::Agg(Arc::new(vec![zero(e); *n as usize])),
        Ty::Vec(n, e) => Val::Agg(Arc::new(vec![zero(e); *n as usize])),
        Ty::Struct(f, _) => Val::Agg(Arc::new(f.iter().map(zero).collect())),
        _ => Val::C(0),
    }
}
pub fn step_ty(t: &Ty, i: i64) -> R<(u64, Ty)> {
    match t {
        Ty::Struct(f, p) => Ok((field_off(f, *p, i as usize), f.get(i as usize).ok_or("field")?.clone())),
        Ty::Arr(_, e) => Ok(((size_align(e).0 as i64 * i) as u64, (**e).clone())),
        Ty::Vec(_, e) => Ok(((size_align(e).0 as i64 * i) as u64, (**e).clone())),
        _ => Err("gep into scalar".into()),
    }
}

impl Ctx {
    fn addr(&self, n: &str) -> Option<u64> {
        if self.weak.contains(n) {
            return Some(0);
        }
        self.gaddr.get(n).or_else(|| self.faddr.get(n)).copied()
    }
}

fn write_const(t: &Ty, v: &Val, off: usize, buf: &mut Vec<u8>, undef: &mut Vec<(usize, usize)>) {
    let sz = size_align(t).0 as usize;
    match v {
        Val::C(x) => {
            for i in 0..sz {
                buf[off + i] = (x >> (8 * i)) as u8;
            }
        }
        Val::U => undef.push((off, sz)),
        Val::Agg(f) => match t {
            Ty::Struct(ft, p) => {
                for (i, (t, v)) in ft.iter().zip(f.iter()).enumerate() {
                    write_const(t, v, off + field_off(ft, *p, i) as usize, buf, undef);
                }
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                let es = size_align(e).0 as usize;
                for (i, v) in f.iter().enumerate() {
                    write_const(e, v, off + i * es, buf, undef);
                }
            }
            _ => {}
        },
        Val::S(_) => unreachable!(),
    }
}

pub fn parse(src: &str) -> R<Prog> {
    let mut cx = Ctx {
        types: HashMap::new(),
        gaddr: HashMap::new(),
        faddr: HashMap::new(),
        fidx: HashMap::new(),
        exts: vec![],
        extidx: HashMap::new(),
        weak: Default::default(),
    };
    let mut gl: Vec<(String, String)> = vec![];
    let mut fl: Vec<(String, String, Vec<&str>)> = vec![];
    let mut aliases: Vec<(String, String)> = vec![];
    let mut lines = src.lines();
    while let Some(l) = lines.next() {
        if l.starts_with('@') {
            let mut c = Cur::new(l);
            c.p = 1;
            let n = c.name();
            c.expect("=")?;
            let r = c.rest().to_string();
            let head = r.find(|c| c == '"' || c == '[' || c == '{').unwrap_or(r.len());
            if let Some(k) = r[..head].find(" alias ") {
                let t = r[k..].rfind('@').map(|q| r[k + q + 1..].to_string()).unwrap_or_default();
                let t: String = t.chars().take_while(|c| is_idc(*c as u8)).collect();
                aliases.push((n, t));
            } else {
                gl.push((n, r));
            }
        } else if l.starts_with('%') {
            let mut c = Cur::new(l);
            c.p = 1;
            let n = c.name();
            c.expect("=")?;
            c.expect("type")?;
            cx.types.insert(n, c.rest().trim().to_string());
        } else if l.starts_with("define") || l.starts_with("declare") {
            let at = l.find('@').ok_or("define without @")?;
            let mut c = Cur::new(l);
            c.p = at + 1;
            let n = c.name();
            if l.starts_with("declare") {
                if l.contains("extern_weak") {
                    cx.weak.insert(n.clone());
                }
                let i = cx.exts.len() as u32;
                cx.exts.push(n.clone());
                cx.extidx.insert(n, i);
                continue;
            }
            let hdr = c.rest().to_string();
            let mut body = vec![];
            for b in lines.by_ref() {
                if b == "}" {
                    break;
                }
                body.push(b);
            }
            fl.push((n, hdr, body));
        }
    }
    for (i, (n, _)) in gl.iter().enumerate() {
        cx.gaddr.insert(n.clone(), addr_of(i as u64 + 1));
    }
    for (i, (n, _, _)) in fl.iter().enumerate() {
        cx.faddr.insert(n.clone(), (FN_ID + i as u64) << 32);
        cx.fidx.insert(n.clone(), i as u32);
    }
    let nf = fl.len() as u64;
    for (i, n) in cx.exts.iter().enumerate() {
        cx.faddr.insert(n.clone(), (FN_ID + nf + i as u64) << 32);
    }
    for (a, t) in aliases {
        if let Some(&x) = cx.gaddr.get(&t) {
            cx.gaddr.insert(a, x);
        } else if let Some(&x) = cx.fidx.get(&t) {
            cx.fidx.insert(a.clone(), x);
            let ad = cx.faddr[&t];
            cx.faddr.insert(a, ad);
        }
    }
    let mut globals = vec![];
    for (n, d) in &gl {
        let mut c = Cur::new(d);
        let mut external = false;
        let mut weak = false;
        let constant;
        loop {
            let w = c.word();
            match w {
                "global" => {
                    constant = false;
                    break;
                }
                "constant" => {
                    constant = true;
                    break;
                }
                "external" => external = true,
                "extern_weak" => {
                    external = true;
                    weak = true
                }
                "" => return Err(format!("global {n}: {d}")),
                _ => {
                    if c.peek() == b'(' {
                        c.balanced();
                    }
                }
            }
        }
        if weak {
            cx.weak.insert(n.clone());
        }
        let t = c.ty(&cx)?;
        let sz = size_align(&t).0 as usize;
        let mut data = vec![0u8; sz];
        let mut undef = vec![];
        if !external {
            let v = c.konst(&cx, &t).map_err(|e| format!("global {n}: {e}"))?;
            write_const(&t, &v, 0, &mut data, &mut undef);
        }
        globals.push(Global { name: n.clone(), data, undef, constant });
    }
    let mut funcs = vec![];
    for (n, hdr, body) in fl {
        let f = parse_func(&mut cx, &n, &hdr, &body);
        funcs.push(f.unwrap_or_else(|e| Func { name: n, params: vec![], nregs: 0, blocks: vec![], err: Some(e) }));
    }
    redirect(&mut funcs);
    Ok(Prog { funcs, fidx: cx.fidx, exts: cx.exts, globals })
}

/// The process's own arguments are the ones the harness has set, where it has.
fn redirect(funcs: &mut [Func]) {
    const STUB: &str = "__stub_args_os";
    let Some(j) = funcs.iter().position(|f| f.name == STUB) else { return };
    for f in ["3std3env7args_os", "3std3env4args"] {
        if let Some(i) = funcs.iter().position(|g| g.name.starts_with("_RNv") && g.name.ends_with(f)) {
            let (a, b) = if i < j { (i, j) } else { (j, i) };
            let (x, y) = funcs.split_at_mut(b);
            let (to, from) = if i < j { (&mut x[a], &y[0]) } else { (&mut y[0], &x[a]) };
            to.params = from.params.clone();
            to.nregs = from.nregs;
            to.blocks = from.blocks.clone();
            to.err = from.err.clone();
        }
    }
}

/// Split at top-level commas.
fn split_args(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let (mut d, mut st, mut q) = (0i32, 0usize, false);
    let mut v = vec![];
    for (i, &c) in b.iter().enumerate() {
        if q {
            if c == b'"' {
                q = false;
            }
            continue;
        }
        match c {
            b'"' => q = true,
            b'(' | b'[' | b'{' | b'<' => d += 1,
            b')' | b']' | b'}' | b'>' => d -= 1,
            b',' if d == 0 => {
                v.push(&s[st..i]);
                st = i + 1;
            }
            _ => {}
        }
    }
    if !s[st..].trim().is_empty() {
        v.push(&s[st..]);
    }
    v
}

fn parse_func(cx: &mut Ctx, name: &str, hdr: &str, body: &[&str]) -> R<Func> {
    let mut rg = Regs { m: HashMap::new() };
    let mut c = Cur::new(hdr);
    let st = c.p;
    c.balanced();
    let inner = &hdr[st + 1..c.p - 1];
    let mut params = vec![];
    let mut unnamed = 0u32;
    for a in split_args(inner) {
        let a = a.trim();
        if a == "..." {
            return Err("varargs definition".into());
        }
        // the parameter name, when there is one, is the last %token
        let nm = match a.rfind(" %") {
            Some(k) if !a[k + 2..].contains(')') => {
                let mut cc = Cur::new(&a[k + 2..]);
                cc.name()
            }
            _ => {
                let s = unnamed.to_string();
                s
            }
        };
        if nm == unnamed.to_string() {
            unnamed += 1;
        }
        params.push(rg.get(&nm));
    }
    // blocks
    let mut labels: HashMap<String, u32> = HashMap::new();
    let mut chunks: Vec<(String, Vec<String>)> = vec![];
    let mut cur: Option<(String, Vec<String>)> = None;
    let mut i = 0;
    while i < body.len() {
        let l = body[i];
        i += 1;
        if l.trim().is_empty() {
            continue;
        }
        if !l.starts_with(' ') {
            // label:
            let mut cc = Cur::new(l);
            if cc.peek() == b';' {
                continue;
            }
            let n = cc.name();
            if cc.peek() == b':' {
                if let Some(b) = cur.take() {
                    chunks.push(b);
                }
                cur = Some((n, vec![]));
                continue;
            }
            return Err(format!("odd line {l}"));
        }
        let mut t = l.trim().to_string();
        if t.starts_with('#') {
            continue; // debug record
        }
        if t.starts_with("switch ") || t.contains("= switch ") {
            while !t.contains(']') {
                t.push(' ');
                t.push_str(body[i].trim());
                i += 1;
            }
        } else if t.starts_with("invoke ") || t.contains(" = invoke ") {
            while !t.contains(" unwind label ") {
                t.push(' ');
                t.push_str(body[i].trim());
                i += 1;
            }
        } else if t.contains(" = landingpad ") {
            while i < body.len() && {
                let n = body[i].trim();
                n.starts_with("cleanup") || n.starts_with("catch ") || n.starts_with("filter ")
            } {
                i += 1;
            }
        }
        if cur.is_none() {
            // unnamed entry block: it takes the next number
            cur = Some((unnamed.to_string(), vec![]));
        }
        cur.as_mut().unwrap().1.push(t);
    }
    if let Some(b) = cur.take() {
        chunks.push(b);
    }
    for (k, (n, _)) in chunks.iter().enumerate() {
        labels.insert(n.clone(), k as u32);
    }
    let mut blocks = vec![];
    for (_, ls) in &chunks {
        let mut phis = vec![];
        let mut ins = vec![];
        for l in ls {
            let mut c = Cur::new(l);
            let mut dst = u32::MAX;
            if c.peek() == b'%' {
                c.p += 1;
                let n = c.name();
                c.expect("=")?;
                dst = rg.get(&n);
            }
            if c.peek_word() == "phi" {
                c.word();
                let t = c.ty(cx)?;
                let mut v = vec![];
                loop {
                    c.expect("[")?;
                    let o = c.opd(cx, &mut rg, &t)?;
                    c.expect(",")?;
                    c.expect("%")?;
                    let b = c.name();
                    c.expect("]")?;
                    v.push((*labels.get(&b).ok_or("phi label")?, o));
                    if c.peek() == b',' {
                        c.p += 1;
                        if c.peek() != b'[' {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                phis.push((dst, v));
                continue;
            }
            let i = parse_ins(cx, &mut rg, &labels, &mut c).unwrap_or_else(|e| I::Unsupported(format!("{e} in `{}`", l.chars().take(160).collect::<String>())));
            ins.push(Ins { dst, i });
        }
        blocks.push(Block { phis, ins });
    }
    Ok(Func { name: name.to_string(), params, nregs: rg.m.len() as u32, blocks, err: None })
}

fn parse_ins(cx: &mut Ctx, rg: &mut Regs, labels: &HashMap<String, u32>, c: &mut Cur) -> R<I> {
    let lab = |c: &mut Cur| -> R<u32> {
        c.expect("label")?;
        c.expect("%")?;
        let n = c.name();
        labels.get(&n).copied().ok_or_else(|| format!("label {n}"))
    };
    let op = c.word();
    let flags = |c: &mut Cur| {
        while matches!(
            c.peek_word(),
            "nuw" | "nsw" | "exact" | "disjoint" | "samesign" | "nneg" | "inbounds" | "nusw" | "volatile" | "weak" | "atomic"
        ) {
            c.word();
        }
        if c.peek_word() == "inrange" {
            c.word();
            c.balanced();
        }
    };
    match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            flags(c);
            let ty = c.ty(cx)?;
            let a = c.opd(cx, rg, &ty)?;
            c.expect(",")?;
            let b = c.opd(cx, rg, &ty)?;
            let op = match op {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "sdiv" => Op::SDiv,
                "urem" => Op::URem,
                "srem" => Op::SRem,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                "ashr" => Op::AShr,
                "and" => Op::And,
                "or" => Op::Or,
                _ => Op::Xor,
            };
            Ok(I::Bin { op, ty, a, b })
        }
        "icmp" => {
            flags(c);
            let pred = match c.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                p => return Err(format!("icmp {p}")),
            };
            let ty = c.ty(cx)?;
            let a = c.opd(cx, rg, &ty)?;
            c.expect(",")?;
            let b = c.opd(cx, rg, &ty)?;
            Ok(I::ICmp { pred, ty, a, b })
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
            flags(c);
            let from = c.ty(cx)?;
            let a = c.opd(cx, rg, &from)?;
            c.expect("to")?;
            let to = c.ty(cx)?;
            let k = match op {
                "trunc" => CastK::Trunc,
                "zext" => CastK::ZExt,
                "sext" => CastK::SExt,
                "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    let (f, t) = (width(&from), width(&to));
                    if f == t {
                        CastK::Bit
                    } else if f > t {
                        CastK::Trunc
                    } else {
                        CastK::ZExt
                    }
                }
                _ => CastK::Bit,
            };
            Ok(I::Cast { k, from, to, a })
        }
        "freeze" => {
            let t = c.ty(cx)?;
            let a = c.opd(cx, rg, &t)?;
            Ok(I::Cast { k: CastK::Bit, from: t.clone(), to: t, a })
        }
        "load" => {
            flags(c);
            let ty = c.ty(cx)?;
            c.expect(",")?;
            let (_, p) = c.ty_opd(cx, rg)?;
            Ok(I::Load { ty, p })
        }
        "store" => {
            flags(c);
            let (ty, v) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let (_, p) = c.ty_opd(cx, rg)?;
            Ok(I::Store { ty, v, p })
        }
        "getelementptr" => {
            flags(c);
            let st = c.ty(cx)?;
            c.expect(",")?;
            let (_, base) = c.ty_opd(cx, rg)?;
            let mut off = 0u64;
            let mut idx = vec![];
            let mut ct = st;
            let mut first = true;
            while c.peek() == b',' {
                c.p += 1;
                if c.peek() == b'!' {
                    break;
                }
                let (it, o) = c.ty_opd(cx, rg)?;
                if matches!(it, Ty::Vec(..)) {
                    return Err("vector gep".into());
                }
                if first {
                    let s = size_align(&ct).0;
                    match &o {
                        Opd::K(Val::C(v)) => off = off.wrapping_add((crate::expr::sext_to(*v, width(&it)) as i64).wrapping_mul(s as i64) as u64),
                        _ => idx.push((o, s, width(&it))),
                    }
                    first = false;
                } else {
                    match &o {
                        Opd::K(Val::C(v)) => {
                            let (d, nt) = step_ty(&ct, crate::expr::sext_to(*v, width(&it)) as i64)?;
                            off = off.wrapping_add(d);
                            ct = nt;
                        }
                        _ => {
                            let e = match &ct {
                                Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                                _ => return Err("gep".into()),
                            };
                            idx.push((o, size_align(&e).0, width(&it)));
                            ct = e;
                        }
                    }
                }
            }
            Ok(I::Gep { base, off, idx })
        }
        "alloca" => {
            let t = c.ty(cx)?;
            let size = size_align(&t).0;
            let mut n = None;
            if c.peek() == b',' {
                let p = c.p;
                c.p += 1;
                if c.at_type() {
                    let (_, o) = c.ty_opd(cx, rg)?;
                    n = Some((o, size));
                } else {
                    c.p = p;
                }
            }
            Ok(I::Alloca { size, n })
        }
        "select" => {
            flags(c);
            let (cty, cc) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let (ty, a) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let (_, b) = c.ty_opd(cx, rg)?;
            Ok(I::Select { ty, c: cc, cty, a, b })
        }
        "extractvalue" => {
            let (_, a) = c.ty_opd(cx, rg)?;
            let mut idx = vec![];
            while c.peek() == b',' {
                c.p += 1;
                if c.peek() == b'!' {
                    break;
                }
                idx.push(c.int()? as u32);
            }
            Ok(I::ExtractValue { a, idx })
        }
        "insertvalue" => {
            let (ty, a) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let (_, v) = c.ty_opd(cx, rg)?;
            let mut idx = vec![];
            while c.peek() == b',' {
                c.p += 1;
                if c.peek() == b'!' {
                    break;
                }
                idx.push(c.int()? as u32);
            }
            Ok(I::InsertValue { ty, a, v, idx })
        }
        "extractelement" => {
            let (ty, a) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let (_, i) = c.ty_opd(cx, rg)?;
            Ok(I::ExtractElem { ty, a, i })
        }
        "insertelement" => {
            let (ty, a) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let (_, v) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let (_, i) = c.ty_opd(cx, rg)?;
            Ok(I::InsertElem { ty, a, v, i })
        }
        "shufflevector" => {
            let (ty, a) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let (_, b) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let mt = c.ty(cx)?;
            let m = c.konst(cx, &mt)?;
            let n = match &ty {
                Ty::Vec(n, _) => *n,
                _ => return Err("shuffle".into()),
            };
            let cnt = match &mt {
                Ty::Vec(n, _) => *n as usize,
                _ => return Err("shuffle".into()),
            };
            let m = match m {
                Val::Agg(v) => v.iter().map(|x| match x {
                    Val::C(k) => Some(*k as u32),
                    _ => None,
                }).collect(),
                _ => vec![None; cnt],
            };
            Ok(I::Shuffle { n, a, b, m })
        }
        "br" => {
            if c.peek_word() == "label" {
                return Ok(I::Br(lab(c)?));
            }
            let (_, v) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let t = lab(c)?;
            c.expect(",")?;
            let f = lab(c)?;
            Ok(I::CondBr(v, t, f))
        }
        "switch" => {
            let (ty, v) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let def = lab(c)?;
            c.expect("[")?;
            let mut cases = vec![];
            while c.peek() != b']' {
                let t = c.ty(cx)?;
                let Val::C(k) = c.konst(cx, &t)? else { return Err("case".into()) };
                c.expect(",")?;
                cases.push((k, lab(c)?));
            }
            Ok(I::Switch { ty, v, def, cases })
        }
        "ret" => {
            let t = c.ty(cx)?;
            if t == Ty::Void {
                return Ok(I::Ret(None));
            }
            Ok(I::Ret(Some(c.opd(cx, rg, &t)?)))
        }
        "unreachable" => Ok(I::Unreachable),
        "fence" => Ok(I::Nop),
        "atomicrmw" => {
            flags(c);
            let o = c.word().to_string();
            let (_, p) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let (ty, v) = c.ty_opd(cx, rg)?;
            Ok(I::Rmw { op: o, ty, p, v })
        }
        "cmpxchg" => {
            flags(c);
            let (_, p) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let (ty, cv) = c.ty_opd(cx, rg)?;
            c.expect(",")?;
            let (_, n) = c.ty_opd(cx, rg)?;
            Ok(I::CmpXchg { ty, p, c: cv, n })
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if op != "call" && op != "invoke" {
                c.expect("call")?;
            }
            let invoke = op == "invoke";
            c.skip_attrs(true)?;
            let ret = c.ty(cx)?;
            if c.peek() == b'(' {
                c.balanced(); // explicit function type
            }
            let mut callee;
            if c.peek() == b'@' {
                c.p += 1;
                let n = c.name();
                if let Some(&i) = cx.fidx.get(&n) {
                    callee = Callee::Func(i);
                } else if let Some(&i) = cx.extidx.get(&n) {
                    let skip = n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.assume")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg")
                        || n.starts_with("llvm.invariant")
                        || n.starts_with("llvm.prefetch")
                        || n == "llvm.x86.sse2.pause"
                        || n == "llvm.donothing"
                        || n.contains("__rust_no_alloc_shim_is_unstable");
                    callee = if skip { Callee::Nop } else { Callee::Ext(i) };
                } else {
                    return Err(format!("callee {n}"));
                }
            } else if c.peek_word() == "asm" {
                let r = c.rest();
                let body = r.split('"').nth(1).unwrap_or("x");
                if !body.is_empty() {
                    return Err("inline asm".into());
                }
                callee = Callee::Nop;
            } else {
                let o = c.opd(cx, rg, &Ty::Ptr)?;
                callee = Callee::Ind(o);
            }
            let mut args = vec![];
            if !matches!(callee, Callee::Nop) {
                if c.peek() != b'(' {
                    return Err("call args".into());
                }
                let st = c.p;
                c.balanced();
                let inner = std::str::from_utf8(&c.s[st + 1..c.p - 1]).unwrap();
                for a in split_args(inner) {
                    let mut ac = Cur::new(a);
                    if ac.peek_word() == "metadata" {
                        args.push((Opd::K(Val::U), Ty::Void));
                        continue;
                    }
                    let (t, o) = ac.ty_opd(cx, rg)?;
                    args.push((o, t));
                }
            } else {
                callee = Callee::Nop;
            }
            let mut normal = None;
            if invoke {
                let r = c.rest();
                let k = r.find("to label %").ok_or("invoke")?;
                let mut cc = Cur::new(&r[k + 3..]);
                normal = Some(lab(&mut cc)?);
            }
            Ok(I::Call { callee, args, ret, normal })
        }
        o => Err(format!("opcode {o}")),
    }
}
