//! Textual LLVM IR reader: module indexing and lazy per-function lowering to a
//! flat instruction list for the executor.
use crate::expr::{mask128, Bin, Ctx, Pred};
use std::collections::HashMap;

pub const GLOB_BASE: u64 = 0x1_0000_0000;
pub const HEAP_BASE: u64 = 0x2_0000_0000;
pub const STACK_BASE: u64 = 0x3_0000_0000;
pub const STACK_SIZE: u64 = 256 << 20;
pub const FN_BASE: u64 = 0x4_0000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Void,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u32, Box<Ty>),
    Other,
}
impl Ty {
    pub fn size_align(&self) -> (u64, u64) {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr => (8, 8),
            Ty::Arr(n, t) => {
                let (s, a) = t.size_align();
                (s * n, a)
            }
            Ty::Struct(ts, packed) => {
                let (mut o, mut al) = (0, 1);
                for t in ts {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a + s;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al)
            }
            Ty::Vec(n, t) => {
                let bits = *n as u64 * t.bits() as u64;
                let b = (bits + 7) / 8;
                (b, b.next_power_of_two())
            }
            _ => (0, 1),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    /// flattened scalar leaves: (byte offset, width)
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Int(w) => out.push((base, *w)),
            Ty::Ptr => out.push((base, 64)),
            Ty::Arr(n, t) => {
                let (s, _) = t.size_align();
                for i in 0..*n {
                    t.leaves(base + i * s, out)
                }
            }
            Ty::Vec(n, t) => {
                let s = (t.bits() as u64 + 7) / 8;
                for i in 0..*n as u64 {
                    t.leaves(base + i * s, out)
                }
            }
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    t.leaves(base + o, out);
                    o += s;
                }
            }
            Ty::Void | Ty::Other => {}
        }
    }
    pub fn nslots(&self) -> u32 {
        let mut v = vec![];
        self.leaves(0, &mut v);
        v.len() as u32
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    X(u32), // constant wider than 64 bits: expression id
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Assume,
    Memcpy,
    Memset,
    Trap,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    UCmp,
    SCmp,
    LoadRel,
    Ident,
    Expect,
    IsConstant,
    ObjectSize,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: Bin, w: u8, d: u32, a: Op, b: Op },
    Cmp { p: Pred, neg: bool, w: u8, d: u32, a: Op, b: Op },
    Zext { d: u32, a: Op, from: u8, to: u8 },
    Sext { d: u32, a: Op, from: u8, to: u8 },
    Trunc { d: u32, a: Op, from: u8, to: u8 },
    Copy { d: u32, a: Op },
    Select { w: u8, ptr: bool, d: u32, c: Op, a: Op, b: Op },
    Load { d: u32, a: Op, off: i64, w: u8 },
    Store { a: Op, off: i64, v: Op, w: u8 },
    Gep { d: u32, base: Op, off: i64, terms: Box<[(Op, i64, u8)]> },
    Alloca { d: u32, size: u64, align: u64, n: Op },
    Br { e: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { w: u8, v: Op, def: u32, cases: Box<[(u64, u32)]> },
    Call { f: u32, args: Box<[Op]>, d: u32, nret: u32 },
    CallInd { p: Op, args: Box<[Op]>, d: u32, nret: u32 },
    Intr { k: Intr, w: u8, d: u32, args: Box<[Op]> },
    Ret { v: Box<[Op]> },
    Unreachable,
    CmpXchg { d: u32, p: Op, w: u8, exp: Op, new: Op },
    Rmw { d: u32, op: u8, p: Op, w: u8, v: Op },
    Pack { d: u32, lanes: Box<[Op]>, lw: u8 },
    Unpack { d: u32, a: Op, n: u32, lw: u8 },
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Edge {
    pub block: u32,
    pub pc: u32,
    pub copies: Box<[(u32, Op)]>,
}

#[derive(Debug)]
pub struct Code {
    pub insts: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub nparams: u32,
}

pub struct Func {
    pub name: &'static str,
    pub defined: bool,
    pub weak: bool,
    header: &'static str,
    body: &'static str,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<&'static str, u32>,
    pub gaddr: HashMap<&'static str, u64>,
    pub galias: HashMap<&'static str, &'static str>,
    pub image: Vec<u8>,
    pub ro: Vec<(u64, u64)>,
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(&'static str),
    Int(u128, bool),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(u8),
    Meta,
    End,
}
#[derive(Clone)]
pub struct Lx {
    s: &'static [u8],
    i: usize,
}
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}
impl Lx {
    pub fn new(s: &'static str) -> Lx {
        Lx { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1
        }
        if self.i < self.s.len() && self.s[self.i] == b';' {
            while self.i < self.s.len() && self.s[self.i] != b'\n' {
                self.i += 1
            }
            self.ws()
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn ident(&mut self) -> &'static str {
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1
        }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
    }
    pub fn next(&mut self) -> Tok {
        self.ws();
        if self.i >= self.s.len() {
            return Tok::End;
        }
        let c = self.s[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let n = if self.s[self.i] == b'"' { String::from_utf8_lossy(&self.quoted()).into_owned() } else { self.ident().to_string() };
                if c == b'%' {
                    Tok::Local(n)
                } else {
                    Tok::Global(n)
                }
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'!' => {
                self.i += 1;
                if self.i < self.s.len() && is_id(self.s[self.i]) {
                    self.ident();
                }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                self.ident();
                Tok::Word("#attr")
            }
            b'0'..=b'9' | b'-' => {
                let neg = c == b'-';
                if neg {
                    self.i += 1;
                }
                let mut v: u128 = 0;
                let st = self.i;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    v = v.wrapping_mul(10).wrapping_add((self.s[self.i] - b'0') as u128);
                    self.i += 1;
                }
                if st == self.i {
                    return Tok::P(b'-');
                }
                Tok::Int(if neg { v.wrapping_neg() } else { v }, neg)
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => Tok::Word(self.ident()),
            c => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    pub fn peek(&self) -> Tok {
        self.clone().next()
    }
    pub fn is(&mut self, c: u8) -> bool {
        let sv = self.i;
        if self.next() == Tok::P(c) {
            true
        } else {
            self.i = sv;
            false
        }
    }
    pub fn isw(&mut self, w: &str) -> bool {
        let sv = self.i;
        if let Tok::Word(x) = self.next() {
            if x == w {
                return true;
            }
        }
        self.i = sv;
        false
    }
    fn expect(&mut self, c: u8) {
        let ctx = self.i;
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected {:?} got {:?} at ...{}", c as char, t, String::from_utf8_lossy(&self.s[ctx.saturating_sub(80)..(ctx + 80).min(self.s.len())]));
        }
    }
    fn int(&mut self) -> u128 {
        match self.next() {
            Tok::Int(v, _) => v,
            t => panic!("int expected {:?}", t),
        }
    }
    fn skip_parens(&mut self) {
        // assumes '(' consumed
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Word("ptr") => {
                if self.isw("addrspace") {
                    self.expect(b'(');
                    self.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Word("void") => Ty::Void,
            Tok::Word("metadata") | Tok::Word("label") | Tok::Word("token") => Ty::Other,
            Tok::Word(w) if w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) && w.len() > 1 => Ty::Int(w[1..].parse().unwrap()),
            Tok::P(b'[') => {
                let n = self.int() as u64;
                assert!(self.isw("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                if !self.is(b'}') {
                    loop {
                        v.push(self.ty());
                        if !self.is(b',') {
                            break;
                        }
                    }
                    self.expect(b'}');
                }
                Ty::Struct(v, false)
            }
            Tok::P(b'<') => {
                if self.is(b'{') {
                    let mut v = vec![];
                    if !self.is(b'}') {
                        loop {
                            v.push(self.ty());
                            if !self.is(b',') {
                                break;
                            }
                        }
                        self.expect(b'}');
                    }
                    self.expect(b'>');
                    Ty::Struct(v, true)
                } else {
                    let n = self.int() as u32;
                    assert!(self.isw("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            t => panic!("type expected, got {:?} near {}", t, String::from_utf8_lossy(&self.s[self.i.saturating_sub(60)..(self.i + 60).min(self.s.len())])),
        };
        // function type: T (args)  -- only appears in calls/aliases
        t
    }
}

pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

impl Module {
    pub fn load(text: String) -> Module {
        let text: &'static str = leak(text);
        let mut m = Module { funcs: vec![], fidx: HashMap::new(), gaddr: HashMap::new(), galias: HashMap::new(), image: vec![], ro: vec![] };
        let mut globals: Vec<(&'static str, &'static str)> = vec![];
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let eol = memchr(b, i, b'\n');
            let line = &text[i..eol];
            if line.starts_with('@') {
                let (n, rest) = gname(line);
                globals.push((n, rest));
            } else if line.starts_with("define") || line.starts_with("declare") {
                let at = line.find('@').unwrap();
                let (n, _) = gname(&line[at..]);
                let weak = line.contains("extern_weak");
                let defined = line.starts_with("define");
                let mut body = "";
                let mut end = eol;
                if defined {
                    let e = find_end(b, eol);
                    body = &text[eol + 1..e];
                    end = e + 1;
                }
                m.fidx.insert(n, m.funcs.len() as u32);
                m.funcs.push(Func { name: n, defined, weak, header: line, body });
                i = memchr(b, end.min(b.len()), b'\n') + 1;
                continue;
            } else if line.starts_with("!") {
                break;
            }
            i = eol + 1;
        }
        // addresses
        let mut addr = GLOB_BASE;
        let mut inits = vec![];
        for (n, rest) in &globals {
            let mut lx = Lx::new(rest);
            let mut is_const = false;
            let mut ext = false;
            loop {
                match lx.next() {
                    Tok::Word("constant") => {
                        is_const = true;
                        break;
                    }
                    Tok::Word("global") => break,
                    Tok::Word("alias") => {
                        // alias T, ptr @target
                        let at = rest.rfind('@').unwrap();
                        let (t, _) = gname(&rest[at..]);
                        m.galias.insert(n, t);
                        ext = true;
                        break;
                    }
                    Tok::Word("external") | Tok::Word("extern_weak") => ext = true,
                    Tok::End => panic!("global {}", rest),
                    Tok::P(b'(') => lx.skip_parens(),
                    _ => {}
                }
            }
            if m.galias.contains_key(n) {
                continue;
            }
            let t = lx.ty();
            let (s, a) = t.size_align();
            let a = a.max(16);
            addr = (addr + a - 1) / a * a;
            m.gaddr.insert(n, if rest.contains("extern_weak") { 0 } else { addr });
            if is_const {
                m.ro.push((addr, addr + s));
            }
            if !ext {
                inits.push((addr, t, lx));
            }
            addr += s.max(1) + 8;
        }
        m.image = vec![0u8; (addr - GLOB_BASE) as usize];
        for (a, t, mut lx) in inits {
            let mut buf = std::mem::take(&mut m.image);
            m.write_const(&mut lx, &t, &mut buf, (a - GLOB_BASE) as usize);
            m.image = buf;
        }
        m
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) {
            return *a;
        }
        if let Some(t) = self.galias.get(n) {
            return self.sym_addr(t);
        }
        if let Some(f) = self.fidx.get(n) {
            if self.funcs[*f as usize].weak {
                return 0;
            }
            return FN_BASE + 16 * *f as u64;
        }
        panic!("unknown symbol @{}", n)
    }
    fn write_const(&self, lx: &mut Lx, t: &Ty, buf: &mut [u8], off: usize) {
        match lx.peek() {
            Tok::Word("zeroinitializer") | Tok::Word("undef") | Tok::Word("poison") => {
                lx.next();
                return;
            }
            _ => {}
        }
        match t {
            Ty::Arr(n, et) => {
                if let Tok::CStr(v) = lx.peek() {
                    lx.next();
                    buf[off..off + v.len()].copy_from_slice(&v);
                    return;
                }
                lx.expect(b'[');
                let (s, _) = et.size_align();
                for i in 0..*n {
                    let t2 = lx.ty();
                    self.write_const(lx, &t2, buf, off + (i * s) as usize);
                    if i + 1 < *n {
                        lx.expect(b',')
                    }
                }
                lx.expect(b']');
            }
            Ty::Struct(ts, packed) => {
                if *packed {
                    lx.expect(b'<');
                }
                lx.expect(b'{');
                let mut o = 0u64;
                for (i, t) in ts.iter().enumerate() {
                    let t2 = lx.ty();
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    o = (o + a - 1) / a * a;
                    self.write_const(lx, &t2, buf, off + o as usize);
                    o += s;
                    if i + 1 < ts.len() {
                        lx.expect(b',')
                    }
                }
                lx.expect(b'}');
                if *packed {
                    lx.expect(b'>');
                }
            }
            Ty::Vec(n, et) => {
                lx.expect(b'<');
                let s = (et.bits() as usize + 7) / 8;
                for i in 0..*n as usize {
                    let t2 = lx.ty();
                    self.write_const(lx, &t2, buf, off + i * s);
                    if i + 1 < *n as usize {
                        lx.expect(b',')
                    }
                }
                lx.expect(b'>');
            }
            _ => {
                let v = self.scalar_const(lx, t);
                let n = (t.bits() as usize + 7) / 8;
                buf[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    fn scalar_const(&self, lx: &mut Lx, t: &Ty) -> u128 {
        let m = mask128(t.bits().min(128) as u8);
        match lx.next() {
            Tok::Int(v, _) => v & m,
            Tok::Word("true") => 1,
            Tok::Word("false") | Tok::Word("null") | Tok::Word("undef") | Tok::Word("poison") | Tok::Word("zeroinitializer") => 0,
            Tok::Global(n) => self.sym_addr(&n) as u128,
            Tok::Word("inttoptr") | Tok::Word("ptrtoint") | Tok::Word("ptrtoaddr") | Tok::Word("trunc") | Tok::Word("bitcast") => {
                while !lx.is(b'(') {
                    lx.next();
                }
                let t2 = lx.ty();
                let v = self.scalar_const(lx, &t2);
                assert!(lx.isw("to"));
                let t3 = lx.ty();
                lx.expect(b')');
                v & mask128(t3.bits() as u8)
            }
            Tok::Word(op @ ("sub" | "add" | "xor")) => {
                while !lx.is(b'(') {
                    lx.next();
                }
                let t2 = lx.ty();
                let a = self.scalar_const(lx, &t2);
                lx.expect(b',');
                let t3 = lx.ty();
                let b = self.scalar_const(lx, &t3);
                lx.expect(b')');
                (match op {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    _ => a ^ b,
                }) & m
            }
            Tok::Word("getelementptr") => {
                while !lx.is(b'(') {
                    if let Tok::Word("inrange") = lx.peek() {
                        lx.next();
                        lx.expect(b'(');
                        lx.skip_parens();
                    } else {
                        lx.next();
                    }
                }
                let et = lx.ty();
                lx.expect(b',');
                lx.ty();
                let mut a = self.scalar_const(lx, &Ty::Ptr);
                let mut cur = et;
                let mut first = true;
                while lx.is(b',') {
                    let it = lx.ty();
                    let v = self.scalar_const(lx, &it);
                    let iv = crate::expr::sx128(v, it.bits() as u8);
                    if first {
                        a = a.wrapping_add((iv * cur.size_align().0 as i128) as u128);
                        first = false;
                    } else {
                        let (o, n) = step(&cur, iv as i64);
                        a = a.wrapping_add(o as i128 as u128);
                        cur = n;
                    }
                }
                lx.expect(b')');
                a & m
            }
            t => panic!("const {:?} near {}", t, String::from_utf8_lossy(&lx.s[lx.i.saturating_sub(100)..(lx.i + 60).min(lx.s.len())])),
        }
    }
}
fn step(t: &Ty, i: i64) -> (i64, Ty) {
    match t {
        Ty::Arr(_, e) => (i * e.size_align().0 as i64, (**e).clone()),
        Ty::Vec(_, e) => (i * e.size_align().0 as i64, (**e).clone()),
        Ty::Struct(ts, packed) => {
            let mut o = 0u64;
            for (k, t) in ts.iter().enumerate() {
                let (s, a) = t.size_align();
                let a = if *packed { 1 } else { a };
                o = (o + a - 1) / a * a;
                if k as i64 == i {
                    return (o as i64, t.clone());
                }
                o += s;
            }
            panic!()
        }
        _ => panic!("gep step into {:?}", t),
    }
}
fn memchr(b: &[u8], from: usize, c: u8) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1
    }
    i
}
fn find_end(b: &[u8], from: usize) -> usize {
    let mut i = from;
    loop {
        i = memchr(b, i, b'\n') + 1;
        if b[i] == b'}' {
            return i;
        }
    }
}
fn gname(s: &'static str) -> (&'static str, &'static str) {
    let b = s.as_bytes();
    debug_assert!(b[0] == b'@');
    if b[1] == b'"' {
        let e = s[2..].find('"').unwrap() + 2;
        (&s[2..e], s[e + 1..].trim_start_matches(" = "))
    } else {
        let mut i = 1;
        while i < b.len() && is_id(b[i]) {
            i += 1
        }
        (&s[1..i], s[i..].trim_start_matches(" = "))
    }
}

// ---------------------------------------------------------------- lowering
struct Low<'a> {
    m: &'a Module,
    x: &'a mut Ctx,
    slots: HashMap<String, (u32, u32)>,
    nregs: u32,
    insts: Vec<Inst>,
    edges: Vec<(u32, u32)>, // (pred block, succ block)
    blocks: HashMap<String, u32>,
    nblocks: u32,
    starts: Vec<u32>,
    cur: u32,
    phis: HashMap<u32, Vec<(u32, HashMap<u32, Vec<Op>>)>>,
}

impl Module {
    pub fn lower(&self, f: u32, x: &mut Ctx) -> Code {
        let fun = &self.funcs[f as usize];
        let mut l = Low {
            m: self,
            x,
            slots: HashMap::new(),
            nregs: 0,
            insts: vec![],
            edges: vec![],
            blocks: HashMap::new(),
            nblocks: 0,
            starts: vec![],
            cur: 0,
            phis: HashMap::new(),
        };
        // params
        let h = fun.header;
        let at = h.find(&format!("@{}", fun.name)).map(|p| p + 1 + fun.name.len()).or_else(|| h.find(&format!("@\"{}\"", fun.name)).map(|p| p + 3 + fun.name.len())).unwrap();
        let mut lx = Lx::new(&h[at..]);
        lx.expect(b'(');
        let mut unnamed = 0u32;
        if !lx.is(b')') {
            loop {
                if lx.is(b'.') {
                    // varargs in definition: unsupported
                    break;
                }
                let t = lx.ty();
                let mut name = None;
                loop {
                    match lx.peek() {
                        Tok::Local(n) => {
                            lx.next();
                            name = Some(n);
                            break;
                        }
                        Tok::P(b',') | Tok::P(b')') => break,
                        Tok::P(b'(') => {
                            lx.next();
                            lx.skip_parens()
                        }
                        Tok::End => panic!("params of {}", fun.name),
                        _ => {
                            lx.next();
                        }
                    }
                }
                let n = name.unwrap_or_else(|| {
                    let s = unnamed.to_string();
                    unnamed += 1;
                    s
                });
                if n.parse::<u32>().map_or(false, |k| k >= unnamed) {
                    unnamed = n.parse::<u32>().unwrap() + 1;
                }
                l.slot(&n, t.nslots());
                if !lx.is(b',') {
                    break;
                }
            }
        }
        let nparams = l.nregs;
        // body
        let mut started = false;
        let body = fun.body;
        let mut pos = 0;
        let bytes = body.as_bytes();
        while pos < body.len() {
            let mut eol = memchr(bytes, pos, b'\n');
            let line = &body[pos..eol];
            if line.is_empty() {
                pos = eol + 1;
                continue;
            }
            if !line.starts_with(' ') {
                // label
                let lab = if line.starts_with('"') { line[1..].split('"').next().unwrap() } else { line.split(':').next().unwrap() };
                let b = l.block(lab);
                l.cur = b;
                l.begin_block(b);
                started = true;
                pos = eol + 1;
                continue;
            }
            if !started {
                let b = l.block(&unnamed.to_string());
                l.cur = b;
                l.begin_block(b);
                started = true;
            }
            // switch spans lines
            if line.trim_start().starts_with("switch ") && !line.contains(']') {
                loop {
                    let e2 = memchr(bytes, eol + 1, b'\n');
                    let done = body[eol + 1..e2].trim_start().starts_with(']');
                    eol = e2;
                    if done {
                        break;
                    }
                }
            }
            let stmt = &body[pos..eol];
            l.inst(stmt);
            pos = eol + 1;
        }
        // edges
        let mut edges = vec![];
        let es = std::mem::take(&mut l.edges);
        for (pred, succ) in es {
            let mut copies: Vec<(u32, Op)> = vec![];
            if let Some(ps) = l.phis.get(&succ) {
                for (d, inc) in ps {
                    let ops = inc.get(&pred).unwrap_or_else(|| panic!("phi edge missing in {}", fun.name));
                    for (k, o) in ops.iter().enumerate() {
                        copies.push((d + k as u32, *o));
                    }
                }
            }
            edges.push(Edge { block: succ, pc: l.starts[succ as usize], copies: copies.into_boxed_slice() });
        }
        Code { insts: l.insts, edges, nregs: l.nregs, nparams }
    }
}

impl<'a> Low<'a> {
    fn slot(&mut self, n: &str, k: u32) -> u32 {
        if let Some((s, _)) = self.slots.get(n) {
            return *s;
        }
        let s = self.nregs;
        self.nregs += k;
        self.slots.insert(n.to_string(), (s, k));
        s
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(b) = self.blocks.get(n) {
            return *b;
        }
        let b = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n.to_string(), b);
        b
    }
    fn begin_block(&mut self, b: u32) {
        while self.starts.len() <= b as usize {
            self.starts.push(u32::MAX)
        }
        self.starts[b as usize] = self.insts.len() as u32;
    }
    fn edge(&mut self, to: &str) -> u32 {
        let b = self.block(to);
        while self.starts.len() <= b as usize {
            self.starts.push(u32::MAX)
        }
        self.edges.push((self.cur, b));
        self.edges.len() as u32 - 1
    }
    fn cst(&mut self, v: u128, w: u32) -> Op {
        if w <= 64 {
            Op::C(v as u64 & crate::expr::mask64(w as u8))
        } else {
            Op::X(self.x.cst(v, w as u8))
        }
    }
    /// operand of type t, flattened
    fn val(&mut self, lx: &mut Lx, t: &Ty) -> Vec<Op> {
        let mut lv = vec![];
        t.leaves(0, &mut lv);
        match lx.peek() {
            Tok::Local(n) => {
                lx.next();
                let s = self.slot(&n, lv.len() as u32);
                (0..lv.len() as u32).map(|i| Op::R(s + i)).collect()
            }
            Tok::Word("zeroinitializer") | Tok::Word("undef") | Tok::Word("poison") => {
                lx.next();
                lv.iter().map(|(_, w)| self.cst(0, *w)).collect()
            }
            _ => match t {
                Ty::Vec(n, et) => {
                    if lx.isw("splat") {
                        lx.expect(b'(');
                        let t2 = lx.ty();
                        let v = self.val(lx, &t2)[0];
                        lx.expect(b')');
                        return vec![v; *n as usize];
                    }
                    if let Tok::CStr(v) = lx.peek() {
                        lx.next();
                        return v.iter().map(|b| Op::C(*b as u64)).collect();
                    }
                    lx.expect(b'<');
                    let mut r = vec![];
                    for i in 0..*n {
                        let t2 = lx.ty();
                        debug_assert!(t2 == **et);
                        r.extend(self.val(lx, &t2));
                        if i + 1 < *n {
                            lx.expect(b',')
                        }
                    }
                    lx.expect(b'>');
                    r
                }
                Ty::Struct(ts, packed) => {
                    if *packed {
                        lx.expect(b'<')
                    }
                    lx.expect(b'{');
                    let mut r = vec![];
                    for i in 0..ts.len() {
                        let t2 = lx.ty();
                        r.extend(self.val(lx, &t2));
                        if i + 1 < ts.len() {
                            lx.expect(b',')
                        }
                    }
                    lx.expect(b'}');
                    if *packed {
                        lx.expect(b'>')
                    }
                    r
                }
                Ty::Arr(n, _) => {
                    if let Tok::CStr(v) = lx.peek() {
                        lx.next();
                        return v.iter().map(|b| Op::C(*b as u64)).collect();
                    }
                    lx.expect(b'[');
                    let mut r = vec![];
                    for i in 0..*n {
                        let t2 = lx.ty();
                        r.extend(self.val(lx, &t2));
                        if i + 1 < *n {
                            lx.expect(b',')
                        }
                    }
                    lx.expect(b']');
                    r
                }
                Ty::Other => {
                    // metadata argument
                    lx.next();
                    vec![]
                }
                _ => {
                    let v = self.m.scalar_const(lx, t);
                    vec![self.cst(v, t.bits())]
                }
            },
        }
    }
    fn label(&mut self, lx: &mut Lx) -> u32 {
        assert!(lx.isw("label"));
        match lx.next() {
            Tok::Local(n) => self.edge(&n),
            t => panic!("label {:?}", t),
        }
    }
    fn tv(&mut self, lx: &mut Lx) -> (Ty, Vec<Op>) {
        let t = lx.ty();
        let v = self.val(lx, &t);
        (t, v)
    }
    fn inst(&mut self, s: &'static str) {
        let mut lx = Lx::new(s);
        let mut name: Option<String> = None;
        if let Tok::Local(n) = lx.peek() {
            let sv = lx.i;
            lx.next();
            if lx.is(b'=') {
                name = Some(n);
            } else {
                lx.i = sv;
            }
        }
        let op = match lx.next() {
            Tok::Word(w) => w,
            t => panic!("inst {:?} in {}", t, s),
        };
        let nm = name.clone().unwrap_or_default();
        let flags = |lx: &mut Lx| loop {
            match lx.peek() {
                Tok::Word("nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "weak" | "tail" | "musttail" | "notail") => {
                    lx.next();
                }
                Tok::Word("inrange") => {
                    lx.next();
                    lx.expect(b'(');
                    lx.skip_parens();
                }
                _ => break,
            }
        };
        match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                flags(&mut lx);
                let t = lx.ty();
                let a = self.val(&mut lx, &t);
                lx.expect(b',');
                let b = self.val(&mut lx, &t);
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                let d = self.slot(&nm, lv.len() as u32);
                let o = match op {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "urem" => Bin::URem,
                    "sdiv" => Bin::SDiv,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    _ => Bin::AShr,
                };
                for i in 0..lv.len() {
                    self.insts.push(Inst::Bin { op: o, w: lv[i].1 as u8, d: d + i as u32, a: a[i], b: b[i] });
                }
            }
            "icmp" => {
                flags(&mut lx);
                let p = match lx.next() {
                    Tok::Word(w) => w,
                    t => panic!("{:?}", t),
                };
                let t = lx.ty();
                let a = self.val(&mut lx, &t);
                lx.expect(b',');
                let b = self.val(&mut lx, &t);
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                let d = self.slot(&nm, lv.len() as u32);
                let (pr, neg, sw) = match p {
                    "eq" => (Pred::Eq, false, false),
                    "ne" => (Pred::Eq, true, false),
                    "ult" => (Pred::Ult, false, false),
                    "ule" => (Pred::Ule, false, false),
                    "ugt" => (Pred::Ult, false, true),
                    "uge" => (Pred::Ule, false, true),
                    "slt" => (Pred::Slt, false, false),
                    "sle" => (Pred::Sle, false, false),
                    "sgt" => (Pred::Slt, false, true),
                    "sge" => (Pred::Sle, false, true),
                    _ => panic!("{}", p),
                };
                for i in 0..lv.len() {
                    let (x, y) = if sw { (b[i], a[i]) } else { (a[i], b[i]) };
                    self.insts.push(Inst::Cmp { p: pr, neg, w: lv[i].1 as u8, d: d + i as u32, a: x, b: y });
                }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                flags(&mut lx);
                let (t, a) = self.tv(&mut lx);
                assert!(lx.isw("to"));
                let t2 = lx.ty();
                let (mut l1, mut l2) = (vec![], vec![]);
                t.leaves(0, &mut l1);
                t2.leaves(0, &mut l2);
                let d = self.slot(&nm, l2.len() as u32);
                for i in 0..l1.len() {
                    let (f, to) = (l1[i].1 as u8, l2[i].1 as u8);
                    let (d, a) = (d + i as u32, a[i]);
                    self.insts.push(if f == to {
                        Inst::Copy { d, a }
                    } else if op == "sext" {
                        Inst::Sext { d, a, from: f, to }
                    } else if f < to {
                        Inst::Zext { d, a, from: f, to }
                    } else {
                        Inst::Trunc { d, a, from: f, to }
                    });
                }
            }
            "bitcast" => {
                let (t, a) = self.tv(&mut lx);
                assert!(lx.isw("to"));
                let t2 = lx.ty();
                let (mut l1, mut l2) = (vec![], vec![]);
                t.leaves(0, &mut l1);
                t2.leaves(0, &mut l2);
                let d = self.slot(&nm, l2.len() as u32);
                if l1.len() == l2.len() {
                    for i in 0..l1.len() {
                        self.insts.push(Inst::Copy { d: d + i as u32, a: a[i] });
                    }
                } else if l2.len() == 1 {
                    self.insts.push(Inst::Pack { d, lanes: a.into_boxed_slice(), lw: l1[0].1 as u8 });
                } else if l1.len() == 1 {
                    self.insts.push(Inst::Unpack { d, a: a[0], n: l2.len() as u32, lw: l2[0].1 as u8 });
                } else if l1.len() > l2.len() {
                    let k = l1.len() / l2.len();
                    for i in 0..l2.len() {
                        self.insts.push(Inst::Pack { d: d + i as u32, lanes: a[i * k..(i + 1) * k].to_vec().into_boxed_slice(), lw: l1[0].1 as u8 });
                    }
                } else {
                    let k = l2.len() / l1.len();
                    for i in 0..l1.len() {
                        self.insts.push(Inst::Unpack { d: d + (i * k) as u32, a: a[i], n: k as u32, lw: l2[0].1 as u8 });
                    }
                }
            }
            "freeze" => {
                let (t, a) = self.tv(&mut lx);
                let d = self.slot(&nm, t.nslots());
                for i in 0..a.len() {
                    self.insts.push(Inst::Copy { d: d + i as u32, a: a[i] });
                }
            }
            "select" => {
                let (ct, c) = self.tv(&mut lx);
                lx.expect(b',');
                let (t, a) = self.tv(&mut lx);
                lx.expect(b',');
                let (_, b) = self.tv(&mut lx);
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                let d = self.slot(&nm, lv.len() as u32);
                let vecc = matches!(ct, Ty::Vec(..));
                for i in 0..lv.len() {
                    self.insts.push(Inst::Select { w: lv[i].1 as u8, ptr: t == Ty::Ptr, d: d + i as u32, c: if vecc { c[i] } else { c[0] }, a: a[i], b: b[i] });
                }
            }
            "load" => {
                lx.isw("atomic");
                flags(&mut lx);
                let t = lx.ty();
                lx.expect(b',');
                let (_, p) = self.tv(&mut lx);
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                let d = self.slot(&nm, lv.len() as u32);
                if let Ty::Vec(n, et) = &t {
                    if et.bits() % 8 != 0 {
                        // packed bits
                        let tmp = self.nregs;
                        self.nregs += 1;
                        self.insts.push(Inst::Load { d: tmp, a: p[0], off: 0, w: (*n * et.bits()) as u8 });
                        self.insts.push(Inst::Unpack { d, a: Op::R(tmp), n: *n, lw: et.bits() as u8 });
                        return;
                    }
                }
                for (i, (o, w)) in lv.iter().enumerate() {
                    // destination slot may alias the address register only if same name (impossible in SSA)
                    self.insts.push(Inst::Load { d: d + i as u32, a: p[0], off: *o as i64, w: *w as u8 });
                }
            }
            "store" => {
                lx.isw("atomic");
                flags(&mut lx);
                let (t, v) = self.tv(&mut lx);
                lx.expect(b',');
                let (_, p) = self.tv(&mut lx);
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                if let Ty::Vec(n, et) = &t {
                    if et.bits() % 8 != 0 {
                        let tmp = self.nregs;
                        self.nregs += 1;
                        self.insts.push(Inst::Pack { d: tmp, lanes: v.into_boxed_slice(), lw: et.bits() as u8 });
                        self.insts.push(Inst::Store { a: p[0], off: 0, v: Op::R(tmp), w: (*n * et.bits()) as u8 });
                        return;
                    }
                }
                for (i, (o, w)) in lv.iter().enumerate() {
                    self.insts.push(Inst::Store { a: p[0], off: *o as i64, v: v[i], w: *w as u8 });
                }
            }
            "getelementptr" => {
                flags(&mut lx);
                let et = lx.ty();
                lx.expect(b',');
                let (bt, base) = self.tv(&mut lx);
                if !matches!(bt, Ty::Ptr) {
                    self.insts.push(Inst::Unsupported(format!("vector gep: {}", s)));
                    return;
                }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = et;
                let mut first = true;
                while lx.is(b',') {
                    if let Tok::Meta = lx.peek() {
                        break;
                    }
                    let (it, iv) = self.tv(&mut lx);
                    let scale;
                    if first {
                        scale = cur.size_align().0 as i64;
                        first = false;
                    } else {
                        match &cur.clone() {
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size_align().0 as i64;
                                cur = (**e).clone();
                            }
                            Ty::Struct(..) => {
                                let k = match iv[0] {
                                    Op::C(k) => k as i64,
                                    _ => panic!(),
                                };
                                let (o, n) = step(&cur, k);
                                off += o;
                                cur = n;
                                continue;
                            }
                            _ => panic!("gep {}", s),
                        }
                    }
                    match iv[0] {
                        Op::C(c) => off = off.wrapping_add((crate::expr::sx128(c as u128, it.bits() as u8) as i64).wrapping_mul(scale)),
                        o => terms.push((o, scale, it.bits() as u8)),
                    }
                }
                let d = self.slot(&nm, 1);
                self.insts.push(Inst::Gep { d, base: base[0], off, terms: terms.into_boxed_slice() });
            }
            "alloca" => {
                let t = lx.ty();
                let (s, a) = t.size_align();
                let mut al = a;
                let mut n = Op::C(1);
                while lx.is(b',') {
                    if lx.isw("align") {
                        al = lx.int() as u64;
                    } else if let Tok::Meta = lx.peek() {
                        break;
                    } else {
                        n = self.tv(&mut lx).1[0];
                    }
                }
                let d = self.slot(&nm, 1);
                self.insts.push(Inst::Alloca { d, size: s, align: al, n });
            }
            "br" => {
                if let Tok::Word("label") = lx.peek() {
                    let e = self.label(&mut lx);
                    self.insts.push(Inst::Br { e });
                } else {
                    let (_, c) = self.tv(&mut lx);
                    lx.expect(b',');
                    let t = self.label(&mut lx);
                    lx.expect(b',');
                    let f = self.label(&mut lx);
                    self.insts.push(Inst::CondBr { c: c[0], t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tv(&mut lx);
                lx.expect(b',');
                let def = self.label(&mut lx);
                lx.expect(b'[');
                let mut cases = vec![];
                while !lx.is(b']') {
                    let (_, k) = self.tv(&mut lx);
                    lx.expect(b',');
                    let e = self.label(&mut lx);
                    match k[0] {
                        Op::C(c) => cases.push((c, e)),
                        _ => panic!("wide switch"),
                    }
                }
                self.insts.push(Inst::Switch { w: t.bits() as u8, v: v[0], def, cases: cases.into_boxed_slice() });
            }
            "phi" => {
                let t = lx.ty();
                let n = t.nslots();
                let d = self.slot(&nm, n);
                let mut inc = HashMap::new();
                loop {
                    lx.expect(b'[');
                    let v = self.val(&mut lx, &t);
                    lx.expect(b',');
                    let b = match lx.next() {
                        Tok::Local(b) => self.block(&b),
                        t => panic!("{:?}", t),
                    };
                    lx.expect(b']');
                    inc.insert(b, v);
                    if !lx.is(b',') {
                        break;
                    }
                    if let Tok::Meta = lx.peek() {
                        break;
                    }
                }
                let cur = self.cur;
                self.phis.entry(cur).or_default().push((d, inc));
            }
            "ret" => {
                if lx.isw("void") {
                    self.insts.push(Inst::Ret { v: Box::new([]) });
                } else {
                    let (_, v) = self.tv(&mut lx);
                    self.insts.push(Inst::Ret { v: v.into_boxed_slice() });
                }
            }
            "unreachable" => self.insts.push(Inst::Unreachable),
            "fence" => {}
            "extractvalue" => {
                let (t, v) = self.tv(&mut lx);
                let mut cur = t;
                let mut o = 0u32;
                while lx.is(b',') {
                    if let Tok::Meta = lx.peek() {
                        break;
                    }
                    let k = lx.int() as usize;
                    match cur.clone() {
                        Ty::Struct(ts, _) => {
                            for t in &ts[..k] {
                                o += t.nslots()
                            }
                            cur = ts[k].clone();
                        }
                        Ty::Arr(_, e) => {
                            o += e.nslots() * k as u32;
                            cur = *e;
                        }
                        _ => panic!(),
                    }
                }
                let n = cur.nslots();
                let d = self.slot(&nm, n);
                for i in 0..n {
                    self.insts.push(Inst::Copy { d: d + i, a: v[(o + i) as usize] });
                }
            }
            "insertvalue" => {
                let (t, v) = self.tv(&mut lx);
                lx.expect(b',');
                let (_, e) = self.tv(&mut lx);
                let mut cur = t.clone();
                let mut o = 0u32;
                while lx.is(b',') {
                    if let Tok::Meta = lx.peek() {
                        break;
                    }
                    let k = lx.int() as usize;
                    match cur.clone() {
                        Ty::Struct(ts, _) => {
                            for t in &ts[..k] {
                                o += t.nslots()
                            }
                            cur = ts[k].clone();
                        }
                        Ty::Arr(_, e) => {
                            o += e.nslots() * k as u32;
                            cur = *e;
                        }
                        _ => panic!(),
                    }
                }
                let d = self.slot(&nm, t.nslots());
                for i in 0..v.len() as u32 {
                    let a = if i >= o && i < o + e.len() as u32 { e[(i - o) as usize] } else { v[i as usize] };
                    self.insts.push(Inst::Copy { d: d + i, a });
                }
            }
            "insertelement" => {
                let (_, v) = self.tv(&mut lx);
                lx.expect(b',');
                let (_, e) = self.tv(&mut lx);
                lx.expect(b',');
                let (_, k) = self.tv(&mut lx);
                let d = self.slot(&nm, v.len() as u32);
                let k = match k[0] {
                    Op::C(c) => c as usize,
                    _ => {
                        self.insts.push(Inst::Unsupported(s.to_string()));
                        return;
                    }
                };
                for i in 0..v.len() {
                    self.insts.push(Inst::Copy { d: d + i as u32, a: if i == k { e[0] } else { v[i] } });
                }
            }
            "extractelement" => {
                let (_, v) = self.tv(&mut lx);
                lx.expect(b',');
                let (_, k) = self.tv(&mut lx);
                let d = self.slot(&nm, 1);
                match k[0] {
                    Op::C(c) => self.insts.push(Inst::Copy { d, a: v[c as usize] }),
                    _ => self.insts.push(Inst::Unsupported(s.to_string())),
                }
            }
            "shufflevector" => {
                let (_, a) = self.tv(&mut lx);
                lx.expect(b',');
                let (_, b) = self.tv(&mut lx);
                lx.expect(b',');
                let (_, k) = self.tv(&mut lx);
                let d = self.slot(&nm, k.len() as u32);
                for i in 0..k.len() {
                    let c = match k[i] {
                        Op::C(c) => c as usize,
                        _ => panic!(),
                    };
                    let src = if c < a.len() { a[c] } else { b[c - a.len()] };
                    self.insts.push(Inst::Copy { d: d + i as u32, a: src });
                }
            }
            "cmpxchg" => {
                flags(&mut lx);
                let (_, p) = self.tv(&mut lx);
                lx.expect(b',');
                let (t, e) = self.tv(&mut lx);
                lx.expect(b',');
                let (_, n) = self.tv(&mut lx);
                let d = self.slot(&nm, 2);
                self.insts.push(Inst::CmpXchg { d, p: p[0], w: t.bits() as u8, exp: e[0], new: n[0] });
            }
            "atomicrmw" => {
                flags(&mut lx);
                let o = match lx.next() {
                    Tok::Word(w) => w,
                    t => panic!("{:?}", t),
                };
                let (_, p) = self.tv(&mut lx);
                lx.expect(b',');
                let (t, v) = self.tv(&mut lx);
                let d = self.slot(&nm, 1);
                let k = match o {
                    "add" => 0,
                    "sub" => 1,
                    "xchg" => 2,
                    "or" => 3,
                    "and" => 4,
                    "xor" => 5,
                    _ => panic!("rmw {}", o),
                };
                self.insts.push(Inst::Rmw { d, op: k, p: p[0], w: t.bits() as u8, v: v[0] });
            }
            "call" | "tail" | "musttail" | "notail" => {
                if op != "call" {
                    assert!(lx.isw("call"));
                }
                self.call(lx, name, s);
            }
            _ => self.insts.push(Inst::Unsupported(s.to_string())),
        }
    }
    fn call(&mut self, mut lx: Lx, name: Option<String>, s: &'static str) {
        // skip cconv / attributes until a type
        let rty;
        loop {
            match lx.peek() {
                Tok::Word(w) => {
                    let isty = w == "void" || w == "ptr" || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                    if isty {
                        rty = lx.ty();
                        break;
                    }
                    lx.next();
                    if lx.is(b'(') {
                        lx.skip_parens();
                    } else if w == "align" {
                        lx.next();
                    }
                }
                Tok::P(b'{') | Tok::P(b'<') | Tok::P(b'[') => {
                    rty = lx.ty();
                    break;
                }
                Tok::Int(..) => {
                    lx.next();
                }
                t => panic!("call {:?}: {}", t, s),
            }
        }
        // function type for varargs: i64 (i64, ...) @f(
        if lx.is(b'(') {
            lx.skip_parens();
        }
        if lx.isw("asm") {
            // only empty memory barriers are accepted
            if s.contains("asm sideeffect \"\"") {
                return;
            }
            self.insts.push(Inst::Unsupported(s.to_string()));
            return;
        }
        let callee = lx.next();
        let ind = match &callee {
            Tok::Local(n) => Some(Op::R(self.slot(n, 1))),
            Tok::Global(_) => None,
            Tok::Word("inttoptr") => {
                self.insts.push(Inst::Unsupported(s.to_string()));
                return;
            }
            t => panic!("callee {:?} in {}", t, s),
        };
        lx.expect(b'(');
        let mut args = vec![];
        let mut argw = vec![];
        if !lx.is(b')') {
            loop {
                let t = lx.ty();
                if t == Ty::Other {
                    // metadata operand
                    let mut d = 0;
                    loop {
                        match lx.peek() {
                            Tok::P(b'(') => d += 1,
                            Tok::P(b')') if d == 0 => break,
                            Tok::P(b')') => d -= 1,
                            Tok::P(b',') if d == 0 => break,
                            _ => {}
                        }
                        lx.next();
                    }
                } else {
                    // attributes
                    loop {
                        match lx.peek() {
                            Tok::Word("true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "sub" | "add" | "trunc" | "xor") => break,
                            Tok::Word("align") => {
                                lx.next();
                                if !lx.is(b'(') {
                                    lx.next();
                                } else {
                                    lx.skip_parens()
                                }
                            }
                            Tok::Word("byval") => {
                                self.insts.push(Inst::Unsupported(s.to_string()));
                                return;
                            }
                            Tok::Word(_) => {
                                lx.next();
                                if lx.is(b'(') {
                                    lx.skip_parens()
                                }
                            }
                            _ => break,
                        }
                    }
                    let v = self.val(&mut lx, &t);
                    let mut lv = vec![];
                    t.leaves(0, &mut lv);
                    argw.push(lv.first().map_or(0, |x| x.1));
                    args.extend(v);
                }
                if !lx.is(b',') {
                    break;
                }
            }
            lx.expect(b')');
        }
        let nret = rty.nslots();
        let d = match &name {
            Some(n) => self.slot(n, nret),
            None => {
                let t = self.nregs;
                self.nregs += nret;
                t
            }
        };
        if let Some(p) = ind {
            self.insts.push(Inst::CallInd { p, args: args.into_boxed_slice(), d, nret });
            return;
        }
        let Tok::Global(mut g) = callee else { unreachable!() };
        while let Some(t) = self.m.galias.get(g.as_str()) {
            g = t.to_string();
        }
        if let Some(rest) = g.strip_prefix("llvm.") {
            let base = |p: &str| rest == p || rest.starts_with(&format!("{}.", p));
            let w = argw.first().copied().unwrap_or(0) as u8;
            let k = if base("lifetime") || base("experimental.noalias.scope.decl") || base("dbg") || base("x86.sse2.pause") || base("prefetch") || base("invariant") || base("donothing") || base("sideeffect") || base("fake.use") {
                Intr::Nop
            } else if base("assume") {
                Intr::Assume
            } else if base("memcpy") || base("memmove") {
                Intr::Memcpy
            } else if base("memset") {
                Intr::Memset
            } else if base("trap") || base("debugtrap") || base("ubsantrap") {
                Intr::Trap
            } else if base("abs") {
                Intr::Abs
            } else if base("ctlz") {
                Intr::Ctlz
            } else if base("cttz") {
                Intr::Cttz
            } else if base("ctpop") {
                Intr::Ctpop
            } else if base("bswap") {
                Intr::Bswap
            } else if base("bitreverse") {
                Intr::Bitreverse
            } else if base("fshl") {
                Intr::Fshl
            } else if base("fshr") {
                Intr::Fshr
            } else if base("umax") {
                Intr::UMax
            } else if base("umin") {
                Intr::UMin
            } else if base("smax") {
                Intr::SMax
            } else if base("smin") {
                Intr::SMin
            } else if base("uadd.with.overflow") {
                Intr::UAddO
            } else if base("usub.with.overflow") {
                Intr::USubO
            } else if base("umul.with.overflow") {
                Intr::UMulO
            } else if base("sadd.with.overflow") {
                Intr::SAddO
            } else if base("ssub.with.overflow") {
                Intr::SSubO
            } else if base("smul.with.overflow") {
                Intr::SMulO
            } else if base("uadd.sat") {
                Intr::UAddSat
            } else if base("usub.sat") {
                Intr::USubSat
            } else if base("ucmp") {
                Intr::UCmp
            } else if base("scmp") {
                Intr::SCmp
            } else if base("load.relative") {
                Intr::LoadRel
            } else if base("threadlocal.address") || base("ptrmask") && false {
                Intr::Ident
            } else if base("expect") {
                Intr::Ident
            } else if base("is.constant") {
                Intr::IsConstant
            } else {
                // lane-wise vector reductions etc. handled specially
                if base("vector.reduce.or") || base("vector.reduce.and") || base("vector.reduce.add") || base("vector.reduce.xor") {
                    let lw = argw[0] as u8;
                    let o = if rest.contains("reduce.or") {
                        Bin::Or
                    } else if rest.contains("reduce.and") {
                        Bin::And
                    } else if rest.contains("reduce.xor") {
                        Bin::Xor
                    } else {
                        Bin::Add
                    };
                    self.insts.push(Inst::Copy { d, a: args[0] });
                    for a in &args[1..] {
                        self.insts.push(Inst::Bin { op: o, w: lw, d, a: Op::R(d), b: *a });
                    }
                    return;
                }
                self.insts.push(Inst::Unsupported(s.to_string()));
                return;
            };
            if k == Intr::Nop {
                return;
            }
            // lane-wise application for vectors
            let lanes = nret as usize;
            if lanes > 1 && matches!(k, Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin | Intr::Ctpop | Intr::UAddSat | Intr::USubSat | Intr::Abs) {
                let na = if matches!(k, Intr::Ctpop | Intr::Abs) { 1 } else { 2 };
                for i in 0..lanes {
                    let mut v = vec![args[i]];
                    if na == 2 {
                        v.push(args[lanes + i])
                    }
                    self.insts.push(Inst::Intr { k, w, d: d + i as u32, args: v.into_boxed_slice() });
                }
                return;
            }
            self.insts.push(Inst::Intr { k, w, d, args: args.into_boxed_slice() });
            return;
        }
        let f = *self.m.fidx.get(g.as_str()).unwrap_or_else(|| panic!("no function {}", g));
        self.insts.push(Inst::Call { f, args: args.into_boxed_slice(), d, nret });
    }
}
