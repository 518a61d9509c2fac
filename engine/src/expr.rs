//! Hash-consed bit-vector expressions over symbolic input bytes, with local
//! simplification.  Every simplification is an equivalence over the declared
//! domains of the input bytes.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Id = u32;
pub type Set = [u64; 4];

pub fn set_has(s: &Set, v: u8) -> bool {
    s[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn set_add(s: &mut Set, v: u8) {
    s[(v >> 6) as usize] |= 1 << (v & 63)
}
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_or(a: &Set, b: &Set) -> Set {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn set_andn(a: &Set, b: &Set) -> Set {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn set_empty(a: &Set) -> bool {
    a.iter().all(|x| *x == 0)
}
pub fn set_len(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
/// preferred witness: printable first
pub fn set_pick(a: &Set) -> u8 {
    for r in [(b'a', b'z'), (b'0', b'9'), (b'A', b'Z'), (33, 126), (32, 32)] {
        for v in r.0..=r.1 {
            if set_has(a, v) {
                return v;
            }
        }
    }
    for v in 0..=255u8 {
        if set_has(a, v) {
            return v;
        }
    }
    0
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Pred {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Bin, Id, Id),
    Cmp(Pred, Id, Id),
    Ite(Id, Id, Id),
    Zext(Id),
    Sext(Id),
    Extract(Id, u8),
    Concat(Id, Id),
    InSet(u32, Set),
}

#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub w: u8,
    pub sup: u128,
    pub lo: u128,
    pub hi: u128,
}

/// exact integer value of an expression as c0 + sum(coef * atom)
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub c0: i128,
    pub t: Vec<(Id, i128)>,
}

pub struct VarInfo {
    pub idx: u32, // index within job
    pub dom: Set,
    pub node: Id,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: FxMap<(Node, u8), Id>,
    pub vars: Vec<VarInfo>,
    tabs: FxMap<Id, Rc<[u64; 256]>>,
    lins: FxMap<Id, Option<Rc<Lin>>>,
    canon: FxMap<(u8, Lin), Id>,
    pub simplified_branches: u64,
}

pub fn mask64(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn mask128(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx128(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn bin_const(op: Bin, w: u8, a: u128, b: u128) -> Option<u128> {
    let m = mask128(w);
    Some(
        match op {
            Bin::Add => a.wrapping_add(b),
            Bin::Sub => a.wrapping_sub(b),
            Bin::Mul => a.wrapping_mul(b),
            Bin::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            Bin::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            Bin::SDiv => {
                if b == 0 {
                    return None;
                }
                sx128(a, w).wrapping_div(sx128(b, w)) as u128
            }
            Bin::SRem => {
                if b == 0 {
                    return None;
                }
                sx128(a, w).wrapping_rem(sx128(b, w)) as u128
            }
            Bin::And => a & b,
            Bin::Or => a | b,
            Bin::Xor => a ^ b,
            Bin::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Bin::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Bin::AShr => {
                let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
                (sx128(a, w) >> s) as u128
            }
        } & m,
    )
}
pub fn cmp_const(p: Pred, w: u8, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Slt => sx128(a, w) < sx128(b, w),
        Pred::Sle => sx128(a, w) <= sx128(b, w),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            info: vec![],
            map: Default::default(),
            vars: vec![],
            tabs: Default::default(),
            lins: Default::default(),
            canon: Default::default(),
            simplified_branches: 0,
        };
        // id 0 is reserved ("concrete")
        c.nodes.push(Node::Const(0));
        c.info.push(Info { w: 1, sup: 0, lo: 0, hi: 0 });
        c
    }
    #[inline]
    pub fn w(&self, e: Id) -> u8 {
        self.info[e as usize].w
    }
    #[inline]
    pub fn sup(&self, e: Id) -> u128 {
        self.info[e as usize].sup
    }
    #[inline]
    pub fn as_const(&self, e: Id) -> Option<u128> {
        match self.nodes[e as usize] {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn cst(&mut self, v: u128, w: u8) -> Id {
        let v = v & mask128(w);
        self.raw(Node::Const(v), w)
    }
    pub fn tru(&mut self) -> Id {
        self.cst(1, 1)
    }
    pub fn fls(&mut self) -> Id {
        self.cst(0, 1)
    }
    pub fn new_var(&mut self, idx: u32, dom: Set) -> Id {
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { idx, dom, node: 0 });
        let n = self.raw(Node::Var(v), 8);
        self.vars[v as usize].node = n;
        n
    }
    fn raw(&mut self, n: Node, w: u8) -> Id {
        if let Some(i) = self.map.get(&(n, w)) {
            return *i;
        }
        let id = self.nodes.len() as Id;
        let sup = match n {
            Node::Const(_) => 0,
            Node::Var(v) => 1u128 << self.vars[v as usize].idx,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => self.sup(a) | self.sup(b),
            Node::Ite(a, b, c) => self.sup(a) | self.sup(b) | self.sup(c),
            Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) => self.sup(a),
            Node::InSet(v, _) => 1u128 << self.vars[v as usize].idx,
        };
        self.nodes.push(n);
        self.info.push(Info { w, sup, lo: 0, hi: mask128(w) });
        let (lo, hi) = self.range(n, w, id, sup);
        let inf = &mut self.info[id as usize];
        inf.lo = lo;
        inf.hi = hi;
        self.map.insert((n, w), id);
        id
    }
    fn range(&mut self, n: Node, w: u8, id: Id, sup: u128) -> (u128, u128) {
        let full = mask128(w);
        if let Node::Const(c) = n {
            return (c, c);
        }
        if sup.count_ones() == 1 && w <= 64 {
            if let Some(v) = self.single_var(id) {
                let t = self.table(id);
                let dom = self.vars[v as usize].dom;
                let (mut lo, mut hi) = (!0u64, 0u64);
                for i in 0..256 {
                    if set_has(&dom, i as u8) {
                        lo = lo.min(t[i]);
                        hi = hi.max(t[i]);
                    }
                }
                if lo <= hi {
                    return (lo as u128, hi as u128);
                }
            }
            return (0, full);
        }
        let i = |s: &Ctx, e: Id| {
            let x = s.info[e as usize];
            (x.lo, x.hi)
        };
        match n {
            Node::Zext(a) => i(self, a),
            Node::Ite(_, a, b) => {
                let (x, y) = (i(self, a), i(self, b));
                (x.0.min(y.0), x.1.max(y.1))
            }
            Node::Concat(a, b) => {
                let (x, y) = (i(self, a), i(self, b));
                let s = self.w(b) as u32;
                (x.0 << s | y.0, x.1 << s | y.1)
            }
            Node::Extract(a, l) => {
                let x = i(self, a);
                if x.1 >> l <= full {
                    (x.0 >> l, x.1 >> l)
                } else {
                    (0, full)
                }
            }
            Node::Bin(op, a, b) => {
                let (x, y) = (i(self, a), i(self, b));
                match op {
                    Bin::Add => match x.1.checked_add(y.1) {
                        Some(h) if h <= full => (x.0 + y.0, h),
                        Some(h) if x.0 + y.0 > full => (x.0 + y.0 & full, h & full),
                        _ => (0, full),
                    },
                    Bin::Sub => {
                        if x.0 >= y.1 {
                            (x.0 - y.1, x.1 - y.0)
                        } else {
                            (0, full)
                        }
                    }
                    Bin::Mul => match x.1.checked_mul(y.1) {
                        Some(h) if h <= full => (x.0 * y.0, h),
                        _ => (0, full),
                    },
                    Bin::And => (0, x.1.min(y.1)),
                    Bin::Or | Bin::Xor => {
                        let m = x.1 | y.1;
                        let h = if m == 0 { 0 } else { !0u128 >> m.leading_zeros() };
                        (if op == Bin::Or { x.0.max(y.0) } else { 0 }, h)
                    }
                    Bin::UDiv => {
                        if y.0 > 0 {
                            (x.0 / y.1, x.1 / y.0)
                        } else {
                            (0, full)
                        }
                    }
                    Bin::URem => {
                        if y.0 > 0 {
                            (0, x.1.min(y.1 - 1))
                        } else {
                            (0, full)
                        }
                    }
                    Bin::LShr => {
                        if y.0 == y.1 && y.0 < w as u128 {
                            (x.0 >> y.0, x.1 >> y.0)
                        } else {
                            (0, x.1)
                        }
                    }
                    Bin::Shl => {
                        if y.0 == y.1 && y.0 < w as u128 && x.1.leading_zeros() as u128 >= y.0 + (128 - w as u128) {
                            (x.0 << y.0, x.1 << y.0)
                        } else {
                            (0, full)
                        }
                    }
                    _ => (0, full),
                }
            }
            _ => (0, full),
        }
    }
    fn lin_range(&self, l: &Lin) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (l.c0, l.c0);
        for (a, c) in &l.t {
            let inf = &self.info[*a as usize];
            let (p, q) = (c.checked_mul(inf.lo as i128)?, c.checked_mul(inf.hi as i128)?);
            lo = lo.checked_add(p.min(q))?;
            hi = hi.checked_add(p.max(q))?;
        }
        Some((lo, hi))
    }
    /// value reduced modulo 2^w, when that is again linear
    fn window(&self, mut l: Lin, w: u8) -> Option<Lin> {
        for round in 0..2 {
            if let Some((lo, hi)) = self.lin_range(&l) {
                if w >= 127 {
                    if lo >= 0 {
                        return Some(l);
                    }
                } else {
                    let k = lo >> w;
                    if k == hi >> w {
                        l.c0 = l.c0.checked_sub(k << w)?;
                        return Some(l);
                    }
                }
            }
            if round == 1 || w >= 126 {
                return None;
            }
            let m = 1i128 << w;
            let red = |c: i128| {
                let r = c.rem_euclid(m);
                if r > m / 2 {
                    r - m
                } else {
                    r
                }
            };
            l.c0 = l.c0.rem_euclid(m);
            for t in &mut l.t {
                t.1 = red(t.1);
            }
            l.t.retain(|t| t.1 != 0);
        }
        None
    }
    fn lin_add(a: &Lin, b: &Lin, k: i128) -> Option<Lin> {
        let mut r = Lin { c0: a.c0.checked_add(b.c0.checked_mul(k)?)?, t: Vec::with_capacity(a.t.len() + b.t.len()) };
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
                r.t.push(a.t[i]);
                i += 1;
            } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
                r.t.push((b.t[j].0, b.t[j].1.checked_mul(k)?));
                j += 1;
            } else {
                let c = a.t[i].1.checked_add(b.t[j].1.checked_mul(k)?)?;
                if c != 0 {
                    r.t.push((a.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        if r.t.len() > 48 {
            return None;
        }
        Some(r)
    }
    /// l = d * q + r with the range of r starting inside [0, d); returns (q, r)
    fn lin_split(&self, l: &Lin, d: i128) -> Option<(Lin, Lin)> {
        let (mut q, mut r) = (Lin { c0: 0, t: vec![] }, Lin { c0: 0, t: vec![] });
        for (a, c) in &l.t {
            if c % d == 0 {
                q.t.push((*a, c / d));
            } else {
                r.t.push((*a, *c));
            }
        }
        let (lo, _) = self.lin_range(&r)?;
        let want = lo.checked_add(l.c0)?.rem_euclid(d);
        r.c0 = want.checked_sub(lo)?;
        q.c0 = l.c0.checked_sub(r.c0)? / d;
        Some((q, r))
    }
    pub fn lin(&mut self, e: Id) -> Option<Rc<Lin>> {
        if let Some(l) = self.lins.get(&e) {
            return l.clone();
        }
        let n = self.nodes[e as usize];
        let w = self.w(e);
        let mut r = self.lin_node(n, w).map(Rc::new);
        if r.is_none() && self.info[e as usize].hi < 1 << 100 {
            r = Some(Rc::new(match n {
                Node::Const(c) => Lin { c0: c as i128, t: vec![] },
                _ => Lin { c0: 0, t: vec![(e, 1)] },
            }));
        }
        if self.lins.len() > 400_000 {
            self.lins.clear();
        }
        self.lins.insert(e, r.clone());
        r
    }
    fn lin_node(&mut self, n: Node, w: u8) -> Option<Lin> {
        match n {
            Node::Zext(a) => self.lin(a).map(|l| (*l).clone()),
            Node::Concat(h, l) => {
                let k = self.w(l);
                if k > 100 {
                    return None;
                }
                let (a, b) = (self.lin(h)?, self.lin(l)?);
                Self::lin_add(&b, &a, 1i128 << k)
            }
            Node::Bin(op @ (Bin::Add | Bin::Sub), a, b) => {
                let x = self.lin(a)?;
                // constants as signed numbers
                if let Some(c) = self.as_const(b) {
                    let c = sx128(c, w);
                    let mut l = (*x).clone();
                    l.c0 = if op == Bin::Add { l.c0.checked_add(c)? } else { l.c0.checked_sub(c)? };
                    return self.window(l, w);
                }
                let y = self.lin(b)?;
                let l = Self::lin_add(&x, &y, if op == Bin::Add { 1 } else { -1 })?;
                self.window(l, w)
            }
            Node::Bin(Bin::Mul, a, b) => {
                let c = sx128(self.as_const(b)?, w);
                let x = self.lin(a)?;
                let z = Lin { c0: 0, t: vec![] };
                let l = Self::lin_add(&z, &x, c)?;
                self.window(l, w)
            }
            Node::Bin(op @ (Bin::UDiv | Bin::URem), a, b) => {
                let d = self.as_const(b)?;
                if d < 2 || d > 1 << 100 {
                    return None;
                }
                let x = self.lin(a)?;
                let (q, r) = self.lin_split(&x, d as i128)?;
                let (lo, hi) = self.lin_range(&r)?;
                if lo < 0 || hi >= d as i128 {
                    return None;
                }
                Some(if op == Bin::UDiv { q } else { r })
            }
            Node::Extract(a, lo) => {
                let x = self.lin(a)?;
                if lo == 0 {
                    return self.window((*x).clone(), w);
                }
                if lo > 100 {
                    return None;
                }
                let (q, r) = self.lin_split(&x, 1i128 << lo)?;
                let (l, h) = self.lin_range(&r)?;
                if l < 0 || h >= 1i128 << lo {
                    return None;
                }
                self.window(q, w)
            }
            _ => None,
        }
    }
    /// expression of width w with exactly this value (modulo 2^w)
    fn lin_build(&mut self, l: &Lin, w: u8) -> Id {
        if let Some(i) = self.canon.get(&(w, l.clone())) {
            return *i;
        }
        let m = mask128(w);
        let mut acc: Option<Id> = None;
        for (a, c) in &l.t {
            let wa = self.w(*a);
            let at = if wa > w { self.extract(*a, 0, w) } else { self.zext(*a, w) };
            let c = *c as u128 & m;
            let t = if c == 1 {
                at
            } else {
                let k = self.cst(c, w);
                self.raw(Node::Bin(Bin::Mul, at, k), w)
            };
            acc = Some(match acc {
                None => t,
                Some(p) => self.raw(Node::Bin(Bin::Add, p, t), w),
            });
        }
        let c = l.c0 as u128 & m;
        let r = match acc {
            None => self.cst(c, w),
            Some(p) if c == 0 => p,
            Some(p) => {
                let k = self.cst(c, w);
                self.raw(Node::Bin(Bin::Add, p, k), w)
            }
        };
        if let Some((lo, hi)) = self.lin_range(l) {
            if lo >= 0 && (w >= 127 || hi < 1i128 << w) {
                let inf = &mut self.info[r as usize];
                inf.lo = inf.lo.max(lo as u128);
                inf.hi = inf.hi.min(hi as u128);
            }
        }
        self.canon.insert((w, l.clone()), r);
        r
    }
    pub fn single_var(&self, e: Id) -> Option<u32> {
        // find the variable of a support-1 expression
        let mut e = e;
        loop {
            match self.nodes[e as usize] {
                Node::Const(_) => return None,
                Node::Var(v) | Node::InSet(v, _) => return Some(v),
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => e = if self.sup(a) != 0 { a } else { b },
                Node::Ite(a, b, c) => {
                    e = if self.sup(a) != 0 {
                        a
                    } else if self.sup(b) != 0 {
                        b
                    } else {
                        c
                    }
                }
                Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) => e = a,
            }
        }
    }
    /// value of a support-1 expression (width <= 64) for each of the 256 byte values
    pub fn table(&mut self, e: Id) -> Rc<[u64; 256]> {
        if let Some(t) = self.tabs.get(&e) {
            return t.clone();
        }
        if self.tabs.len() > 60000 {
            self.tabs.clear();
        }
        let w = self.w(e);
        let mut r = [0u64; 256];
        match self.nodes[e as usize] {
            Node::Const(c) => r = [c as u64; 256],
            Node::Var(_) => {
                for i in 0..256 {
                    r[i] = i as u64
                }
            }
            Node::InSet(_, s) => {
                for i in 0..256 {
                    r[i] = set_has(&s, i as u8) as u64
                }
            }
            _ => {
                // wide intermediate values: evaluate pointwise
                if self.wide(e) {
                    let idx = self.sup(e).trailing_zeros() as usize;
                    let mut asg = vec![0u8; 128];
                    for i in 0..256 {
                        asg[idx] = i as u8;
                        r[i] = self.eval(e, &asg) as u64;
                    }
                } else {
                    match self.nodes[e as usize] {
                        Node::Bin(op, a, b) => {
                            let (x, y) = (self.table(a), self.table(b));
                            for i in 0..256 {
                                r[i] = bin_const(op, w, x[i] as u128, y[i] as u128).unwrap_or(0) as u64
                            }
                        }
                        Node::Cmp(p, a, b) => {
                            let wa = self.w(a);
                            let (x, y) = (self.table(a), self.table(b));
                            for i in 0..256 {
                                r[i] = cmp_const(p, wa, x[i] as u128, y[i] as u128) as u64
                            }
                        }
                        Node::Ite(c, a, b) => {
                            let (z, x, y) = (self.table(c), self.table(a), self.table(b));
                            for i in 0..256 {
                                r[i] = if z[i] != 0 { x[i] } else { y[i] }
                            }
                        }
                        Node::Zext(a) => r = *self.table(a),
                        Node::Sext(a) => {
                            let wa = self.w(a);
                            let x = self.table(a);
                            for i in 0..256 {
                                r[i] = sx128(x[i] as u128, wa) as u64 & mask64(w)
                            }
                        }
                        Node::Extract(a, lo) => {
                            let x = self.table(a);
                            for i in 0..256 {
                                r[i] = x[i] >> lo & mask64(w)
                            }
                        }
                        Node::Concat(a, b) => {
                            let s = self.w(b);
                            let (x, y) = (self.table(a), self.table(b));
                            for i in 0..256 {
                                r[i] = x[i] << s | y[i]
                            }
                        }
                        _ => unreachable!(),
                    }
                }
            }
        }
        let t = Rc::new(r);
        self.tabs.insert(e, t.clone());
        t
    }
    fn wide(&self, e: Id) -> bool {
        match self.nodes[e as usize] {
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => self.w(a) > 64 || self.w(b) > 64,
            Node::Ite(_, b, c) => self.w(b) > 64 || self.w(c) > 64,
            Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) => self.w(a) > 64,
            _ => false,
        }
    }
    pub fn eval(&self, e: Id, asg: &[u8]) -> u128 {
        let mut memo: FxMap<Id, u128> = Default::default();
        self.ev(e, asg, &mut memo)
    }
    pub fn ev(&self, e: Id, asg: &[u8], memo: &mut FxMap<Id, u128>) -> u128 {
        match self.nodes[e as usize] {
            Node::Const(c) => return c,
            Node::Var(v) => return asg[self.vars[v as usize].idx as usize] as u128,
            Node::InSet(v, s) => return set_has(&s, asg[self.vars[v as usize].idx as usize]) as u128,
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = self.w(e);
        let r = match self.nodes[e as usize] {
            Node::Bin(op, a, b) => {
                let (x, y) = (self.ev(a, asg, memo), self.ev(b, asg, memo));
                bin_const(op, w, x, y).unwrap_or(match op {
                    // SMT-LIB semantics for division by zero
                    Bin::UDiv => mask128(w),
                    Bin::URem | Bin::SRem => x,
                    Bin::SDiv => {
                        if sx128(x, w) >= 0 {
                            mask128(w)
                        } else {
                            1
                        }
                    }
                    _ => 0,
                })
            }
            Node::Cmp(p, a, b) => {
                let wa = self.w(a);
                cmp_const(p, wa, self.ev(a, asg, memo), self.ev(b, asg, memo)) as u128
            }
            Node::Ite(c, a, b) => {
                if self.ev(c, asg, memo) != 0 {
                    self.ev(a, asg, memo)
                } else {
                    self.ev(b, asg, memo)
                }
            }
            Node::Zext(a) => self.ev(a, asg, memo),
            Node::Sext(a) => sx128(self.ev(a, asg, memo), self.w(a)) as u128 & mask128(w),
            Node::Extract(a, lo) => self.ev(a, asg, memo) >> lo & mask128(w),
            Node::Concat(a, b) => self.ev(a, asg, memo) << self.w(b) | self.ev(b, asg, memo),
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
    /// intern with canonicalisation of single-byte predicates / constants
    fn mk(&mut self, n: Node, w: u8) -> Id {
        let id = self.raw(n, w);
        let inf = self.info[id as usize];
        if inf.lo == inf.hi {
            return self.cst(inf.lo, w);
        }
        if inf.sup.count_ones() > 1 && w > 1 {
            if let Node::Bin(Bin::Add | Bin::Sub | Bin::Mul | Bin::UDiv | Bin::URem, ..) | Node::Extract(..) = n {
                if let Some(l) = self.lin_node(n, w) {
                    if let Some((lo, hi)) = self.lin_range(&l) {
                        if lo >= 0 {
                            let inf = &mut self.info[id as usize];
                            inf.lo = inf.lo.max(lo as u128);
                            inf.hi = inf.hi.min(hi as u128);
                            if inf.lo == inf.hi {
                                let v = inf.lo;
                                return self.cst(v, w);
                            }
                            self.lins.insert(id, Some(Rc::new(l.clone())));
                            if let Some(i) = self.canon.get(&(w, l.clone())) {
                                return *i;
                            }
                            let same = matches!(n, Node::Extract(a, _) if l.t.iter().any(|t| t.0 == a));
                            if same || matches!(n, Node::Bin(Bin::Add | Bin::Sub | Bin::Mul, ..)) {
                                self.canon.insert((w, l), id);
                                return id;
                            }
                            return self.lin_build(&l, w);
                        }
                    }
                } else if let Some(r) = self.lin_partial(n, w) {
                    return r;
                }
            }
        }
        if w == 1 && inf.sup.count_ones() == 1 && !matches!(n, Node::InSet(..)) {
            if let Some(v) = self.single_var(id) {
                let t = self.table(id);
                let dom = self.vars[v as usize].dom;
                let mut s = [0u64; 4];
                for i in 0..256 {
                    if t[i] != 0 {
                        set_add(&mut s, i as u8)
                    }
                }
                return self.inset(v, set_and(&s, &dom));
            }
        }
        id
    }
    /// division of a linear form where only part of the terms divides
    fn lin_partial(&mut self, n: Node, w: u8) -> Option<Id> {
        match n {
            Node::Bin(op @ (Bin::UDiv | Bin::URem), a, b) => {
                let d = self.as_const(b)?;
                if d < 2 || d > 1 << 100 {
                    return None;
                }
                let x = self.lin(a)?;
                let mut y = (*x).clone();
                if op == Bin::URem {
                    for t in &mut y.t {
                        t.1 = t.1.rem_euclid(d as i128);
                    }
                    y.t.retain(|t| t.1 != 0);
                }
                let (q, r) = self.lin_split(&y, d as i128)?;
                let (lo, hi) = self.lin_range(&r)?;
                if lo < 0 || (w < 127 && hi >= 1i128 << w) || (r.t == x.t && r.c0 == x.c0) {
                    return None;
                }
                let re = self.lin_build(&r, w);
                let f = self.bin(op, re, b);
                if op == Bin::URem {
                    return Some(f);
                }
                let qe = self.lin_build(&q, w);
                Some(self.bin(Bin::Add, qe, f))
            }
            _ => None,
        }
    }
    /// sum == constant where the leading term determines itself
    fn lin_eq(&mut self, l: &Lin) -> Option<Id> {
        // l == 0
        if l.t.is_empty() {
            return Some(self.cst((l.c0 == 0) as u128, 1));
        }
        let mut t = l.t.clone();
        t.sort_by_key(|x| std::cmp::Reverse(x.1.unsigned_abs()));
        let (a, c) = t[0];
        let rest = Lin { c0: l.c0, t: l.t.iter().copied().filter(|x| x.0 != a).collect() };
        let (rl, rh) = self.lin_range(&rest)?;
        if rh.checked_sub(rl)? >= c.abs() {
            return None;
        }
        // c*v in [-rh, -rl]: at most one v
        let (p, q) = if c > 0 { (-rh, -rl) } else { (rl, rh) };
        let ca = c.abs();
        let v = p.div_euclid(ca) + (p.rem_euclid(ca) != 0) as i128;
        let inf = self.info[a as usize];
        if v * ca > q || v < inf.lo as i128 || v > inf.hi as i128 {
            return Some(self.fls());
        }
        let mut rest = rest;
        rest.c0 = rest.c0.checked_add(c.checked_mul(v)?)?;
        let re = self.lin_eq(&rest)?;
        let w = self.w(a);
        let k = self.cst(v as u128, w);
        let h = self.eq(a, k);
        Some(self.and(h, re))
    }
    pub fn inset(&mut self, v: u32, s: Set) -> Id {
        let dom = self.vars[v as usize].dom;
        let s = set_and(&s, &dom);
        if set_empty(&s) {
            return self.fls();
        }
        if s == dom {
            return self.tru();
        }
        self.raw(Node::InSet(v, s), 1)
    }
    pub fn not(&mut self, e: Id) -> Id {
        debug_assert!(self.w(e) == 1);
        match self.nodes[e as usize] {
            Node::Const(c) => self.cst(c ^ 1, 1),
            Node::InSet(v, s) => {
                let dom = self.vars[v as usize].dom;
                self.inset(v, set_andn(&dom, &s))
            }
            Node::Cmp(Pred::Ult, a, b) => self.cmp(Pred::Ule, b, a),
            Node::Cmp(Pred::Ule, a, b) => self.cmp(Pred::Ult, b, a),
            Node::Cmp(Pred::Slt, a, b) => self.cmp(Pred::Sle, b, a),
            Node::Cmp(Pred::Sle, a, b) => self.cmp(Pred::Slt, b, a),
            Node::Bin(Bin::Xor, a, b) if self.as_const(b) == Some(1) => a,
            Node::Bin(Bin::And, a, b) => {
                let (x, y) = (self.not(a), self.not(b));
                self.bin(Bin::Or, x, y)
            }
            Node::Bin(Bin::Or, a, b) => {
                let (x, y) = (self.not(a), self.not(b));
                self.bin(Bin::And, x, y)
            }
            _ => {
                let one = self.cst(1, 1);
                self.mk(Node::Bin(Bin::Xor, e, one), 1)
            }
        }
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.bin(Bin::And, a, b)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.bin(Bin::Or, a, b)
    }
    pub fn bin(&mut self, op: Bin, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = bin_const(op, w, x, y) {
                return self.cst(r, w);
            }
        }
        let comm = matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor);
        if comm && ca.is_some() {
            return self.bin(op, b, a);
        }
        let m = mask128(w);
        if let Some(c) = cb {
            match op {
                Bin::Add | Bin::Sub | Bin::Or | Bin::Xor | Bin::Shl | Bin::LShr | Bin::AShr if c == 0 => return a,
                Bin::And if c == 0 => return b,
                Bin::And if c == m => return a,
                Bin::Or if c == m => return b,
                Bin::Mul if c == 0 => return b,
                Bin::Mul if c == 1 => return a,
                Bin::UDiv if c == 1 => return a,
                Bin::URem if c == 1 => return self.cst(0, w),
                Bin::Shl | Bin::LShr if c >= w as u128 => return self.cst(0, w),
                Bin::Xor if w == 1 && c == 1 => return self.not(a),
                Bin::Sub => {
                    let nc = self.cst(c.wrapping_neg() & m, w);
                    return self.bin(Bin::Add, a, nc);
                }
                Bin::UDiv if c.is_power_of_two() => {
                    let k = self.cst(c.trailing_zeros() as u128, w);
                    return self.bin(Bin::LShr, a, k);
                }
                Bin::URem if c.is_power_of_two() => {
                    let k = self.cst(c - 1, w);
                    return self.bin(Bin::And, a, k);
                }
                Bin::Mul if c.is_power_of_two() => {
                    let k = self.cst(c.trailing_zeros() as u128, w);
                    return self.bin(Bin::Shl, a, k);
                }
                // range based
                Bin::And if c != !0 && (c + 1).is_power_of_two() && self.info[a as usize].hi <= c => return a,
                Bin::URem if self.info[a as usize].hi < c => return a,
                Bin::UDiv if self.info[a as usize].hi < c => return self.cst(0, w),
                _ => {}
            }
            // associativity with constants
            if let Node::Bin(op2, x, y) = self.nodes[a as usize] {
                if op2 == op && matches!(op, Bin::Add | Bin::And | Bin::Or | Bin::Xor) {
                    if let Some(c2) = self.as_const(y) {
                        let k = bin_const(op, w, c, c2).unwrap();
                        let k = self.cst(k, w);
                        return self.bin(op, x, k);
                    }
                }
            }
            match (op, self.nodes[a as usize]) {
                // shift = extract / concat
                (Bin::LShr, _) => {
                    let s = c as u8;
                    let hi = self.extract(a, s, w - s);
                    return self.zext(hi, w);
                }
                (Bin::Shl, _) => {
                    let s = c as u8;
                    let lo = self.extract(a, 0, w - s);
                    let z = self.cst(0, s);
                    return self.concat(lo, z);
                }
                (Bin::AShr, _) => {
                    let s = (c.min(w as u128 - 1)) as u8;
                    let hi = self.extract(a, s, w - s);
                    return self.sext(hi, w);
                }
                (Bin::And, Node::Zext(x)) => {
                    let wx = self.w(x);
                    let k = self.cst(c & mask128(wx), wx);
                    let r = self.bin(Bin::And, x, k);
                    return self.zext(r, w);
                }
                (Bin::And, _) if (c + 1).is_power_of_two() && c != 0 => {
                    let k = c.trailing_ones() as u8;
                    let lo = self.extract(a, 0, k);
                    return self.zext(lo, w);
                }
                (Bin::And, Node::Concat(h, l)) => {
                    let wl = self.w(l);
                    let (kh, kl) = (self.cst(c >> wl, w - wl), self.cst(c & mask128(wl), wl));
                    let (x, y) = (self.bin(Bin::And, h, kh), self.bin(Bin::And, l, kl));
                    return self.concat(x, y);
                }
                (Bin::Or | Bin::Xor, Node::Concat(h, l)) => {
                    let wl = self.w(l);
                    let (kh, kl) = (self.cst(c >> wl, w - wl), self.cst(c & mask128(wl), wl));
                    let (x, y) = (self.bin(op, h, kh), self.bin(op, l, kl));
                    return self.concat(x, y);
                }
                (Bin::Or | Bin::Xor, Node::Zext(x)) => {
                    let wx = self.w(x);
                    let kl = self.cst(c & mask128(wx), wx);
                    let y = self.bin(op, x, kl);
                    let kh = self.cst(c >> wx, w - wx);
                    return self.concat(kh, y);
                }
                // arithmetic on a two-constant ite
                (_, Node::Ite(k, x, y)) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                    let (p, q) = (self.bin(op, x, b), self.bin(op, y, b));
                    if self.as_const(p).is_some() && self.as_const(q).is_some() {
                        return self.ite(k, p, q);
                    }
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                Bin::And | Bin::Or => return a,
                Bin::Xor | Bin::Sub => return self.cst(0, w),
                _ => {}
            }
        }
        if w == 1 {
            match op {
                Bin::And | Bin::Or => {
                    // (x & y) with complementary
                    if let (Node::InSet(v, s), Node::InSet(v2, s2)) = (self.nodes[a as usize], self.nodes[b as usize]) {
                        if v == v2 {
                            let r = if op == Bin::And { set_and(&s, &s2) } else { set_or(&s, &s2) };
                            return self.inset(v, r);
                        }
                    }
                    // absorption through nested conjunctions over the same var
                    if let (Node::Bin(o2, x, y), Node::InSet(v, _)) = (self.nodes[a as usize], self.nodes[b as usize]) {
                        if o2 == op {
                            if let Node::InSet(v2, _) = self.nodes[y as usize] {
                                if v2 == v {
                                    let r = self.bin(op, y, b);
                                    return self.bin(op, x, r);
                                }
                            }
                            if let Node::InSet(v2, _) = self.nodes[x as usize] {
                                if v2 == v {
                                    let r = self.bin(op, x, b);
                                    return self.bin(op, r, y);
                                }
                            }
                        }
                    }
                }
                Bin::Add | Bin::Sub => return self.bin(Bin::Xor, a, b),
                _ => {}
            }
        }
        // disjoint or -> concat:  zext(lo) | concat(hi,0)
        if op == Bin::Or || op == Bin::Add || op == Bin::Xor {
            if let Some(r) = self.merge_disjoint(a, b, w) {
                return r;
            }
            if let Some(r) = self.merge_disjoint(b, a, w) {
                return r;
            }
        }
        // bitwise ops on zext pairs
        if matches!(op, Bin::And | Bin::Or | Bin::Xor) {
            if let (Node::Zext(x), Node::Zext(y)) = (self.nodes[a as usize], self.nodes[b as usize]) {
                if self.w(x) == self.w(y) {
                    let r = self.bin(op, x, y);
                    return self.zext(r, w);
                }
            }
        }
        if comm && a > b && cb.is_none() {
            return self.mk(Node::Bin(op, b, a), w);
        }
        self.mk(Node::Bin(op, a, b), w)
    }
    /// a = concat(h, 0_k) (or shifted), b <= mask(k): a|b = concat(h, b[k])
    fn merge_disjoint(&mut self, a: Id, b: Id, w: u8) -> Option<Id> {
        if let Node::Concat(h, l) = self.nodes[a as usize] {
            if self.as_const(l) == Some(0) {
                let k = self.w(l);
                let fits = match self.nodes[b as usize] {
                    Node::Zext(x) => self.w(x) <= k,
                    Node::Const(c) => c <= mask128(k),
                    _ => self.info[b as usize].hi <= mask128(k),
                };
                if fits {
                    let lo = self.extract(b, 0, k);
                    return Some(self.concat(h, lo));
                }
            }
        }
        None
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        match self.nodes[a as usize] {
            Node::Const(c) => self.cst(c, w),
            Node::Zext(x) => self.zext(x, w),
            Node::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let (p, q) = (self.zext(x, w), self.zext(y, w));
                self.ite(c, p, q)
            }
            _ => self.mk(Node::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match self.nodes[a as usize] {
            Node::Const(c) => self.cst(sx128(c, wa) as u128, w),
            Node::Zext(_) => self.zext(a, w),
            Node::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let (p, q) = (self.sext(x, w), self.sext(y, w));
                self.ite(c, p, q)
            }
            _ => {
                if wa > 1 && self.info[a as usize].hi < 1u128 << (wa - 1) {
                    return self.zext(a, w);
                }
                self.mk(Node::Sext(a), w)
            }
        }
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        debug_assert!(lo + w <= wa);
        match self.nodes[a as usize] {
            Node::Const(c) => self.cst(c >> lo, w),
            Node::Extract(x, l2) => self.extract(x, lo + l2, w),
            Node::Zext(x) | Node::Sext(x) if lo + w <= self.w(x) => self.extract(x, lo, w),
            Node::Zext(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    self.cst(0, w)
                } else {
                    let e = self.extract(x, lo, wx - lo);
                    self.zext(e, w)
                }
            }
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    self.extract(h, lo - wl, w)
                } else if lo + w <= wl {
                    self.extract(l, lo, w)
                } else {
                    let lo_part = self.extract(l, lo, wl - lo);
                    let hi_part = self.extract(h, 0, w - (wl - lo));
                    self.concat(hi_part, lo_part)
                }
            }
            Node::Bin(op @ (Bin::And | Bin::Or | Bin::Xor), x, y) => {
                let (p, q) = (self.extract(x, lo, w), self.extract(y, lo, w));
                self.bin(op, p, q)
            }
            Node::Bin(op @ (Bin::Add | Bin::Sub | Bin::Mul), x, y) if lo == 0 => {
                let (p, q) = (self.extract(x, 0, w), self.extract(y, 0, w));
                self.bin(op, p, q)
            }
            Node::Ite(c, x, y) => {
                let (p, q) = (self.extract(x, lo, w), self.extract(y, lo, w));
                self.ite(c, p, q)
            }
            _ => {
                if (self.info[a as usize].hi >> lo) == 0 {
                    return self.cst(0, w);
                }
                self.mk(Node::Extract(a, lo), w)
            }
        }
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        let (ch, cl) = (self.as_const(h), self.as_const(l));
        if let (Some(x), Some(y)) = (ch, cl) {
            return self.cst(x << wl | y, w);
        }
        if ch == Some(0) {
            return self.zext(l, w);
        }
        // adjacent extracts of the same expression
        if let (Node::Extract(x, lo), Node::Extract(y, lo2)) = (self.nodes[h as usize], self.nodes[l as usize]) {
            if x == y && lo == lo2 + wl {
                return self.extract(x, lo2, w);
            }
        }
        // h = extract(x, wl..), l = low part of x where low part simplified: check extract(x,0,wl)==l
        if let Node::Extract(x, lo) = self.nodes[h as usize] {
            if lo == wl && self.extract(x, 0, wl) == l {
                return self.extract(x, 0, w);
            }
        }
        // concat(concat(a,b), l) with b,l adjacent extracts
        if let Node::Concat(hh, hl) = self.nodes[h as usize] {
            if let (Node::Extract(x, lo), Node::Extract(y, lo2)) = (self.nodes[hl as usize], self.nodes[l as usize]) {
                if x == y && lo == lo2 + wl {
                    let wm = self.w(hl);
                    let e = self.extract(x, lo2, wm + wl);
                    return self.concat(hh, e);
                }
            }
            if let (Some(x), Some(y)) = (self.as_const(hl), cl) {
                let wm = self.w(hl);
                let e = self.cst(x << wl | y, wm + wl);
                return self.concat(hh, e);
            }
        }
        if let Node::Zext(x) = self.nodes[h as usize] {
            let e = self.concat(x, l);
            return self.zext(e, w);
        }
        self.mk(Node::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        match self.as_const(c) {
            Some(0) => return b,
            Some(_) => return a,
            _ => {}
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            let (ca, cb) = (self.as_const(a), self.as_const(b));
            match (ca, cb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // ite(c, x, ite(c, y, z)) etc.
        if let Node::Ite(c2, _, z) = self.nodes[b as usize] {
            if c2 == c {
                return self.ite(c, a, z);
            }
        }
        if let Node::Ite(c2, x, _) = self.nodes[a as usize] {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        // common zext
        if let (Node::Zext(x), Node::Zext(y)) = (self.nodes[a as usize], self.nodes[b as usize]) {
            if self.w(x) == self.w(y) {
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        self.cmp(Pred::Eq, a, b)
    }
    pub fn cmp(&mut self, p: Pred, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = cmp_const(p, w, x, y);
            return self.cst(r as u128, 1);
        }
        if a == b {
            return self.cst(matches!(p, Pred::Eq | Pred::Ule | Pred::Sle) as u128, 1);
        }
        if p == Pred::Eq && ca.is_some() {
            return self.cmp(p, b, a);
        }
        let (ia, ib) = (self.info[a as usize], self.info[b as usize]);
        {
            match p {
                Pred::Eq if ia.hi < ib.lo || ib.hi < ia.lo => return self.fls(),
                Pred::Ult if ia.hi < ib.lo => return self.tru(),
                Pred::Ult if ia.lo >= ib.hi => return self.fls(),
                Pred::Ule if ia.hi <= ib.lo => return self.tru(),
                Pred::Ule if ia.lo > ib.hi => return self.fls(),
                Pred::Slt | Pred::Sle => {
                    // both non-negative -> unsigned
                    let h = 1u128 << (w - 1);
                    if ia.hi < h && ib.hi < h {
                        return self.cmp(if p == Pred::Slt { Pred::Ult } else { Pred::Ule }, a, b);
                    }
                    if ia.lo >= h && ib.hi < h {
                        return self.tru();
                    }
                    if ia.hi < h && ib.lo >= h {
                        return self.fls();
                    }
                }
                _ => {}
            }
        }
        if w > 1 && (ia.sup | ib.sup).count_ones() > 1 && matches!(p, Pred::Eq | Pred::Ult | Pred::Ule) && !(p == Pred::Eq && matches!(self.nodes[a as usize], Node::Concat(..)) && matches!(self.nodes[b as usize], Node::Concat(..) | Node::Const(_))) {
            if let (Some(x), Some(y)) = (self.lin(a), self.lin(b)) {
                if let Some(d) = Self::lin_add(&x, &y, -1) {
                    if let Some((lo, hi)) = self.lin_range(&d) {
                        let r = match p {
                            Pred::Eq if lo > 0 || hi < 0 => Some(false),
                            Pred::Eq if d.t.is_empty() => Some(true),
                            Pred::Ult if hi < 0 => Some(true),
                            Pred::Ult if lo >= 0 => Some(false),
                            Pred::Ule if hi <= 0 => Some(true),
                            Pred::Ule if lo > 0 => Some(false),
                            _ => None,
                        };
                        if let Some(r) = r {
                            return self.cst(r as u128, 1);
                        }
                        let trivial = d.t.len() == 1 && d.t[0].1.abs() == 1 && self.sup(d.t[0].0).count_ones() > 1;
                        if p == Pred::Eq && !trivial {
                            if let Some(r) = self.lin_eq(&d) {
                                return r;
                            }
                        }
                    }
                    // compare in fewer bits
                    let need = 128 - ia.hi.max(ib.hi).leading_zeros() as u8;
                    let need = need.max(2);
                    if need < w && w > 16 {
                        let nw = if need <= 8 { 8 } else if need <= 16 { 16 } else if need <= 32 { 32 } else if need <= 64 { 64 } else { 128 };
                        if nw < w {
                            let (p1, q1) = (self.extract(a, 0, nw), self.extract(b, 0, nw));
                            return self.cmp(p, p1, q1);
                        }
                    }
                }
            }
        }
        // zext narrowing
        if let Node::Zext(x) = self.nodes[a as usize] {
            let wx = self.w(x);
            let up = match p {
                Pred::Slt => Pred::Ult,
                Pred::Sle => Pred::Ule,
                p => p,
            };
            let signed = p != up;
            if let Some(c) = cb {
                if !signed || c >> (w - 1) & 1 == 0 {
                    if c <= mask128(wx) {
                        let k = self.cst(c, wx);
                        return self.cmp(up, x, k);
                    } else {
                        return self.cst((up != Pred::Eq) as u128, 1);
                    }
                } else {
                    // c negative, zext non-negative
                    return self.fls();
                }
            }
            if let Node::Zext(y) = self.nodes[b as usize] {
                let wy = self.w(y);
                let m = wx.max(wy);
                let (x2, y2) = (self.zext(x, m), self.zext(y, m));
                return self.cmp(up, x2, y2);
            }
        }
        if let (Node::Zext(y), Some(c)) = (self.nodes[b as usize], ca) {
            let wy = self.w(y);
            let up = match p {
                Pred::Slt => Pred::Ult,
                Pred::Sle => Pred::Ule,
                p => p,
            };
            let signed = p != up;
            if !signed || c >> (w - 1) & 1 == 0 {
                if c <= mask128(wy) {
                    let k = self.cst(c, wy);
                    return self.cmp(up, k, y);
                } else {
                    return self.fls();
                }
            } else {
                return self.tru();
            }
        }
        if p == Pred::Eq {
            if let Some(c) = cb {
                match self.nodes[a as usize] {
                    Node::Concat(h, l) => {
                        let wl = self.w(l);
                        let (kh, kl) = (self.cst(c >> wl, w - wl), self.cst(c & mask128(wl), wl));
                        let (x, y) = (self.eq(h, kh), self.eq(l, kl));
                        return self.and(x, y);
                    }
                    Node::Bin(Bin::Add, x, y) => {
                        if let Some(c2) = self.as_const(y) {
                            let k = self.cst(c.wrapping_sub(c2), w);
                            return self.eq(x, k);
                        }
                    }
                    Node::Bin(Bin::Xor, x, y) => {
                        if let Some(c2) = self.as_const(y) {
                            let k = self.cst(c ^ c2, w);
                            return self.eq(x, k);
                        }
                        if c == 0 {
                            return self.eq(x, y);
                        }
                    }
                    Node::Bin(Bin::Or, x, y) if c == 0 => {
                        let z = self.cst(0, w);
                        let (p1, q1) = (self.eq(x, z), self.eq(y, z));
                        return self.and(p1, q1);
                    }
                    Node::Sext(x) => {
                        let wx = self.w(x);
                        if sx128(c & mask128(wx), wx) as u128 & mask128(w) == c {
                            let k = self.cst(c & mask128(wx), wx);
                            return self.eq(x, k);
                        } else {
                            return self.fls();
                        }
                    }
                    _ => {}
                }
                if w == 1 {
                    return if c == 1 { a } else { self.not(a) };
                }
            }
            if let (Node::Concat(h, l), Node::Concat(h2, l2)) = (self.nodes[a as usize], self.nodes[b as usize]) {
                if self.w(l) == self.w(l2) {
                    let (x, y) = (self.eq(h, h2), self.eq(l, l2));
                    return self.and(x, y);
                }
            }
        }
        // push comparison into ite when that yields a constant on one side
        if cb.is_some() {
            if let Node::Ite(c, x, y) = self.nodes[a as usize] {
                let xc = self.as_const(x).is_some() || matches!(self.nodes[x as usize], Node::Ite(..));
                let yc = self.as_const(y).is_some() || matches!(self.nodes[y as usize], Node::Ite(..));
                if xc || yc {
                    let (p1, q1) = (self.cmp(p, x, b), self.cmp(p, y, b));
                    return self.ite(c, p1, q1);
                }
            }
        }
        if ca.is_some() {
            if let Node::Ite(c, x, y) = self.nodes[b as usize] {
                let xc = self.as_const(x).is_some() || matches!(self.nodes[x as usize], Node::Ite(..));
                let yc = self.as_const(y).is_some() || matches!(self.nodes[y as usize], Node::Ite(..));
                if xc || yc {
                    let (p1, q1) = (self.cmp(p, a, x), self.cmp(p, a, y));
                    return self.ite(c, p1, q1);
                }
            }
        }
        // unsigned comparisons against bounds
        match (p, ca, cb) {
            (Pred::Ult, _, Some(1)) => {
                let z = self.cst(0, w);
                return self.eq(a, z);
            }
            (Pred::Ule, _, Some(0)) => {
                let z = self.cst(0, w);
                return self.eq(a, z);
            }
            (Pred::Ult, Some(0), _) => {
                let z = self.cst(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
            _ => {}
        }
        if p == Pred::Eq && cb.is_none() && a > b {
            return self.mk(Node::Cmp(p, b, a), 1);
        }
        self.mk(Node::Cmp(p, a, b), 1)
    }
    pub fn show(&self, e: Id, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match self.nodes[e as usize] {
            Node::Const(c) => format!("{}", c),
            Node::Var(v) => format!("v{}", self.vars[v as usize].idx),
            Node::Bin(o, a, b) => format!("({} {:?} {}):{}", self.show(a, d), o, self.show(b, d), self.w(e)),
            Node::Cmp(o, a, b) => format!("({} {:?}:{} {})", self.show(a, d), o, self.w(a), self.show(b, d)),
            Node::Ite(c, a, b) => format!("({}?{}:{})", self.show(c, d), self.show(a, d), self.show(b, d)),
            Node::Zext(a) => format!("z{}({})", self.w(e), self.show(a, d)),
            Node::Sext(a) => format!("s{}({})", self.w(e), self.show(a, d)),
            Node::Extract(a, l) => format!("{}[{}+{}]", self.show(a, d), l, self.w(e)),
            Node::Concat(a, b) => format!("{{{}#{}}}", self.show(a, d), self.show(b, d)),
            Node::InSet(v, s) => format!("v{}in{}", self.vars[v as usize].idx, set_len(&s)),
        }
    }
    /// flatten a conjunction
    pub fn conjuncts(&self, e: Id, out: &mut Vec<Id>) {
        match self.nodes[e as usize] {
            Node::Bin(Bin::And, a, b) if self.w(e) == 1 => {
                self.conjuncts(a, out);
                self.conjuncts(b, out);
            }
            _ => out.push(e),
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    /// every simplification must preserve the value on every assignment inside the domains
    #[test]
    fn simplifier_is_sound() {
        let mut seed = 88172645463325252u64;
        let mut rnd = move |n: u64| {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed % n
        };
        for round in 0..30000 {
            let mut x = Ctx::new();
            let nv = 4;
            let mut doms = vec![];
            for i in 0..nv {
                let mut d = [0u64; 4];
                match rnd(3) {
                    0 => (b'0'..=b'9').for_each(|v| set_add(&mut d, v)),
                    1 => (0..=255).for_each(|v| set_add(&mut d, v)),
                    _ => (0..1 + rnd(5)).for_each(|_| set_add(&mut d, rnd(256) as u8)),
                }
                doms.push(d);
                x.new_var(i, d);
            }
            let asgs: Vec<Vec<u8>> = (0..6)
                .map(|_| {
                    let mut a = vec![0u8; 128];
                    for i in 0..nv as usize {
                        let all: Vec<u8> = (0..=255).filter(|v| set_has(&doms[i], *v)).collect();
                        a[i] = all[rnd(all.len() as u64) as usize];
                    }
                    a
                })
                .collect();
            // (id, width, reference values)
            let mut pool: Vec<(Id, u8, Vec<u128>)> = vec![];
            for i in 0..nv as usize {
                pool.push((x.vars[i].node, 8, asgs.iter().map(|a| a[i] as u128).collect()));
            }
            for _ in 0..30 {
                let (a, w, va) = pool[rnd(pool.len() as u64) as usize].clone();
                let k = rnd(14);
                let (id, nw, vals): (Id, u8, Vec<u128>) = match k {
                    0..=6 => {
                        let ops = [Bin::Add, Bin::Sub, Bin::Mul, Bin::UDiv, Bin::URem, Bin::And, Bin::Or, Bin::Xor, Bin::Shl, Bin::LShr, Bin::AShr, Bin::SDiv, Bin::SRem, Bin::Add, Bin::Mul, Bin::UDiv, Bin::URem];
                        let op = ops[rnd(ops.len() as u64) as usize];
                        let same: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].1 == w).collect();
                        let (b, vb) = if rnd(2) == 0 {
                            let p = &pool[same[rnd(same.len() as u64) as usize]];
                            (p.0, p.2.clone())
                        } else {
                            let c = match rnd(4) {
                                0 => 10u128.pow(rnd(8) as u32),
                                1 => (rnd(70) as u128).wrapping_neg(),
                                2 => rnd(64) as u128,
                                _ => 1u128 << rnd(w as u64),
                            } & mask128(w);
                            (x.cst(c, w), vec![c; asgs.len()])
                        };
                        let mut ok = true;
                        let v: Vec<u128> = va
                            .iter()
                            .zip(&vb)
                            .map(|(p, q)| {
                                bin_const(op, w, *p, *q).unwrap_or_else(|| {
                                    ok = false;
                                    0
                                })
                            })
                            .collect();
                        if !ok || (matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && x.as_const(b).map_or(true, |c| c == 0)) {
                            continue;
                        }
                        (x.bin(op, a, b), w, v)
                    }
                    7 | 8 => {
                        let nw = [16u8, 32, 64, 96, 128][rnd(5) as usize];
                        if nw <= w {
                            continue;
                        }
                        if k == 7 || rnd(2) == 0 {
                            (x.zext(a, nw), nw, va)
                        } else {
                            (x.sext(a, nw), nw, va.iter().map(|v| sx128(*v, w) as u128 & mask128(nw)).collect())
                        }
                    }
                    9 | 10 => {
                        let nw = 1 + rnd(w as u64) as u8;
                        let nw = if rnd(2) == 0 && w > 8 { [8u8, 16, 32][rnd(3) as usize].min(w) } else { nw };
                        let lo = if rnd(2) == 0 { 0 } else { rnd((w - nw + 1) as u64) as u8 };
                        (x.extract(a, lo, nw), nw, va.iter().map(|v| v >> lo & mask128(nw)).collect())
                    }
                    11 => {
                        let (b, wb, vb) = pool[rnd(pool.len() as u64) as usize].clone();
                        if w as u32 + wb as u32 > 128 {
                            continue;
                        }
                        (x.concat(a, b), w + wb, va.iter().zip(&vb).map(|(p, q)| p << wb | q).collect())
                    }
                    12 => {
                        let same: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].1 == w).collect();
                        let bools: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].1 == 1).collect();
                        if bools.is_empty() {
                            continue;
                        }
                        let (b, vb) = {
                            let p = &pool[same[rnd(same.len() as u64) as usize]];
                            (p.0, p.2.clone())
                        };
                        let c = pool[bools[rnd(bools.len() as u64) as usize]].clone();
                        (x.ite(c.0, a, b), w, (0..asgs.len()).map(|i| if c.2[i] != 0 { va[i] } else { vb[i] }).collect())
                    }
                    _ => {
                        let p = [Pred::Eq, Pred::Ult, Pred::Ule, Pred::Slt, Pred::Sle][rnd(5) as usize];
                        let same: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].1 == w).collect();
                        let (b, vb) = if rnd(2) == 0 {
                            let p = &pool[same[rnd(same.len() as u64) as usize]];
                            (p.0, p.2.clone())
                        } else {
                            // a constant the value actually takes
                            let c = va[rnd(va.len() as u64) as usize];
                            (x.cst(c, w), vec![c; asgs.len()])
                        };
                        (x.cmp(p, a, b), 1, va.iter().zip(&vb).map(|(s, t)| cmp_const(p, w, *s, *t) as u128).collect())
                    }
                };
                assert_eq!(x.w(id), nw);
                for (i, a) in asgs.iter().enumerate() {
                    let got = x.eval(id, a);
                    assert_eq!(got, vals[i], "round {} op {} {:?}", round, k, x.nodes[id as usize]);
                    let inf = x.info[id as usize];
                    assert!(inf.lo <= got && got <= inf.hi, "range round {} {:?}", round, x.nodes[id as usize]);
                }
                pool.push((id, nw, vals));
            }
        }
    }
}
