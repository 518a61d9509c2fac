//! Z3 (C API) back end: every "infeasible" answer the executor acts on comes
//! from an `unsat` verdict here (memoised); every "feasible" answer comes with
//! an assignment that is re-evaluated on the expressions.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
}
extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::abort();
}

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    /// (job var index, value)
    Sat(Vec<(u32, u8)>),
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub solver_ns: u64,
    pub max_ns: u64,
    pub assert_queries: u64,
}

struct Live {
    c: P,
    solver: P,
    memo: FxMap<Id, P>,
    vars: FxMap<u32, P>,
    bvs: FxMap<u8, P>,
    terms: usize,
}

pub struct Solver {
    live: Option<Live>,
    cache: FxMap<Vec<u64>, Res>,
    setpairs: FxMap<(Set, Set), ()>,
    pub stats: Stats,
    pub rlimit: u32,
}

impl Solver {
    pub fn new() -> Solver {
        Solver { live: None, cache: Default::default(), setpairs: Default::default(), stats: Default::default(), rlimit: 0 }
    }
    /// after fork(): abandon the inherited context (never touched again) and start afresh
    pub fn after_fork(&mut self) {
        if let Some(l) = self.live.take() {
            std::mem::forget(l);
        }
        self.stats = Default::default();
    }
    fn live(&mut self) -> &mut Live {
        if let Some(l) = &self.live {
            if l.terms > 400_000 {
                let l = self.live.take().unwrap();
                unsafe { Z3_del_context(l.c) };
            }
        }
        if self.live.is_none() {
            unsafe {
                let cfg = Z3_mk_config();
                let c = Z3_mk_context(cfg);
                Z3_set_error_handler(c, on_err);
                let l = CString::new("QF_BV").unwrap();
                let solver = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
                Z3_solver_inc_ref(c, solver);
                if self.rlimit > 0 {
                    let p = Z3_mk_params(c);
                    Z3_params_inc_ref(c, p);
                    let k = CString::new("rlimit").unwrap();
                    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.rlimit);
                    Z3_solver_set_params(c, solver, p);
                }
                self.live = Some(Live { c, solver, memo: Default::default(), vars: Default::default(), bvs: Default::default(), terms: 0 });
            }
        }
        self.live.as_mut().unwrap()
    }
    /// Is `e` satisfiable together with `cs` and the variable domains `doms` (job index -> set)?
    pub fn check(&mut self, x: &Ctx, cs: &[Id], e: Id, doms: &[Set], sup: u128) -> Res {
        let mut key: Vec<u64> = Vec::with_capacity(cs.len() + 16);
        key.push(e as u64);
        let mut v: Vec<u64> = cs.iter().map(|c| *c as u64).collect();
        v.sort_unstable();
        v.dedup();
        key.extend(v);
        key.push(u64::MAX);
        let mut m = sup;
        while m != 0 {
            let i = m.trailing_zeros();
            m &= m - 1;
            key.push(i as u64);
            key.extend_from_slice(&doms[i as usize]);
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let r = self.raw_check(x, cs, e, doms, sup);
        if self.cache.len() > 200_000 {
            self.cache.clear();
        }
        self.cache.insert(key, r.clone());
        r
    }
    fn raw_check(&mut self, x: &Ctx, cs: &[Id], e: Id, doms: &[Set], sup: u128) -> Res {
        let t0 = Instant::now();
        let l = self.live();
        let r;
        unsafe {
            Z3_solver_reset(l.c, l.solver);
            // variable domains
            let mut m = sup;
            let mut vs: Vec<(u32, P)> = vec![];
            let mut seen: FxMap<u32, P> = Default::default();
            for c in cs.iter().chain([&e]) {
                l.collect_vars(x, *c, &mut seen);
            }
            while m != 0 {
                let i = m.trailing_zeros();
                m &= m - 1;
                let Some(p) = seen.get(&i) else { continue };
                let d = &doms[i as usize];
                let a = l.inset(*p, d);
                Z3_solver_assert(l.c, l.solver, a);
                vs.push((i, *p));
            }
            for c in cs {
                let t = l.boolean(x, *c);
                Z3_solver_assert(l.c, l.solver, t);
            }
            let t = l.boolean(x, e);
            Z3_solver_assert(l.c, l.solver, t);
            r = match Z3_solver_check(l.c, l.solver) {
                -1 => Res::Unsat,
                1 => {
                    let mo = Z3_solver_get_model(l.c, l.solver);
                    Z3_model_inc_ref(l.c, mo);
                    let mut out = vec![];
                    for (i, p) in vs {
                        let mut v: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if !Z3_model_eval(l.c, mo, p, true, &mut v) || !Z3_get_numeral_uint64(l.c, v, &mut u) {
                            eprintln!("z3 model eval failed");
                            std::process::abort();
                        }
                        out.push((i, u as u8));
                    }
                    Z3_model_dec_ref(l.c, mo);
                    Res::Sat(out)
                }
                _ => Res::Unknown,
            };
        }
        let ns = t0.elapsed().as_nanos() as u64;
        if ns > 100_000_000 && std::env::var("SYMEX_SLOW").is_ok() {
            eprintln!("SLOW {} ms: {} | given {}", ns / 1_000_000, x.show(e, 24), cs.iter().map(|c| x.show(*c, 12)).collect::<Vec<_>>().join(" ; "));
        }
        let s = &mut self.stats;
        s.queries += 1;
        s.solver_ns += ns;
        s.max_ns = s.max_ns.max(ns);
        match r {
            Res::Unsat => s.unsat += 1,
            Res::Sat(_) => s.sat += 1,
            Res::Unknown => s.unknown += 1,
        }
        r
    }
    /// certify that domain `d` and set `s` are disjoint / that d is inside the complement of s
    pub fn certify_disjoint(&mut self, d: &Set, s: &Set) -> bool {
        if self.setpairs.contains_key(&(*d, *s)) {
            self.stats.cache_hits += 1;
            return true;
        }
        let t0 = Instant::now();
        let l = self.live();
        let r;
        unsafe {
            Z3_solver_reset(l.c, l.solver);
            let b = l.bv(8);
            let v = Z3_mk_const(l.c, Z3_mk_int_symbol(l.c, 1_000_000), b);
            let p = l.inset(v, d);
            let q = l.inset(v, s);
            Z3_solver_assert(l.c, l.solver, p);
            Z3_solver_assert(l.c, l.solver, q);
            r = Z3_solver_check(l.c, l.solver);
        }
        let ns = t0.elapsed().as_nanos() as u64;
        self.stats.queries += 1;
        self.stats.solver_ns += ns;
        self.stats.max_ns = self.stats.max_ns.max(ns);
        if r == -1 {
            self.stats.unsat += 1;
            self.setpairs.insert((*d, *s), ());
            true
        } else {
            self.stats.unknown += 1;
            false
        }
    }
}

impl Live {
    unsafe fn bv(&mut self, w: u8) -> P {
        if let Some(p) = self.bvs.get(&w) {
            return *p;
        }
        let p = Z3_mk_bv_sort(self.c, w as c_uint);
        self.bvs.insert(w, p);
        p
    }
    unsafe fn num(&mut self, v: u128, w: u8) -> P {
        let s = self.bv(w);
        self.terms += 1;
        if v <= u64::MAX as u128 {
            Z3_mk_unsigned_int64(self.c, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, t.as_ptr(), s)
        }
    }
    unsafe fn var(&mut self, v: u32) -> P {
        if let Some(p) = self.vars.get(&v) {
            return *p;
        }
        let b = self.bv(8);
        let p = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), b);
        self.vars.insert(v, p);
        p
    }
    unsafe fn collect_vars(&mut self, x: &Ctx, e: Id, out: &mut FxMap<u32, P>) {
        let mut stack = vec![e];
        let mut seen: FxMap<Id, ()> = Default::default();
        while let Some(e) = stack.pop() {
            if x.sup(e) == 0 || seen.insert(e, ()).is_some() {
                continue;
            }
            match x.nodes[e as usize] {
                Node::Const(_) => {}
                Node::Var(v) | Node::InSet(v, _) => {
                    let p = self.var(v);
                    out.insert(x.vars[v as usize].idx, p);
                }
                Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => stack.extend([a, b]),
                Node::Ite(a, b, c) => stack.extend([a, b, c]),
                Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) => stack.push(a),
            }
        }
    }
    unsafe fn inset(&mut self, v: P, s: &Set) -> P {
        let mut parts: Vec<P> = vec![];
        let mut i = 0usize;
        while i < 256 {
            if set_has(s, i as u8) {
                let mut j = i;
                while j + 1 < 256 && set_has(s, (j + 1) as u8) {
                    j += 1;
                }
                if i == j {
                    let n = self.num(i as u128, 8);
                    parts.push(Z3_mk_eq(self.c, v, n));
                } else {
                    let lo = self.num(i as u128, 8);
                    let hi = self.num(j as u128, 8);
                    let a = [Z3_mk_bvule(self.c, lo, v), Z3_mk_bvule(self.c, v, hi)];
                    parts.push(Z3_mk_and(self.c, 2, a.as_ptr()));
                }
                i = j + 1;
            } else {
                i += 1;
            }
        }
        self.terms += parts.len() + 1;
        match parts.len() {
            0 => Z3_mk_false(self.c),
            1 => parts[0],
            n => Z3_mk_or(self.c, n as c_uint, parts.as_ptr()),
        }
    }
    /// 1-bit expressions are translated to z3 booleans
    unsafe fn boolean(&mut self, x: &Ctx, e: Id) -> P {
        debug_assert!(x.w(e) == 1);
        self.term(x, e)
    }
    unsafe fn as_bv(&mut self, x: &Ctx, e: Id) -> P {
        let t = self.term(x, e);
        if x.w(e) == 1 {
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            Z3_mk_ite(self.c, t, o, z)
        } else {
            t
        }
    }
    unsafe fn term(&mut self, x: &Ctx, e: Id) -> P {
        if let Some(p) = self.memo.get(&e) {
            return *p;
        }
        let w = x.w(e);
        let c = self.c;
        let p = match x.nodes[e as usize] {
            Node::Const(v) => {
                if w == 1 {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                } else {
                    self.num(v, w)
                }
            }
            Node::Var(v) => self.var(v),
            Node::InSet(v, s) => {
                let p = self.var(v);
                self.inset(p, &s)
            }
            Node::Bin(op, a, b) if w == 1 => {
                let (p, q) = (self.term(x, a), self.term(x, b));
                match op {
                    Bin::And | Bin::Mul => Z3_mk_and(c, 2, [p, q].as_ptr()),
                    Bin::Or => Z3_mk_or(c, 2, [p, q].as_ptr()),
                    Bin::Xor | Bin::Add | Bin::Sub => Z3_mk_xor(c, p, q),
                    _ => {
                        // rare: 1-bit shifts/divisions
                        let (o, z) = (self.num(1, 1), self.num(0, 1));
                        let (p, q) = (Z3_mk_ite(c, p, o, z), Z3_mk_ite(c, q, o, z));
                        let t = self.bvop(op, p, q);
                        Z3_mk_eq(c, t, o)
                    }
                }
            }
            Node::Bin(op, a, b) => {
                let (p, q) = (self.term(x, a), self.term(x, b));
                self.bvop(op, p, q)
            }
            Node::Cmp(p, a, b) => {
                let (s, t) = if p == Pred::Eq { (self.term(x, a), self.term(x, b)) } else { (self.as_bv(x, a), self.as_bv(x, b)) };
                match p {
                    Pred::Eq => Z3_mk_eq(c, s, t),
                    Pred::Ult => Z3_mk_bvult(c, s, t),
                    Pred::Ule => Z3_mk_bvule(c, s, t),
                    Pred::Slt => Z3_mk_bvslt(c, s, t),
                    Pred::Sle => Z3_mk_bvsle(c, s, t),
                }
            }
            Node::Ite(k, a, b) => {
                let (k, p, q) = (self.term(x, k), self.term(x, a), self.term(x, b));
                Z3_mk_ite(c, k, p, q)
            }
            Node::Zext(a) => {
                let n = w - x.w(a);
                let p = self.as_bv(x, a);
                Z3_mk_zero_ext(c, n as c_uint, p)
            }
            Node::Sext(a) => {
                let n = w - x.w(a);
                let p = self.as_bv(x, a);
                Z3_mk_sign_ext(c, n as c_uint, p)
            }
            Node::Extract(a, lo) => {
                let p = self.as_bv(x, a);
                let t = Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, p);
                if w == 1 {
                    let o = self.num(1, 1);
                    Z3_mk_eq(c, t, o)
                } else {
                    t
                }
            }
            Node::Concat(a, b) => {
                let (p, q) = (self.as_bv(x, a), self.as_bv(x, b));
                Z3_mk_concat(c, p, q)
            }
        };
        self.terms += 1;
        self.memo.insert(e, p);
        p
    }
    unsafe fn bvop(&mut self, op: Bin, p: P, q: P) -> P {
        let c = self.c;
        match op {
            Bin::Add => Z3_mk_bvadd(c, p, q),
            Bin::Sub => Z3_mk_bvsub(c, p, q),
            Bin::Mul => Z3_mk_bvmul(c, p, q),
            Bin::UDiv => Z3_mk_bvudiv(c, p, q),
            Bin::URem => Z3_mk_bvurem(c, p, q),
            Bin::SDiv => Z3_mk_bvsdiv(c, p, q),
            Bin::SRem => Z3_mk_bvsrem(c, p, q),
            Bin::And => Z3_mk_bvand(c, p, q),
            Bin::Or => Z3_mk_bvor(c, p, q),
            Bin::Xor => Z3_mk_bvxor(c, p, q),
            Bin::Shl => Z3_mk_bvshl(c, p, q),
            Bin::LShr => Z3_mk_bvlshr(c, p, q),
            Bin::AShr => Z3_mk_bvashr(c, p, q),
        }
    }
    #[allow(dead_code)]
    unsafe fn not(&mut self, p: P) -> P {
        Z3_mk_not(self.c, p)
    }
}
