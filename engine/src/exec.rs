//! Path-forking symbolic executor over the lowered IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Val {
    pub v: u64,
    pub s: Id,
}
pub const fn cv(v: u64) -> Val {
    Val { v, s: 0 }
}

pub const PG: u64 = 4096;
#[derive(Clone)]
pub struct Page {
    pub d: [u8; 4096],
    pub s: Option<Box<[Id; 4096]>>,
}
thread_local! {
    static ZERO: Rc<Page> = Rc::new(Page { d: [0; 4096], s: None });
}
fn zero_page() -> Rc<Page> {
    ZERO.with(|z| z.clone())
}

#[derive(Clone)]
pub struct Mem {
    pub glob: Vec<Rc<Page>>,
    pub heap: Vec<Rc<Page>>,
    pub stack: Vec<Rc<Page>>,
    pub heap_top: u64,
    pub glob_end: u64,
}
#[derive(Debug)]
pub struct Fault(pub String);

impl Mem {
    #[inline]
    fn page(&self, addr: u64) -> Option<&Page> {
        let i = ((addr & 0xffff_ffff) / PG) as usize;
        let v = match addr >> 32 {
            2 => &self.heap,
            3 => &self.stack,
            1 => &self.glob,
            _ => return None,
        };
        v.get(i).map(|r| &**r)
    }
    #[inline]
    fn page_mut(&mut self, addr: u64) -> Option<&mut Page> {
        let i = ((addr & 0xffff_ffff) / PG) as usize;
        let v = match addr >> 32 {
            2 => &mut self.heap,
            3 => &mut self.stack,
            1 => &mut self.glob,
            _ => return None,
        };
        v.get_mut(i).map(Rc::make_mut)
    }
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let a = align.max(16);
        let p = (self.heap_top + a - 1) / a * a;
        self.heap_top = p + size.max(1);
        let need = ((self.heap_top - HEAP_BASE) / PG + 1) as usize;
        while self.heap.len() < need {
            self.heap.push(zero_page());
        }
        p
    }
    pub fn stack_to(&mut self, sp: u64) {
        let need = ((sp - STACK_BASE) / PG + 2) as usize;
        while self.stack.len() < need {
            self.stack.push(zero_page());
        }
    }
    #[inline]
    pub fn byte(&self, addr: u64) -> Result<Val, Fault> {
        let p = self.page(addr).ok_or_else(|| Fault(format!("invalid read at {:#x}", addr)))?;
        let o = (addr & (PG - 1)) as usize;
        if let Some(s) = &p.s {
            if s[o] != 0 {
                return Ok(Val { v: 0, s: s[o] });
            }
        }
        Ok(cv(p.d[o] as u64))
    }
    #[inline]
    pub fn set_byte(&mut self, addr: u64, v: Val) -> Result<(), Fault> {
        let p = self.page_mut(addr).ok_or_else(|| Fault(format!("invalid write at {:#x}", addr)))?;
        let o = (addr & (PG - 1)) as usize;
        if v.s != 0 {
            p.s.get_or_insert_with(|| Box::new([0; 4096]))[o] = v.s;
        } else {
            p.d[o] = v.v as u8;
            if let Some(s) = &mut p.s {
                s[o] = 0;
            }
        }
        Ok(())
    }
    #[inline]
    fn load_conc(&self, addr: u64, n: usize) -> Option<u64> {
        let o = (addr & (PG - 1)) as usize;
        if o + n > PG as usize || n > 8 {
            return None;
        }
        let p = self.page(addr)?;
        if let Some(s) = &p.s {
            if s[o..o + n].iter().any(|x| *x != 0) {
                return None;
            }
        }
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&p.d[o..o + n]);
        Some(u64::from_le_bytes(b))
    }
    #[inline]
    fn store_conc(&mut self, addr: u64, n: usize, v: u64) -> bool {
        let o = (addr & (PG - 1)) as usize;
        if o + n > PG as usize || n > 8 {
            return false;
        }
        let Some(p) = self.page_mut(addr) else { return false };
        p.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if let Some(s) = &mut p.s {
            s[o..o + n].fill(0);
        }
        true
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src {
            return Ok(());
        }
        // fast path: no symbolic bytes in the source range, chunked
        if dst < src || dst >= src + n {
            let mut i = 0;
            while i < n {
                let (so, d_o) = ((src + i) & (PG - 1), (dst + i) & (PG - 1));
                let k = (PG - so).min(PG - d_o).min(n - i) as usize;
                let (so, d_o) = (so as usize, d_o as usize);
                let sp = self.page(src + i).ok_or_else(|| Fault(format!("invalid read (memcpy) at {:#x}", src + i)))?;
                let mut tmp = [0u8; 4096];
                tmp[..k].copy_from_slice(&sp.d[so..so + k]);
                let syms: Option<Vec<Id>> = match &sp.s {
                    Some(s) if s[so..so + k].iter().any(|x| *x != 0) => Some(s[so..so + k].to_vec()),
                    _ => None,
                };
                let dp = self.page_mut(dst + i).ok_or_else(|| Fault(format!("invalid write (memcpy) at {:#x}", dst + i)))?;
                dp.d[d_o..d_o + k].copy_from_slice(&tmp[..k]);
                match syms {
                    Some(v) => dp.s.get_or_insert_with(|| Box::new([0; 4096]))[d_o..d_o + k].copy_from_slice(&v),
                    None => {
                        if let Some(s) = &mut dp.s {
                            s[d_o..d_o + k].fill(0)
                        }
                    }
                }
                i += k as u64;
            }
        } else {
            for i in (0..n).rev() {
                let b = self.byte(src + i)?;
                self.set_byte(dst + i, b)?;
            }
        }
        Ok(())
    }
    pub fn set(&mut self, dst: u64, v: Val, n: u64) -> Result<(), Fault> {
        for i in 0..n {
            self.set_byte(dst + i, v)?;
        }
        Ok(())
    }
    pub fn cstr(&self, p: u64) -> Result<Vec<u8>, Fault> {
        let mut v = vec![];
        let mut a = p;
        loop {
            let b = self.byte(a)?;
            if b.s != 0 {
                return Err(Fault("symbolic C string".into()));
            }
            if b.v == 0 {
                return Ok(v);
            }
            v.push(b.v as u8);
            a += 1;
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub code: Rc<Code>,
    pub pc: u32,
    pub base: u32,
    pub sp: u64,
    pub ret_d: u32,
    pub nret: u32,
}

// fields of core::hash::sip::Hasher as the compiler lays them out: state, k0, k1, ...
const HASHER_KEYS: u64 = 32;
const HASHER_STATE: u64 = 0;
#[derive(Clone, Default)]
pub struct FreeHash {
    pub table: u64,
    pub pool: Vec<Val>,
    pub tables: Vec<u64>,
    pub seen: Vec<(Vec<u8>, u64)>,
}
#[derive(Clone, Default)]
pub struct Fs {
    pub files: BTreeMap<String, Rc<Vec<Val>>>,
    pub dirs: BTreeMap<String, ()>,
    pub fds: Vec<Option<(String, u64)>>,
    pub opendirs: Vec<(Vec<(String, bool)>, usize, u64, String)>,
}

#[derive(Clone)]
pub struct State {
    pub job: u32,
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub mem: Mem,
    pub sp: u64,
    pub vars: Vec<Id>,
    pub dom: Vec<Set>,
    pub assign: Vec<u8>,
    pub multi: Vec<Id>,
    pub multi_sup: u128,
    pub fixed: Rc<FxMap<Id, u64>>,
    pub outs: Vec<Val>,
    pub covers: u128,
    pub fs: Rc<Fs>,
    pub errno: u64,
    pub steps: u64,
    pub seed: u64,
    pub weak_hash: bool,
    /// hash order chosen by the solver: which table, the choices, tables and contents seen so far
    pub free_hash: Option<Rc<FreeHash>>,
    pub nasserts: u32,
    pub depth: u32,
    pub iter_perm: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub job: u32,
    pub kind: String,
    pub msg: String,
    pub bytes: Vec<u8>,
    pub stack: Vec<String>,
}

pub enum End {
    Done,
    Pruned,
    Violation(Violation),
    Incomplete(String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ext {
    None,
    Panic,
    Alloc,
    Dealloc,
    Realloc,
    AllocZeroed,
    Noop,
    Zero,
    Memcmp,
    Bcmp,
    Memcpy,
    Memset,
    Strlen,
    Malloc,
    Calloc,
    CRealloc,
    Abort,
    Errno,
    StackPtr,
    StackDir,
    AttrGetStack,
    Sysconf,
    Syscall,
    Getrandom,
    Write,
    Writev,
    Getcwd,
    Realpath,
    Open,
    Read,
    Close,
    Fstat,
    Stat,
    Lseek,
    Opendir,
    Readdir,
    Closedir,
    Dirfd,
    Fstatat,
    Strerror,
    PosixMemalign,
    SymFork,
    SipWrite,
    SymByte,
    SymAssume,
    SymAssert,
    SymOut,
    SymCover,
    SymParam,
    SymFsAdd,
    SymSymbolic,
    SymHashMode,
    SymHashPool,
    Unknown,
}

fn classify(n: &str, defined: bool) -> Ext {
    match n {
        "sym_byte" => return Ext::SymByte,
        "sym_fork" => return Ext::SymFork,
        "sym_assume" => return Ext::SymAssume,
        "sym_assert" => return Ext::SymAssert,
        "sym_out" => return Ext::SymOut,
        "sym_cover" => return Ext::SymCover,
        "sym_param" => return Ext::SymParam,
        "sym_fs_add" => return Ext::SymFsAdd,
        "sym_symbolic" => return Ext::SymSymbolic,
        "sym_hash_mode" => return Ext::SymHashMode,
        "sym_hash_pool" => return Ext::SymHashPool,
        "memcmp" => return Ext::Memcmp,
        "bcmp" => return Ext::Bcmp,
        "memcpy" | "memmove" => return Ext::Memcpy,
        "memset" => return Ext::Memset,
        "strlen" => return Ext::Strlen,
        "malloc" => return Ext::Malloc,
        "calloc" => return Ext::Calloc,
        "realloc" => return Ext::CRealloc,
        "posix_memalign" => return Ext::PosixMemalign,
        "free" => return Ext::Noop,
        "abort" | "_exit" | "exit" => return Ext::Abort,
        "__errno_location" => return Ext::Errno,
        "rust_psm_stack_pointer" => return Ext::StackPtr,
        "rust_psm_stack_direction" => return Ext::StackDir,
        "pthread_attr_getstack" => return Ext::AttrGetStack,
        "pthread_attr_init" | "pthread_getattr_np" | "pthread_attr_destroy" | "pthread_self" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "getenv" | "munmap" | "mprotect" | "sigaction" | "signal" | "pthread_attr_getguardsize" => {
            return Ext::Zero
        }
        "sysconf" => return Ext::Sysconf,
        "syscall" => return Ext::Syscall,
        "getrandom" => return Ext::Getrandom,
        "write" => return Ext::Write,
        "writev" => return Ext::Writev,
        "getcwd" => return Ext::Getcwd,
        "realpath" => return Ext::Realpath,
        "open64" | "open" => return Ext::Open,
        "read" => return Ext::Read,
        "close" => return Ext::Close,
        "fstat64" | "fstat" => return Ext::Fstat,
        "stat64" | "stat" | "lstat64" | "lstat" => return Ext::Stat,
        "lseek64" | "lseek" => return Ext::Lseek,
        "opendir" => return Ext::Opendir,
        "readdir64" | "readdir" => return Ext::Readdir,
        "closedir" => return Ext::Closedir,
        "dirfd" => return Ext::Dirfd,
        "fstatat64" | "fstatat" => return Ext::Fstatat,
        "__xpg_strerror_r" => return Ext::Strerror,
        _ => {}
    }
    if n.ends_with("___rust_dealloc") || n.ends_with("___rdl_dealloc") {
        return Ext::Dealloc;
    }
    if n.ends_with("___rust_alloc") || n.ends_with("___rdl_alloc") {
        return Ext::Alloc;
    }
    if n.ends_with("___rust_realloc") || n.ends_with("___rdl_realloc") {
        return Ext::Realloc;
    }
    if n.ends_with("___rust_alloc_zeroed") || n.ends_with("___rdl_alloc_zeroed") {
        return Ext::AllocZeroed;
    }
    if n.contains("___rust_no_alloc_shim_is_unstable") {
        return Ext::Noop;
    }
    if n.contains("4core9panicking") && (n.contains("9panic_fmt") || n.contains("panic_nounwind_fmt")) {
        return Ext::Panic;
    }
    if n.contains("18handle_alloc_error") {
        return Ext::Panic;
    }
    if n.contains("4core4hash3sip") && n.contains("6Hasher5write") {
        return Ext::SipWrite;
    }
    if defined {
        Ext::None
    } else {
        Ext::Unknown
    }
}

#[derive(Default, Clone, Debug)]
pub struct XStats {
    pub steps: u64,
    pub forks: u64,
    pub paths: u64,
    pub pruned: u64,
    pub branches: u64,
    pub sym_loads: u64,
    pub asserts: u64,
    pub asserts_symbolic: u64,
    pub concretized: u64,
}

pub struct Engine {
    pub m: Module,
    pub x: Ctx,
    pub sv: Solver,
    codes: Vec<Option<Rc<Code>>>,
    ext: Vec<Ext>,
    pub work: Vec<State>,
    pub st: XStats,
    pub used: Vec<bool>,
    pub max_steps: u64,
    pub max_conc: usize,
    base: Mem,
    pub trace: bool,
}

enum Step {
    Next,
    Jumped,
    End(End),
}
type R<T> = Result<T, End>;
fn fault(f: Fault) -> End {
    End::Incomplete(format!("FAULT {}", f.0))
}

impl Engine {
    pub fn new(m: Module) -> Engine {
        let n = m.funcs.len();
        let ext = m.funcs.iter().map(|f| classify(f.name, f.defined)).collect();
        let mut glob = vec![];
        let img = &m.image;
        let np = img.len() / PG as usize + 2;
        for i in 0..np {
            let mut p = Page { d: [0; 4096], s: None };
            let s = i * PG as usize;
            if s < img.len() {
                let e = (s + PG as usize).min(img.len());
                p.d[..e - s].copy_from_slice(&img[s..e]);
            }
            glob.push(Rc::new(p));
        }
        let base = Mem { glob, heap: vec![], stack: vec![], heap_top: HEAP_BASE + 4096, glob_end: GLOB_BASE + img.len() as u64 };
        Engine {
            m,
            x: Ctx::new(),
            sv: Solver::new(),
            codes: vec![None; n],
            ext,
            work: vec![],
            st: Default::default(),
            used: vec![false; n],
            max_steps: 200_000_000,
            max_conc: 300,
            base,
            trace: false,
        }
    }
    fn code(&mut self, f: u32) -> Rc<Code> {
        if let Some(c) = &self.codes[f as usize] {
            return c.clone();
        }
        let c = Rc::new(self.m.lower(f, &mut self.x));
        self.codes[f as usize] = Some(c.clone());
        self.used[f as usize] = true;
        c
    }
    pub fn start(&mut self, job: u32, entry: &str, args: &[u64], seed: u64) -> State {
        let f = *self.m.fidx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let code = self.code(f);
        let mut regs = vec![cv(0); code.nregs as usize];
        for (i, a) in args.iter().enumerate() {
            regs[i] = cv(*a);
        }
        let mut mem = self.base.clone();
        mem.stack_to(STACK_BASE + 65536);
        let errno = mem.alloc(16, 16);
        State {
            job,
            frames: vec![Frame { f, code, pc: 0, base: 0, sp: STACK_BASE + 64, ret_d: 0, nret: 0 }],
            regs,
            mem,
            sp: STACK_BASE + 64,
            vars: vec![],
            dom: vec![],
            assign: vec![],
            multi: vec![],
            multi_sup: 0,
            fixed: Default::default(),
            outs: vec![],
            covers: 0,
            fs: Rc::new(Fs { fds: vec![None, None, None], ..Default::default() }),
            errno,
            steps: 0,
            seed,
            weak_hash: true,
            free_hash: None,
            nasserts: 0,
            depth: 0,
            iter_perm: 0,
        }
    }

    // ------------------------------------------------------------ constraints
    /// Is `e` (1 bit) satisfiable with the path condition?  Returns the changed assignment entries.
    fn feas(&mut self, st: &State, e: Id) -> R<Option<Vec<(u32, u8)>>> {
        if let Some(c) = self.x.as_const(e) {
            return Ok(if c == 1 { Some(vec![]) } else { None });
        }
        let mut cj = vec![];
        self.x.conjuncts(e, &mut cj);
        let mut simple = true;
        let mut newdom: Vec<(u32, Set)> = vec![];
        for c in &cj {
            if let Node::InSet(v, s) = self.x.nodes[*c as usize] {
                let i = self.x.vars[v as usize].idx;
                let d = newdom.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(st.dom[i as usize]);
                let n = set_and(&d, &s);
                if set_empty(&n) {
                    if self.sv.certify_disjoint(&d, &s) {
                        return Ok(None);
                    }
                    return Err(End::Incomplete("z3 disagreed with domain analysis".into()));
                }
                if let Some(x) = newdom.iter_mut().find(|x| x.0 == i) {
                    x.1 = n
                } else {
                    newdom.push((i, n));
                }
                if st.multi_sup >> i & 1 == 1 {
                    simple = false;
                }
            } else {
                simple = false;
            }
        }
        if simple {
            return Ok(Some(newdom.iter().map(|(i, s)| (*i, if set_has(s, st.assign[*i as usize]) { st.assign[*i as usize] } else { set_pick(s) })).collect()));
        }
        // slice
        let mut sup = self.x.sup(e);
        let mut cone: Vec<Id> = vec![];
        let mut taken = vec![false; st.multi.len()];
        loop {
            let mut ch = false;
            for (k, c) in st.multi.iter().enumerate() {
                if !taken[k] && self.x.sup(*c) & sup != 0 {
                    taken[k] = true;
                    sup |= self.x.sup(*c);
                    cone.push(*c);
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        match self.sv.check(&self.x, &cone, e, &st.dom, sup) {
            Res::Unsat => Ok(None),
            Res::Unknown => Err(End::Incomplete("solver returned unknown".into())),
            Res::Sat(m) => {
                // validate the model on the expressions themselves
                let mut a = st.assign.clone();
                for (i, v) in &m {
                    a[*i as usize] = *v;
                }
                let mut memo = Default::default();
                for c in cone.iter().chain([&e]) {
                    if self.x.ev(*c, &a, &mut memo) != 1 {
                        return Err(End::Incomplete("z3 model does not satisfy the query".into()));
                    }
                }
                Ok(Some(m))
            }
        }
    }
    fn add(&mut self, st: &mut State, e: Id, m: &[(u32, u8)]) {
        for (i, v) in m {
            st.assign[*i as usize] = *v;
        }
        let mut cj = vec![];
        self.x.conjuncts(e, &mut cj);
        for c in cj {
            match self.x.nodes[c as usize] {
                Node::InSet(v, s) => {
                    let i = self.x.vars[v as usize].idx as usize;
                    st.dom[i] = set_and(&st.dom[i], &s);
                }
                Node::Const(_) => {}
                _ => {
                    st.multi.push(c);
                    st.multi_sup |= self.x.sup(c);
                }
            }
        }
    }
    fn tv(&self, st: &State, e: Id) -> bool {
        self.x.eval(e, &st.assign) & 1 == 1
    }
    /// All feasible values of expression e under the path condition, with the constraint for each.
    fn values(&mut self, st: &State, e: Id, limit: usize) -> R<Vec<(u64, Id, Vec<(u32, u8)>)>> {
        let w = self.x.w(e);
        let mut out = vec![];
        if self.x.sup(e).count_ones() == 1 && w <= 64 {
            let i = self.x.sup(e).trailing_zeros();
            let v = self.x.single_var(e).unwrap();
            let t = self.x.table(e);
            let mut groups: BTreeMap<u64, Set> = BTreeMap::new();
            for b in 0..256usize {
                if set_has(&st.dom[i as usize], b as u8) {
                    set_add(groups.entry(t[b]).or_insert([0; 4]), b as u8);
                }
            }
            // no value of the domain is left out
            let mut rest = [u64::MAX; 4];
            for s in groups.values() {
                for k in 0..4 {
                    rest[k] &= !s[k];
                }
            }
            if !self.sv.certify_disjoint(&st.dom[i as usize], &rest) {
                return Err(End::Incomplete("z3 disagreed with domain analysis".into()));
            }
            for (val, s) in groups {
                let c = self.x.inset(v, s);
                if let Some(m) = self.feas(st, c)? {
                    out.push((val, c, m));
                }
            }
            if out.len() > limit {
                return Err(End::Incomplete(format!("{} values for one expression", out.len())));
            }
            return Ok(out);
        }
        let mut block = self.x.tru();
        loop {
            let Some(m) = self.feas(st, block)? else { break };
            let mut a = st.assign.clone();
            for (i, v) in &m {
                a[*i as usize] = *v;
            }
            let val = self.x.eval(e, &a) as u64;
            let k = self.x.cst(val as u128, w);
            let eq = self.x.eq(e, k);
            out.push((val, eq, m));
            if out.len() > limit {
                return Err(End::Incomplete(format!("more than {} values for one expression", limit)));
            }
            let ne = self.x.not(eq);
            block = self.x.and(block, ne);
        }
        Ok(out)
    }
    /// Make a value concrete, forking over all feasible values.  Must be called before any side effect of the instruction.
    fn conc(&mut self, st: &mut State, v: Val) -> R<u64> {
        if v.s == 0 {
            return Ok(v.v);
        }
        if let Some(c) = self.x.as_const(v.s) {
            return Ok(c as u64);
        }
        if let Some(k) = st.fixed.get(&v.s) {
            return Ok(*k);
        }
        self.st.concretized += 1;
        let vals = self.values(st, v.s, self.max_conc)?;
        if vals.is_empty() {
            return Err(End::Pruned);
        }
        for (val, c, m) in vals.iter().skip(1) {
            let mut n = st.clone();
            self.add(&mut n, *c, m);
            Rc::make_mut(&mut n.fixed).insert(v.s, *val);
            n.depth += 1;
            self.st.forks += 1;
            self.work.push(n);
        }
        let (val, c, m) = &vals[0];
        self.add(st, *c, m);
        Rc::make_mut(&mut st.fixed).insert(v.s, *val);
        Ok(*val)
    }

    // ------------------------------------------------------------ values
    #[inline]
    fn get(&self, st: &State, base: u32, o: Op) -> Val {
        match o {
            Op::R(r) => st.regs[(base + r) as usize],
            Op::C(c) => cv(c),
            Op::X(e) => Val { v: 0, s: e },
        }
    }
    pub fn ex(&mut self, v: Val, w: u8) -> Id {
        if v.s != 0 {
            v.s
        } else {
            self.x.cst(v.v as u128, w)
        }
    }
    fn norm(&self, e: Id) -> Val {
        if self.x.w(e) <= 64 {
            if let Some(c) = self.x.as_const(e) {
                return cv(c as u64);
            }
        }
        Val { v: 0, s: e }
    }
    fn load(&mut self, st: &State, addr: u64, w: u8) -> R<Val> {
        let n = (w as usize + 7) / 8;
        if w <= 64 {
            if let Some(v) = st.mem.load_conc(addr, n) {
                return Ok(cv(v & mask64(w)));
            }
        }
        let mut e: Id = 0;
        let mut conc = true;
        let mut cval: u128 = 0;
        let mut bs = [cv(0); 16];
        for i in 0..n {
            bs[i] = st.mem.byte(addr.wrapping_add(i as u64)).map_err(|f| End::Violation(self.viol(st, "ub", f.0)))?;
            if bs[i].s != 0 {
                conc = false;
            } else {
                cval |= (bs[i].v as u128) << (8 * i);
            }
        }
        if conc {
            if w <= 64 {
                return Ok(cv(cval as u64 & mask64(w)));
            }
            return Ok(Val { v: 0, s: self.x.cst(cval, w) });
        }
        for i in 0..n {
            let b = self.ex(bs[i], 8);
            e = if i == 0 { b } else { self.x.concat(b, e) };
        }
        let e = self.x.extract(e, 0, w);
        Ok(self.norm(e))
    }
    fn store(&mut self, st: &mut State, addr: u64, v: Val, w: u8) -> R<()> {
        let n = (w as usize + 7) / 8;
        if addr >= GLOB_BASE && addr < st.mem.glob_end && self.is_ro(addr) {
            return Err(End::Violation(self.viol(st, "ub", format!("write to constant memory {:#x}", addr))));
        }
        if v.s == 0 {
            if st.mem.store_conc(addr, n, v.v) {
                return Ok(());
            }
            for i in 0..n {
                if let Err(f) = st.mem.set_byte(addr.wrapping_add(i as u64), cv(v.v >> (8 * i) & 0xff)) {
                    return Err(End::Violation(self.viol(st, "ub", f.0)));
                }
            }
            return Ok(());
        }
        let e = self.x.zext(v.s, (n * 8) as u8);
        for i in 0..n {
            let b = self.x.extract(e, (8 * i) as u8, 8);
            let b = self.norm(b);
            if let Err(f) = st.mem.set_byte(addr.wrapping_add(i as u64), b) {
                return Err(End::Violation(self.viol(st, "ub", f.0)));
            }
        }
        Ok(())
    }
    fn is_ro(&self, a: u64) -> bool {
        let r = &self.m.ro;
        let k = r.partition_point(|x| x.1 <= a);
        k < r.len() && r[k].0 <= a
    }
    fn bin(&mut self, op: Bin, w: u8, a: Val, b: Val) -> Option<Val> {
        if a.s == 0 && b.s == 0 && w <= 64 {
            let m = mask64(w);
            return Some(cv(match op {
                Bin::Add => a.v.wrapping_add(b.v) & m,
                Bin::Sub => a.v.wrapping_sub(b.v) & m,
                Bin::And => a.v & b.v,
                Bin::Or => a.v | b.v,
                Bin::Xor => a.v ^ b.v,
                Bin::Mul => a.v.wrapping_mul(b.v) & m,
                _ => bin_const(op, w, a.v as u128, b.v as u128)? as u64,
            }));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && self.x.as_const(y) == Some(0) {
            return None;
        }
        let e = self.x.bin(op, x, y);
        Some(self.norm(e))
    }
    fn cmp(&mut self, p: Pred, neg: bool, w: u8, a: Val, b: Val) -> Val {
        if a.s == 0 && b.s == 0 && w <= 64 {
            let r = match p {
                Pred::Eq => a.v == b.v,
                Pred::Ult => a.v < b.v,
                Pred::Ule => a.v <= b.v,
                _ => cmp_const(p, w, a.v as u128, b.v as u128),
            };
            return cv((r ^ neg) as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let mut e = self.x.cmp(p, x, y);
        if neg {
            e = self.x.not(e);
        }
        self.norm(e)
    }
    pub fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(self.m.funcs[f.f as usize].name)).collect()
    }
    fn viol(&self, st: &State, kind: &str, msg: String) -> Violation {
        Violation { job: st.job, kind: kind.into(), msg, bytes: st.assign.clone(), stack: self.stack_names(st) }
    }

    // ------------------------------------------------------------ main loop
    pub fn run(&mut self, st: &mut State) -> End {
        let mut n = 0u64;
        let r = loop {
            n += 1;
            if n & 0xfff == 0 && st.steps + n > self.max_steps {
                break End::Incomplete("step limit".into());
            }
            match self.step(st) {
                Ok(Step::Next) => {
                    let k = st.frames.len() - 1;
                    st.frames[k].pc += 1;
                }
                Ok(Step::Jumped) => {}
                Ok(Step::End(e)) => break e,
                Err(e) => break e,
            }
        };
        st.steps += n;
        self.st.steps += n;
        r
    }
    fn goto(&mut self, st: &mut State, e: u32) {
        let k = st.frames.len() - 1;
        let code = st.frames[k].code.clone();
        let base = st.frames[k].base;
        let ed = &code.edges[e as usize];
        let cp = &ed.copies;
        match cp.len() {
            0 => {}
            1 => {
                let v = self.get(st, base, cp[0].1);
                st.regs[(base + cp[0].0) as usize] = v;
            }
            n if n <= 16 => {
                let mut tmp = [cv(0); 16];
                for i in 0..n {
                    tmp[i] = self.get(st, base, cp[i].1);
                }
                for i in 0..n {
                    st.regs[(base + cp[i].0) as usize] = tmp[i];
                }
            }
            n => {
                let tmp: Vec<Val> = (0..n).map(|i| self.get(st, base, cp[i].1)).collect();
                for i in 0..n {
                    st.regs[(base + cp[i].0) as usize] = tmp[i];
                }
            }
        }
        st.frames[k].pc = ed.pc;
    }
    fn step(&mut self, st: &mut State) -> R<Step> {
        let k = st.frames.len() - 1;
        let fr = &st.frames[k];
        let base = fr.base;
        // The frame's Rc<Code> keeps the instruction alive while we execute it (frames are only popped by Ret, which copies what it needs).
        let inst: &Inst = unsafe { &*(&fr.code.insts[fr.pc as usize] as *const Inst) };
        macro_rules! g {
            ($o:expr) => {
                self.get(st, base, $o)
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {
                let vv = $v;
                st.regs[(base + $d) as usize] = vv;
            };
        }
        match inst {
            Inst::Bin { op, w, d, a, b } => {
                let (x, y) = (g!(*a), g!(*b));
                match self.bin(*op, *w, x, y) {
                    Some(v) => {
                        set!(*d, v);
                    }
                    None => return Err(End::Violation(self.viol(st, "ub", "division by zero".into()))),
                }
            }
            Inst::Cmp { p, neg, w, d, a, b } => {
                let (x, y) = (g!(*a), g!(*b));
                let v = self.cmp(*p, *neg, *w, x, y);
                set!(*d, v);
            }
            Inst::Zext { d, a, from, to } => {
                let x = g!(*a);
                let v = if x.s == 0 && *to <= 64 {
                    x
                } else {
                    let e = self.ex(x, *from);
                    let e = self.x.zext(e, *to);
                    self.norm(e)
                };
                set!(*d, v);
            }
            Inst::Sext { d, a, from, to } => {
                let x = g!(*a);
                let v = if x.s == 0 && *to <= 64 {
                    cv(sx128(x.v as u128, *from) as u64 & mask64(*to))
                } else {
                    let e = self.ex(x, *from);
                    let e = self.x.sext(e, *to);
                    self.norm(e)
                };
                set!(*d, v);
            }
            Inst::Trunc { d, a, to, .. } => {
                let x = g!(*a);
                let v = if x.s == 0 {
                    cv(x.v & mask64(*to))
                } else {
                    let e = self.x.extract(x.s, 0, *to);
                    self.norm(e)
                };
                set!(*d, v);
            }
            Inst::Copy { d, a } => {
                let x = g!(*a);
                set!(*d, x);
            }
            Inst::Gep { d, base: b, off, terms } => {
                let mut x = g!(*b);
                if x.s == 0 {
                    x.v = x.v.wrapping_add(*off as u64);
                } else if *off != 0 {
                    let k = self.x.cst(*off as i128 as u128, 64);
                    let e = self.x.bin(Bin::Add, x.s, k);
                    x = self.norm(e);
                }
                for (o, sc, w) in terms.iter() {
                    let i = g!(*o);
                    if i.s == 0 && x.s == 0 {
                        let iv = if *w < 64 { sx128(i.v as u128, *w) as u64 } else { i.v };
                        x.v = x.v.wrapping_add(iv.wrapping_mul(*sc as u64));
                    } else {
                        let e = self.ex(i, *w);
                        let e = self.x.sext(e, 64);
                        let k = self.x.cst(*sc as i128 as u128, 64);
                        let e = self.x.bin(Bin::Mul, e, k);
                        let xe = self.ex(x, 64);
                        let e = self.x.bin(Bin::Add, xe, e);
                        x = self.norm(e);
                    }
                }
                set!(*d, x);
            }
            Inst::Load { d, a, off, w } => {
                let p = g!(*a);
                if p.s == 0 {
                    let v = self.load(st, p.v.wrapping_add(*off as u64), *w)?;
                    set!(*d, v);
                } else {
                    let v = self.sym_load(st, p.s, *off, *w)?;
                    set!(*d, v);
                }
            }
            Inst::Store { a, off, v, w } => {
                let p = g!(*a);
                let p = self.conc(st, p)?;
                let v = g!(*v);
                self.store(st, p.wrapping_add(*off as u64), v, *w)?;
            }
            Inst::Select { w, ptr, d, c, a, b } => {
                let cc = g!(*c);
                if cc.s == 0 {
                    let v = if cc.v & 1 == 1 { g!(*a) } else { g!(*b) };
                    set!(*d, v);
                } else {
                    let (x, y) = (g!(*a), g!(*b));
                    if x == y {
                        set!(*d, x);
                    } else if *ptr {
                        let k = self.conc(st, cc)?;
                        let v = if k & 1 == 1 { x } else { y };
                        set!(*d, v);
                    } else {
                        let (ex, ey) = (self.ex(x, *w), self.ex(y, *w));
                        let e = self.x.ite(cc.s, ex, ey);
                        let v = self.norm(e);
                        set!(*d, v);
                    }
                }
            }
            Inst::Alloca { d, size, align, n } => {
                let nn = g!(*n);
                let nn = self.conc(st, nn)?;
                let a = (*align).max(1);
                let p = (st.sp + a - 1) / a * a;
                st.sp = p + size * nn;
                if st.sp > STACK_BASE + STACK_SIZE {
                    return Err(End::Violation(self.viol(st, "stack-overflow", "stack overflow".into())));
                }
                st.mem.stack_to(st.sp);
                set!(*d, cv(p));
            }
            Inst::Br { e } => {
                self.goto(st, *e);
                return Ok(Step::Jumped);
            }
            Inst::CondBr { c, t, f } => {
                let v = g!(*c);
                if v.s == 0 {
                    self.goto(st, if v.v & 1 == 1 { *t } else { *f });
                    return Ok(Step::Jumped);
                }
                self.st.branches += 1;
                let cur = self.tv(st, v.s);
                let yes = if cur { v.s } else { self.x.not(v.s) };
                let no = self.x.not(yes);
                let (ye, ne) = if cur { (*t, *f) } else { (*f, *t) };
                if let Some(m) = self.feas(st, no)? {
                    let mut o = st.clone();
                    self.add(&mut o, no, &m);
                    o.depth += 1;
                    self.goto(&mut o, ne);
                    self.st.forks += 1;
                    self.work.push(o);
                    self.add(st, yes, &[]);
                    st.depth += 1;
                }
                self.goto(st, ye);
                return Ok(Step::Jumped);
            }
            Inst::Switch { w, v, def, cases } => {
                let x = g!(*v);
                if x.s == 0 {
                    let mut e = *def;
                    for (k, t) in cases.iter() {
                        if *k == x.v {
                            e = *t;
                            break;
                        }
                    }
                    self.goto(st, e);
                    return Ok(Step::Jumped);
                }
                self.st.branches += 1;
                // group by target block+copies (edges to the same block with equal phi copies are merged by block when there are no phis)
                let code = st.frames[k].code.clone();
                let mut groups: Vec<(u32, Id)> = vec![];
                let mut rest = self.x.tru();
                for (kv, t) in cases.iter() {
                    let kc = self.x.cst(*kv as u128, *w);
                    let c = self.x.eq(x.s, kc);
                    let nc = self.x.not(c);
                    rest = self.x.and(rest, nc);
                    let et = &code.edges[*t as usize];
                    let mut done = false;
                    for gi in 0..groups.len() {
                        let eg = &code.edges[groups[gi].0 as usize];
                        if eg.block == et.block && eg.copies.len() == et.copies.len() && eg.copies.iter().zip(et.copies.iter()).all(|(p, q)| same_op(p.1, q.1)) {
                            groups[gi].1 = self.x.or(groups[gi].1, c);
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        groups.push((*t, c));
                    }
                }
                groups.push((*def, rest));
                let mut chosen: Option<(u32, Id)> = None;
                for (e, c) in groups {
                    if self.x.as_const(c) == Some(0) {
                        continue;
                    }
                    if chosen.is_none() && self.tv(st, c) {
                        chosen = Some((e, c));
                        continue;
                    }
                    if let Some(m) = self.feas(st, c)? {
                        let mut o = st.clone();
                        self.add(&mut o, c, &m);
                        o.depth += 1;
                        self.goto(&mut o, e);
                        self.st.forks += 1;
                        self.work.push(o);
                    }
                }
                let (e, c) = chosen.ok_or_else(|| End::Incomplete("switch without chosen target".into()))?;
                self.add(st, c, &[]);
                self.goto(st, e);
                return Ok(Step::Jumped);
            }
            Inst::Call { f, args, d, nret } => {
                return self.call(st, *f, args, *d, *nret, base);
            }
            Inst::CallInd { p, args, d, nret } => {
                let v = g!(*p);
                let a = self.conc(st, v)?;
                if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.funcs.len() as u64 {
                    return Err(End::Violation(self.viol(st, "ub", format!("call to invalid address {:#x}", a))));
                }
                return self.call(st, ((a - FN_BASE) / 16) as u32, args, *d, *nret, base);
            }
            Inst::Ret { v } => {
                let fr = st.frames[k].clone();
                if k == 0 {
                    return Ok(Step::End(End::Done));
                }
                let n = fr.nret.min(v.len() as u32) as usize;
                let pb = st.frames[k - 1].base;
                for i in 0..n {
                    let x = self.get(st, base, v[i]);
                    st.regs[(pb + fr.ret_d) as usize + i] = x;
                }
                st.regs.truncate(base as usize);
                st.sp = fr.sp;
                st.frames.pop();
                // caller pc advances past the call
                st.frames[k - 1].pc += 1;
                return Ok(Step::Jumped);
            }
            Inst::Intr { k, w, d, args } => return self.intr(st, *k, *w, *d, args, base),
            Inst::Unreachable => return Err(End::Violation(self.viol(st, "ub", "unreachable executed".into()))),
            Inst::CmpXchg { d, p, w, exp, new } => {
                let pv = g!(*p);
                let p = self.conc(st, pv)?;
                let old = self.load(st, p, *w)?;
                let (e, n) = (g!(*exp), g!(*new));
                let c = self.cmp(Pred::Eq, false, *w, old, e);
                let c = self.conc(st, c)?;
                if c == 1 {
                    self.store(st, p, n, *w)?;
                }
                set!(*d, old);
                set!(*d + 1, cv(c));
            }
            Inst::Rmw { d, op, p, w, v } => {
                let pv = g!(*p);
                let p = self.conc(st, pv)?;
                let old = self.load(st, p, *w)?;
                let v = g!(*v);
                let n = match op {
                    0 => self.bin(Bin::Add, *w, old, v).unwrap(),
                    1 => self.bin(Bin::Sub, *w, old, v).unwrap(),
                    2 => v,
                    3 => self.bin(Bin::Or, *w, old, v).unwrap(),
                    4 => self.bin(Bin::And, *w, old, v).unwrap(),
                    _ => self.bin(Bin::Xor, *w, old, v).unwrap(),
                };
                self.store(st, p, n, *w)?;
                set!(*d, old);
            }
            Inst::Pack { d, lanes, lw } => {
                let tot = lanes.len() * *lw as usize;
                let mut conc = tot <= 64;
                let mut cvv = 0u64;
                if conc {
                    for (i, l) in lanes.iter().enumerate() {
                        let x = g!(*l);
                        if x.s != 0 {
                            conc = false;
                            break;
                        }
                        cvv |= x.v << (i * *lw as usize);
                    }
                }
                if conc {
                    set!(*d, cv(cvv));
                } else {
                    let mut e = 0;
                    for (i, l) in lanes.iter().enumerate() {
                        let x = g!(*l);
                        let b = self.ex(x, *lw);
                        e = if i == 0 { b } else { self.x.concat(b, e) };
                    }
                    let v = self.norm(e);
                    set!(*d, v);
                }
            }
            Inst::Unpack { d, a, n, lw } => {
                let x = g!(*a);
                let w = (*n * *lw as u32) as u8;
                let e = self.ex(x, w);
                for i in 0..*n {
                    let b = self.x.extract(e, (i * *lw as u32) as u8, *lw);
                    let v = self.norm(b);
                    set!(*d + i, v);
                }
            }
            Inst::Unsupported(s) => return Err(End::Incomplete(format!("unsupported instruction: {}", s))),
        }
        Ok(Step::Next)
    }
    fn sym_load(&mut self, st: &mut State, pe: Id, off: i64, w: u8) -> R<Val> {
        if let Some(k) = st.fixed.get(&pe) {
            let a = k.wrapping_add(off as u64);
            return self.load(st, a, w);
        }
        self.st.sym_loads += 1;
        let vals = self.values(st, pe, 1200)?;
        if vals.is_empty() {
            return Err(End::Pruned);
        }
        let mut e: Id = 0;
        for (i, (a, c, _)) in vals.iter().enumerate().rev() {
            let v = match self.load(st, a.wrapping_add(off as u64), w) {
                Ok(v) => v,
                Err(End::Violation(_)) => {
                    // an out-of-range access is feasible: report with its own model
                    let mut n = st.clone();
                    let m = vals[i].2.clone();
                    self.add(&mut n, *c, &m);
                    return Err(End::Violation(self.viol(&n, "ub", format!("symbolic address reaches invalid memory {:#x}", a))));
                }
                Err(x) => return Err(x),
            };
            let ve = self.ex(v, w);
            e = if e == 0 { ve } else { self.x.ite(*c, ve, e) };
        }
        Ok(self.norm(e))
    }
    fn intr(&mut self, st: &mut State, k: Intr, w: u8, d: u32, args: &[Op], base: u32) -> R<Step> {
        macro_rules! set {
            ($d:expr, $v:expr) => {
                let vv = $v;
                st.regs[(base + $d) as usize] = vv;
            };
        }
        let mut av = [cv(0); 6];
        for (i, a) in args.iter().take(6).enumerate() {
            av[i] = self.get(st, base, *a);
        }
        let (a, b) = (av[0], av[1]);
        match k {
            Intr::Nop | Intr::Assume => {}
            Intr::Memcpy => {
                let n = self.conc(st, av[2])?;
                let p = self.conc(st, a)?;
                let q = self.conc(st, b)?;
                if let Err(f) = st.mem.copy(p, q, n) {
                    return Err(End::Violation(self.viol(st, "ub", f.0)));
                }
            }
            Intr::Memset => {
                let n = self.conc(st, av[2])?;
                let p = self.conc(st, a)?;
                if let Err(f) = st.mem.set(p, b, n) {
                    return Err(End::Violation(self.viol(st, "ub", f.0)));
                }
            }
            Intr::Trap => return Err(End::Violation(self.viol(st, "abort", "trap".into()))),
            Intr::Ident | Intr::Expect => {
                set!(d, a);
            }
            Intr::IsConstant => {
                set!(d, cv(0));
            }
            Intr::ObjectSize => {
                set!(d, cv(u64::MAX));
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = if matches!(k, Intr::UMax | Intr::UMin) { Pred::Ult } else { Pred::Slt };
                let c = self.cmp(p, false, w, a, b);
                let lt_b = matches!(k, Intr::UMax | Intr::SMax);
                let v = if c.s == 0 {
                    if (c.v == 1) == lt_b {
                        b
                    } else {
                        a
                    }
                } else {
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    let e = if lt_b { self.x.ite(c.s, y, x) } else { self.x.ite(c.s, x, y) };
                    self.norm(e)
                };
                set!(d, v);
            }
            Intr::Abs => {
                let z = if w <= 64 { cv(0) } else { Val { v: 0, s: self.x.cst(0, w) } };
                let c = self.cmp(Pred::Slt, false, w, a, z);
                let n = self.bin(Bin::Sub, w, z, a).unwrap();
                let v = self.ite(c, n, a, w);
                set!(d, v);
            }
            Intr::UCmp | Intr::SCmp => {
                let p = if k == Intr::UCmp { Pred::Ult } else { Pred::Slt };
                let lt = self.cmp(p, false, w, a, b);
                let gt = self.cmp(p, false, w, b, a);
                let x = self.ite(gt, cv(1), cv(0), 8);
                let v = self.ite(lt, cv(0xff), x, 8);
                set!(d, v);
            }
            Intr::UAddSat => {
                let s = self.bin(Bin::Add, w, a, b).unwrap();
                let o = self.cmp(Pred::Ult, false, w, s, a);
                let v = self.ite(o, cv(mask64(w)), s, w);
                set!(d, v);
            }
            Intr::USubSat => {
                let s = self.bin(Bin::Sub, w, a, b).unwrap();
                let o = self.cmp(Pred::Ult, false, w, a, b);
                let v = self.ite(o, cv(0), s, w);
                set!(d, v);
            }
            Intr::UAddO => {
                let s = self.bin(Bin::Add, w, a, b).unwrap();
                let o = self.cmp(Pred::Ult, false, w, s, a);
                // range analysis may already exclude overflow
                let o = if o.s != 0 {
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    if self.x.info[x as usize].hi.checked_add(self.x.info[y as usize].hi).map_or(false, |h| h <= mask128(w)) {
                        cv(0)
                    } else {
                        o
                    }
                } else {
                    o
                };
                set!(d, s);
                set!(d + 1, o);
            }
            Intr::USubO => {
                let s = self.bin(Bin::Sub, w, a, b).unwrap();
                let o = self.cmp(Pred::Ult, false, w, a, b);
                set!(d, s);
                set!(d + 1, o);
            }
            Intr::UMulO => {
                let s = self.bin(Bin::Mul, w, a, b).unwrap();
                let o = if a.s == 0 && b.s == 0 {
                    cv((a.v as u128 * b.v as u128 > mask64(w) as u128) as u64)
                } else {
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    let (hx, hy) = (self.x.info[x as usize].hi, self.x.info[y as usize].hi);
                    if hx.checked_mul(hy).map_or(false, |h| h <= mask128(w)) {
                        cv(0)
                    } else if w <= 64 {
                        let (x, y) = (self.x.zext(x, w * 2), self.x.zext(y, w * 2));
                        let m = self.x.bin(Bin::Mul, x, y);
                        let h = self.x.extract(m, w, w);
                        let z = self.x.cst(0, w);
                        let e = self.x.eq(h, z);
                        let e = self.x.not(e);
                        self.norm(e)
                    } else {
                        return Err(End::Incomplete("128-bit umul.with.overflow on symbolic data".into()));
                    }
                };
                set!(d, s);
                set!(d + 1, o);
            }
            Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let op = match k {
                    Intr::SAddO => Bin::Add,
                    Intr::SSubO => Bin::Sub,
                    _ => Bin::Mul,
                };
                let s = self.bin(op, w, a, b).unwrap();
                let o = if a.s == 0 && b.s == 0 {
                    let (x, y) = (sx128(a.v as u128, w), sx128(b.v as u128, w));
                    let r = match k {
                        Intr::SAddO => x + y,
                        Intr::SSubO => x - y,
                        _ => x * y,
                    };
                    cv((r != sx128(s.v as u128, w)) as u64)
                } else {
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    let (hx, hy) = (self.x.info[x as usize].hi, self.x.info[y as usize].hi);
                    let top = mask128(w) >> 1;
                    let small = match k {
                        Intr::SAddO => hx.checked_add(hy).map_or(false, |h| h <= top),
                        Intr::SSubO => hx <= top && hy <= top,
                        _ => hx.checked_mul(hy).map_or(false, |h| h <= top),
                    };
                    if small {
                        // both operands non-negative and the result in range
                        cv(0)
                    } else if w > 64 {
                        let se = self.ex(s, w);
                        if k == Intr::SMulO {
                            return Err(End::Incomplete("128-bit smul.with.overflow on symbolic data".into()));
                        }
                        // overflow iff the sign of the result contradicts the operands' signs
                        let (sx, sy, sr) = (self.x.extract(x, w - 1, 1), self.x.extract(y, w - 1, 1), self.x.extract(se, w - 1, 1));
                        let same = self.x.eq(sx, sy);
                        let same = if k == Intr::SAddO { same } else { self.x.not(same) };
                        let flip = self.x.eq(sx, sr);
                        let flip = self.x.not(flip);
                        let e = self.x.and(same, flip);
                        self.norm(e)
                    } else {
                        let w2 = w * 2;
                        let (x, y) = (self.x.sext(x, w2), self.x.sext(y, w2));
                        let r = self.x.bin(op, x, y);
                        let se = self.ex(s, w);
                        let se = self.x.sext(se, w2);
                        let e = self.x.eq(r, se);
                        let e = self.x.not(e);
                        self.norm(e)
                    }
                };
                set!(d, s);
                set!(d + 1, o);
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop => {
                let v = if a.s == 0 {
                    cv(match k {
                        Intr::Ctlz => a.v.leading_zeros() as u64 - (64 - w as u64),
                        Intr::Cttz => (a.v.trailing_zeros() as u64).min(w as u64),
                        _ => a.v.count_ones() as u64,
                    })
                } else if let Some(c) = self.x.as_const(a.s) {
                    let n = match k {
                        Intr::Ctlz => c.leading_zeros() as u128 - (128 - w as u128),
                        Intr::Cttz => (c.trailing_zeros() as u128).min(w as u128),
                        _ => c.count_ones() as u128,
                    };
                    let e = self.x.cst(n, w);
                    self.norm(e)
                } else {
                    let e = a.s;
                    let r = match k {
                        Intr::Ctlz => {
                            let mut r = self.x.cst(w as u128, w);
                            for i in 0..w {
                                let bit = self.x.extract(e, i, 1);
                                let kk = self.x.cst((w - 1 - i) as u128, w);
                                r = self.x.ite(bit, kk, r);
                            }
                            r
                        }
                        Intr::Cttz => {
                            let mut r = self.x.cst(w as u128, w);
                            for i in (0..w).rev() {
                                let bit = self.x.extract(e, i, 1);
                                let kk = self.x.cst(i as u128, w);
                                r = self.x.ite(bit, kk, r);
                            }
                            r
                        }
                        _ => {
                            let mut r = self.x.cst(0, w);
                            for i in 0..w {
                                let bit = self.x.extract(e, i, 1);
                                let z = self.x.zext(bit, w);
                                r = self.x.bin(Bin::Add, r, z);
                            }
                            r
                        }
                    };
                    self.norm(r)
                };
                set!(d, v);
            }
            Intr::Bswap => {
                let e = self.ex(a, w);
                let n = w / 8;
                let mut r = self.x.extract(e, 0, 8);
                for i in 1..n {
                    let b = self.x.extract(e, i * 8, 8);
                    r = self.x.concat(r, b);
                }
                let v = self.norm(r);
                set!(d, v);
            }
            Intr::Bitreverse => {
                let e = self.ex(a, w);
                let mut r = self.x.extract(e, 0, 1);
                for i in 1..w {
                    let b = self.x.extract(e, i, 1);
                    r = self.x.concat(r, b);
                }
                let v = self.norm(r);
                set!(d, v);
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.conc(st, av[2])? % w as u64;
                let v = if s == 0 {
                    if k == Intr::Fshl {
                        a
                    } else {
                        b
                    }
                } else if a.s == 0 && b.s == 0 && w <= 64 {
                    let m = mask64(w);
                    if k == Intr::Fshl {
                        cv((a.v << s | b.v >> (w as u64 - s)) & m)
                    } else {
                        cv((a.v << (w as u64 - s) | b.v >> s) & m)
                    }
                } else {
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    let s = if k == Intr::Fshl { s as u8 } else { w - s as u8 };
                    let h = self.x.extract(x, 0, w - s);
                    let l = self.x.extract(y, w - s, s);
                    let e = self.x.concat(h, l);
                    self.norm(e)
                };
                set!(d, v);
            }
            Intr::LoadRel => {
                let p = self.conc(st, a)?;
                let o = self.conc(st, b)?;
                let v = self.load(st, p.wrapping_add(o), 32)?;
                let v = self.conc(st, v)?;
                set!(d, cv(p.wrapping_add(v as u32 as i32 as i64 as u64)));
            }
        }
        Ok(Step::Next)
    }
    fn ite(&mut self, c: Val, a: Val, b: Val, w: u8) -> Val {
        if c.s == 0 {
            return if c.v & 1 == 1 { a } else { b };
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.x.ite(c.s, x, y);
        self.norm(e)
    }
    fn call(&mut self, st: &mut State, f: u32, args: &[Op], d: u32, nret: u32, base: u32) -> R<Step> {
        let x = self.ext[f as usize];
        if x == Ext::SipWrite && st.free_hash.is_some() {
            let mut av = [0u64; 3];
            for i in 0..3 {
                let v = self.get(st, base, args[i]);
                if v.s != 0 {
                    return Err(End::Incomplete("symbolic hashing in a free hash table".into()));
                }
                av[i] = v.v;
            }
            if self.free_write(st, av[0], av[1], av[2])? {
                return Ok(Step::Next);
            }
        }
        if x == Ext::None || (x == Ext::SipWrite && !st.weak_hash) {
            let code = match &self.codes[f as usize] {
                Some(c) => c.clone(),
                None => self.code(f),
            };
            let nb = st.regs.len() as u32;
            st.regs.resize((nb + code.nregs) as usize, cv(0));
            for (i, a) in args.iter().enumerate() {
                let v = self.get(st, base, *a);
                st.regs[nb as usize + i] = v;
            }
            if st.frames.len() > 20000 {
                return Err(End::Violation(self.viol(st, "stack-overflow", "call depth".into())));
            }
            st.frames.push(Frame { f, code, pc: 0, base: nb, sp: st.sp, ret_d: d, nret });
            return Ok(Step::Jumped);
        }
        let mut av = [cv(0); 8];
        for (i, a) in args.iter().take(8).enumerate() {
            av[i] = self.get(st, base, *a);
        }
        self.used[f as usize] = true;
        let r = self.ext_call(st, x, f, av)?;
        if nret > 0 {
            st.regs[(base + d) as usize] = r;
        }
        Ok(Step::Next)
    }
    fn bytes_expr(&mut self, st: &State, p: u64, n: u64) -> R<Vec<Val>> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n {
            v.push(st.mem.byte(p + i).map_err(|f| End::Violation(self.viol(st, "ub", f.0)))?);
        }
        Ok(v)
    }
    fn cbytes(&mut self, st: &mut State, p: u64, n: u64) -> R<Vec<u8>> {
        let v = self.bytes_expr(st, p, n)?;
        let mut o = vec![];
        for b in v {
            o.push(self.conc(st, b)? as u8);
        }
        Ok(o)
    }
    fn set_errno(&mut self, st: &mut State, e: u64) {
        st.mem.store_conc(st.errno, 4, e);
    }
    fn ext_call(&mut self, st: &mut State, x: Ext, f: u32, av: [Val; 8]) -> R<Val> {
        macro_rules! c {
            ($i:expr) => {{
                let v = av[$i];
                self.conc(st, v)?
            }};
        }
        Ok(match x {
            Ext::None => unreachable!(),
            Ext::Unknown => return Err(End::Incomplete(format!("call to unmodelled external {}", self.m.funcs[f as usize].name))),
            Ext::Panic => {
                // location: last pointer argument of panic_fmt
                let mut loc = String::new();
                for i in [2usize, 1, 3] {
                    let p = av[i];
                    if p.s == 0 && p.v >> 32 == 1 {
                        if let (Ok(fp), Ok(fl), Ok(ln)) = (self.load(st, p.v, 64), self.load(st, p.v + 8, 64), self.load(st, p.v + 16, 32)) {
                            if fl.v < 400 && fp.v >> 32 == 1 {
                                if let Ok(b) = self.cbytes(st, fp.v, fl.v) {
                                    if let Ok(s) = String::from_utf8(b) {
                                        if s.contains(".rs") {
                                            loc = format!("{}:{}", s.trim_end_matches('\0'), ln.v);
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                return Err(End::Violation(self.viol(st, "panic", loc)));
            }
            Ext::Abort => return Err(End::Violation(self.viol(st, "abort", "abort called".into()))),
            Ext::Alloc => {
                let (s, a) = (c!(0), c!(1));
                if s > 1 << 28 {
                    return Err(End::Violation(self.viol(st, "alloc", format!("allocation of {} bytes", s))));
                }
                cv(st.mem.alloc(s, a))
            }
            Ext::AllocZeroed => {
                let (s, a) = (c!(0), c!(1));
                if s > 1 << 28 {
                    return Err(End::Violation(self.viol(st, "alloc", format!("allocation of {} bytes", s))));
                }
                cv(st.mem.alloc(s, a))
            }
            Ext::Dealloc | Ext::Noop => cv(0),
            Ext::Realloc => {
                let (p, os, a, ns) = (c!(0), c!(1), c!(2), c!(3));
                if ns > 1 << 28 {
                    return Err(End::Violation(self.viol(st, "alloc", format!("allocation of {} bytes", ns))));
                }
                if p + os.max(1) == st.mem.heap_top && ns >= os {
                    // grow in place
                    st.mem.alloc_extend(p, ns);
                    cv(p)
                } else {
                    let q = st.mem.alloc(ns, a);
                    st.mem.copy(q, p, os.min(ns)).map_err(fault)?;
                    cv(q)
                }
            }
            Ext::Malloc => {
                let s = c!(0);
                cv(st.mem.alloc(s, 16))
            }
            Ext::Calloc => {
                let s = c!(0) * c!(1);
                cv(st.mem.alloc(s, 16))
            }
            Ext::CRealloc => {
                let (p, n) = (c!(0), c!(1));
                let q = st.mem.alloc(n, 16);
                if p != 0 {
                    // old size unknown: copy what is mapped
                    let k = n.min(st.mem.heap_top - p);
                    st.mem.copy(q, p, k).map_err(fault)?;
                }
                cv(q)
            }
            Ext::PosixMemalign => {
                let (pp, a, s) = (c!(0), c!(1), c!(2));
                let q = st.mem.alloc(s, a);
                st.mem.store_conc(pp, 8, q);
                cv(0)
            }
            Ext::Zero => cv(0),
            Ext::Errno => cv(st.errno),
            Ext::StackPtr => cv(STACK_BASE + (200 << 20)),
            Ext::StackDir => cv(1),
            Ext::AttrGetStack => {
                let (a, b) = (c!(1), c!(2));
                st.mem.store_conc(a, 8, STACK_BASE);
                st.mem.store_conc(b, 8, STACK_SIZE);
                cv(0)
            }
            Ext::Sysconf => cv(4096),
            Ext::Syscall => {
                let n = c!(0);
                if n == 318 {
                    let (p, l) = (c!(1), c!(2));
                    self.random(st, p, l);
                    cv(l)
                } else if n == 332 {
                    // statx: not available, std falls back on stat
                    self.set_errno(st, 38);
                    cv(u64::MAX)
                } else {
                    return Err(End::Incomplete(format!("syscall {}", n)));
                }
            }
            Ext::Getrandom => {
                let (p, l) = (c!(0), c!(1));
                self.random(st, p, l);
                cv(l)
            }
            Ext::Write => cv(c!(2)),
            Ext::Writev => {
                let (p, n) = (c!(1), c!(2));
                let mut t = 0;
                for i in 0..n {
                    t += self.load(st, p + 16 * i + 8, 64)?.v;
                }
                cv(t)
            }
            Ext::Memcmp | Ext::Bcmp => {
                let n = c!(2);
                let (p, q) = (c!(0), c!(1));
                let (a, b) = (self.bytes_expr(st, p, n)?, self.bytes_expr(st, q, n)?);
                if x == Ext::Bcmp {
                    let mut e = self.x.tru();
                    for i in 0..n as usize {
                        if a[i] == b[i] {
                            continue;
                        }
                        let (s, t) = (self.ex(a[i], 8), self.ex(b[i], 8));
                        let q = self.x.eq(s, t);
                        e = self.x.and(e, q);
                        if self.x.as_const(e) == Some(0) {
                            break;
                        }
                    }
                    let ne = self.x.not(e);
                    let z = self.x.zext(ne, 32);
                    self.norm(z)
                } else {
                    // find first definite difference
                    let mut end = n as usize;
                    for i in 0..n as usize {
                        if a[i].s == 0 && b[i].s == 0 && a[i].v != b[i].v {
                            end = i + 1;
                            break;
                        }
                    }
                    let mut e = self.x.cst(0, 32);
                    for i in (0..end).rev() {
                        if a[i] == b[i] {
                            continue;
                        }
                        let (s, t) = (self.ex(a[i], 8), self.ex(b[i], 8));
                        let eq = self.x.eq(s, t);
                        let lt = self.x.cmp(Pred::Ult, s, t);
                        let (m1, p1) = (self.x.cst(u128::MAX, 32), self.x.cst(1, 32));
                        let df = self.x.ite(lt, m1, p1);
                        e = self.x.ite(eq, e, df);
                    }
                    self.norm(e)
                }
            }
            Ext::Memcpy => {
                let (n, p, q) = (c!(2), c!(0), c!(1));
                if let Err(f) = st.mem.copy(p, q, n) {
                    return Err(End::Violation(self.viol(st, "ub", f.0)));
                }
                cv(p)
            }
            Ext::Memset => {
                let (n, p) = (c!(2), c!(0));
                let v = if av[1].s == 0 { cv(av[1].v & 0xff) } else { let e = self.x.extract(av[1].s, 0, 8); self.norm(e) };
                if let Err(f) = st.mem.set(p, v, n) {
                    return Err(End::Violation(self.viol(st, "ub", f.0)));
                }
                cv(p)
            }
            Ext::Strlen => {
                let p = c!(0);
                let v = st.mem.cstr(p).map_err(fault)?;
                cv(v.len() as u64)
            }
            Ext::SipWrite => {
                // Abstract hash: the content does not contribute to the hash value.  HashMap/HashSet
                // semantics do not depend on hash values beyond equal keys having equal hashes.
                cv(0)
            }
            Ext::Strerror => {
                let p = c!(1);
                let s = b"error\0";
                for (i, b) in s.iter().enumerate() {
                    st.mem.set_byte(p + i as u64, cv(*b as u64)).map_err(fault)?;
                }
                cv(0)
            }
            // ---------------------------------------------------- file system
            Ext::Getcwd => {
                let p = c!(0);
                for (i, b) in b"/symfs\0".iter().enumerate() {
                    st.mem.set_byte(p + i as u64, cv(*b as u64)).map_err(fault)?;
                }
                cv(p)
            }
            Ext::Realpath => {
                let p = c!(0);
                let s = self.path(st, p)?;
                if st.fs.files.contains_key(&s) || st.fs.dirs.contains_key(&s) {
                    let q = st.mem.alloc(s.len() as u64 + 1, 16);
                    for (i, b) in s.bytes().chain([0]).enumerate() {
                        st.mem.set_byte(q + i as u64, cv(b as u64)).map_err(fault)?;
                    }
                    cv(q)
                } else {
                    self.set_errno(st, 2);
                    cv(0)
                }
            }
            Ext::Open => {
                let p = c!(0);
                let s = self.path(st, p)?;
                if st.fs.files.contains_key(&s) || st.fs.dirs.contains_key(&s) {
                    let fs = Rc::make_mut(&mut st.fs);
                    fs.fds.push(Some((s, 0)));
                    cv(fs.fds.len() as u64 - 1)
                } else {
                    self.set_errno(st, 2);
                    cv(0xffff_ffff)
                }
            }
            Ext::Close => cv(0),
            Ext::Read => {
                let (fd, p, n) = (c!(0) as usize, c!(1), c!(2));
                let Some(Some((path, pos))) = st.fs.fds.get(fd).cloned() else { return Err(End::Incomplete("read of bad fd".into())) };
                let Some(data) = st.fs.files.get(&path).cloned() else {
                    self.set_errno(st, 21);
                    return Ok(cv(u64::MAX));
                };
                let k = n.min(data.len() as u64 - pos);
                for i in 0..k {
                    if let Err(f) = st.mem.set_byte(p + i, data[(pos + i) as usize]) {
                        return Err(End::Violation(self.viol(st, "ub", f.0)));
                    }
                }
                Rc::make_mut(&mut st.fs).fds[fd] = Some((path, pos + k));
                cv(k)
            }
            Ext::Lseek => {
                let (fd, off, wh) = (c!(0) as usize, c!(1), c!(2));
                let Some(Some((path, pos))) = st.fs.fds.get(fd).cloned() else { return Err(End::Incomplete("lseek of bad fd".into())) };
                let len = st.fs.files.get(&path).map_or(0, |d| d.len() as u64);
                let np = match wh {
                    0 => off,
                    1 => pos.wrapping_add(off),
                    _ => len.wrapping_add(off),
                };
                Rc::make_mut(&mut st.fs).fds[fd] = Some((path, np));
                cv(np)
            }
            Ext::Fstat => {
                let (fd, p) = (c!(0) as usize, c!(1));
                let Some(Some((path, _))) = st.fs.fds.get(fd).cloned() else { return Err(End::Incomplete("fstat of bad fd".into())) };
                self.fill_stat(st, &path, p)?
            }
            Ext::Stat => {
                let (pp, p) = (c!(0), c!(1));
                let s = self.path(st, pp)?;
                self.fill_stat(st, &s, p)?
            }
            Ext::Opendir => {
                let pp = c!(0);
                let s = self.path(st, pp)?;
                if !st.fs.dirs.contains_key(&s) {
                    self.set_errno(st, if st.fs.files.contains_key(&s) { 20 } else { 2 });
                    return Ok(cv(0));
                }
                let pre = if s == "/" { "/".to_string() } else { format!("{}/", s) };
                let mut ents: Vec<(String, bool)> = vec![(".".into(), true), ("..".into(), true)];
                for (k, _) in st.fs.files.iter() {
                    if let Some(r) = k.strip_prefix(&pre) {
                        if !r.contains('/') {
                            ents.push((r.into(), false));
                        }
                    }
                }
                for (k, _) in st.fs.dirs.iter() {
                    if let Some(r) = k.strip_prefix(&pre) {
                        if !r.contains('/') && !r.is_empty() {
                            ents.push((r.into(), true));
                        }
                    }
                }
                let buf = st.mem.alloc(600, 16);
                let fs = Rc::make_mut(&mut st.fs);
                fs.opendirs.push((ents, 0, buf, s));
                cv(0x7000_0000_0000 + fs.opendirs.len() as u64 - 1)
            }
            Ext::Readdir => {
                let h = (c!(0) - 0x7000_0000_0000) as usize;
                let (ents, i, buf, _) = st.fs.opendirs[h].clone();
                if i >= ents.len() {
                    return Ok(cv(0));
                }
                Rc::make_mut(&mut st.fs).opendirs[h].1 += 1;
                let (n, dir) = &ents[i];
                st.mem.set(buf, cv(0), 300).map_err(fault)?;
                st.mem.store_conc(buf, 8, i as u64 + 1);
                st.mem.store_conc(buf + 16, 2, 280);
                st.mem.store_conc(buf + 18, 1, if *dir { 4 } else { 8 });
                for (k, b) in n.bytes().enumerate() {
                    st.mem.set_byte(buf + 19 + k as u64, cv(b as u64)).map_err(fault)?;
                }
                cv(buf)
            }
            Ext::Closedir => cv(0),
            Ext::Dirfd => cv(0x4000_0000 + (c!(0) - 0x7000_0000_0000)),
            Ext::Fstatat => {
                let (fd, pp, p) = (c!(0), c!(1), c!(2));
                let n = st.mem.cstr(pp).map_err(fault)?;
                let Some(d) = st.fs.opendirs.get(fd.wrapping_sub(0x4000_0000) as usize) else { return Err(End::Incomplete("fstatat of bad fd".into())) };
                let s = normalise(&format!("{}/{}", d.3, String::from_utf8_lossy(&n)));
                self.fill_stat(st, &s, p)?
            }
            // ---------------------------------------------------- harness interface
            Ext::SymByte => {
                let p = c!(0);
                let mut s = [0u64; 4];
                for i in 0..4 {
                    s[i] = self.load(st, p + 8 * i as u64, 64)?.v;
                }
                let idx = st.vars.len() as u32;
                if idx >= 128 {
                    return Err(End::Incomplete("more than 128 symbolic bytes".into()));
                }
                if set_empty(&s) {
                    return Err(End::Incomplete("empty symbolic byte domain".into()));
                }
                let pick = set_pick(&s);
                st.dom.push(s);
                st.assign.push(pick);
                if set_len(&s) == 1 {
                    st.vars.push(0);
                    // keep a variable slot so that replay files line up
                    return Ok(cv(pick as u64));
                }
                let v = self.x.new_var(idx, s);
                st.vars.push(v);
                Val { v: 0, s: v }
            }
            Ext::SymFork => cv(c!(0)),
            Ext::SymAssume => {
                let v = av[0];
                if v.s == 0 {
                    if v.v & 1 == 0 {
                        return Err(End::Pruned);
                    }
                } else {
                    let e = if self.x.w(v.s) == 1 { v.s } else { self.x.extract(v.s, 0, 1) };
                    match self.feas(st, e)? {
                        None => return Err(End::Pruned),
                        Some(m) => self.add(st, e, &m),
                    }
                }
                cv(0)
            }
            Ext::SymAssert => {
                let v = av[0];
                st.nasserts += 1;
                self.st.asserts += 1;
                let (p, n) = (av[1].v, av[2].v);
                if v.s == 0 {
                    if v.v & 1 == 0 {
                        let msg = self.cbytes(st, p, n)?;
                        return Err(End::Violation(self.viol(st, "assert", String::from_utf8_lossy(&msg).into())));
                    }
                } else {
                    self.st.asserts_symbolic += 1;
                    self.sv.stats.assert_queries += 1;
                    let e = if self.x.w(v.s) == 1 { v.s } else { self.x.extract(v.s, 0, 1) };
                    let ne = self.x.not(e);
                    if let Some(m) = self.feas(st, ne)? {
                        let msg = self.cbytes(st, p, n)?;
                        let mut o = st.clone();
                        self.add(&mut o, ne, &m);
                        return Err(End::Violation(self.viol(&o, "assert", String::from_utf8_lossy(&msg).into())));
                    }
                }
                cv(0)
            }
            Ext::SymOut => {
                st.outs.push(av[0]);
                cv(0)
            }
            Ext::SymCover => {
                st.covers |= 1u128 << (av[0].v & 127);
                cv(0)
            }
            Ext::SymParam => cv(0),
            Ext::SymSymbolic => cv(1),
            Ext::SymHashMode => {
                // 0: abstract content-independent hash; k>0: real SipHash with seed k
                // 1000 + t: real SipHash, but in the t-th table that has marked keys those hash as the solver chooses
                let k = c!(0);
                st.weak_hash = k == 0;
                st.seed = k;
                st.free_hash = if k >= 1000 { Some(Rc::new(FreeHash { table: k - 1000, ..Default::default() })) } else { None };
                cv(0)
            }
            Ext::SymHashPool => {
                if let Some(f) = &mut st.free_hash {
                    Rc::make_mut(f).pool.push(av[0]);
                }
                cv(0)
            }
            Ext::SymFsAdd => {
                let (pp, pl, dp, dl) = (c!(0), c!(1), c!(2), c!(3));
                let path = String::from_utf8(self.cbytes(st, pp, pl)?).map_err(|_| End::Incomplete("fs path".into()))?;
                let path = normalise(&path);
                let data = self.bytes_expr(st, dp, dl)?;
                let fs = Rc::make_mut(&mut st.fs);
                let mut d = path.as_str();
                while let Some(i) = d.rfind('/') {
                    d = &d[..i];
                    fs.dirs.insert(if d.is_empty() { "/".into() } else { d.into() }, ());
                }
                fs.files.insert(path, Rc::new(data));
                cv(0)
            }
        })
    }
    fn random(&mut self, st: &mut State, p: u64, n: u64) {
        let mut s = st.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9abc_def1);
        for i in 0..n {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            let _ = st.mem.set_byte(p + i, cv(s >> 24 & 0xff));
        }
    }
    /// A key marked `hk` hashed in the table chosen: what it contributes to the hash is the solver's choice.
    fn free_write(&mut self, st: &mut State, hasher: u64, p: u64, n: u64) -> R<bool> {
        if n < 3 || n > 256 {
            return Ok(false);
        }
        let mut b = vec![];
        for i in 0..n {
            let v = st.mem.byte(p + i).map_err(fault)?;
            if v.s != 0 {
                return Ok(false);
            }
            b.push(v.v as u8);
        }
        if !b.windows(2).any(|w| w.eq_ignore_ascii_case(b"hk")) {
            return Ok(false);
        }
        // the keys of the hasher identify the table
        let k = self.load(st, hasher + HASHER_KEYS, 64)?.v;
        let mut f = st.free_hash.clone().unwrap();
        let t = match f.tables.iter().position(|x| *x == k) {
            Some(t) => t,
            None => {
                Rc::make_mut(&mut f).tables.push(k);
                f.tables.len() - 1
            }
        };
        if t as u64 == f.table {
            let c = match f.seen.iter().find(|x| x.0 == b) {
                Some((_, c)) => *c,
                None => {
                    let Some(v) = f.pool.get(f.seen.len()).copied() else { return Err(End::Incomplete("more keys than choices in a free hash table".into())) };
                    let c = self.conc(st, v)?;
                    Rc::make_mut(&mut f).seen.push((b, c));
                    c
                }
            };
            st.free_hash = Some(f);
            // mix the choice into the state
            for i in 0..2 {
                let a = hasher + HASHER_STATE + 8 * i;
                let v = self.load(st, a, 64)?.v;
                st.mem.store_conc(a, 8, v ^ (c + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15));
            }
            return Ok(true);
        }
        st.free_hash = Some(f);
        Ok(false)
    }
    fn path(&mut self, st: &mut State, p: u64) -> R<String> {
        let b = st.mem.cstr(p).map_err(fault)?;
        let s = String::from_utf8_lossy(&b).into_owned();
        let full = if s.starts_with('/') { s } else { format!("/symfs/{}", s) };
        // every component but the last has to be a directory
        for (i, c) in full.char_indices() {
            if c == '/' && i > 0 && !st.fs.dirs.contains_key(&normalise(&full[..i])) {
                return Ok("/nonexistent/".into());
            }
        }
        Ok(normalise(&full))
    }
    fn fill_stat(&mut self, st: &mut State, path: &str, p: u64) -> R<Val> {
        let (mode, size) = if let Some(d) = st.fs.files.get(path) {
            (0o100644u64, d.len() as u64)
        } else if st.fs.dirs.contains_key(path) {
            (0o040755, 4096)
        } else {
            self.set_errno(st, 2);
            return Ok(cv(0xffff_ffff));
        };
        st.mem.set(p, cv(0), 144).map_err(fault)?;
        st.mem.store_conc(p + 24, 4, mode);
        st.mem.store_conc(p + 16, 8, 1);
        st.mem.store_conc(p + 48, 8, size);
        st.mem.store_conc(p + 56, 8, 4096);
        Ok(cv(0))
    }
    pub fn eval_outs(&self, st: &State) -> Vec<u64> {
        st.outs.iter().map(|v| if v.s == 0 { v.v } else { self.x.eval(v.s, &st.assign) as u64 }).collect()
    }
}
impl Mem {
    fn alloc_extend(&mut self, p: u64, ns: u64) {
        self.heap_top = p + ns.max(1);
        let need = ((self.heap_top - HEAP_BASE) / PG + 1) as usize;
        while self.heap.len() < need {
            self.heap.push(zero_page());
        }
    }
}
fn same_op(a: Op, b: Op) -> bool {
    match (a, b) {
        (Op::R(x), Op::R(y)) => x == y,
        (Op::C(x), Op::C(y)) => x == y,
        (Op::X(x), Op::X(y)) => x == y,
        _ => false,
    }
}
fn normalise(s: &str) -> String {
    let full = if s.starts_with('/') { s.to_string() } else { format!("/symfs/{}", s) };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
/// readable path from a v0-mangled name (identifiers only)
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    if !n.starts_with("_R") {
        return n.to_string();
    }
    i += 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut l = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                l = l * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if i + l <= b.len() {
                out.push(n[i..i + l].to_string());
                i += l;
                continue;
            }
        }
        i += 1;
    }
    out.truncate(6);
    out.join("::")
}
