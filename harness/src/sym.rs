//! Interface between the harnesses and whatever runs them: the symbolic
//! executor (cfg symex) or native replay of concrete bytes.
pub type Set = [u64; 4];

pub const fn set_of(s: &[u8]) -> Set {
    let mut r = [0u64; 4];
    let mut i = 0;
    while i < s.len() {
        r[(s[i] >> 6) as usize] |= 1 << (s[i] & 63);
        i += 1;
    }
    r
}
pub const fn range(lo: u8, hi: u8) -> Set {
    let mut r = [0u64; 4];
    let mut i = lo as usize;
    while i <= hi as usize {
        r[i >> 6] |= 1 << (i & 63);
        i += 1;
    }
    r
}
pub const fn union(a: Set, b: Set) -> Set {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub const fn minus(a: Set, b: Set) -> Set {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub const DIGIT: Set = range(b'0', b'9');
pub const UPPER: Set = range(b'A', b'Z');
pub const LOWER: Set = range(b'a', b'z');
pub const ASCII: Set = range(0, 127);
pub const PRINT: Set = range(32, 126);
pub const ALNUM: Set = union(DIGIT, union(UPPER, LOWER));

#[cfg(symex)]
mod imp {
    use super::Set;
    extern "C" {
        fn sym_byte(s: *const Set) -> u8;
        fn sym_fork(v: u64) -> u64;
        fn sym_assume(c: bool);
        fn sym_assert(c: bool, p: *const u8, n: usize);
        fn sym_out(v: u64);
        fn sym_cover(v: u32);
        fn sym_fs_add(p: *const u8, pn: usize, d: *const u8, dn: usize);
        fn sym_hash_mode(k: u64);
        fn sym_hash_pool(b: u8);
    }
    pub fn byte(s: &Set) -> u8 {
        unsafe { sym_byte(s) }
    }
    /// v, followed value by value
    pub fn fork(v: u64) -> u64 {
        unsafe { sym_fork(v) }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn check(c: bool, m: &'static str) {
        unsafe { sym_assert(c, m.as_ptr(), m.len()) }
    }
    pub fn out(v: u64) {
        unsafe { sym_out(v) }
    }
    pub fn cover(v: u32) {
        unsafe { sym_cover(v) }
    }
    pub fn fs_add(path: &str, data: &[u8]) {
        unsafe { sym_fs_add(path.as_ptr(), path.len(), data.as_ptr(), data.len()) }
    }
    pub fn hash_mode(k: u64) {
        unsafe { sym_hash_mode(k) }
    }
    /// what the next marked key contributes to its hash
    pub fn hash_pool(b: u8) {
        unsafe { sym_hash_pool(b) }
    }
    pub fn reps() -> u32 {
        1
    }
    pub fn note(_: &str) {}
    pub fn fs_root() -> String {
        "/symfs".to_string()
    }
}

#[cfg(not(symex))]
mod imp {
    use super::Set;
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Native {
        pub input: Vec<u8>,
        pub pos: usize,
        pub outs: Vec<u64>,
        pub covers: u128,
        pub failed: Option<&'static str>,
        pub bad_input: bool,
        pub notes: Vec<String>,
        pub root: Option<std::path::PathBuf>,
    }
    thread_local! { pub static N: RefCell<Native> = RefCell::new(Native::default()); }
    pub struct AssumeFailed;
    pub struct AssertFailed;
    pub fn byte(s: &Set) -> u8 {
        let (b, ok) = N.with(|n| {
            let mut n = n.borrow_mut();
            let p = n.pos;
            n.pos += 1;
            match n.input.get(p) {
                Some(b) => (*b, s[(*b >> 6) as usize] >> (*b & 63) & 1 == 1),
                None => (0, false),
            }
        });
        if !ok {
            N.with(|n| n.borrow_mut().bad_input = true);
            std::panic::panic_any(AssumeFailed);
        }
        b
    }
    pub fn fork(v: u64) -> u64 {
        v
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed);
        }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c {
            N.with(|n| n.borrow_mut().failed = Some(m));
            std::panic::panic_any(AssertFailed);
        }
    }
    pub fn out(v: u64) {
        N.with(|n| n.borrow_mut().outs.push(v));
    }
    pub fn cover(v: u32) {
        N.with(|n| n.borrow_mut().covers |= 1 << v);
    }
    pub fn hash_mode(_: u64) {}
    pub fn hash_pool(_: u8) {}
    /// how often to repeat what depends on chance
    pub fn reps() -> u32 {
        std::env::var("HARNESS_REPS").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
    }
    /// what a counterexample looks like, for people
    pub fn note(s: &str) {
        N.with(|n| n.borrow_mut().notes.push(s.to_string()));
    }
    fn root() -> std::path::PathBuf {
        N.with(|n| {
            let mut n = n.borrow_mut();
            if n.root.is_none() {
                static C: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
                let d = std::env::temp_dir().join(format!("symfs-{}-{}", std::process::id(), C.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
                std::fs::create_dir_all(&d).unwrap();
                n.root = Some(d.canonicalize().unwrap());
            }
            n.root.clone().unwrap()
        })
    }
    pub fn fs_add(path: &str, data: &[u8]) {
        // path is below fs_root(); refuse anything else
        let r = root();
        let p = std::path::Path::new(path);
        assert!(p.starts_with(&r) && !path.contains(".."));
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, data).unwrap();
    }
    pub fn fs_root() -> String {
        root().to_str().unwrap().to_string()
    }
    pub fn cleanup() {
        N.with(|n| {
            if let Some(r) = n.borrow_mut().root.take() {
                let _ = std::fs::remove_dir_all(&r);
            }
        })
    }
}
pub use imp::*;

/// A ledger (or other text) under construction with symbolic bytes.
#[derive(Default)]
pub struct Text {
    pub b: Vec<u8>,
}
impl Text {
    pub fn new() -> Text {
        Text { b: Vec::with_capacity(512) }
    }
    pub fn lit(&mut self, s: &str) -> &mut Self {
        self.b.extend_from_slice(s.as_bytes());
        self
    }
    /// n symbolic bytes of a class; returns the range they occupy
    pub fn sym(&mut self, s: Set, n: usize) -> std::ops::Range<usize> {
        let st = self.b.len();
        for _ in 0..n {
            let x = byte(&s);
            self.b.push(x);
        }
        st..self.b.len()
    }
    fn chars(&mut self, leads: &[&[u8]]) -> std::ops::Range<usize> {
        let st = self.b.len();
        let k = crate::util::choose(leads.len() as u8) as usize;
        self.b.extend_from_slice(leads[k]);
        let c = byte(&range(0x80, 0xBF));
        self.b.push(c);
        st..self.b.len()
    }
    /// one symbolic two-byte UTF-8 character of four blocks (U+0080.., U+00C0.., U+0380.., U+0640..)
    pub fn utf2(&mut self) -> std::ops::Range<usize> {
        self.chars(&[&[0xC2], &[0xC3], &[0xCE], &[0xD9]])
    }
    /// one symbolic three-byte UTF-8 character of three blocks (U+2000.., U+3000.., U+4F40..)
    pub fn utf3(&mut self) -> std::ops::Range<usize> {
        self.chars(&[&[0xE2, 0x80], &[0xE3, 0x80], &[0xE4, 0xBD]])
    }
    /// one symbolic four-byte UTF-8 character of two blocks (U+1F600.., U+10340..)
    pub fn utf4(&mut self) -> std::ops::Range<usize> {
        self.chars(&[&[0xF0, 0x9F, 0x98], &[0xF0, 0x90, 0x8D]])
    }
    /// any two-byte UTF-8 character (U+0080..U+07FF)
    pub fn any2(&mut self) -> std::ops::Range<usize> {
        let st = self.b.len();
        let a = byte(&range(0xC2, 0xDF));
        let b = byte(&range(0x80, 0xBF));
        self.b.push(a);
        self.b.push(b);
        st..self.b.len()
    }
    /// any three-byte UTF-8 character U+1000..U+CFFF
    pub fn any3(&mut self) -> std::ops::Range<usize> {
        let st = self.b.len();
        let a = byte(&range(0xE1, 0xEC));
        let b = byte(&range(0x80, 0xBF));
        let c = byte(&range(0x80, 0xBF));
        self.b.extend_from_slice(&[a, b, c]);
        st..self.b.len()
    }
    pub fn str(&self) -> &str {
        // all holes are ASCII or well-formed UTF-8 by construction
        unsafe { std::str::from_utf8_unchecked(&self.b) }
    }
    pub fn string(&self) -> String {
        self.str().to_string()
    }
}
