//! C15: includes bring in exactly the named files, once each.
use crate::util::*;

/// what a file does, in order
#[derive(Clone)]
enum It {
    /// spelling of the path, the files it names
    Inc(String, Vec<usize>),
    Push(u8),
    Pop(u8),
    PushM(u8),
    PopM,
    /// a note on an account of this name
    Note(String),
    Raw(&'static str),
}
#[derive(Clone, Copy, PartialEq)]
enum State {
    Good,
    Unreadable,
}
struct Fl {
    path: String,
    its: Vec<It>,
    state: State,
}
#[derive(Clone, Default, PartialEq)]
struct Ctx {
    tags: [u8; 3],
    meta: Vec<u8>,
}
struct World {
    f: Vec<Fl>,
    /// includes that have to be in error: file, where the path starts and ends in it
    errs: Vec<(usize, usize, usize)>,
    notes: Vec<(String, Ctx)>,
    seen: Vec<Option<Ctx>>,
    text: Vec<Vec<u8>>,
    at: Vec<Vec<(usize, usize)>>,
    ctx: Ctx,
    /// files named by one pattern come in some order
    unordered: bool,
}
impl World {
    fn new() -> World {
        World { f: vec![], errs: vec![], notes: vec![], seen: vec![], text: vec![], at: vec![], ctx: Ctx::default(), unordered: false }
    }
    fn file(&mut self, path: &str, its: Vec<It>) -> usize {
        self.f.push(Fl { path: path.to_string(), its, state: State::Good });
        self.f.len() - 1
    }
    fn render(&mut self) {
        for f in &self.f {
            let mut x = Text::new();
            let mut at = vec![];
            for i in &f.its {
                let mut s = (0, 0);
                match i {
                    It::Inc(p, _) => {
                        x.lit("include ");
                        s.0 = x.b.len();
                        x.lit("\"");
                        x.lit(p);
                        x.lit("\"");
                        s.1 = x.b.len();
                        x.lit("\n");
                    }
                    It::Push(t) => {
                        x.lit(["pushtag #t0\n", "pushtag #t1\n", "pushtag #t2\n"][*t as usize]);
                    }
                    It::Pop(t) => {
                        x.lit(["poptag #t0\n", "poptag #t1\n", "poptag #t2\n"][*t as usize]);
                    }
                    It::PushM(v) => {
                        x.lit(["pushmeta kk: 0\n", "pushmeta kk: 1\n", "pushmeta kk: 2\n"][*v as usize]);
                    }
                    It::PopM => {
                        x.lit("popmeta kk:\n");
                    }
                    It::Note(n) => {
                        x.lit("2024-01-01 note Assets:");
                        x.lit(n);
                        x.lit(" \"n\"\n");
                    }
                    It::Raw(s) => {
                        x.lit(s);
                    }
                }
                at.push(s);
            }
            self.text.push(x.b);
            self.at.push(at);
        }
    }
    fn walk(&mut self, f: usize) {
        for i in 0..self.f[f].its.len() {
            match self.f[f].its[i].clone() {
                It::Inc(_, to) => {
                    let (a, z) = self.at[f][i];
                    let mut bad = to.is_empty();
                    for t in to {
                        if t == 0 || self.f[t].state == State::Unreadable {
                            bad = true;
                        } else if let Some(c) = &self.seen[t] {
                            bad |= *c != self.ctx;
                        } else {
                            self.seen[t] = Some(self.ctx.clone());
                            self.walk(t);
                        }
                    }
                    if bad {
                        self.errs.push((f, a, z));
                    }
                }
                It::Push(t) => self.ctx.tags[t as usize] += 1,
                It::Pop(t) => self.ctx.tags[t as usize] -= 1,
                It::PushM(v) => self.ctx.meta.push(v),
                It::PopM => {
                    self.ctx.meta.pop();
                }
                It::Note(n) => self.notes.push((n, self.ctx.clone())),
                It::Raw(_) => (),
            }
        }
    }
    /// Write the files, parse the first one, and compare with what the files say.
    fn run(&mut self) {
        self.render();
        for (f, t) in self.f.iter().zip(&self.text) {
            match f.state {
                State::Good => fs_add(&f.path, t),
                State::Unreadable => (),
            }
        }
        let sources = BeancountSources::try_from(std::path::PathBuf::from(&self.f[0].path));
        check(sources.is_ok(), "the file cannot be read");
        self.judge(&sources.unwrap());
    }
    fn judge(&mut self, sources: &BeancountSources) {
        self.seen = vec![None; self.f.len()];
        self.walk(0);
        for (f, t) in self.f.iter().zip(&self.text) {
            note(&f.path);
            note(&String::from_utf8_lossy(t));
        }
        let parser = BeancountParser::new(sources);
        match parser.parse() {
            Ok(p) => {
                cover(0);
                check(self.errs.is_empty(), "a bad include was accepted");
                check(p.directives.len() == self.notes.len(), "each included file counts once");
                for (i, (n, c)) in self.notes.iter().enumerate() {
                    let want = format!("Assets:{n}");
                    let name = |d: &Spanned<Directive>| match d.item().variant() {
                        DirectiveVariant::Note(x) => eqs(&x.account().item().to_string(), &want),
                        _ => false,
                    };
                    let d = if self.unordered { p.directives.iter().find(|d| name(d)) } else { Some(&p.directives[i]) };
                    check(d.is_some(), "a declaration of an included file is missing");
                    let d = d.unwrap();
                    check(name(d), "included declarations stand in place of the include");
                    let m = d.item().metadata();
                    for t in 0..3u8 {
                        check(has_tag(m, ["t0", "t1", "t2"][t as usize]) == (c.tags[t as usize] > 0), "pushed tags hold across includes");
                    }
                    check(m.tags().count() == c.tags.iter().filter(|t| **t > 0).count(), "no other tags");
                    let v = meta_get(m, "kk").map(|v| v.to_string());
                    check(v == c.meta.last().map(|v| v.to_string()), "pushed metadata hold across includes");
                }
            }
            Err(e) => {
                cover(1);
                check(!self.errs.is_empty(), "good includes were rejected");
                for (f, a, z) in &self.errs {
                    check(e.errors.iter().any(|e| e.span().start == *a && e.span().end == *z && self.named(sources, e, *f)), "a bad include has no error");
                }
                for e in &e.errors {
                    check(self.errs.iter().any(|(f, a, z)| e.span().start == *a && e.span().end == *z && self.named(sources, e, *f)), "an error at a good include");
                }
            }
        }
    }
    /// whether an error is in this file, by whatever path it was reached
    fn named(&self, sources: &BeancountSources, e: &Error, f: usize) -> bool {
        let s = sources.resolve_span(&e.span());
        let n = s.file_name.unwrap_or_default();
        // file names are distinct
        eqs(n.rsplit('/').next().unwrap_or(n), self.f[f].path.rsplit('/').next().unwrap())
    }
}

fn name(i: usize) -> String {
    ["R", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M"][i].to_string()
}
const DIRS: [&str; 4] = ["", "", "s/", "s/"];
const FILES: [&str; 4] = ["r.bean", "a.bean", "b.bean", "c.bean"];
/// a spelling of the path to a file from another one
fn spell(from: usize, to: usize, k: u8) -> String {
    let (fs, ts) = (DIRS[from] != "", DIRS[to] != "");
    let n = FILES[to];
    let rel = match (fs, ts) {
        (false, true) => "s/",
        (true, false) => "../",
        _ => "",
    };
    match k {
        0 => format!("{rel}{n}"),
        1 => format!("{}/{}{n}", fs_root(), DIRS[to]),
        2 => format!("{}{rel}{n}", if fs { "../s/" } else { "s/../" }),
        3 => format!("./{rel}{n}"),
        4 => format!("{rel}[{}].bean", &n[..1]),
        5 => format!("{rel}{}*", &n[..2]),
        6 => format!("{}/s/../{}{n}", fs_root(), DIRS[to]),
        _ => format!("{}//{}/{n}", fs_root(), DIRS[to]),
    }
}
const SPELLS: u8 = 8;
fn four() -> World {
    let mut w = World::new();
    for i in 0..4 {
        w.file(&format!("{}/{}{}", fs_root(), DIRS[i], FILES[i]), vec![]);
    }
    w
}
fn inc(w: &mut World, from: usize, to: usize, k: u8) {
    let s = spell(from, to, k);
    w.f[from].its.push(It::Inc(s, vec![to]));
}
fn note_of(w: &mut World, i: usize) {
    w.f[i].its.push(It::Note(name(i)));
}

/// every include relation with so many includes per file
fn graph(slots: [u8; 4]) {
    let mut w = four();
    for i in 0..4 {
        let late = slots[i] == 1;
        if !late {
            note_of(&mut w, i);
        }
        for j in 0..slots[i] {
            let t = choose(5) as usize;
            if t < 4 {
                inc(&mut w, i, t, (i as u8 + j) % 2);
            }
        }
        if late {
            note_of(&mut w, i);
        }
    }
    w.run()
}
fn graph6() {
    graph([2, 2, 1, 1])
}
fn graph7() {
    graph([2, 2, 2, 1])
}
/// the same file by different paths, from different files, in either order
fn spelling() {
    let mut w = four();
    let (k, l) = (choose(SPELLS), choose(SPELLS));
    // who includes c
    let (p, q) = [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)][choose(7) as usize];
    let t = 3;
    for (x, k) in [(p, k), (q, l)] {
        if x != 0 {
            inc(&mut w, 0, x, 0);
        }
        inc(&mut w, x, t, k);
    }
    for i in 0..4 {
        note_of(&mut w, i);
    }
    w.run()
}
/// the root by any path, from any file
fn root() {
    let mut w = four();
    let from = choose(4) as usize;
    if from != 0 {
        inc(&mut w, 0, from, 0);
    }
    inc(&mut w, from, 0, choose(SPELLS));
    for i in 0..4 {
        note_of(&mut w, i);
    }
    w.run()
}
/// pushed tags and metadata at repeated includes
fn context(n: usize) {
    let mut w = four();
    let mut t = [0u8; 3];
    let mut m = 0;
    for _ in 0..n {
        let o = choose(9);
        match o {
            0 | 1 => {
                t[o as usize] += 1;
                w.f[0].its.push(It::Push(o))
            }
            2 | 3 => {
                if t[o as usize - 2] == 0 {
                    return;
                }
                t[o as usize - 2] -= 1;
                w.f[0].its.push(It::Pop(o - 2))
            }
            4 | 5 => {
                m += 1;
                w.f[0].its.push(It::PushM(o - 4))
            }
            6 => {
                if m == 0 {
                    return;
                }
                m -= 1;
                w.f[0].its.push(It::PopM)
            }
            7 => inc(&mut w, 0, 2, 0),
            _ => inc(&mut w, 0, 3, 0),
        }
    }
    note_of(&mut w, 0);
    // c includes b as well
    inc(&mut w, 3, 2, 0);
    for i in 1..4 {
        note_of(&mut w, i);
    }
    for i in 0..3 {
        for _ in 0..t[i] {
            w.f[0].its.push(It::Pop(i as u8));
        }
    }
    for _ in 0..m {
        w.f[0].its.push(It::PopM);
    }
    w.run()
}
fn context5() {
    context(5)
}
fn context6() {
    context(6)
}
/// tags and metadata pushed before, in, between and after included files
fn across() {
    let mut w = four();
    let p = choose(4);
    let meta = flip();
    let on = |v: u8| if meta { It::PushM(v) } else { It::Push(v) };
    let off = |v: u8| if meta { It::PopM } else { It::Pop(v) };
    let chain = flip();
    w.f[0].its.push(It::Note("Ra".to_string()));
    if p > 0 {
        w.f[0].its.push(on(0));
    }
    inc(&mut w, 0, 2, 0);
    w.f[0].its.push(It::Note("Rb".to_string()));
    if !chain {
        inc(&mut w, 0, 3, 0);
    }
    // pushed in b, popped in c or in the root, or pushed in c and popped in the root
    w.f[2].its.push(It::Note("Ba".to_string()));
    if p == 1 || p == 2 {
        w.f[2].its.push(on(1));
    }
    w.f[2].its.push(It::Note("Bb".to_string()));
    if chain {
        inc(&mut w, 2, 3, 0);
        w.f[2].its.push(It::Note("Bc".to_string()));
    }
    w.f[3].its.push(It::Note("Ca".to_string()));
    if p == 1 {
        w.f[3].its.push(off(1));
    }
    if p == 3 {
        w.f[3].its.push(on(2));
    }
    w.f[3].its.push(It::Note("Cb".to_string()));
    w.f[0].its.push(It::Note("Rc".to_string()));
    if p == 2 {
        w.f[0].its.push(off(1));
    }
    if p == 3 {
        w.f[0].its.push(off(2));
    }
    w.f[0].its.push(It::Note("Rd".to_string()));
    if p > 0 {
        w.f[0].its.push(off(0));
    }
    w.f[0].its.push(It::Note("Re".to_string()));
    w.run()
}
/// files that are missing, directories, or not text
fn faults() {
    let mut w = four();
    let k = choose(2);
    let glob = if k == 1 { 4 } else { 0 };
    let mut gone = [false; 4];
    for i in 1..4 {
        match choose(4) {
            0 => (),
            1 => {
                // no such file
                gone[i] = true;
            }
            2 => {
                // a directory of that name
                w.f[i].state = State::Unreadable;
                let p = w.f[i].path.clone();
                fs_add(&format!("{p}/x"), b"x");
            }
            _ => {
                // not UTF-8
                w.f[i].state = State::Unreadable;
                let mut x = Text::new();
                x.lit("2024-01-01 note Assets:C \"");
                x.sym(range(0x80, 0xff), 1);
                x.lit("\"\n");
                fs_add(&w.f[i].path, &x.b);
            }
        }
    }
    note_of(&mut w, 0);
    for (from, to) in [(0, 1), (0, 2), (1, 3), (2, 3), (0, 3)] {
        let s = spell(from, to, glob);
        w.f[from].its.push(It::Inc(s, if gone[to] { vec![] } else { vec![to] }));
        note_of(&mut w, from);
    }
    note_of(&mut w, 3);
    // the directory of b and c exists in any case
    fs_add(&format!("{}/s/z", fs_root()), b"");
    w.render();
    for i in 0..4 {
        if w.f[i].state == State::Good && !gone[i] {
            fs_add(&w.f[i].path, &w.text[i]);
        }
    }
    let sources = BeancountSources::try_from(std::path::PathBuf::from(&w.f[0].path));
    check(sources.is_ok(), "the file cannot be read");
    w.judge(&sources.unwrap());
}
/// two bytes beyond ASCII in an included file, or in the root
fn text() {
    let d = fs_root();
    let mut x = Text::new();
    x.lit("2024-01-01 note Assets:C \"");
    let r = x.sym(range(0x80, 0xff), 2);
    x.lit("\"\n");
    let (a, b) = (x.b[r.start], x.b[r.start + 1]);
    let good = a >= 0xc2 && a <= 0xdf && b <= 0xbf;
    let inner = flip();
    fs_add(&format!("{d}/c.bean"), &x.b);
    fs_add(&format!("{d}/r.bean"), b"include \"c.bean\"\n");
    let s = BeancountSources::try_from(std::path::PathBuf::from(format!("{d}/{}.bean", if inner { "r" } else { "c" })));
    if inner {
        check(s.is_ok(), "the root can be read");
        let s = s.unwrap();
        let p = BeancountParser::new(&s);
        let p = p.parse();
        check(p.is_ok() == good, "text is read and anything else is an error");
        if let Err(e) = p {
            cover(1);
            check(e.errors.len() == 1 && e.errors[0].span().source == 0 && e.errors[0].span().start == 8 && e.errors[0].span().end == 16, "the error is at the include");
        }
    } else {
        check(s.is_ok() == good, "text is read and anything else is an error");
        if good {
            cover(0)
        }
    }
}
/// a chain of files, the last of which includes any of them
fn chain(n: usize) {
    let mut w = World::new();
    let early = flip();
    let back = choose(n as u8) as usize;
    for i in 0..n {
        w.file(&format!("{}/{}.bean", fs_root(), name(i)), vec![]);
        if early {
            note_of(&mut w, i);
        }
        let t = if i + 1 < n { i + 1 } else { back };
        w.f[i].its.push(It::Inc(format!("{}.bean", name(t)), vec![t]));
        if !early {
            note_of(&mut w, i);
        }
    }
    w.run()
}
fn chain8() {
    chain(8)
}
fn chain14() {
    chain(14)
}
/// directories within directories, in which the same file names recur
fn depth() {
    let d = fs_root();
    let mut w = World::new();
    // r includes x/1.bean, which includes y/2.bean, below it or above, and so on
    let p = choose(3);
    let q = choose(3);
    let one = ["x/one.bean", "x/y/one.bean", "one.bean"][p as usize];
    let (two, two_from) = match q {
        0 => ("z/two.bean".to_string(), "z/two.bean"),
        1 => ("../two.bean".to_string(), ""),
        _ => ("two.bean".to_string(), "two.bean"),
    };
    if p == 2 && q == 1 {
        return;
    }
    let dir = one.trim_end_matches("one.bean");
    let at = match (q, p) {
        (1, 0) => "two.bean".to_string(),
        (1, _) => "x/two.bean".to_string(),
        _ => format!("{dir}{two_from}"),
    };
    w.file(&format!("{d}/r.bean"), vec![It::Inc(one.to_string(), vec![1]), It::Note("R".to_string())]);
    w.file(&format!("{d}/{one}"), vec![It::Inc(two.clone(), vec![2]), It::Note("A".to_string())]);
    w.file(&format!("{d}/{at}"), vec![It::Note("B".to_string())]);
    // a file of the same name where it must not be taken from
    for o in ["two.bean", "z/two.bean", "x/two.bean", "x/y/two.bean", "x/y/z/two.bean"] {
        if o != at {
            fs_add(&format!("{d}/{o}"), b"2024-01-01 note Assets:Wrong \"n\"\n");
        }
    }
    if flip() {
        // the root in a detour
        w.render();
        for i in 0..3 {
            fs_add(&w.f[i].path, &w.text[i]);
        }
        fs_add(&format!("{d}/q/e"), b"");
        let s = BeancountSources::try_from(std::path::PathBuf::from(format!("{d}/q/../r.bean"))).unwrap();
        w.judge(&s)
    } else {
        w.run()
    }
}

const GF: [&str; 8] = ["r.bean", "s/a.bean", "s/b.bean", "s/ab.bean", "s/.h.bean", "s/c.txt", "t/d.bean", "s/u/e.bean"];
const GLOBS: [(&str, &[usize]); 19] = [
    ("s/*.bean", &[1, 2, 3]),
    ("s/?.bean", &[1, 2]),
    ("s/??.bean", &[3]),
    ("s/a*.bean", &[1, 3]),
    ("s/*b.bean", &[2, 3]),
    ("s/[ab].bean", &[1, 2]),
    ("s/[!a].bean", &[2]),
    ("s/[b-z]*", &[2, 5, 8]),
    ("s/*.txt", &[5]),
    ("*/?.bean", &[1, 2, 6]),
    ("[st]/*.bean", &[1, 2, 3, 6]),
    ("*/*/*.bean", &[7]),
    ("**/e.bean", &[7]),
    ("s/**/*.bean", &[1, 2, 3, 7]),
    ("*.bean", &[0]),
    ("S/*.bean", &[]),
    ("s*.bean", &[]),
    ("s/A.bean", &[]),
    ("s/u/../*.bean", &[1, 2, 3]),
];
/// patterns against every set of existing files
fn globs(fixed: bool) {
    let d = fs_root();
    let (g, m) = GLOBS[choose(GLOBS.len() as u8) as usize];
    let mut w = World::new();
    w.unordered = true;
    let mut is = [true; 9];
    for i in 1..8 {
        is[i] = if fixed && i > 4 { true } else { flip() };
    }
    // s/u is a directory whether e.bean is there or not
    is[8] = true;
    for i in 0..8 {
        let n = name(i);
        w.file(&format!("{d}/{}", GF[i]), vec![It::Note(n)]);
    }
    w.file(&format!("{d}/s/u"), vec![]);
    w.f[8].state = State::Unreadable;
    fs_add(&format!("{d}/s/u/x"), b"");
    fs_add(&format!("{d}/t/x"), b"");
    let to: Vec<usize> = m.iter().copied().filter(|i| is[*i]).collect();
    let abs = flip();
    w.f[0].its.push(It::Inc(if abs { format!("{d}/{g}") } else { g.to_string() }, to));
    w.render();
    for i in 0..8 {
        if is[i] {
            fs_add(&w.f[i].path, &w.text[i]);
        }
    }
    let s = BeancountSources::try_from(std::path::PathBuf::from(&w.f[0].path)).unwrap();
    w.judge(&s)
}
fn globs4() {
    globs(true)
}
fn globs7() {
    globs(false)
}
/// overlapping patterns: what they share comes once
fn overlap() {
    let d = fs_root();
    let mut w = World::new();
    w.unordered = true;
    for i in 0..8 {
        let n = name(i);
        w.file(&format!("{d}/{}", GF[i]), vec![It::Note(n)]);
    }
    w.file(&format!("{d}/s/u"), vec![]);
    w.f[8].state = State::Unreadable;
    let (p, q) = (choose(12), choose(12));
    let from = choose(2) as usize;
    for (f, k) in [(0, p), (from, q)] {
        let (g, m) = GLOBS[k as usize];
        let g = if f == 1 { format!("../{g}") } else { g.to_string() };
        w.f[f].its.push(It::Inc(g, m.to_vec()));
    }
    w.run()
}
/// an include in whatever surroundings
fn around() {
    let d = fs_root();
    const BEFORE: [(&str, bool); 16] = [
        ("", true),
        ("\n", true),
        ("; c\n", true),
        ("* Section\n", true),
        ("option \"title\" \"x\"\n", true),
        ("2024-01-01 * \"n\"\n  Assets:A 1 USD\n    aa: 1\n  Assets:B\n", true),
        ("2024-01-01 note Assets:A \"a\nb\"\n", true),
        ("2024-01-01 note Assets:A \"include \\\"z\\\"\"\n", true),
        ("; include \"z.bean\"\n", true),
        ("plugin \"p\" \"q\"\n\n\n", true),
        ("2024-01-01 custom \"include\" \"z.bean\"\n", true),
        ("2024-01-01 open Assets:A\n  include: \"z.bean\"\n", true),
        ("pushtag #include\npoptag #include\n", true),
        ("junk\n", false),
        ("2024-01-01 open\n", false),
        ("include\n", false),
    ];
    const PATH: [&str; 3] = ["c.bean", "./c.bean", "[c].bean"];
    const SEP: [&str; 4] = [" ", "  ", "\t", " \t"];
    const AFTER: [&str; 6] = ["\n", "", " ; c\n", "\r\n", "   \n", "\n2024-01-01 open Assets:Z\n"];
    let (b, good) = BEFORE[choose(16) as usize];
    let mut x = Text::new();
    x.lit(b).lit("include").lit(SEP[choose(4) as usize]).lit("\"").lit(PATH[choose(3) as usize]).lit("\"").lit(AFTER[choose(6) as usize]);
    note(std::str::from_utf8(&x.b).unwrap());
    fs_add(&format!("{d}/r.bean"), &x.b);
    let mut y = Text::new();
    y.lit("2024-01-01 note Assets:");
    let r = y.sym(UPPER, 1);
    y.lit(" \"n\"\n");
    fs_add(&format!("{d}/c.bean"), &y.b);
    let s = BeancountSources::try_from(std::path::PathBuf::from(format!("{d}/r.bean"))).unwrap();
    let p = BeancountParser::new(&s);
    match p.parse() {
        Ok(p) => {
            cover(0);
            check(good, "a bad declaration was accepted");
            let n = p.directives.iter().filter(|d| d.span().source == 1).count();
            check(n == 1, "the included file counts once");
            let d = p.directives.iter().find(|d| d.span().source == 1).unwrap();
            let DirectiveVariant::Note(n) = d.item().variant() else { return check(false, "the included note") };
            check(eq(n.account().item().to_string().as_bytes(), &[b"Assets:", &y.b[r.start..r.end]].concat()), "the included note");
        }
        Err(_) => {
            cover(1);
            check(!good, "a good include was rejected")
        }
    }
}
/// the name of the file symbolic
fn named() {
    let d = fs_root();
    let mut x = Text::new();
    let c = b'a' + choose(6);
    x.lit("include \"");
    x.b.push(c);
    x.lit(".bean\"\n");
    fs_add(&format!("{d}/r.bean"), &x.b);
    let set = choose(64);
    for i in 0..6u8 {
        if set >> i & 1 == 1 {
            let f = (b'a' + i) as char;
            fs_add(&format!("{d}/{f}.bean"), format!("2024-01-01 note Assets:{} \"n\"\n", f.to_ascii_uppercase()).as_bytes());
        }
    }
    let s = BeancountSources::try_from(std::path::PathBuf::from(format!("{d}/r.bean"))).unwrap();
    let p = BeancountParser::new(&s);
    let p = p.parse();
    check(p.is_ok() == (set >> (c - b'a') & 1 == 1), "an include succeeds exactly if the file is there");
    if let Ok(p) = p {
        cover(0);
        check(p.directives.len() == 1, "one file");
        let DirectiveVariant::Note(n) = p.directives[0].item().variant() else { return check(false, "the included note") };
        check(eqs(&n.account().item().to_string(), &format!("Assets:{}", (c as char).to_ascii_uppercase())), "that very file");
    } else {
        cover(1)
    }
}
/// text given inline includes files by absolute path; a root that is missing or a directory is an error
fn inline() {
    let d = fs_root();
    fs_add(&format!("{d}/s/b.bean"), b"include \"c.bean\"\n2024-01-01 note Assets:B \"n\"\n");
    fs_add(&format!("{d}/s/c.bean"), b"2024-01-01 note Assets:C \"n\"\n");
    let k = choose(4);
    if k < 2 {
        let t = format!("include \"{d}/s/{}.bean\"\n", if k == 0 { "b" } else { "x" });
        let s = if flip() { BeancountSources::from(t.as_str()) } else { BeancountSources::from(t.clone()) };
        let p = BeancountParser::new(&s);
        let p = p.parse();
        check(p.is_ok() == (k == 0), "an include succeeds exactly if the file is there");
        if let Ok(p) = p {
            cover(0);
            check(p.directives.len() == 2, "both files");
        }
    } else {
        let r = BeancountSources::try_from(std::path::PathBuf::from(if k == 2 { format!("{d}/s/x.bean") } else { format!("{d}/s") }));
        check(r.is_err(), "a root that is not a file is an error");
        cover(1);
        let r = BeancountSources::try_from(std::path::Path::new(&format!("{d}/s/b.bean")));
        check(r.is_ok(), "a root that is a file is read");
    }
}
/// what included files hold beside directives
fn pragmas() {
    let d = fs_root();
    let mut x: Vec<Text> = vec![Text::new(), Text::new(), Text::new()];
    let k = choose(3) as usize;
    let first = flip();
    // an option, a plugin and a directive in any file each; the included ones name the next file
    let v = {
        let o = (k + 1) % 3;
        x[o].lit("option \"title\" \"t");
        let r = x[o].sym(LOWER, 1);
        let c = x[o].b[r.start];
        x[o].lit("\"\n");
        c
    };
    for i in 0..3 {
        let inc = ["include \"b.bean\"\n", "include \"c.bean\"\n", ""][i];
        let own = [["plugin \"pa\"\n", "plugin \"pb\"\n", "plugin \"pc\"\n"][i], ["2024-01-03 note Assets:A \"n\"\n", "2024-01-02 note Assets:B \"n\"\n", "2024-01-01 note Assets:C \"n\"\n"][i]];
        if first {
            x[i].lit(inc);
        }
        x[i].lit(own[0]).lit(own[1]);
        if !first {
            x[i].lit(inc);
        }
        fs_add(&format!("{d}/{}.bean", ["a", "b", "c"][i]), &x[i].b);
    }
    let s = BeancountSources::try_from(std::path::PathBuf::from(format!("{d}/a.bean"))).unwrap();
    let p = BeancountParser::new(&s);
    let p = p.parse();
    check(p.is_ok(), "good files were rejected");
    let Ok(p) = p else { return };
    cover(0);
    check(p.options.title().is_some_and(|t| eq(t.item().as_bytes(), &[b't', v])), "an option of an included file");
    let want = if first { ["pc", "pb", "pa"] } else { ["pa", "pb", "pc"] };
    check(p.plugins.len() == 3 && (0..3).all(|i| eqs(p.plugins[i].module_name().item(), want[i])), "plugins of included files, in order");
    check(p.directives.len() == 3, "directives of included files");
    for i in 0..3 {
        check(p.directives[i].span().source == 2 - i, "directives of included files, by date");
    }
    let _ = p.warnings;
}

pub static JOBS: &[Job] = &[
    job("graph", 0, graph6, "4 files in 2 directories with 2, 2, 1 and 1 includes: every include relation, cycles and the root included"),
    job("graph7", 1, graph7, "4 files with 2, 2, 2 and 1 includes: every include relation"),
    job("spelling", 0, spelling, "a file included twice, by any 2 of 8 spellings of its path, from any 2 files"),
    job("root", 0, root, "the root included from any file by any of 8 spellings"),
    job("context", 0, context5, "any 5 of pushing and popping 2 tags and metadata of 2 values and including 2 files, one of which includes the other"),
    job("context6", 1, context6, "any 6 of them"),
    job("across", 0, across, "tags and metadata pushed and popped in different files"),
    job("faults", 0, faults, "each of 3 included files missing, a directory, not UTF-8, or good, by name or by pattern"),
    job("text", 0, text, "any two bytes beyond ASCII in an included file and in the root"),
    job("chain", 0, chain8, "a chain of 8 files, the last including any of them"),
    job("chain14", 1, chain14, "a chain of 14 files, the last including any of them"),
    job("depth", 0, depth, "paths relative to the including file, with files of the same name elsewhere"),
    job("globs", 0, globs4, "19 patterns against 16 sets of files"),
    job("globs7", 1, globs7, "19 patterns against 128 sets of files"),
    job("overlap", 0, overlap, "any two of 12 patterns, in one file or two"),
    job("around", 0, around, "an include after 16 and before 6 other texts"),
    job("named", 0, named, "any of 6 file names against every set of 6 files"),
    job("inline", 0, inline, "includes of inline text; a root that cannot be read"),
    job("pragmas", 0, pragmas, "options, plugins and directives in 3 files"),
];
