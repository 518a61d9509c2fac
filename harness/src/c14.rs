//! C14: every error is reported, and a bad declaration spoils only itself.
use crate::util::*;

const GOOD: [&str; 18] = [
    "2024-01-01 open Assets:A%\n",
    "2024-01-01 * \"n%\"\n  Assets:A 1 USD\n  Assets:B\n",
    "2024-01-01 balance Assets:A 1 US$\n",
    "2024-01-01 price USD 2 EU$\n",
    "option \"long_string_maxlines\" \"64\"\n",
    "plugin \"p%\"\n",
    "2024-01-01 note Assets:A \"x\"\n  fo%: 1\n",
    "2024-01-01 custom \"t%\" 1\n",
    "2024-01-01 txn #ta%\n",
    "2024-01-01 commodity US$\n  name: \"q\"\n",
    "2024-01-01 close Assets:A\n",
    "pushtag #x\npoptag #x\n",
    "pushmeta kk: 1\npopmeta kk:\n",
    "2024-01-01 event \"a\" \"%\"\n",
    "2024-01-01 query \"a\" \"b\"\n",
    "2024-01-01 pad Assets:A Equity:B\n",
    "2024-01-01 document Assets:A \"x\"\n  #tag\n  ^link\n",
    "2024-01-01 ! \"p\" \"n\" #t ^l\n  aa: 1\n  Assets:A 1 USD {2 EUR} @ 3 EUR\n    bb: \"%\"\n",
];
const BAD: [&str; 64] = [
    "2024-01-01 open\n",
    "2024-01-01 open Assets\n",
    "2024-01-01 opx% Assets:A USD\n",
    "2024-13-01 open Assets:A\n",
    "2023-02-29 open Assets:A\n",
    "2024-01-01 open Fo%:A\n",
    "2024-01-01 open Assets:A USD EUR\n",
    "2024-01-01 open Assets:A US$,EUR,EUR\n",
    "2024-01-01 balance Assets:A 1\n",
    "2024-01-01 balance Assets:A US$\n",
    "2024-01-01 balance Assets:A 1 ~ USD\n",
    "2024-01-01 close\n",
    "2024-01-01 close Assets:A USD\n",
    "2024-01-01 price USD 2\n",
    "2024-01-01 price 2 USD\n",
    "2024-01-01 note Assets:A\n",
    "2024-01-01 note \"x%\"\n",
    "2024-01-01 pad Assets:A\n",
    "2024-01-01 document \"%\"\n",
    "2024-01-01 event \"%\"\n",
    "2024-01-01 query \"%\"\n",
    "2024-01-01 commodity\n",
    "2024-01-01 commodity us%\n",
    "2024-01-01 custom\n",
    "2024-01-01 custom fo%\n",
    "2024-01-01\n",
    "open Assets:A\n",
    "2024-01-01 * \"n\" \"m\" \"%\"\n",
    "2024-01-01 * \"n\" #t #t\n",
    "2024-01-01 * \"n\" ^t ^t\n",
    "2024-01-01 * \"n\"\n  Assets:A 1 USD USD\n",
    "2024-01-01 * \"n\"\n  Fo%:A 1 USD\n",
    "2024-01-01 * \"n\"\n  Assets:A 1/0 USD\n",
    "2024-01-01 * \"n\"\n  Assets:A 1 USD {1 USD, 2 USD}\n",
    "2024-01-01 * \"n\"\n  Assets:A 1 USD @ @\n",
    "2024-01-01 * \"n\"\n  fo% 1 USD\n",
    "2024-01-01 * \"n\"\n  aa: 1\n  aa: 2\n",
    "2024-01-01 * \"n\"\n  Assets:A\n    aa: 1\n    aa: 2\n  Assets:B\n",
    "2024-01-01 * \"n\"\n  Assets:A (1 USD\n",
    "2024-01-01 * \"n\"\n  Assets:A {1 USD\n  Assets:B\n",
    "2024-01-01 * \"n\"\n  Assets:C\n  Assets:A 1 USD\n  Assets:B % 1\n",
    "2024-01-01 note Assets:A \"x\"\n  fo% 1\n",
    "2024-01-01 note Assets:A \"x\"\n  foo: 1 2\n",
    "2024-01-01 note Assets:A \"x\"\n  #a\n  #a\n",
    "option \"titel%\" \"x\"\n",
    "option \"title\"\n",
    "option title \"x\"\n",
    "option \"inferred_tolerance_default\" \"x%\"\n",
    "option \"operating_currency\" \"us%\"\n",
    "option \"name_assets\" \"Income\"\n",
    "option \"booking_method\" \"x%\"\n",
    "plugin\n",
    "plugin fo%\n",
    "pushtag\n",
    "pushtag fo%\n",
    "pushmeta foo\n",
    "include\n",
    "junk%\n",
    "JUNK$\n",
    "\"x%\"\n",
    "1\n",
    "^foo\n",
    "}\n",
    "2024-01-01 open Assets:A \"FO$\"\n",
];

struct Ledger {
    x: Text,
    /// start, end, 0 layout 1 good 2 bad
    d: Vec<(usize, usize, u8)>,
    /// fixed letters instead of symbolic ones
    plain: bool,
}
impl Ledger {
    fn new() -> Ledger {
        Ledger { x: Text::new(), d: Vec::new(), plain: false }
    }
    fn add(&mut self, t: &str, k: u8) {
        let a = self.x.b.len();
        for c in t.bytes() {
            match c {
                b'%' if self.plain => self.x.b.push(b'x'),
                b'$' if self.plain => self.x.b.push(b'X'),
                b'%' => {
                    self.x.sym(LOWER, 1);
                }
                b'$' => {
                    self.x.sym(UPPER, 1);
                }
                c => self.x.b.push(c),
            }
        }
        self.d.push((a, self.x.b.len(), k));
    }
    fn good(&mut self, k: u8) {
        self.add(GOOD[k as usize], 1)
    }
    fn bad(&mut self, k: u8) {
        self.add(BAD[k as usize], 2)
    }
    fn gap(&mut self, k: u8) {
        self.add(["", "\n", "; c\n", "\n* Section\n\n", "  ; d\n"][k as usize], 0)
    }
    fn judge(&self, err: &[&Error], source: usize) {
        let mut run = false;
        let n = self.x.b.len();
        for (a, z, k) in &self.d {
            let n = err.iter().filter(|e| e.span().source == source && e.span().start >= *a && (e.span().start < *z || *z >= n && e.span().start == n)).count();
            match k {
                1 => {
                    check(n == 0, "an error within a good declaration");
                    run = false;
                }
                2 => {
                    check(run || n > 0, "no error within a bad declaration");
                    run = true;
                }
                _ => check(n == 0, "an error outside any declaration"),
            }
        }
    }
    fn run(&mut self) {
        let good = self.d.iter().all(|d| d.2 < 2);
        let n = self.x.b.len();
        with_parse(std::str::from_utf8(&self.x.b.clone()).unwrap(), |_, r| match r {
            Ok(_) => {
                cover(0);
                check(good, "a bad declaration was accepted");
            }
            Err(e) => {
                cover(1);
                check(!good, "good declarations were rejected");
                check(!e.errors.is_empty(), "a failed parse carries no error");
                let v: Vec<&Error> = e.errors.iter().collect();
                check(v.iter().all(|e| e.span().source == 0 && e.span().start <= e.span().end && e.span().end <= n), "an error outside the text");
                self.judge(&v, 0);
            }
        })
    }
}

fn single() {
    let mut l = Ledger::new();
    let k = choose((GOOD.len() + BAD.len()) as u8);
    if (k as usize) < BAD.len() {
        l.bad(k)
    } else {
        l.good(k - BAD.len() as u8)
    }
    if flip() {
        l.x.b.pop();
    }
    l.run()
}
/// good bad good, with layout in between
fn gbg() {
    let mut l = Ledger::new();
    l.good(choose(GOOD.len() as u8));
    l.bad(choose(BAD.len() as u8));
    l.gap(choose(5));
    l.run()
}
fn bg() {
    let mut l = Ledger::new();
    l.bad(choose(BAD.len() as u8));
    l.gap(choose(4));
    l.good(choose(GOOD.len() as u8));
    l.run()
}
/// one good one between two bad ones
fn bgb() {
    let mut l = Ledger::new();
    let k = choose(BAD.len() as u8);
    l.bad(k);
    l.good((k + choose(2)) % GOOD.len() as u8);
    l.bad(choose(BAD.len() as u8));
    l.run()
}
/// adjacent bad ones, then good
fn bbg() {
    let mut l = Ledger::new();
    let k = choose(BAD.len() as u8);
    l.bad(k);
    let m = choose(BAD.len() as u8);
    l.bad(m);
    l.good((k.wrapping_add(m)) % GOOD.len() as u8);
    l.run()
}
/// any pattern of good and bad over n declarations
fn pattern(n: usize) {
    let mut l = Ledger::new();
    let o = choose(8) * 8;
    for i in 0..n as u8 {
        if flip() {
            l.bad((o + i * 7) % BAD.len() as u8)
        } else {
            l.good((o + i * 5) % GOOD.len() as u8)
        }
    }
    l.run()
}
fn pattern6() {
    pattern(6)
}
fn pattern8() {
    pattern(8)
}
fn pattern11() {
    pattern(11)
}
/// many separate errors: all reported, whether alike or different
fn many() {
    let mut l = Ledger::new();
    l.plain = true;
    let o = choose(BAD.len() as u8);
    let step = choose(3);
    for i in 0..24u8 {
        l.bad((o + i * step) % BAD.len() as u8);
        l.good((o + i) % GOOD.len() as u8);
    }
    l.run()
}
/// the same, without good ones in between, where errors are of content, not form
fn content() {
    // reported even side by side, as each declaration can be read
    const C: [&str; 10] = [
        "2024-01-01 open Assets:A USD,USD\n",
        "2024-01-01 * \"n\" #t #t\n",
        "2024-01-01 * \"n\" ^t ^t\n",
        "2024-01-01 * \"n\"\n  aa: 1\n  aa: 2\n",
        "2024-01-01 * \"n\"\n  Assets:A\n    aa: 1\n    aa: 2\n",
        "2024-01-01 note Assets:A \"x\"\n  #a\n  #a\n",
        "option \"titel%\" \"x\"\n",
        "option \"name_assets\" \"Income\"\n",
        "option \"booking_method\" \"x%\"\n",
        "option \"operating_currency\" \"us%\"\n",
    ];
    let mut l = Ledger::new();
    let n = 1 + choose(12);
    let o = choose(C.len() as u8);
    let s = choose(4);
    for i in 0..n {
        l.add(C[((o + i * s) as usize) % C.len()], 2);
        l.d.push((l.x.b.len(), l.x.b.len(), 1));
    }
    l.run()
}
/// good and bad ones spread over an including and an included file
fn files() {
    let d = fs_root();
    let mut a = Ledger::new();
    let mut c = Ledger::new();
    let k = choose(BAD.len() as u8 / 2) * 2;
    let p = choose(16);
    for (bit, g) in [(0, 0), (1, 7)] {
        let l = &mut a;
        if p >> bit & 1 == 1 {
            l.bad((k + g) % BAD.len() as u8)
        }
        l.good((k + g) % GOOD.len() as u8);
        if bit == 0 {
            l.add("include \"c.bean\"\n", 1);
        }
    }
    for (bit, g) in [(2, 3), (3, 11)] {
        let l = &mut c;
        l.good((k + g) % GOOD.len() as u8);
        if p >> bit & 1 == 1 {
            l.bad((k + g) % BAD.len() as u8)
        }
    }
    fs_add(&format!("{d}/a.bean"), &a.x.b);
    fs_add(&format!("{d}/c.bean"), &c.x.b);
    let sources = BeancountSources::try_from(std::path::PathBuf::from(format!("{d}/a.bean"))).unwrap();
    let parser = BeancountParser::new(&sources);
    match parser.parse() {
        Ok(_) => {
            cover(0);
            check(p == 0, "a bad declaration was accepted");
        }
        Err(e) => {
            cover(1);
            check(p != 0, "good declarations were rejected");
            let v: Vec<&Error> = e.errors.iter().collect();
            a.judge(&v, 0);
            c.judge(&v, 1);
            for e in v {
                let f = sources.resolve_span(&e.span()).file_name.unwrap_or_default();
                check(eqs(&f, &format!("{d}/{}.bean", if e.span().source == 0 { "a" } else { "c" })), "an error names its file");
            }
        }
    }
}

/// the same text in several files: the same mistake at the same place of each is a mistake in each
fn twins() {
    let d = fs_root();
    let k = choose(BAD.len() as u8);
    let p = choose(8);
    let mut ls = [Ledger::new(), Ledger::new(), Ledger::new()];
    for (i, l) in ls.iter_mut().enumerate() {
        l.plain = true;
        l.good(k % GOOD.len() as u8);
        if p >> i & 1 == 1 {
            l.bad(k)
        }
        l.good((k + 3) % GOOD.len() as u8);
    }
    ls[0].add("include \"c.bean\"\ninclude \"d.bean\"\n", 1);
    for (l, n) in ls.iter().zip(["a", "c", "d"]) {
        fs_add(&format!("{d}/{n}.bean"), &l.x.b);
    }
    let sources = BeancountSources::try_from(std::path::PathBuf::from(format!("{d}/a.bean"))).unwrap();
    let parser = BeancountParser::new(&sources);
    match parser.parse() {
        Ok(_) => {
            cover(0);
            check(p == 0, "a bad declaration was accepted");
        }
        Err(e) => {
            cover(1);
            check(p != 0, "good declarations were rejected");
            let v: Vec<&Error> = e.errors.iter().collect();
            for (i, l) in ls.iter().enumerate() {
                l.judge(&v, i);
            }
        }
    }
}

pub static JOBS: &[Job] = &[
    job("single", 0, single, "each of 18 good and 64 bad declarations alone, with symbolic letters, with and without a final newline"),
    job("gbg", 0, gbg, "each bad declaration after each good one, followed by layout"),
    job("bg", 0, bg, "each bad declaration before each good one, with layout in between"),
    job("bgb", 0, bgb, "every pair of bad declarations with a good one in between"),
    job("bbg", 0, bbg, "every pair of adjacent bad declarations, then a good one"),
    job("pattern", 0, pattern6, "6 declarations, every pattern of good and bad"),
    job("pattern8", 1, pattern8, "8 declarations, every pattern of good and bad"),
    job("pattern11", 1, pattern11, "11 declarations, every pattern of good and bad"),
    job("many", 0, many, "24 separate bad declarations, alike or different"),
    job("content", 0, content, "up to 12 adjacent declarations with errors of content, each reported"),
    job("twins", 0, twins, "each of 64 bad declarations at the same place of any of three files"),
    job("files", 0, files, "bad declarations in an including and an included file"),
];
