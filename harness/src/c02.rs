//! C02: directives come out by date; on one date opens, then balances, then the rest; otherwise in file order.
use crate::util::*;

pub const KINDS: &[(&str, &str)] = &[
    ("* \"x\"", "\n  Assets:A  1 USD\n"),
    ("open Assets:A USD", "\n"),
    ("balance Assets:A 1 USD", "\n"),
    ("close Assets:A", "\n"),
    ("price USD 1 EUR", "\n"),
    ("pad Assets:A Equity:B", "\n"),
    ("note Assets:A \"n\"", "\n"),
    ("commodity USD", "\n"),
    ("document Assets:A \"f\"", "\n"),
    ("event \"a\" \"b\"", "\n"),
    ("query \"a\" \"b\"", "\n"),
    ("custom \"a\" 1", "\n"),
    // the same kinds with other contents
    ("! \"p\" \"n\" #t", "\n  mm: 1\n  Assets:A 1 USD\n  Assets:B 1 USD\n  Assets:C -2 USD\n"),
    ("txn", "\n"),
    ("'P \"x\"", "\n  Assets:A 10 USD {1 EUR} @ 2 EUR\n  Assets:B\n"),
    ("* \"a\"", "\n  Income:A -5 USD\n    mm: 1\n  Assets:B 1 EUR\n  Assets:C 1 USD\n  Expenses:D 2 USD\n  Equity:E\n"),
    ("open Expenses:A", "\n"),
    ("open Equity:A USD, EUR \"FIFO\" #t", "\n  mm: 1\n"),
    ("balance Liabilities:B 10 ~ 1 EUR", "\n  mm: 1\n"),
    ("balance Assets:A -1 USD #t", "\n"),
    ("balance Equity:A 0 USD", "\n"),
    ("price EUR 2 USD #t", "\n  mm: 2\n"),
    ("close Income:B", "\n  mm: 2\n  #t\n"),
    ("note Assets:B \"m\" #t", "\n"),
    ("pad Equity:B Assets:A", "\n  mm: 1\n"),
    ("event \"c\" \"d\"", "\n"),
];
fn rank(kind: usize) -> u8 {
    match &KINDS[kind].0[..3] {
        "ope" => 0,
        "bal" => 1,
        _ => 2,
    }
}
/// directives of known date bytes and kind; the i-th carries link ^<id>
struct L {
    x: Text,
    keys: Vec<([u8; 8], u8)>,
}
impl L {
    fn new() -> L {
        L { x: Text::new(), keys: Vec::new() }
    }
    fn add(&mut self, date: [u8; 8], kind: usize) {
        let i = self.keys.len();
        let x = &mut self.x;
        x.b.extend_from_slice(&date[0..4]);
        x.lit("-");
        x.b.extend_from_slice(&date[4..6]);
        x.lit("-");
        x.b.extend_from_slice(&date[6..8]);
        x.lit(" ").lit(KINDS[kind].0);
        let id = [b'a' + (i / 10) as u8, b'0' + (i % 10) as u8];
        if kind == 11 {
            x.lit(KINDS[kind].1).lit("  ^");
            x.b.extend_from_slice(&id);
            x.lit("\n");
        } else {
            x.lit(" ^");
            x.b.extend_from_slice(&id);
            x.lit(KINDS[kind].1);
        }
        self.keys.push((date, rank(kind)));
    }
    fn verify(&self) {
        with_ok(self.x.str(), "valid ledger rejected", |_, p| {
            let n = self.keys.len();
            check(p.directives.len() == n, "directives lost or duplicated");
            let mut seen = vec![false; n];
            let mut last: Option<usize> = None;
            for d in &p.directives {
                let l = d.metadata().links().next();
                check(l.is_some(), "link lost");
                let id = l.unwrap().item().as_ref().as_bytes();
                let k = (id[0] - b'a') as usize * 10 + (id[1] - b'0') as usize;
                check(k < n && !seen[k], "directive duplicated");
                seen[k] = true;
                out(k as u64);
                if let Some(j) = last {
                    // key(j) <= key(k), and in file order when equal
                    let (a, b) = (&self.keys[j], &self.keys[k]);
                    let va = num(&a.0);
                    let vb = num(&b.0);
                    check(va <= vb, "directives not in date order");
                    if va == vb {
                        check(a.1 <= b.1, "on one date: opens, then balances, then everything else");
                        if a.1 == b.1 {
                            check(j < k, "same date and group: file order lost");
                        }
                    }
                }
                last = Some(k);
            }
        })
    }
}
fn num(d: &[u8; 8]) -> u32 {
    let mut v = 0u32;
    for b in d {
        v = v * 10 + (b.wrapping_sub(b'0')) as u32;
    }
    v
}
fn day(d: u8) -> [u8; 8] {
    [b'2', b'0', b'2', b'4', b'0', b'1', b'0', d]
}
fn three(n: usize) {
    let mut l = L::new();
    for _ in 0..n {
        let k = choose(3) as usize;
        let d = byte(&range(b'1', b'9'));
        l.add(day(d), k);
    }
    l.verify()
}
fn pairs() {
    let mut l = L::new();
    let a = choose(12) as usize;
    let b = choose(12) as usize;
    l.add(day(byte(&range(b'1', b'9'))), a);
    l.add(day(byte(&range(b'1', b'9'))), b);
    l.verify()
}
/// every pair of directives with different contents on one date, or on two
fn contents() {
    let n = KINDS.len() as u8;
    let mut l = L::new();
    let (a, b) = (choose(n) as usize, choose(n) as usize);
    l.add(day(b'5'), a);
    l.add(day(byte(&set_of(b"45"))), b);
    l.verify()
}
/// three of the kinds of one rank, on one date
fn contents3() {
    let n = KINDS.len() as u8;
    let mut l = L::new();
    let (a, b, c) = (choose(n) as usize, choose(n) as usize, choose(n) as usize);
    l.add(day(b'5'), a);
    l.add(day(b'5'), b);
    l.add(day(b'5'), c);
    l.verify()
}
/// years far apart
fn years() {
    let mut l = L::new();
    for _ in 0..2 {
        let mut d = *b"20240115";
        let i = choose(3) as usize;
        d[i] = byte(&DIGIT);
        assume(d[0..4] != *b"0000");
        l.add(d, 0);
    }
    l.verify()
}
fn ymd(n: usize) {
    let mut l = L::new();
    for _ in 0..n {
        let c = choose(3);
        let mut d = *b"20240115";
        match c {
            0 => d[3] = byte(&DIGIT),
            1 => d[5] = byte(&range(b'1', b'9')),
            _ => d[6] = byte(&range(b'0', b'2')),
        }
        l.add(d, 0);
    }
    l.verify()
}
/// month and day boundaries: 02-28, 02-29, 03-01, 12-31, 01-01 of adjacent years
fn bounds(n: usize) {
    let mut l = L::new();
    for _ in 0..n {
        let mut d = pick(&[*b"20230228", *b"20240229", *b"20240301", *b"20231231", *b"20240101", *b"20241231"]);
        if flip() {
            d[3] = byte(&set_of(b"48"));
            assume(d[4..8] != *b"0229" || d[3] == b'4' || d[3] == b'8');
        }
        l.add(d, choose(2) as usize);
    }
    l.verify()
}
/// many directives on few dates: enough of them for any bucketing or chunked sort
fn many() {
    let mut l = L::new();
    let at = choose(4) as usize * 9;
    for i in 0..40 {
        let k = [0, 3, 4, 0, 6, 2, 0, 1, 5, 7][i % 10];
        let d = if i == at || i == at + 3 { byte(&range(b'1', b'9')) } else { [b'5', b'3', b'5'][i % 3] };
        l.add(day(d), k);
    }
    l.verify()
}
fn same_date() {
    let mut l = L::new();
    for _ in 0..5 {
        let k = pick(&[0usize, 1, 2, 3]);
        l.add(*b"20240101", k);
    }
    l.verify()
}
/// tags pushed around directives do not change their order; blank lines and comments neither
fn pragmas() {
    let mut l = L::new();
    for i in 0..4 {
        if i == 1 {
            l.x.lit("pushtag #t\n");
        }
        if i == 2 {
            l.x.lit("poptag #t\noption \"title\" \"x\"\n\n");
        }
        let k = choose(2) as usize;
        l.add(day(byte(&range(b'1', b'3'))), k);
    }
    l.verify()
}

pub const JOBS: &[Job] = &[
    job("three", 0, || three(3), "3 directives, each transaction, open or balance, day digit symbolic 1-9"),
    job("four", 1, || three(4), "4 directives, each transaction, open or balance, day digit symbolic 1-9"),
    job("pairs", 0, pairs, "2 directives of any of the 12 kinds, day digits symbolic"),
    job("contents", 0, contents, "every pair of 26 directives of all kinds and different contents, on one date or two"),
    job("contents3", 1, contents3, "every triple of 26 directives of all kinds and different contents, on one date"),
    job("years", 0, years, "2 transactions, one symbolic digit of the year each"),
    job("ymd", 0, || ymd(3), "3 transactions, one symbolic digit in year, month or day each"),
    job("ymd4", 1, || ymd(4), "4 transactions, one symbolic digit in year, month or day each"),
    job("bounds", 0, || bounds(2), "2 directives at month and year boundaries, year digit symbolic"),
    job("bounds3", 1, || bounds(3), "3 directives at month and year boundaries, year digit symbolic"),
    job("many", 0, many, "40 directives of 10 kinds on up to 4 dates, two symbolic days"),
    job("same_date", 0, same_date, "5 directives on one date, 4 kinds each"),
    job("pragmas", 0, pragmas, "4 directives interleaved with pragmas"),
];
