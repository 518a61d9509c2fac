//! C19: every directive holds exactly what was written.
use crate::model::*;
use crate::util::*;

const D1: &str = "2024-02-03";
pub fn flags(k: u8) -> Bs {
    match k {
        0 => b("*"),
        1 => b("!"),
        2 => b("&"),
        3 => b("#"),
        4 => b("?"),
        5 => b("%"),
        6 => up("'"),
        _ => b("txn"),
    }
}
pub fn tl_meta() -> Meta {
    let mut m = Meta::default();
    match choose(7) {
        0 => {}
        1 => m.htags.push(nm("t")),
        2 => {
            m.htags = vec![nm("t"), b("t2")];
            m.hlinks = vec![b("l1"), nm("l")];
        }
        3 => m.ltags.push(nm("t")),
        4 => {
            m.hlinks.push(b("h.x"));
            m.llinks.push(nm("l-"));
            m.ltags.push(b("t/x_1"));
        }
        5 => {
            m.hlinks.push(nm("l"));
            m.kv.push((nm("k"), Val::Str(b("v"))));
        }
        _ => {
            m.kv = vec![(b("kk"), Val::Num(b("1"))), (nm("k2"), Val::Str(nm("v"))), (b("k3"), Val::None)];
            m.htags.push(b("t"));
            m.ltags.push(b("u"));
        }
    }
    m
}
pub fn header() -> Dir {
    let f = flags(choose(8));
    let (p, n) = match choose(7) {
        0 => (None, None),
        1 => (None, Some(nm("na"))),
        2 => (Some(nm("pa")), Some(nm("na"))),
        3 => (Some(b("")), Some(nm("na"))),
        4 => (Some(nm("pa")), Some(b(""))),
        5 => (Some(b("")), Some(b(""))),
        _ => (None, Some(b(""))),
    };
    Dir { date: b(D1), d: D::Txn(f, p, n, vec![]), meta: tl_meta() }
}
pub fn posting_of(k: u8, full: bool) -> Post {
    let mut p = post(["Assets:A", "Liabilities:B:C", "Equity:D", "Income:E-F", "Expenses:G1"][k as usize % 5]);
    p.acc = nm(std::str::from_utf8(&p.acc).unwrap());
    match k {
        0 => {}
        1 => p.num = Some(dg("1")),
        2 => p.cur = Some(up("US")),
        3 => {
            p.num = Some(dg("-1."));
            p.cur = Some(up("US"));
        }
        4 => {
            p.flag = Some(b("!"));
            p.num = Some(dg(""));
            p.cur = Some(b("USD"));
        }
        5 => {
            p.flag = Some(up("'"));
        }
        6 => {
            p.num = Some(b("10"));
            p.cur = Some(b("HOOL"));
            p.cost = Some(Cost::default());
        }
        7 => {
            p.num = Some(b("10"));
            p.cur = Some(b("HOOL"));
            p.cost = Some(Cost { per: Some(dg("5.")), cur: Some(up("US")), date: Some(b("2023-12-31")), ..Cost::default() });
        }
        8 => {
            p.num = Some(b("10"));
            p.cur = Some(b("HOOL"));
            p.price = Some(Prc { total: false, num: Some(dg("5.")), cur: Some(up("US")) });
        }
        9 => {
            p.num = Some(b("10"));
            p.cur = Some(b("HOOL"));
            p.cost = Some(Cost { total: Some(dg("5.")), label: Some(nm("l")), merge: true, ..Cost::default() });
            p.price = Some(Prc { total: true, num: Some(dg("7")), cur: Some(b("EUR")) });
        }
        10 => {
            p.num = Some(b("0.00"));
            p.cur = Some(b("HOOL"));
            p.price = Some(Prc { total: false, num: None, cur: None });
        }
        11 => {
            p.meta.kv = vec![(nm("m"), val(0)), (b("mm2"), val(2))];
            p.meta.ltags.push(b("ptag"));
        }
        12 => {
            p.num = Some(b("1"));
            p.cost = Some(Cost { per: Some(b("2")), total: Some(b("3")), cur: Some(b("USD")), ..Cost::default() });
            p.meta.llinks.push(nm("pl"));
        }
        _ => {
            p.flag = Some(b("#"));
            p.price = Some(Prc { total: false, num: None, cur: Some(b("USD")) });
        }
    }
    if full {
        p.meta.kv.push((b("extra"), Val::Str(nm("x"))));
    }
    p
}
fn postings2() {
    let (i, j) = (choose(14), choose(14));
    let f = flip();
    run(&[Dir { date: b(D1), d: D::Txn(b("*"), None, Some(b("x")), vec![posting_of(i, f), posting_of(j, false)]), meta: Meta::default() }])
}
fn postings3() {
    let (i, j, k) = (choose(14), choose(14), choose(14));
    run(&[Dir { date: b(D1), d: D::Txn(b("*"), None, Some(b("x")), vec![posting_of(i, false), posting_of(j, true), posting_of(k, false)]), meta: Meta::default() }])
}
fn many_postings() {
    let n = pick(&[0usize, 1, 5, 9, 17, 33]);
    let k = choose(14);
    let v = (0..n).map(|i| if i == n / 2 { posting_of(k, true) } else { posting_of(i as u8 % 4, false) }).collect();
    run(&[Dir { date: b(D1), d: D::Txn(b("*"), None, Some(b("x")), v), meta: tl_meta() }])
}
fn kinds() {
    let k = choose(KINDS);
    let d = if flip() { kind_rich(k) } else { kind(k) };
    let mut m = tl_meta();
    if k == 11 {
        // tags and links after a custom are values
        m.ltags.append(&mut m.htags);
        m.llinks.append(&mut m.hlinks);
    }
    run(&[Dir { date: b(D1), d, meta: m }])
}
fn opens() {
    let cs = match choose(5) {
        0 => vec![],
        1 => vec![up("US")],
        2 => vec![b("AAA"), up("US")],
        3 => vec![up("B"), b("CCC"), b("A")],
        _ => vec![b("A"), b("B2"), b("C.C"), b("D-D"), b("E_E"), b("F'F")],
    };
    let bk = pick(&[None, Some("STRICT"), Some("STRICT_WITH_SIZE"), Some("NONE"), Some("AVERAGE"), Some("FIFO"), Some("LIFO"), Some("HIFO")]).map(b);
    let a = pick(&["Assets:A", "Liabilities:A", "Equity:A", "Income:A", "Expenses:A"]);
    run(&[Dir { date: b(D1), d: D::Open(nm(a), cs, bk), meta: tl_meta() }])
}
fn metavals() {
    let (k, i, j) = (pick(&[0u8, 3, 4, 11]), choose(VALS + 1), choose(VALS + 1));
    let v = |k| if k == VALS { Val::None } else { val(k) };
    let mut m = Meta::default();
    m.kv = vec![(b("aa"), v(i)), (b("bb"), v(j))];
    let on_posting = k == 0 && flip();
    let mut d = Dir { date: b(D1), d: kind(k), meta: Meta::default() };
    if on_posting {
        if let D::Txn(_, _, _, ps) = &mut d.d {
            ps[0].meta = m;
        }
    } else {
        d.meta = m;
    }
    run(&[d])
}
/// which values may follow each other without being read as one
pub fn apart(v: &[u8]) -> bool {
    let num = |k: u8| k == 1 || k == 12;
    for w in v.windows(2) {
        // number, then signed number, amount or currency
        if num(w[0]) && (w[1] == 1 || w[1] == 7) {
            return false;
        }
    }
    true
}
fn custom() {
    let n = choose(4);
    let ks: Vec<u8> = (0..n).map(|_| choose(VALS)).collect();
    assume(apart(&ks));
    run(&[dir(D1, D::Custom(nm("ty"), ks.iter().map(|k| val(*k)).collect()))])
}
const KEYWORDS: &[&str] = &["txn", "balance", "open", "close", "commodity", "pad", "event", "query", "custom", "price", "note", "document", "pushtag", "poptag", "pushmeta", "popmeta", "option", "options", "plugin", "include", "aa", "opening", "openx", "close-x", "note_1", "a1", "zZ", "camelCase"];
fn keywords() {
    let k = pick(KEYWORDS);
    let v = val(choose(VALS));
    match choose(3) {
        0 => {
            let mut d = dir(D1, kind(choose(KINDS)));
            d.meta.kv.push((b(k), v));
            run(&[d])
        }
        1 => {
            let mut q = post("Assets:A");
            q.meta.kv.push((b(k), v));
            run(&[dir(D1, D::Txn(b("*"), None, None, vec![q, post("Assets:B")]))])
        }
        _ => {
            let mut x = Text::new();
            x.lit("pushmeta ").lit(k).lit(": ");
            v.put(&mut x);
            x.lit("\n");
            let mut d = dir(D1, kind(4));
            d.put(&mut x);
            x.lit("popmeta ").lit(k).lit(":\n");
            d.meta.kv.push((b(k), v));
            with_ok(x.str(), "keyword as pushed key rejected", |_, p| d.verify(p.directives[0].item()))
        }
    }
}
fn plugins() {
    let n = choose(4);
    let mut x = Text::new();
    let mut want: Vec<(Bs, Option<Bs>)> = Vec::new();
    for i in 0..n {
        if flip() {
            x.lit("2024-01-01 open Assets:A\n");
        }
        let name = nm(["m.a", "m.b", "m.a"][i as usize]);
        let cfg = match choose(3) {
            0 => None,
            1 => Some(nm("c")),
            _ => Some(b("")),
        };
        x.lit("plugin \"");
        x.b.extend_from_slice(&name);
        x.lit("\"");
        if let Some(c) = &cfg {
            x.lit(" \"");
            x.b.extend_from_slice(c);
            x.lit("\"");
        }
        x.lit("\n");
        want.push((name, cfg));
    }
    with_ok(x.str(), "plugins rejected", |_, p| {
        check(p.plugins.len() == want.len(), "number of plugins");
        for (w, g) in want.iter().zip(&p.plugins) {
            check(eq(g.module_name().item().as_bytes(), &w.0), "plugin name");
            check(
                match (&w.1, g.config()) {
                    (None, None) => true,
                    (Some(a), Some(c)) => eq(c.item().as_bytes(), a),
                    _ => false,
                },
                "plugin config",
            );
        }
    })
}
/// three directives in a row: nothing leaks from one to the next
fn three() {
    let dates = ["2024-01-01", "2024-01-02", "2024-01-03"];
    let ds: Vec<Dir> = (0..3)
        .map(|i| {
            let k = choose(KINDS);
            let mut d = dir(dates[i], if i == 1 { kind_rich(k) } else { kind(k) });
            if i != 1 {
                d.meta.kv.push((b("key"), Val::Num(b(["7", "8", "9"][i]))));
                d.meta.ltags.push(b(["ta", "tb", "tc"][i]));
            }
            d
        })
        .collect();
    run(&ds)
}
fn txns() {
    let (i, j) = (choose(14), choose(14));
    let mut h = header();
    if let D::Txn(_, _, _, ps) = &mut h.d {
        ps.push(posting_of(i, true));
    }
    h.date = b("2024-01-01");
    run(&[h, Dir { date: b("2024-01-02"), d: D::Txn(b("*"), None, None, vec![posting_of(j, false)]), meta: Meta::default() }])
}
/// signs, fractions and commas in each place that takes an amount
fn accounts() {
    // accounts of every type and up to 4 components in every directive that takes one
    let a = pick(&["Assets:A", "Liabilities:A:Bb", "Equity:1A:B-b:C3", "Income:X:Y:Z:W", "Expenses:Ab1:2"]);
    let c = pick(&["Assets:Z", "Equity:A"]);
    let d = match choose(7) {
        0 => D::Balance(nm(a), b("1"), None, b("USD")),
        1 => D::Open(nm(a), vec![], None),
        2 => D::Close(nm(a)),
        3 => D::Pad(nm(a), nm(c)),
        4 => D::Document(nm(a), b("x")),
        5 => D::Note(nm(a), b("x")),
        _ => D::Custom(b("x"), vec![Val::Acc(nm(a)), Val::Acc(nm(c))]),
    };
    run(&[dir(D1, d)])
}

/// any text of one or two printable characters, or white space, wherever a directive has one
fn strings() {
    let st = || {
        let n = 1 + choose(2);
        (0..n).map(|_| byte(&minus(minus(union(range(0x20, 0x7e), set_of(b"\t\n")), set_of(b"\"")), set_of(b"\\")))).collect::<Bs>()
    };
    let t = b("*");
    let mut d = dir(D1, kind(4));
    d.d = match choose(14) {
        0 => D::Txn(t, None, Some(st()), vec![]),
        1 => D::Txn(t, Some(st()), Some(b("n")), vec![]),
        2 => D::Txn(t, Some(b("p")), Some(st()), vec![]),
        3 => D::Txn(t, Some(st()), Some(b("")), vec![]),
        4 => D::Txn(t, Some(b("")), Some(st()), vec![post("Assets:A")]),
        5 => D::Document(b("Assets:A"), st()),
        6 => D::Note(b("Assets:A"), st()),
        7 => D::Event(st(), b("d")),
        8 => D::Event(b("e"), st()),
        9 => D::Query(st(), b("s")),
        10 => D::Query(b("q"), st()),
        11 => D::Custom(st(), vec![Val::Str(b("x"))]),
        12 => D::Custom(b("c"), vec![Val::Str(st()), Val::Str(b("y"))]),
        _ => {
            d.meta.kv.push((b("key"), Val::Str(st())));
            D::Close(b("Assets:A"))
        }
    };
    run(&[d])
}

pub const JOBS: &[Job] = &[
    job("header", 0, || run(&[header()]), "8 kinds of flag, 7 of payee and narration, 7 of tags, links and metadata"),
    job("kinds", 0, kinds, "12 kinds of directive, plain and rich, with 7 kinds of tags, links and metadata"),
    job("opens", 0, opens, "open with 0 to 6 currencies, every booking method, 5 account types"),
    job("accounts", 0, accounts, "accounts of 1 to 4 components in 7 kinds of directive"),
    job("postings2", 0, postings2, "every pair of 14 kinds of posting, with and without metadata"),
    job("postings3", 1, postings3, "every triple of 14 kinds of posting"),
    job("many_postings", 0, many_postings, "0 to 33 postings"),
    job("txns", 1, txns, "two transactions, every header, every pair of postings"),
    job("metavals", 0, metavals, "every pair of 14 metadata values on 4 kinds of directive and on postings"),
    job("custom", 0, custom, "custom with 0 to 3 values of 13 kinds"),
    job("strings", 0, strings, "one or two printable characters or white space in each of 14 places of a string"),
    job("keywords", 0, keywords, "28 keywords and other keys, 13 values, 12 directives, postings and pushmeta"),
    job("plugins", 0, plugins, "0 to 3 plugins with and without config"),
    job("three", 0, three, "three directives of any kind in a row"),
];
