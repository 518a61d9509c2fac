//! C20: rendering a directive and parsing it again gives the same directive.
use crate::c19::*;
use crate::model::*;
use crate::util::*;

const D1: &str = "2024-02-03";
/// parse, render each directive, parse what was rendered, compare
fn again(x: &str, ds: &[Dir], n: usize) {
    with_parse(x, |_, p| {
        let p = match p {
            Ok(p) => p,
            Err(_) => {
                // only arithmetic may fail
                check(ds.is_empty(), "valid ledger rejected");
                return;
            }
        };
        cover(0);
        check(p.directives.len() == n, "number of directives");
        let mut y = String::new();
        for d in &p.directives {
            y.push_str(&d.to_string());
            y.push('\n');
        }
        with_ok(&y, "a rendered directive was rejected", |_, q| {
            cover(1);
            check(q.directives.len() == n, "a rendered ledger has the same number of directives");
            for (i, (a, b)) in p.directives.iter().zip(&q.directives).enumerate() {
                check(a.item() == b.item(), "a rendered directive equals the one it was rendered from");
                if let Some(m) = ds.get(i) {
                    m.verify(b.item());
                }
            }
        })
    })
}
fn go(ds: &[Dir]) {
    let mut x = Text::new();
    for d in ds {
        d.put(&mut x);
    }
    again(x.str(), ds, ds.len())
}
fn kinds() {
    let k = choose(KINDS);
    let d = if flip() { kind_rich(k) } else { kind(k) };
    let mut m = tl_meta();
    if k == 11 {
        m.ltags.append(&mut m.htags);
        m.llinks.append(&mut m.hlinks);
    }
    go(&[Dir { date: b(D1), d, meta: m }])
}
fn opens() {
    let cs = match choose(5) {
        0 => vec![],
        1 => vec![up("US")],
        2 => vec![b("AAA"), up("US")],
        3 => vec![b("CCC"), b("A"), b("DD")],
        _ => vec![b("A"), b("B2"), b("C.C"), b("D-D"), b("E_E"), b("F'F")],
    };
    let bk = pick(&[None, Some("STRICT"), Some("STRICT_WITH_SIZE"), Some("NONE"), Some("AVERAGE"), Some("FIFO"), Some("LIFO"), Some("HIFO")]).map(b);
    go(&[Dir { date: b(D1), d: D::Open(nm("Assets:A"), cs, bk), meta: tl_meta() }])
}
fn postings1() {
    let i = choose(14);
    let f = flip();
    let fl = flags(choose(8));
    let mut p = posting_of(i, f);
    if flip() && fl[0] != b't' {
        p.flag = Some(fl);
    }
    go(&[Dir { date: b(D1), d: D::Txn(b("*"), None, Some(b("x")), vec![p]), meta: Meta::default() }])
}
fn postings2() {
    let (i, j) = (choose(14), choose(14));
    let f = flip();
    go(&[Dir { date: b(D1), d: D::Txn(b("*"), None, Some(b("x")), vec![posting_of(i, f), posting_of(j, false)]), meta: tl_kv() }])
}
/// metadata of the transaction itself, before the postings
fn tl_kv() -> Meta {
    let mut m = Meta::default();
    if flip() {
        m.kv = vec![(b("kk"), Val::Num(b("1")))];
        m.ltags = vec![b("t")];
    }
    m
}
fn costs() {
    let o = |s: &str| if flip() { Some(dg(s)) } else { None };
    let c = Cost { per: o("5."), total: o("-7"), cur: if flip() { Some(up("US")) } else { None }, date: o("2023-12-1"), label: if flip() { Some(nm("a b")) } else { None }, merge: flip() };
    let price = match choose(9) {
        8 => None,
        k => Some(Prc { total: k & 1 == 1, num: if k & 2 != 0 { Some(dg("3.")) } else { None }, cur: if k & 4 != 0 { Some(up("EU")) } else { None } }),
    };
    // a total price without a number is the same as any other
    let pr = price.map(|p| if p.num.is_none() { Prc { total: false, ..p } } else { p });
    let p = Post { num: Some(b("10")), cur: Some(b("HOOL")), cost: if flip() { Some(c) } else { None }, price: pr, ..post("Assets:A") };
    go(&[Dir { date: b(D1), d: D::Txn(b("*"), None, None, vec![p, post("Equity:Z")]), meta: Meta::default() }])
}
fn balances() {
    let n = match choose(5) {
        0 => dg("1"),
        1 => dg("-0."),
        2 => b("1234567.890"),
        3 => b("0"),
        _ => b("-0.000001"),
    };
    let t = match choose(4) {
        0 => None,
        1 => Some(dg("0.")),
        2 => Some(b("0")),
        _ => Some(dg("1")),
    };
    go(&[Dir { date: b(D1), d: D::Balance(nm("Assets:A"), n, t, up("US")), meta: tl_meta() }])
}
fn metavals() {
    let (k, i, j) = (pick(&[0u8, 3, 4, 11]), choose(VALS + 1), choose(VALS + 1));
    let v = |k| if k == VALS { Val::None } else { val(k) };
    let m = Meta { kv: vec![(b("aa"), v(i)), (b("bb"), v(j))], ..Meta::default() };
    let on_posting = k == 0 && flip();
    let mut d = Dir { date: b(D1), d: kind(k), meta: Meta::default() };
    if on_posting {
        if let D::Txn(_, _, _, ps) = &mut d.d {
            ps[0].meta = m;
        }
    } else {
        d.meta = m;
    }
    go(&[d])
}
fn custom() {
    let n = choose(4);
    let ks: Vec<u8> = (0..n).map(|_| choose(VALS)).collect();
    assume(apart(&ks));
    let mut d = dir(D1, D::Custom(nm("ty"), ks.iter().map(|k| val(*k)).collect()));
    if flip() {
        d.meta.ltags = vec![b("t1"), b("t2")];
        d.meta.llinks = vec![b("l1")];
        d.meta.kv = vec![(b("kk"), Val::Bool(false))];
    }
    go(&[d])
}
fn dates() {
    let k = choose(KINDS);
    let mut d = dir("2024-01-01", kind(k));
    d.date = match choose(4) {
        0 => dg("000"),
        1 => dg("999"),
        2 => dg("199"),
        _ => dg("202"),
    };
    d.date.extend_from_slice(pick(&["-01-01", "/12-31", "-02/28", "/09/09"]).as_bytes());
    go(&[d])
}
/// expressions in each place that takes a number
fn exprs() {
    let mut e = Text::new();
    let op = |e: &mut Text| {
        e.lit(pick(&["+", " - ", "*", " / "]));
    };
    match choose(6) {
        0 => {
            e.lit("1");
            op(&mut e);
            e.lit("2");
            op(&mut e);
            e.lit("3.50");
        }
        1 => {
            e.lit("(1");
            op(&mut e);
            e.lit("2)");
            op(&mut e);
            e.lit("4");
        }
        2 => {
            e.lit("8");
            op(&mut e);
            e.lit("(4");
            op(&mut e);
            e.lit("2)");
        }
        3 => {
            e.lit("-(1");
            op(&mut e);
            e.lit("-2)");
        }
        4 => {
            e.lit("--").sym(DIGIT, 1);
            op(&mut e);
            e.lit("-4");
        }
        _ => {
            e.lit("((").sym(DIGIT, 1);
            e.lit(".0))");
            op(&mut e);
            e.lit("((1,000.25))");
        }
    }
    let c = pick(&[
        "2024-01-01 price USD @ EUR\n",
        "2024-01-01 balance Assets:A @ EUR\n",
        "2024-01-01 balance Assets:A @ ~ 0.1 EUR\n",
        "2024-01-01 custom \"x\" @ TRUE\n",
        "2024-01-01 custom \"x\" @ EUR\n",
        "2024-01-01 close Assets:A\n  key: @\n",
        "2024-01-01 close Assets:A\n  key: @ USD\n",
        "2024-01-01 *\n  Assets:A @\n",
        "2024-01-01 *\n  Assets:A @ USD { @ } @ @ EUR\n",
        "2024-01-01 *\n  Assets:A 1 USD {@ # @ EUR, \"x\"} @@ @ EUR\n",
    ]);
    let mut x = Text::new();
    let v = c.as_bytes();
    let mut i = 0;
    while i < v.len() {
        // the sign for a price stays
        if v[i] == b'@' && v[i + 1] == b'@' {
            x.lit("@@");
            i += 2;
        } else if v[i] == b'@' && v[i - 2] == b'}' {
            x.lit("@");
            i += 1;
        } else if v[i] == b'@' {
            x.b.extend_from_slice(&e.b);
            i += 1;
        } else {
            x.b.push(v[i]);
            i += 1;
        }
    }
    again(x.str(), &[], 1)
}
/// numbers of all sizes
fn numbers() {
    let mut n = Text::new();
    if flip() {
        n.lit("-");
    }
    n.lit(pick(&["", "1", "1,234,56", "1234567890123456789"]));
    n.sym(DIGIT, 1);
    if flip() {
        n.lit(".");
        n.lit(pick(&["", "0", "00", "12345"]));
        n.sym(DIGIT, 1);
        n.lit(pick(&["", "0"]));
    }
    let mut x = Text::new();
    x.lit("2024-01-01 price USD ");
    x.b.extend_from_slice(&n.b);
    x.lit(" EUR\n");
    again(x.str(), &[Dir { date: b("2024-01-01"), d: D::Price(b("USD"), n.b.clone(), b("EUR")), meta: Meta::default() }], 1)
}
/// strings with anything in them
fn strings() {
    let plain = minus(minus(ASCII, set_of(b"\"")), set_of(b"\\"));
    let mut s = Text::new();
    match choose(5) {
        0 => {
            s.sym(plain, 1);
            s.sym(plain, 1);
        }
        1 => {
            s.any2();
        }
        2 => {
            s.any3();
        }
        3 => {
            s.lit("a").utf4();
        }
        _ => {
            s.lit("line 1\nline 2\r\n  ; no comment\n").sym(plain, 1);
        }
    }
    let plain = |k: u8, t: Bs| match k {
        0 => D::Txn(b("*"), Some(t), Some(b("n")), vec![]),
        1 => D::Txn(b("*"), Some(b("p")), Some(t), vec![]),
        2 => D::Document(b("Assets:A"), t),
        3 => D::Note(b("Assets:A"), t),
        4 => D::Event(t.clone(), t),
        5 => D::Query(t.clone(), t),
        6 => D::Custom(t.clone(), vec![Val::Str(t)]),
        7 => D::Txn(b("*"), None, None, vec![Post { num: Some(b("1")), cur: Some(b("USD")), cost: Some(Cost { label: Some(t.clone()), ..Cost::default() }), ..post("Assets:A") }]),
        _ => D::Txn(b("*"), None, None, vec![Post { meta: Meta { kv: vec![(b("kk"), Val::Str(t))], ..Meta::default() }, ..post("Assets:A") }]),
    };
    let k = choose(9);
    // what is written has quotes and backslashes escaped
    let mut w = Bs::new();
    let n = choose(7);
    let esc = ["", "\"", "\\", "\"\"", "\\\"", "\"\\", "\\n"][n as usize];
    for c in esc.bytes() {
        if c != b'n' {
            w.push(b'\\');
        }
        w.push(c);
    }
    w.extend_from_slice(&s.b);
    let mut v = b(esc);
    v.extend_from_slice(&s.b);
    let mut x = Text::new();
    dir(D1, plain(k, w)).put(&mut x);
    again(x.str(), &[dir(D1, plain(k, v))], 1)
}
/// plugins are rendered as such, too
fn plugins() {
    let ch = minus(minus(ASCII, set_of(b"\"")), set_of(b"\\"));
    let mut x = Text::new();
    x.lit("plugin \"m").sym(ch, 1);
    x.lit(pick(&["", "\\\"", "\\\\"])).lit("\"");
    if flip() {
        x.lit(" \"").sym(ch, 1);
        x.lit(pick(&["", "\\\"", "\\\\"])).lit("\"");
    }
    x.lit("\n");
    with_ok(x.str(), "valid ledger rejected", |_, p| {
        let y = p.plugins[0].to_string();
        with_ok(&y, "a rendered plugin was rejected", |_, q| {
            check(q.plugins.len() == 1 && p.plugins[0] == q.plugins[0], "a rendered plugin equals the one it was rendered from");
        })
    })
}
fn three() {
    let dates = ["2024-01-01", "2024-01-02", "2024-01-03"];
    let ds: Vec<Dir> = (0..3)
        .map(|i| {
            let k = choose(KINDS);
            let mut d = dir(dates[i], if i == 1 { kind_rich(k) } else { kind(k) });
            if i != 1 {
                d.meta.kv.push((b("key"), Val::Num(b(["7", "8", "9"][i]))));
                d.meta.ltags.push(b(["ta", "tb", "tc"][i]));
            }
            d
        })
        .collect();
    go(&ds)
}

pub const JOBS: &[Job] = &[
    job("header", 0, || go(&[header()]), "8 kinds of flag, 7 of payee and narration, 7 of tags, links and metadata"),
    job("kinds", 0, kinds, "12 kinds of directive, plain and rich, with 7 kinds of tags, links and metadata"),
    job("opens", 0, opens, "open with 0 to 6 currencies, every booking method"),
    job("postings1", 0, postings1, "14 kinds of posting with every flag"),
    job("postings2", 0, postings2, "every pair of 14 kinds of posting, with and without metadata"),
    job("costs", 0, costs, "every subset of cost components, 9 kinds of price"),
    job("balances", 0, balances, "balances with and without tolerance, 5 kinds of number"),
    job("metavals", 0, metavals, "every pair of 14 metadata values on 4 kinds of directive and on postings"),
    job("custom", 0, custom, "custom with 0 to 3 values of 13 kinds, with and without metadata"),
    job("dates", 0, dates, "years 0000 to 9999 in four blocks of ten, both separators, 12 kinds of directive"),
    job("exprs", 0, exprs, "6 shapes of expression with all operators, in 10 places"),
    job("numbers", 0, numbers, "signs, up to 20 digits before and 7 after the point"),
    job("strings", 0, strings, "strings with any 2 ASCII characters or one wider one, several lines, quotes and backslashes, in 9 places"),
    job("plugins", 0, plugins, "plugins with any ASCII character and escapes in name and config"),
    job("three", 0, three, "three directives of any kind in a row"),
];
