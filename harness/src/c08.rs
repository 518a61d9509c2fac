//! C08: duplicates within one declaration are rejected, and nothing else is.
use crate::util::*;

const ID: Set = union(ALNUM, set_of(b"-_/."));

fn distinct(b: &[u8], rs: &[Range<usize>]) -> bool {
    let mut acc = true;
    for i in 0..rs.len() {
        for j in 0..i {
            acc &= !eq(&b[rs[i].clone()], &b[rs[j].clone()]);
        }
    }
    acc
}
fn err_in_line(src: &BeancountSources, e: &ParseError, line: usize) -> bool {
    e.errors.iter().any(|e| src.resolve_span(&Report::span(e)).start_line == line)
}
const HEADS: &[&str] = &["* \"x\"", "open Assets:A", "close Assets:A", "commodity USD", "price USD 1 EUR", "note Assets:A \"x\"", "document Assets:A \"x\"", "event \"a\" \"b\"", "pad Assets:A Assets:B", "balance Assets:A 1 USD", "query \"a\" \"b\""];

/// n tags (or links), the first h of them on the first line, the others on lines of their own
fn taglinks(c: &str, n: usize, h: usize, head: &str) {
    let mut x = Text::new();
    x.lit("2024-01-01 ").lit(head);
    let mut rs = Vec::new();
    for i in 0..n {
        x.lit(if i < h { " " } else { "\n  " }).lit(c).lit("t");
        rs.push(x.sym(ID, 1));
    }
    x.lit("\n");
    let good = distinct(&x.b, &rs);
    with_iff(x.str(), good, "different tags or links rejected", "duplicate tag or link accepted", |_, p| {
        let m = p.directives[0].metadata();
        let (t, l) = (m.tags().len(), m.links().len());
        check(if c == "#" { (t, l) == (n, 0) } else { (t, l) == (0, n) }, "number of tags and links");
        for r in &rs {
            let s = unsafe { std::str::from_utf8_unchecked(&x.b[r.start - 1..r.end]) };
            check(if c == "#" { has_tag(m, s) } else { has_link(m, s) }, "tag or link missing");
        }
    })
}
fn header() {
    let c = pick(&["#", "^"]);
    taglinks(c, 3, 3, pick(HEADS))
}
fn mixed() {
    let c = pick(&["#", "^"]);
    let (n, h) = pick(&[(2, 0), (2, 1), (3, 1), (3, 2)]);
    taglinks(c, n, h, pick(HEADS))
}
fn four() {
    let c = pick(&["#", "^"]);
    taglinks(c, 4, choose(5) as usize, "* \"x\"")
}
/// a tag and a link of the same name, a tag of the posting and of the directive
fn not_dup() {
    let t = pick(&[
        "2024-01-01 * \"x\" #aa ^aa\n",
        "2024-01-01 * \"x\" #aa\n  ^aa\n",
        "2024-01-01 * \"x\" #aa\n  aa: \"aa\"\n",
        "2024-01-01 * \"x\" #aa #AA\n",
        "2024-01-01 * \"x\"\n  aa: 1\n  aA: 1\n",
        "2024-01-01 * \"x\"\n  aa: 1\n  Assets:A  1 USD\n    aa: 1\n  Assets:B\n    aa: 1\n",
        "2024-01-01 * \"x\" #aa ^aa\n  Assets:A  1 USD\n    #aa\n    ^aa\n  Assets:B\n    #aa\n",
        "2024-01-01 * \"x\" #aa\n2024-01-01 * \"x\" #aa\n",
        "2024-01-01 open Assets:A USD\n2024-01-01 open Assets:B USD\n",
        "2024-01-01 custom \"x\" USD USD #aa #aa \"x\" \"x\"\n",
        "2024-01-01 custom \"x\" #aa\n  #aa\n",
        "2024-01-01 * \"x\"\n  aa: #bb\n  #bb\n",
        "2024-01-01 * \"x\"\n  aa: \"v\"\n  bb: \"v\"\n",
        "pushtag #aa\n2024-01-01 * \"x\" #aa\npoptag #aa\n",
        "pushmeta aa: 1\n2024-01-01 * \"x\"\n  aa: 1\npopmeta aa:\n",
        "plugin \"a\"\nplugin \"a\"\n",
        "2024-01-01 * \"x\"\n  Assets:A  1 USD {1 USD} @ 1 USD\n  Assets:A  1 USD {1 USD} @ 1 USD\n",
    ]);
    with_ok(t, "a ledger without duplicates is rejected", |_, _| {})
}
fn keys(head: &str, n: usize, post: bool) {
    let mut x = Text::new();
    x.lit("2024-01-01 ").lit(head).lit("\n");
    if post {
        x.lit("  kk0: 1\n  Assets:A  1 USD\n");
    }
    let mut rs = Vec::new();
    for _ in 0..n {
        x.lit(if post { "    kk" } else { "  kk" });
        rs.push(x.sym(union(ALNUM, set_of(b"-_")), 1));
        x.lit(": \"v\"\n");
    }
    let good = distinct(&x.b, &rs);
    with_iff(x.str(), good, "different keys rejected", "duplicate key accepted", |_, p| {
        let m = if post { posting(the_txn(p), 0).metadata() } else { p.directives[0].metadata() };
        check(m.key_values().len() == n, "number of keys");
        for r in &rs {
            let s = unsafe { std::str::from_utf8_unchecked(&x.b[r.start - 2..r.end]) };
            check(meta_str(m, s) == Some("v"), "key missing");
        }
    })
}
fn keys_dir() {
    keys(pick(&["* \"x\"", "open Assets:A", "custom \"x\" 1", "commodity USD", "balance Assets:A 1 USD", "note Assets:A \"x\""]), 3, false)
}
fn keys_posting() {
    keys("* \"x\"", 3, true)
}
/// posting: tags and links
fn posting_tags() {
    let c = pick(&["#", "^"]);
    let mut x = Text::new();
    x.lit("2024-01-01 * \"x\" ").lit(c).lit("ta\n  Assets:A  1 USD\n");
    let mut rs = Vec::new();
    for _ in 0..3 {
        x.lit("    ").lit(c).lit("t");
        rs.push(x.sym(ID, 1));
        x.lit("\n");
    }
    let good = distinct(&x.b, &rs);
    with_iff(x.str(), good, "different tags or links rejected", "duplicate tag or link accepted", |_, p| {
        let m = posting(the_txn(p), 0).metadata();
        check(m.tags().len() + m.links().len() == 3, "number of tags and links of a posting");
        let d = p.directives[0].metadata();
        check(d.tags().len() + d.links().len() == 1, "number of tags and links of the directive");
    })
}
fn currencies(n: usize) {
    let mut x = Text::new();
    x.lit("2024-01-01 open Assets:A ");
    let mut rs = Vec::new();
    for i in 0..n {
        x.lit(if i > 0 { ",U" } else { "U" });
        rs.push(x.sym(union(UPPER, DIGIT), 1));
        x.lit("D");
    }
    x.lit("\n");
    let good = distinct(&x.b, &rs);
    with_iff(x.str(), good, "different currencies rejected", "duplicate currency accepted", |_, p| {
        if let DirectiveVariant::Open(o) = p.directives[0].variant() {
            check(o.currencies().len() == n, "number of currencies");
            for r in &rs {
                let s = &x.b[r.start - 1..r.end + 1];
                check(o.currencies().any(|c| eq(c.item().as_ref().as_bytes(), s)), "currency missing");
            }
        } else {
            check(false, "open lost")
        }
    })
}
/// cost components: each field at most once
fn cost() {
    const C: &[(&str, u8)] = &[("1", 1), ("# 2", 2), ("1 # 2", 3), ("USD", 4), ("1 USD", 5), ("# 2 USD", 6), ("2024-01-02", 8), ("\"l\"", 16), ("*", 32)];
    let mut x = Text::new();
    x.lit("2024-01-01 * \"x\"\n  Assets:A  1 EUR {");
    let mut seen = 0u8;
    let mut good = true;
    let n = choose(3) + 1;
    for i in 0..n {
        let (s, m) = pick(C);
        x.lit(if i > 0 { ", " } else { "" }).lit(s);
        good &= seen & m == 0;
        seen |= m;
    }
    x.lit("}\n");
    with_iff(x.str(), good, "cost of distinct components rejected", "duplicate cost component accepted", |_, p| {
        let c = posting(the_txn(p), 0).cost_spec().unwrap();
        let f = |b: bool, m: u8| check(b == (seen & m != 0), "cost component present exactly if written");
        f(c.per_unit().is_some(), 1);
        f(c.total().is_some(), 2);
        f(c.currency().is_some(), 4);
        f(c.date().is_some(), 8);
        f(c.label().is_some(), 16);
        f(c.merge(), 32);
    })
}
/// the error is in the line of the second occurrence
fn place() {
    let (t, line) = pick(&[
        ("2024-01-01 * \"x\" #aa\n  #bb\n  #aa\n", 3),
        ("2024-01-01 * \"x\" ^aa\n  bb: 1\n  ^aa\n", 3),
        ("2024-01-01 * \"x\"\n  aa: 1\n  bb: 1\n\n2024-01-01 * \"x\"\n  aa: 1\n  bb: 1\n  aa: 1\n", 8),
        ("2024-01-01 * \"x\"\n  Assets:A  1 USD\n    aa: 1\n    aa: 1\n  Assets:A  1 USD\n", 4),
        ("2024-01-01 * \"x\"\n  Assets:A  1 USD\n    #aa\n    #aa\n  Assets:A  1 USD\n", 4),
        ("2024-01-01 open Assets:A USD\n2024-01-01 open Assets:B USD,EUR,USD\n", 2),
    ]);
    with_parse(t, |src, p| match p {
        Ok(_) => check(false, "duplicate accepted"),
        Err(e) => {
            cover(1);
            check(e.errors.len() == 1 && err_in_line(src, &e, line), "the error is in the line of the duplicate");
        }
    })
}

pub const JOBS: &[Job] = &[
    job("header", 0, header, "3 tags or links on the first line of 11 kinds of directive, names symbolic"),
    job("mixed", 0, mixed, "2 or 3 tags or links on the first and further lines, 11 kinds"),
    job("four", 0, four, "4 tags or links in all positions"),
    job("not_dup", 0, not_dup, "17 ledgers that look like duplicates"),
    job("keys", 0, keys_dir, "3 metadata keys of a directive, names symbolic"),
    job("posting_keys", 0, keys_posting, "3 metadata keys of a posting"),
    job("posting_tags", 0, posting_tags, "3 tags or links of a posting"),
    job("currencies", 0, || currencies(3), "3 currencies of an open"),
    job("currencies4", 0, || currencies(4), "4 currencies of an open"),
    job("cost", 0, cost, "1 to 3 cost components of 9 kinds"),
    job("place", 0, place, "position of the error"),
];
