//! C07: pushtag/poptag and pushmeta/popmeta act on exactly the directives between them.
use crate::util::*;

const KINDS: &[&str] = &["open Assets:A", "note Assets:A \"x\"", "close Assets:A", "commodity USD", "price USD 1 EUR", "event \"a\" \"b\"", "pad Assets:A Assets:B", "balance Assets:A 1 USD", "query \"a\" \"b\"", "custom \"a\"", "document Assets:A \"x\"", "* \"x\"\n  Assets:A  1 USD\n  Assets:B"];

/// histories over two tags; every directive carries exactly the tags open at that point
fn tags(steps: usize, own: bool) {
    let mut x = Text::new();
    let mut open = [0u32; 2];
    let mut bad = 0;
    let mut want: Vec<[bool; 2]> = Vec::new();
    for s in 0..steps {
        match choose(5) {
            k @ (0 | 1) => {
                x.lit("pushtag ").lit(["#aa", "#bb"][k as usize]).lit("\n");
                open[k as usize] += 1;
            }
            k @ (2 | 3) => {
                let k = k as usize - 2;
                x.lit("poptag ").lit(["#aa", "#bb"][k]).lit("\n");
                if open[k] == 0 {
                    bad += 1;
                } else {
                    open[k] -= 1;
                }
            }
            _ => {
                let o = own && s % 2 == 0;
                x.lit("2024-01-01 note Assets:A \"x\"").lit(if o { " #aa\n" } else { "\n" });
                want.push([open[0] > 0 || o, open[1] > 0]);
            }
        }
    }
    x.lit("2024-01-01 note Assets:A \"x\"\n");
    want.push([open[0] > 0, open[1] > 0]);
    bad += open[0] + open[1];
    if bad > 0 && flip() {
        // close what is open, so that the directives can be looked at
        for k in 0..2 {
            for _ in 0..open[k] {
                x.lit("poptag ").lit(["#aa", "#bb"][k]).lit("\n");
                bad -= 1;
            }
        }
    }
    with_parse(x.str(), |_, p| match p {
        Ok(p) => {
            cover(0);
            check(bad == 0, "unbalanced pushtag or poptag accepted");
            check(p.directives.len() == want.len(), "number of directives");
            for (d, w) in p.directives.iter().zip(&want) {
                check(has_tag(d.metadata(), "aa") == w[0], "tag aa where it was pushed, and only there");
                check(has_tag(d.metadata(), "bb") == w[1], "tag bb where it was pushed, and only there");
                check(d.metadata().tags().len() == w[0] as usize + w[1] as usize, "number of tags");
                check(d.metadata().links().len() == 0, "no links");
            }
        }
        Err(e) => {
            cover(1);
            check(bad > 0, "balanced pushtag and poptag rejected");
            check(e.errors.len() == bad as usize, "one error for each unmatched pushtag or poptag");
        }
    })
}
/// two tags with symbolic names: pushed, one popped again
fn tag_names() {
    let mut x = Text::new();
    x.lit("pushtag #");
    let a = x.sym(union(ALNUM, set_of(b"-_/.")), 2);
    x.lit("\n2024-01-01 note Assets:A \"1\" #");
    let o = x.sym(union(ALNUM, set_of(b"-_/.")), 2);
    x.lit("\npoptag #");
    let b = x.sym(union(ALNUM, set_of(b"-_/.")), 2);
    x.lit("\n2024-01-01 note Assets:A \"2\"\n");
    let t = |r: &Range<usize>| unsafe { std::str::from_utf8_unchecked(&x.b[r.clone()]) };
    let good = eq(&x.b[a.clone()], &x.b[b.clone()]);
    with_iff(x.str(), good, "matching poptag rejected", "poptag of another tag accepted", |_, p| {
        let (d1, d2) = (p.directives[0].metadata(), p.directives[1].metadata());
        check(has_tag(d1, t(&a)) && has_tag(d1, t(&o)), "pushed and own tag");
        check(d1.tags().len() == if eqs(t(&a), t(&o)) { 1 } else { 2 }, "number of tags");
        check(d2.tags().len() == 0, "popped tag");
    })
}
/// histories over two keys, values distinct
fn metas(steps: usize, own: bool) {
    const VAL: &[&str] = &["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7"];
    const KEY: &[&str] = &["kk", "ll"];
    let mut x = Text::new();
    let mut open: [Vec<&str>; 2] = [Vec::new(), Vec::new()];
    let mut bad = 0;
    let mut want: Vec<[Option<&str>; 2]> = Vec::new();
    for s in 0..steps {
        match choose(5) {
            k @ (0 | 1) => {
                x.lit("pushmeta ").lit(KEY[k as usize]).lit(": \"").lit(VAL[s]).lit("\"\n");
                open[k as usize].push(VAL[s]);
            }
            k @ (2 | 3) => {
                let k = k as usize - 2;
                x.lit("popmeta ").lit(KEY[k]).lit(":\n");
                if open[k].pop().is_none() {
                    bad += 1;
                }
            }
            _ => {
                let o = own && s % 2 == 0;
                x.lit("2024-01-01 note Assets:A \"x\"\n").lit(if o { "  kk: \"own\"\n" } else { "" });
                want.push([if o { Some("own") } else { open[0].last().copied() }, open[1].last().copied()]);
            }
        }
    }
    x.lit("2024-01-01 note Assets:A \"x\"\n");
    want.push([open[0].last().copied(), open[1].last().copied()]);
    if (!open[0].is_empty() || !open[1].is_empty()) && flip() {
        for k in 0..2 {
            for _ in 0..open[k].len() {
                x.lit("popmeta ").lit(KEY[k]).lit(":\n");
            }
            open[k].clear();
        }
    }
    let good = bad == 0 && open[0].is_empty() && open[1].is_empty();
    with_iff(x.str(), good, "balanced pushmeta and popmeta rejected", "unbalanced pushmeta or popmeta accepted", |_, p| {
        check(p.directives.len() == want.len(), "number of directives");
        for (d, w) in p.directives.iter().zip(&want) {
            let m = d.metadata();
            for k in 0..2 {
                let v = meta_str(m, KEY[k]);
                check(v == w[k], "value of a pushed key: own value first, else the last one still pushed");
                let v2 = m.key_value(Key::try_from(KEY[k]).unwrap());
                check(v2.is_some() == w[k].is_some(), "key_value agrees with key_values");
            }
            check(m.key_values().len() == w[0].is_some() as usize + w[1].is_some() as usize, "number of keys");
        }
    })
}
/// symbolic key names and values
fn meta_names() {
    let mut x = Text::new();
    let ks = union(ALNUM, set_of(b"-_"));
    x.lit("pushmeta k");
    let a = x.sym(ks, 2);
    x.lit(": \"");
    let v = x.sym(minus(PRINT, set_of(b"\"\\")), 2);
    x.lit("\"\n2024-01-01 note Assets:A \"1\"\n  k");
    let o = x.sym(ks, 2);
    x.lit(": \"own\"\npopmeta k");
    let b = x.sym(ks, 2);
    x.lit(":\n2024-01-01 note Assets:A \"2\"\n");
    let t = |r: &Range<usize>| unsafe { std::str::from_utf8_unchecked(&x.b[r.clone()]) };
    let good = eq(&x.b[a.clone()], &x.b[b.clone()]);
    with_iff(x.str(), good, "matching popmeta rejected", "popmeta of another key accepted", |_, p| {
        let (d1, d2) = (p.directives[0].metadata(), p.directives[1].metadata());
        let same = eq(&x.b[a.clone()], &x.b[o.clone()]);
        let key = x.b[a.start - 1..a.end].to_vec();
        let own = x.b[o.start - 1..o.end].to_vec();
        let u = |b: &[u8]| unsafe { std::str::from_utf8_unchecked(b) }.to_string();
        check(eqs(meta_str(d1, &u(&own)).unwrap_or("?"), "own"), "own value");
        check(eqs(meta_str(d1, &u(&key)).unwrap_or("?"), if same { "own" } else { t(&v) }), "pushed value");
        check(d1.key_values().len() == if same { 1 } else { 2 }, "number of keys");
        check(d2.key_values().len() == 0, "popped key");
    })
}
/// every kind of directive is affected, postings never are; tags and keys together
fn kinds() {
    let k = KINDS[choose(KINDS.len() as u8) as usize];
    let v = pick(&[("\"s\"", 0), ("1 USD", 1), ("TRUE", 2), ("2024-01-01", 3), ("Assets:A", 4), ("USD", 5), ("#tt", 6), ("^ll", 7), ("12", 8), ("NULL", 9)]);
    let x = format!("pushtag #aa\npushmeta kk: {}\n2024-01-01 {}\n  mm: \"z\"\npoptag #aa\npopmeta kk:\n2024-01-01 {}\n", v.0, k, k);
    with_ok(&x, "valid ledger rejected", |_, p| {
        let (d1, d2) = (p.directives[0].metadata(), p.directives[1].metadata());
        check(has_tag(d1, "aa") && d1.tags().len() == 1, "pushed tag");
        check(d2.tags().len() == 0 && d2.key_values().len() == 0, "popped tag and key");
        let m = meta_get(d1, "kk");
        let ok = match (m, v.1) {
            (Some(MetaValue::Simple(SimpleValue::String(s))), 0) => *s == "s",
            (Some(MetaValue::Amount(a)), 1) => a.number().value() == Decimal::from(1) && *a.currency().item() == "USD",
            (Some(MetaValue::Simple(SimpleValue::Bool(b))), 2) => *b,
            (Some(MetaValue::Simple(SimpleValue::Date(d))), 3) => d.year() == 2024,
            (Some(MetaValue::Simple(SimpleValue::Account(a))), 4) => a.as_ref() == "Assets:A",
            (Some(MetaValue::Simple(SimpleValue::Currency(a))), 5) => *a == "USD",
            (Some(MetaValue::Simple(SimpleValue::Tag(a))), 6) => *a == "tt",
            (Some(MetaValue::Simple(SimpleValue::Link(a))), 7) => *a == "ll",
            (Some(MetaValue::Simple(SimpleValue::Expr(a))), 8) => a.value() == Decimal::from(12),
            (Some(MetaValue::Simple(SimpleValue::Null)), 9) => true,
            _ => false,
        };
        check(ok, "pushed value");
        let on_txn = matches!(p.directives[0].variant(), DirectiveVariant::Transaction(_));
        if on_txn {
            let t = as_txn(&p.directives[0]).unwrap();
            // mm: belongs to the last posting
            check(posting(t, 0).metadata().is_empty(), "postings are not affected");
            check(posting(t, 1).metadata().key_values().len() == 1 && posting(t, 1).metadata().tags().len() == 0, "postings are not affected");
            check(d1.key_values().len() == 1, "number of keys");
        } else {
            check(meta_str(d1, "mm") == Some("z") && d1.key_values().len() == 2, "own key and pushed key");
        }
    })
}
/// order of dates does not matter: what counts is the position in the file
fn dates() {
    let mut x = Text::new();
    x.lit("2024-01-0");
    let a = x.sym(set_of(b"123"), 1);
    x.lit(" note Assets:A \"0\"\npushtag #aa\npushmeta kk: 1\n2024-01-02 note Assets:A \"1\"\npoptag #aa\npopmeta kk:\n2024-01-0");
    let b = x.sym(set_of(b"123"), 1);
    x.lit(" note Assets:A \"0\"\n");
    let _ = (a, b);
    with_ok(x.str(), "valid ledger rejected", |_, p| {
        for d in &p.directives {
            let DirectiveVariant::Note(n) = d.variant() else { return check(false, "note lost") };
            let w = *n.comment().item() == "1";
            check(has_tag(d.metadata(), "aa") == w && meta_get(d.metadata(), "kk").is_some() == w, "tags and keys go by position in the file");
        }
    })
}

/// one history spread over an including and an included file, either of which starts further down
fn files(n: usize) {
    const VAL: &[&str] = &["v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7"];
    let d = fs_root();
    let i = choose(n as u8 + 1) as usize;
    let j = i + choose((n - i) as u8 + 1) as usize;
    let mut f = [Text::new(), Text::new()];
    f[choose(2) as usize].lit("; a comment, so that positions here are greater\n\n\n\n\n");
    let (mut tags, mut bad) = (0, 0);
    let mut open: Vec<&str> = Vec::new();
    let mut want: Vec<(bool, Option<&str>)> = Vec::new();
    for s in 0..n + 1 {
        if s == i {
            f[0].lit("include \"c.bean\"\n");
        }
        let x = &mut f[(s >= i && s < j) as usize];
        match if s == n { 4 } else { choose(5) } {
            0 => {
                x.lit("pushtag #aa\n");
                tags += 1;
            }
            1 => {
                x.lit("poptag #aa\n");
                if tags == 0 {
                    bad += 1;
                } else {
                    tags -= 1;
                }
            }
            2 => {
                x.lit("pushmeta kk: \"").lit(VAL[s]).lit("\"\n");
                open.push(VAL[s]);
            }
            3 => {
                x.lit("popmeta kk:\n");
                if open.pop().is_none() {
                    bad += 1;
                }
            }
            _ => {
                x.lit("2024-01-01 note Assets:A \"");
                x.b.push(b'0' + want.len() as u8);
                x.lit("\"\n");
                want.push((tags > 0, open.last().copied()));
            }
        }
    }
    let close = flip();
    if close {
        for _ in 0..tags {
            f[0].lit("poptag #aa\n");
        }
        for _ in &open {
            f[0].lit("popmeta kk:\n");
        }
    } else {
        bad += tags + open.len();
    }
    fs_add(&format!("{d}/a.bean"), &f[0].b);
    fs_add(&format!("{d}/c.bean"), &f[1].b);
    note(f[0].str());
    note(f[1].str());
    let sources = BeancountSources::try_from(std::path::PathBuf::from(format!("{d}/a.bean"))).unwrap();
    let parser = BeancountParser::new(&sources);
    match parser.parse() {
        Ok(p) => {
            cover(0);
            check(bad == 0, "unbalanced push or pop accepted");
            check(p.directives.len() == want.len(), "number of directives");
            for d in &p.directives {
                let DirectiveVariant::Note(c) = d.variant() else { return check(false, "note lost") };
                let w = want[(c.comment().item().as_bytes()[0] - b'0') as usize];
                check(has_tag(d.metadata(), "aa") == w.0 && d.metadata().tags().len() == w.0 as usize, "tags across files");
                check(meta_str(d.metadata(), "kk") == w.1 && d.metadata().key_values().len() == w.1.is_some() as usize, "metadata across files");
            }
        }
        Err(e) => {
            cover(1);
            check(bad > 0, "balanced pushes and pops rejected");
            check(!e.errors.is_empty(), "a failed parse carries no error");
        }
    }
}

pub const JOBS: &[Job] = &[
    job("tags5", 0, || tags(5, false), "every history of 5 steps: push and pop of two tags, directives"),
    job("tags_own", 0, || tags(4, true), "every history of 4 steps, directives with a tag of their own"),
    job("tags6", 1, || tags(6, true), "every history of 6 steps"),
    job("tag_names", 0, tag_names, "three symbolic tag names of 2 characters"),
    job("metas5", 0, || metas(5, false), "every history of 5 steps: push and pop of two keys, directives"),
    job("metas_own", 0, || metas(4, true), "every history of 4 steps, directives with a key of their own"),
    job("metas6", 1, || metas(6, true), "every history of 6 steps"),
    job("meta_names", 0, meta_names, "three symbolic key names, symbolic value"),
    job("kinds", 0, kinds, "12 kinds of directive, 10 types of value"),
    job("files4", 0, || files(4), "every history of 4 steps of a tag and a key over two files, included at any point"),
    job("files5", 1, || files(5), "the same with 5 steps"),
    job("dates", 0, dates, "directives out of date order"),
];
