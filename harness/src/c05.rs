//! C05: every span resolves to the source text of its element, and to its lines.
use crate::util::*;

/// the directive's span starts at its date, resolves to its text, and continues at most over blank
/// and comment lines
fn dir(src: &BeancountSources, x: &[u8], span: &Span, r: &Range<usize>) {
    let s = src.resolve_span(span);
    check(span.start == r.start, "start of a directive");
    let c = s.content.as_bytes();
    let n = r.end - r.start;
    check(c.len() >= n && eq(&c[..n], &x[r.clone()]), "text of a directive");
    check(s.start_line == lines_before(x, r.start), "first line of a directive");
    let mut i = n;
    let mut bol = false;
    // the rest of the line and further lines: blank or comment
    while i < c.len() {
        let b = c[i];
        if b == b'\n' {
            bol = true;
            i += 1;
        } else if b == b' ' || b == b'\t' || b == b'\r' {
            i += 1;
        } else {
            check(b == b';' || (bol && b == b'*'), "a directive's span covers something else");
            while i < c.len() && c[i] != b'\n' {
                i += 1;
            }
        }
    }
}
const PRE: &[&str] = &["", "; c%\n", "\n\n", "; %%\n\n;%x\n", "1999-01-01 note Assets:Z \"%\n%\"\n", "option \"title\" \"%\"\n", "\t\n* %\n", MANY];
const MANY: &str = {
    const N: [u8; 300] = [b'\n'; 300];
    match std::str::from_utf8(&N) {
        Ok(s) => s,
        Err(_) => "",
    }
};

fn full(body: &str, f: impl FnOnce(&BeancountSources, &[u8], &Directive, &dyn Fn(&Span, usize, &'static str))) {
    let pre = pick(PRE);
    let k = choose(4);
    let k2 = choose(4);
    let mut n = 0;
    let t = format!("{}{}", pre, body);
    let np = pre.bytes().filter(|b| *b == b'%').count();
    let (x, r) = tpl(&t, |x, l| {
        ch(x, if n < np { k } else { k2 }, l);
        n += 1;
    });
    with_ok(x.str(), "valid ledger rejected", |src, p| {
        let d = p.directives.last().unwrap();
        dir(src, &x.b, d.span(), &r[0]);
        at(src, &x.b, d.date().span(), &r[1], "span of a date");
        f(src, &x.b, d.item(), &|sp, i, m| at(src, &x.b, sp, &r[i], m));
    })
}
fn txn() {
    full("[[2024-01-01] [*] [\"p%\"] [\"n\"] [#tag] [^link]\n  [key]: [\"v%\"]\n  [[!] [Assets:A$]  [-1 + 2] [USD] [{1 # 2 EUR, [2024-02-02], [\"l%\"], *}] [@@ 2 EUR]]\n    [kk]: [[1] [USD]]\n  [[Assets:C]]]\n", |_, _, d, at| {
        let t = as_txn(d).unwrap();
        at(t.flag().span(), 2, "span of a flag");
        at(t.payee().unwrap().span(), 3, "span of the payee");
        at(t.narration().unwrap().span(), 4, "span of the narration");
        at(d.metadata().tags().next().unwrap().span(), 5, "span of a tag");
        at(d.metadata().links().next().unwrap().span(), 6, "span of a link");
        let (k, v) = d.metadata().key_values().next().unwrap();
        at(k.span(), 7, "span of a key");
        at(v.span(), 8, "span of a metadata value");
        let q = posting(t, 0);
        at(q.span(), 9, "span of a posting");
        at(q.flag().unwrap().span(), 10, "span of a posting's flag");
        at(q.account().span(), 11, "span of an account");
        at(q.amount().unwrap().span(), 12, "span of an amount");
        at(q.currency().unwrap().span(), 13, "span of a currency");
        let c = q.cost_spec().unwrap();
        at(c.span(), 14, "span of a cost");
        at(c.date().unwrap().span(), 15, "span of a cost date");
        at(c.label().unwrap().span(), 16, "span of a cost label");
        at(q.price_annotation().unwrap().span(), 17, "span of a price");
        let (k, v) = q.metadata().key_values().next().unwrap();
        at(k.span(), 18, "span of a posting's key");
        at(v.span(), 19, "span of a posting's metadata value");
        if let MetaValue::Amount(a) = v.item() {
            at(a.number().span(), 20, "span of a number");
            at(a.currency().span(), 21, "span of a currency");
        }
        let q = posting(t, 1);
        at(q.span(), 22, "span of a posting");
        at(q.account().span(), 23, "span of an account");
    })
}
fn opens() {
    full("[[2024-01-01] open [Assets:B$] [USD],[EUR] [\"STRICT\"]\n   [#t]\n   [nn]: [NULL]]\n", |_, _, d, at| {
        if let DirectiveVariant::Open(o) = d.variant() {
            at(o.account().span(), 2, "span of an account");
            for c in o.currencies() {
                let i = if *c.item() == "USD" { 3 } else { 4 };
                at(c.span(), i, "span of a currency");
            }
            at(o.booking().unwrap().span(), 5, "span of a booking method");
            at(d.metadata().tags().next().unwrap().span(), 6, "span of a tag");
            at(d.metadata().key_values().next().unwrap().0.span(), 7, "span of a key");
            // a missing value has no text of its own: only the key is claimed
        } else {
            check(false, "open lost")
        }
    })
}
fn others() {
    match choose(10) {
        0 => full("[[2024-01-01] balance [Assets:A] [[1.5] ~ [0.1] [USD]]]\n", |_, _, d, at| {
            if let DirectiveVariant::Balance(b) = d.variant() {
                at(b.account().span(), 2, "span of an account");
                at(b.atol().span(), 3, "span of a balance amount");
                at(b.atol().amount().number().span(), 4, "span of a balance number");
                at(b.atol().tolerance().unwrap().span(), 5, "span of a tolerance");
                at(b.atol().amount().currency().span(), 6, "span of a currency");
            } else {
                check(false, "balance lost")
            }
        }),
        1 => full("[[2024-01-01] price [EUR] [[(1 + 2) * 3] [USD]]]\n", |_, _, d, at| {
            if let DirectiveVariant::Price(b) = d.variant() {
                at(b.currency().span(), 2, "span of a currency");
                at(b.amount().span(), 3, "span of a price amount");
                at(b.amount().number().span(), 4, "span of a price number");
                at(b.amount().currency().span(), 5, "span of a currency");
            } else {
                check(false, "price lost")
            }
        }),
        2 => full("[[2024-01-01] note [Assets:A] [\"a%\nb\"] [#tt] [^ll]]\n", |_, _, d, at| {
            if let DirectiveVariant::Note(b) = d.variant() {
                at(b.account().span(), 2, "span of an account");
                at(b.comment().span(), 3, "span of a comment");
                at(d.metadata().tags().next().unwrap().span(), 4, "span of a tag");
                at(d.metadata().links().next().unwrap().span(), 5, "span of a link");
            } else {
                check(false, "note lost")
            }
        }),
        3 => full("[[2024-01-01] document [Assets:A] [\"a%\"]]\n", |_, _, d, at| {
            if let DirectiveVariant::Document(b) = d.variant() {
                at(b.account().span(), 2, "span of an account");
                at(b.path().span(), 3, "span of a path");
            } else {
                check(false, "document lost")
            }
        }),
        4 => full("[[2024-01-01] pad [Assets:A$] [Equity:B$]]\n", |_, _, d, at| {
            if let DirectiveVariant::Pad(b) = d.variant() {
                at(b.account().span(), 2, "span of an account");
                at(b.source().span(), 3, "span of a pad source");
            } else {
                check(false, "pad lost")
            }
        }),
        5 => full("[[2024-01-01] event [\"%\"] [\"%\"]]\n", |_, _, d, at| {
            if let DirectiveVariant::Event(b) = d.variant() {
                at(b.event_type().span(), 2, "span of an event type");
                at(b.description().span(), 3, "span of an event description");
            } else {
                check(false, "event lost")
            }
        }),
        6 => full("[[2024-01-01] query [\"%\"] [\"%\n\"]]\n", |_, _, d, at| {
            if let DirectiveVariant::Query(b) = d.variant() {
                at(b.name().span(), 2, "span of a query name");
                at(b.content().span(), 3, "span of a query content");
            } else {
                check(false, "query lost")
            }
        }),
        7 => full("[[2024-01-01] custom [\"%\"] [TRUE] [\"%\"] [Assets:A$] [1 USD]\n  [kk]: [2024-01-02]]\n", |_, _, d, at| {
            if let DirectiveVariant::Custom(b) = d.variant() {
                at(b.type_().span(), 2, "span of a custom type");
                for (i, v) in b.values().enumerate() {
                    at(v.span(), 3 + i, "span of a custom value");
                }
                let (k, v) = d.metadata().key_values().next().unwrap();
                at(k.span(), 7, "span of a key");
                at(v.span(), 8, "span of a metadata value");
            } else {
                check(false, "custom lost")
            }
        }),
        8 => full("[[2024-01-01] close [Assets:A$]]\n", |_, _, d, at| {
            if let DirectiveVariant::Close(b) = d.variant() {
                at(b.account().span(), 2, "span of an account");
            } else {
                check(false, "close lost")
            }
        }),
        _ => full("[[2024-01-01] commodity [USD]\n  [name]: [\"%\"]]\n", |_, _, d, at| {
            if let DirectiveVariant::Commodity(b) = d.variant() {
                at(b.currency().span(), 2, "span of a currency");
                let (k, v) = d.metadata().key_values().next().unwrap();
                at(k.span(), 3, "span of a key");
                at(v.span(), 4, "span of a metadata value");
            } else {
                check(false, "commodity lost")
            }
        }),
    }
}
/// several directives: each span stays within its own lines, whatever lies between
fn several() {
    let between = pick(&["\n", "\n\n", "\n; %\n", " ; %\n", "\n* x%\n", "\r\n"]);
    let k = choose(4);
    let t = format!("[[2024-01-01] note Assets:A \"%\"]{}[[2024-01-02] * \"%\"\n  [Assets:B  1 USD]]{}[[2024-01-03] open Assets:C]", between, between);
    let (x, r) = tpl(&t, |x, l| ch(x, k, l));
    with_ok(x.str(), "valid ledger rejected", |src, p| {
        check(p.directives.len() == 3, "a directive is missing");
        dir(src, &x.b, p.directives[0].span(), &r[0]);
        dir(src, &x.b, p.directives[1].span(), &r[2]);
        dir(src, &x.b, p.directives[2].span(), &r[5]);
        at(src, &x.b, p.directives[0].date().span(), &r[1], "span of a date");
        at(src, &x.b, p.directives[1].date().span(), &r[3], "span of a date");
        at(src, &x.b, posting(as_txn(&p.directives[1]).unwrap(), 0).span(), &r[4], "span of a posting");
        at(src, &x.b, p.directives[2].date().span(), &r[6], "span of a date");
    })
}
/// options, plugins and warnings
fn pragmas() {
    let k = choose(4);
    let (x, r) = tpl("; %\noption \"title\" [\"%\"]\nplugin [\"%\"] [\"c\"]\n\noption \"conversion_currency\" [\"USD\"]\n;%\noption \"render_commas\" [\"TRUE\"]\noption \"account_rounding\" [\"A$\"]\n", |x, l| ch(x, k, l));
    with_ok(x.str(), "valid ledger rejected", |src, p| {
        at(src, &x.b, p.options.title().unwrap().span(), &r[0], "span of an option");
        at(src, &x.b, p.plugins[0].module_name().span(), &r[1], "span of a plugin");
        at(src, &x.b, p.plugins[0].config().unwrap().span(), &r[2], "span of a plugin's config");
        at(src, &x.b, p.options.conversion_currency().unwrap().span(), &r[3], "span of an option");
        at(src, &x.b, p.options.render_commas().unwrap().span(), &r[4], "span of an option");
        at(src, &x.b, p.options.account_rounding().unwrap().span(), &r[5], "span of an option");
    })
}
/// errors point at the offending element
fn errors() {
    let k = choose(4);
    // for a pragma or option, the error may cover the whole or an operand
    let (t, exact) = pick(&[
        ("; %\n2024-01-01 * \"%\" #aa [#aa]\n", true),
        (";\n;%\n2024-01-01 note Assets:A \"%\" ^aa [^aa]\n", true),
        ("; %\n\noption \"title\" \"%\"\noption \"title\" [\"x\"]\n", false),
        ("; %\noption [\"nam%\"] \"x\"\n", true),
        ("; %\n2024-01-01 open Assets:A$\n  kk: \"%\"\n  [kk]: \"x\"\n", true),
        ("; %\n2024-01-01 price USD 1 [usd]\n", true),
        ("; %\n2024-01-01 note Assets:A \"%\"\n2024-01-01 open [Foo$:Bar]\n", true),
        ("; %\n2024-01-01 note Assets:A \"%\"\npoptag [#tt]\n", false),
        ("; %\n2024-01-01 note Assets:A \"%\"\npushtag [#tt]\n", false),
        ("; %\n2024-01-01 note Assets:A \"%\"\npushmeta [kk]: 1\n", false),
        ("; %\n2024-01-01 note Assets:A \"%\"\npopmeta [kk:]\n", false),
        ("; %\n2024-01-01 note Assets:A \"%\"\n[2024-02-30] open Assets:B\n", true),
    ]);
    let (x, r) = tpl(t, |x, l| ch(x, k, l));
    with_parse(x.str(), |src, p| match p {
        Ok(_) => check(false, "invalid ledger accepted"),
        Err(e) => {
            cover(0);
            check(e.errors.len() == 1, "exactly one error");
            let e = &e.errors[0];
            let s = src.resolve_span(&Report::span(e));
            check(s.start_line == lines_before(&x.b, r[0].start), "line of an error");
            if exact {
                check(eq(s.content.as_bytes(), &x.b[r[0].clone()]), "text of an error");
            } else {
                check(s.end_line == s.start_line && !s.content.is_empty(), "text of an error");
            }
            check(eqs(src.error_source_text(e), s.content), "error_source_text");
        }
    })
}
/// the human readable report names the right line and column (columns count characters)
fn report() {
    let k = choose(4);
    let t = pick(&["; %\n2024-01-01 * \"%\" #aa [#aa]\n", "; %%%\n\n\n2024-01-01 note Assets:B$ \"%%\" ^aa [^aa]\n", ";\n2024-01-01 * \"%\"\n  kk: \"%\"\n  [kk]: \"%\"\n"]);
    let (x, r) = tpl(t, |x, l| ch(x, k, l));
    let line = lines_before(&x.b, r[0].start);
    let mut col = 1;
    for i in (0..r[0].start).rev() {
        if x.b[i] == b'\n' {
            break;
        }
        // count characters, not continuation bytes
        if x.b[i] & 0xC0 != 0x80 {
            col += 1;
        }
    }
    let want = format!("inline:{}:{} ", line, col);
    with_parse(x.str(), |src, p| match p {
        Ok(_) => check(false, "invalid ledger accepted"),
        Err(e) => {
            cover(0);
            let mut w = Vec::new();
            check(src.write_errors_or_warnings(&mut w, e.errors).is_ok(), "report not written");
            let want = want.as_bytes();
            let mut found = false;
            let mut i = 0;
            while i + want.len() <= w.len() && !found {
                if w[i] == b'i' {
                    found = eq(&w[i..i + want.len()], want);
                }
                i += 1;
            }
            check(found, "position in the error report");
        }
    })
}

/// the span lies in that file
fn at_file(src: &BeancountSources, name: &str, x: &[u8], span: &Span, r: &Range<usize>, m: &'static str) {
    let s = src.resolve_span(span);
    check(eq(s.content.as_bytes(), &x[r.clone()]), m);
    check(s.start_line == lines_before(x, r.start) && s.end_line == lines_before(x, r.end), "line numbers of a span");
    check(eqs(s.file_name.unwrap_or("?"), name), "file of a span");
}
/// two included files
fn files() {
    let (k, l) = (choose(4), choose(4));
    let d = fs_root();
    let t = [
        ("a", "; %\n2024-01-01 note [Assets:A$] [\"%\"]\ninclude \"c.bean\"\n;%\ninclude \"d.bean\"\n2024-01-04 note [Assets:B] [\"%\"]\noption \"title\" [\"%\"]\nplugin [\"p%\"]\n", k),
        ("c", ";;%%\n\n2024-01-02 note [Assets:C$] [\"%\"]\noption \"conversion_currency\" [\"USD\"]\n", l),
        ("d", "2024-01-03 note [Assets:D$] [\"%\"]\nplugin [\"q%\"]\n", k),
    ];
    let f: Vec<(String, Text, Vec<Range<usize>>)> = t.iter().map(|(n, t, k)| {
        let (x, r) = tpl(t, |x, l| ch(x, *k, l));
        fs_add(&format!("{d}/{n}.bean"), &x.b);
        (format!("{d}/{n}.bean"), x, r)
    }).collect();
    let src = BeancountSources::try_from(std::path::PathBuf::from(&f[0].0)).unwrap();
    let parser = BeancountParser::new(&src);
    let r = parser.parse();
    check(r.is_ok(), "valid files rejected");
    let Ok(p) = r else { return };
    cover(0);
    check(p.directives.len() == 4, "a directive is missing");
    for (d, (w, i)) in p.directives.iter().zip([(0, 0), (1, 0), (2, 0), (0, 2)]) {
        let DirectiveVariant::Note(n) = d.variant() else { return check(false, "note lost") };
        at_file(&src, &f[w].0, &f[w].1.b, n.account().span(), &f[w].2[i], "span of an account");
        at_file(&src, &f[w].0, &f[w].1.b, n.comment().span(), &f[w].2[i + 1], "span of a comment");
    }
    at_file(&src, &f[0].0, &f[0].1.b, p.options.title().unwrap().span(), &f[0].2[4], "span of an option");
    at_file(&src, &f[1].0, &f[1].1.b, p.options.conversion_currency().unwrap().span(), &f[1].2[2], "span of an option");
    check(p.plugins.len() == 2, "a plugin is missing");
    for g in &p.plugins {
        let w = if g.module_name().item().as_bytes()[0] == b'p' { 0 } else { 2 };
        at_file(&src, &f[w].0, &f[w].1.b, g.module_name().span(), &f[w].2[if w == 0 { 5 } else { 2 }], "span of a plugin");
    }
}
/// without colours
fn plain(w: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut esc = false;
    for c in w {
        if *c == 0x1b {
            esc = true;
        } else if esc {
            esc = *c != b'm';
        } else {
            v.push(*c);
        }
    }
    v
}
fn contains(w: &[u8], s: &[u8]) -> bool {
    let mut i = 0;
    while i + s.len() <= w.len() {
        if w[i] == s[0] && eq(&w[i..i + s.len()], s) {
            return true;
        }
        i += 1;
    }
    false
}
/// an error that speaks of several places, in one file or in several: the report shows each
fn places() {
    let (k, l) = (choose(4), choose(4));
    let d = fs_root();
    let t = [("a", "; %\ninclude \"c.bean\"\n2024-01-01 note Assets:First \"x\"\n\n\n2024-01-03 close Assets:Third\n", k), ("c", ";;%%\n\n2024-01-02 note Assets:Second \"y\"\n\n\n\n2024-01-04 close Assets:Fourth\n", l)];
    let mut names = Vec::new();
    for (n, t, k) in t {
        let (x, _) = tpl(t, |x, l| ch(x, k, l));
        fs_add(&format!("{d}/{n}.bean"), &x.b);
        names.push(format!("{d}/{n}.bean"));
    }
    // file, line, text of each directive
    let lines = [(0, "3", "2024-01-01 note Assets:First"), (1, "3", "2024-01-02 note Assets:Second"), (0, "6", "2024-01-03 close Assets:Third"), (1, "7", "2024-01-04 close Assets:Fourth")];
    let src = BeancountSources::try_from(std::path::PathBuf::from(&names[0])).unwrap();
    let parser = BeancountParser::new(&src);
    let r = parser.parse();
    check(r.is_ok(), "valid files rejected");
    let Ok(p) = r else { return };
    check(p.directives.len() == 4, "a directive is missing");
    let (i, j, h) = (choose(4) as usize, choose(4) as usize, choose(4) as usize);
    let warn = flip();
    let mut w = Vec::new();
    let (di, dj, dh) = (&p.directives[i], &p.directives[j], &p.directives[h]);
    let done = if warn { src.write_errors_or_warnings(&mut w, vec![di.warning("reason").related_to(dj).in_context(dh)]) } else { src.write_errors_or_warnings(&mut w, vec![di.error("reason").related_to(dj).in_context(dh)]) };
    check(done.is_ok(), "report not written");
    let w = plain(&w);
    cover(0);
    for (q, m) in [(i, "a report does not show its place"), (j, "a report does not show a related place"), (h, "a report does not show its context")] {
        let (f, n, t) = lines[q];
        check(contains(&w, names[f].as_bytes()), "a report does not name a file it speaks of");
        let _ = n;
        check(contains(&w, t.as_bytes()), m);
    }
    let head = format!("{}:{}:1 ", names[lines[i].0], lines[i].1);
    check(contains(&w, head.as_bytes()), "position in a report");
}

pub const JOBS: &[Job] = &[
    job("txn", 0, txn, "24 spans of a transaction; 8 prefixes, characters of 1 to 4 bytes, symbolic"),
    job("open", 0, opens, "open with currencies, booking, tag, key"),
    job("others", 0, others, "the other directive kinds"),
    job("several", 0, several, "three directives and 6 separators"),
    job("pragmas", 0, pragmas, "options and plugins"),
    job("errors", 0, errors, "12 kinds of error behind text of characters of 1 to 4 bytes"),
    job("files", 0, files, "three files, symbolic characters of 1 to 4 bytes before every element"),
    job("places", 0, places, "errors and warnings at, related to and in the context of any of four directives in two files"),
    job("report", 0, report, "line and column in the written report"),
];
