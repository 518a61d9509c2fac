//! C09: options: each option sets its own field and only that, bad names, values and duplicates are errors.
use crate::util::*;

/// single-valued options that take a text
const SUB: &[&str] = &["account_previous_balances", "account_previous_earnings", "account_previous_conversions", "account_current_earnings", "account_current_conversions", "account_unrealized_gains", "account_rounding"];
const SINGLE: &[(&str, &str)] = &[
    ("title", "x"),
    ("account_previous_balances", "Aa"),
    ("account_previous_earnings", "Bb"),
    ("account_previous_conversions", "Cc:Dd"),
    ("account_current_earnings", "Ee"),
    ("account_current_conversions", "Ff"),
    ("account_unrealized_gains", "Gg"),
    ("account_rounding", "Hh"),
    ("conversion_currency", "NOTHING"),
    ("inferred_tolerance_multiplier", "1.1"),
    ("infer_tolerance_from_cost", "TRUE"),
    ("render_commas", "FALSE"),
    ("booking_method", "FIFO"),
    ("plugin_processing_mode", "RAW"),
];
const N: usize = 14;
fn fields(o: &Options) -> [bool; N] {
    [
        o.title().is_some(),
        o.account_previous_balances().is_some(),
        o.account_previous_earnings().is_some(),
        o.account_previous_conversions().is_some(),
        o.account_current_earnings().is_some(),
        o.account_current_conversions().is_some(),
        o.account_unrealized_gains().is_some(),
        o.account_rounding().is_some(),
        o.conversion_currency().is_some(),
        o.inferred_tolerance_multiplier().is_some(),
        o.infer_tolerance_from_cost().is_some(),
        o.render_commas().is_some(),
        o.booking_method().is_some(),
        o.plugin_processing_mode().is_some(),
    ]
}
/// the value of field i is the one in SINGLE
fn value_ok(o: &Options, i: usize) -> bool {
    let s = |x: Option<&Spanned<Subaccount>>| x.is_some_and(|x| x.item().as_ref() == SINGLE[i].1);
    match i {
        0 => o.title().is_some_and(|x| *x.item() == SINGLE[i].1),
        1 => s(o.account_previous_balances()),
        2 => s(o.account_previous_earnings()),
        3 => s(o.account_previous_conversions()),
        4 => s(o.account_current_earnings()),
        5 => s(o.account_current_conversions()),
        6 => s(o.account_unrealized_gains()),
        7 => s(o.account_rounding()),
        8 => o.conversion_currency().is_some_and(|x| *x.item() == SINGLE[i].1),
        9 => o.inferred_tolerance_multiplier().is_some_and(|x| dec_is(*x.item(), 11, 1)),
        10 => o.infer_tolerance_from_cost().is_some_and(|x| *x.item()),
        11 => o.render_commas().is_some_and(|x| !*x.item()),
        12 => o.booking_method().is_some_and(|x| *x.item() == Booking::Fifo),
        _ => o.plugin_processing_mode().is_some_and(|x| *x.item() == PluginProcessingMode::Raw),
    }
}
fn opt(x: &mut Text, i: usize) {
    x.lit("option \"").lit(SINGLE[i].0).lit("\" \"").lit(SINGLE[i].1).lit("\"\n");
}
/// two options in any order, with a directive between or not: error exactly if they are the same
fn pairs() {
    let (i, j) = (choose(N as u8) as usize, choose(N as u8) as usize);
    let mut x = Text::new();
    opt(&mut x, i);
    if flip() {
        x.lit("2024-01-01 open Assets:A\n");
    }
    opt(&mut x, j);
    with_iff(x.str(), i != j, "two different options rejected", "duplicate option accepted", |_, p| {
        for (k, f) in fields(&p.options).iter().enumerate() {
            check(*f == (k == i || k == j), "an option sets its own field and no other");
        }
        check(value_ok(&p.options, i) && value_ok(&p.options, j), "value of an option");
        check(p.options.operating_currency().count() == 0 && p.options.documents().count() == 0 && p.options.inferred_tolerance_defaults().count() == 0 && p.options.long_string_maxlines().is_none(), "other options stay unset");
    })
}
/// all at once, and the default of each
fn all() {
    let mut x = Text::new();
    let skip = choose(N as u8 + 1) as usize;
    for i in 0..N {
        if i != skip {
            opt(&mut x, i);
        }
    }
    with_ok(x.str(), "all options together rejected", |_, p| {
        for (k, f) in fields(&p.options).iter().enumerate() {
            check(*f == (k != skip), "an option is set exactly if given");
            check(k == skip || value_ok(&p.options, k), "value of an option");
        }
    })
}
/// title: any text
fn title() {
    let mut x = Text::new();
    x.lit("option \"title\" \"");
    let r = x.sym(minus(PRINT, set_of(b"\"\\")), 4);
    x.lit("\"\n");
    with_ok(x.str(), "title rejected", |_, p| {
        check(eq(p.options.title().unwrap().item().as_bytes(), &x.b[r.clone()]), "title");
    })
}
/// subaccounts: accepted exactly if well formed
fn sub() {
    let k = choose(SUB.len() as u8) as usize;
    let mut x = Text::new();
    x.lit("option \"").lit(SUB[k]).lit("\" \"");
    let st = x.b.len();
    let full = k == 0;
    x.sym(if full { minus(PRINT, set_of(b"\"\\")) } else { union(UPPER, set_of(b"1a:-")) }, 1);
    x.lit("b:");
    x.sym(union(UPPER, set_of(b"1a:-")), 1);
    x.sym(if full { minus(PRINT, set_of(b"\"\\")) } else { union(ALNUM, set_of(b":-_")) }, 1);
    let r = st..x.b.len();
    x.lit("\"\n");
    // components of [A-Z0-9][A-Za-z0-9-]*, separated by colons
    let mut good = true;
    let mut first = true;
    for c in &x.b[r.clone()] {
        let c = *c;
        let up = c.wrapping_sub(b'A') < 26 || is_digit(c);
        let lo = c.wrapping_sub(b'a') < 26 || c == b'-';
        if first {
            good &= up;
            first = false;
        } else if c == b':' {
            first = true;
        } else {
            good &= up | lo;
        }
    }
    good &= !first;
    with_iff(x.str(), good, "well-formed subaccount rejected", "malformed subaccount accepted", |_, p| {
        let o = &p.options;
        let v = [o.account_previous_balances(), o.account_previous_earnings(), o.account_previous_conversions(), o.account_current_earnings(), o.account_current_conversions(), o.account_unrealized_gains(), o.account_rounding()];
        for (i, v) in v.iter().enumerate() {
            check(v.is_some() == (i == k), "an option sets its own field and no other");
        }
        check(eq(v[k].unwrap().item().as_ref().as_bytes(), &x.b[r.clone()]), "value of a subaccount option");
    })
}
/// booleans in any case
fn bools() {
    let which = choose(2) as usize;
    let name = ["infer_tolerance_from_cost", "render_commas"][which];
    let want: &[u8] = pick(&[b"true", b"false"]);
    let mut x = Text::new();
    x.lit("option \"").lit(name).lit("\" \"");
    let st = x.b.len();
    let mut good = true;
    // each letter in either case, one of them possibly another letter
    let wrong = choose(want.len() as u8 + 1) as usize;
    for (i, c) in want.iter().enumerate() {
        let up = c - 32;
        let set = if i == wrong { union(LOWER, UPPER) } else { union(range(*c, *c), range(up, up)) };
        let r = x.sym(set, 1);
        good &= x.b[r.start] == *c || x.b[r.start] == up;
    }
    let _ = st;
    x.lit("\"\n");
    with_iff(x.str(), good, "boolean rejected", "not a boolean, but accepted", |_, p| {
        let v = if which == 0 { p.options.infer_tolerance_from_cost() } else { p.options.render_commas() };
        check(*v.unwrap().item() == (want.len() == 4), "value of a boolean option");
        let v = if which == 1 { p.options.infer_tolerance_from_cost() } else { p.options.render_commas() };
        check(v.is_none(), "the other one stays unset");
    })
}
/// 0 and 1 are accepted for render_commas only
fn zero_one() {
    let which = choose(2) as usize;
    let mut x = Text::new();
    x.lit("option \"").lit(["infer_tolerance_from_cost", "render_commas"][which]).lit("\" \"");
    let r = x.sym(minus(PRINT, set_of(b"\"\\")), 1);
    let c = x.b[r.start];
    x.lit("\"\n");
    let good = which == 1 && (c == b'0' || c == b'1');
    with_iff(x.str(), good, "0 or 1 rejected", "not a boolean, but accepted", |_, p| {
        check(*p.options.render_commas().unwrap().item() == (c == b'1'), "value of render_commas");
    })
}
/// tolerances by currency, with fallback
fn tolerances() {
    let mut x = Text::new();
    const C: &[&str] = &["USD", "EUR", "*"];
    let n = choose(4);
    let mut v: [Option<(i128, u32)>; 3] = [None; 3];
    let mut dup = false;
    for k in 0..n {
        let c = choose(3) as usize;
        x.lit("option \"inferred_tolerance_default\" \"").lit(C[c]).lit(":0.");
        let r = x.sym(DIGIT, 1);
        let mut val = dv(x.b[r.start]);
        let mut sc = 1;
        if k == 1 {
            let r = x.sym(DIGIT, 1);
            val = val.wrapping_mul(10).wrapping_add(dv(x.b[r.start]));
            sc = 2;
        }
        x.lit("\"\n");
        dup |= v[c].is_some();
        v[c] = Some((val, sc));
    }
    with_iff(x.str(), !dup, "tolerances rejected", "two tolerances for one currency accepted", |_, p| {
        let is = |d: Option<Decimal>, w: Option<(i128, u32)>| match (d, w) {
            (None, None) => true,
            (Some(d), Some((m, s))) => dec_is(d, m, s),
            _ => false,
        };
        let o = &p.options;
        for c in 0..2 {
            check(is(o.inferred_tolerance_default(&Currency::try_from(C[c]).unwrap()), v[c].or(v[2])), "tolerance of a currency, else the fallback");
        }
        check(is(o.inferred_tolerance_default(&Currency::try_from("GBP").unwrap()), v[2]), "tolerance of an unlisted currency");
        check(is(o.inferred_tolerance_default_fallback(), v[2]), "fallback tolerance");
        check(o.inferred_tolerance_defaults().count() == v.iter().flatten().count(), "number of tolerances");
        for (c, d) in o.inferred_tolerance_defaults() {
            let i = match c {
                None => 2,
                Some(c) if c == "USD" => 0,
                _ => 1,
            };
            check(is(Some(d), v[i]), "list of tolerances");
        }
    })
}
/// malformed tolerances
fn bad_tolerance() {
    let (v, good) = pick(&[("USD:0.1", true), ("USD", false), ("USD:", false), ("USD:0.1:2", false), (":0.1", false), ("usd:0.1", false), ("*:1", true), ("**:1", false), ("USD:x", false), ("USD 0.1", false), ("", false), ("*", false)]);
    let x = format!("option \"inferred_tolerance_default\" \"{}\"\n", v);
    with_iff(&x, good, "good tolerance rejected", "malformed tolerance accepted", |_, _| {})
}
fn multiplier() {
    let mut x = Text::new();
    x.lit("option \"inferred_tolerance_multiplier\" \"");
    let a = x.sym(DIGIT, 2);
    x.lit(".");
    let b = x.sym(DIGIT, 2);
    x.lit("\"\n");
    let mut m = 0i128;
    for i in a.chain(b) {
        m = m.wrapping_mul(10).wrapping_add(dv(x.b[i]));
    }
    with_ok(x.str(), "multiplier rejected", |_, p| {
        check(dec_is(*p.options.inferred_tolerance_multiplier().unwrap().item(), m, 2), "multiplier");
    })
}
/// operating currencies accumulate; duplicates are errors
fn operating() {
    let n = choose(3) + 1;
    let mut x = Text::new();
    let mut rs = Vec::new();
    for _ in 0..n {
        x.lit("option \"operating_currency\" \"U");
        rs.push(x.sym(union(UPPER, DIGIT), 1));
        x.lit("D\"\n");
    }
    let mut good = true;
    for i in 0..rs.len() {
        for j in 0..i {
            good &= !eq(&x.b[rs[i].clone()], &x.b[rs[j].clone()]);
        }
    }
    with_iff(x.str(), good, "operating currencies rejected", "duplicate operating currency accepted", |_, p| {
        check(p.options.operating_currency().count() == n as usize, "number of operating currencies");
        for r in &rs {
            check(p.options.operating_currency().any(|c| eq(c.as_ref().as_bytes(), &x.b[r.start - 1..r.end + 1])), "operating currency missing");
        }
        check(p.options.conversion_currency().is_none(), "conversion currency stays unset");
    })
}
fn documents() {
    let mut x = Text::new();
    let a = {
        x.lit("option \"documents\" \"p/");
        let r = x.sym(union(ALNUM, set_of(b"-_")), 1);
        x.lit("\"\n");
        r
    };
    x.lit("option \"documents\" \"p/");
    let b = x.sym(union(ALNUM, set_of(b"-_")), 1);
    x.lit("\"\n");
    let good = !eq(&x.b[a.clone()], &x.b[b.clone()]);
    with_iff(x.str(), good, "documents rejected", "duplicate documents accepted", |_, p| {
        check(p.options.documents().count() == 2, "number of documents");
        for r in [&a, &b] {
            check(p.options.documents().any(|d| eq(d.as_os_str().as_encoded_bytes(), &x.b[r.start - 2..r.end])), "documents path");
        }
    })
}
const BOOK: &[(&str, Booking)] = &[("STRICT", Booking::Strict), ("STRICT_WITH_SIZE", Booking::StrictWithSize), ("NONE", Booking::None), ("AVERAGE", Booking::Average), ("FIFO", Booking::Fifo), ("LIFO", Booking::Lifo), ("HIFO", Booking::Hifo)];
/// booking methods: one letter symbolic (also in open)
fn booking() {
    let k = choose(BOOK.len() as u8) as usize;
    let at = choose(BOOK[k].0.len() as u8) as usize;
    let open = flip();
    let mut x = Text::new();
    x.lit(if open { "2024-01-01 open Assets:A USD \"" } else { "option \"booking_method\" \"" });
    let st = x.b.len();
    for (i, c) in BOOK[k].0.bytes().enumerate() {
        if i == at {
            x.sym(minus(PRINT, set_of(b"\"\\")), 1);
        } else {
            x.b.push(c);
        }
    }
    let r = st..x.b.len();
    x.lit("\"\n");
    let hit = BOOK.iter().position(|(n, _)| eq(n.as_bytes(), &x.b[r.clone()]));
    with_iff(x.str(), hit.is_some(), "booking method rejected", "unknown booking method accepted", |_, p| {
        let v = if open {
            match p.directives[0].variant() {
                DirectiveVariant::Open(o) => o.booking().map(|b| *b.item()),
                _ => None,
            }
        } else {
            p.options.booking_method().map(|b| *b.item())
        };
        check(v == Some(BOOK[hit.unwrap()].1), "booking method");
        check(!open || p.options.booking_method().is_none(), "booking of an account is not the default");
    })
}
fn mode() {
    let mut x = Text::new();
    x.lit("option \"plugin_processing_mode\" \"");
    let (a, b) = pick(&[("DEFAUL", ""), ("", "EFAULT"), ("RA", ""), ("", "AW"), ("R", "W")]);
    let st = x.b.len();
    x.lit(a);
    x.sym(minus(PRINT, set_of(b"\"\\")), 1);
    x.lit(b);
    let r = st..x.b.len();
    x.lit("\"\n");
    let raw = eq(b"RAW", &x.b[r.clone()]);
    let def = eq(b"DEFAULT", &x.b[r.clone()]);
    with_iff(x.str(), raw || def, "mode rejected", "unknown mode accepted", |_, p| {
        check((*p.options.plugin_processing_mode().unwrap().item() == PluginProcessingMode::Raw) == raw, "mode");
    })
}
fn maxlines() {
    let mut x = Text::new();
    x.lit("option \"long_string_maxlines\" \"");
    let r = x.sym(union(DIGIT, set_of(b"-. x")), 3);
    x.lit("\"\n");
    let mut v = 0usize;
    let mut good = true;
    for c in &x.b[r] {
        good &= is_digit(*c);
        v = v * 10 + c.wrapping_sub(b'0') as usize;
    }
    with_iff(x.str(), good, "number of lines rejected", "malformed number of lines accepted", |_, p| {
        check(*p.options.long_string_maxlines().unwrap().item() == v, "number of lines");
    })
}
/// every option name, one character of it symbolic: known exactly if unchanged
fn names() {
    const EXTRA: &[(&str, &str)] = &[("operating_currency", "USD"), ("documents", "x"), ("long_string_maxlines", "5"), ("inferred_tolerance_default", "*:1"), ("name_assets", "Aa"), ("name_liabilities", "Bb"), ("name_equity", "Cc"), ("name_income", "Dd"), ("name_expenses", "Ee")];
    let k = choose((N + EXTRA.len()) as u8) as usize;
    let (n, v) = if k < N { SINGLE[k] } else { EXTRA[k - N] };
    let at = pick(&[0usize, 1, n.len() / 2, n.len() - 1, n.len()]);
    let mut x = Text::new();
    x.lit("option \"");
    for (i, c) in n.bytes().enumerate() {
        if i == at {
            x.sym(minus(PRINT, set_of(b"\"\\")), 1);
        } else {
            x.b.push(c);
        }
    }
    if at == n.len() {
        x.sym(set_of(b" s_"), 1);
    }
    let good = eq(&x.b[8..], n.as_bytes());
    x.lit("\" \"").lit(v).lit("\"\n");
    with_parse(x.str(), |src, p| match p {
        Ok(_) => {
            cover(0);
            check(good, "unknown option accepted");
        }
        Err(e) => {
            cover(1);
            check(!good, "known option rejected");
            check(e.errors.len() == 1, "one error");
            let s = src.resolve_span(&Report::span(&e.errors[0]));
            check(eq(s.content.as_bytes(), &x.b[7..9 + n.len() + (at == n.len()) as usize]), "the error is at the name");
        }
    })
}
/// currencies as option values
fn currency() {
    let name = pick(&["conversion_currency", "operating_currency"]);
    let mut x = Text::new();
    x.lit("option \"").lit(name).lit("\" \"");
    let up = union(UPPER, DIGIT);
    let mid = union(up, set_of(b"'._-"));
    let a = x.sym(minus(PRINT, set_of(b"\"\\")), 1);
    let b = x.sym(union(mid, set_of(b"a /")), 1);
    let c = x.sym(minus(PRINT, set_of(b"\"\\")), 1);
    x.lit("\"\n");
    let isup = |c: u8| c.wrapping_sub(b'A') < 26;
    let ismid = |c: u8| isup(c) || is_digit(c) || c == b'\'' || c == b'.' || c == b'_' || c == b'-';
    let (ca, cb, cc) = (x.b[a.start], x.b[b.start], x.b[c.start]);
    let last = isup(cc) || is_digit(cc);
    // [A-Z][A-Z0-9'._-]*[A-Z0-9], or / and the same with at least one letter
    let good = (isup(ca) && ismid(cb) && last) || (ca == b'/' && ismid(cb) && last && (isup(cb) || isup(cc)));
    with_iff(x.str(), good, "currency rejected", "malformed currency accepted", |_, p| {
        let o = &p.options;
        let v = if name == "conversion_currency" { o.conversion_currency().map(|c| *c.item()) } else { o.operating_currency().next().copied() };
        check(eq(v.unwrap().as_ref().as_bytes(), &x.b[a.start..c.end]), "value of a currency option");
    })
}
/// a bad value: one error, at the value
fn bad_value() {
    let (n, v) = pick(&[
        ("infer_tolerance_from_cost", "maybe"),
        ("render_commas", "2"),
        ("booking_method", "BEST"),
        ("plugin_processing_mode", "fast"),
        ("conversion_currency", "usd"),
        ("operating_currency", "u"),
        ("account_rounding", "lower"),
        ("account_current_earnings", ""),
        ("inferred_tolerance_multiplier", "abc"),
        ("long_string_maxlines", "-1"),
        ("name_assets", "assets"),
        ("name_income", "A:B"),
        ("inferred_tolerance_default", "USD"),
    ]);
    let x = format!("\noption \"title\" \"t\"\noption \"{}\" \"{}\"\n2024-01-01 open Assets:A\n", n, v);
    with_parse(&x, |src, p| match p {
        Ok(_) => check(false, "bad value accepted"),
        Err(e) => {
            cover(1);
            check(e.errors.len() == 1, "one error");
            let s = src.resolve_span(&Report::span(&e.errors[0]));
            check(s.start_line == 3 && s.content == format!("\"{}\"", v), "the error is at the value");
        }
    })
}

pub const JOBS: &[Job] = &[
    job("pairs", 0, pairs, "every pair of 14 single-valued options, with and without a directive between"),
    job("all", 0, all, "all 14 at once, and all but one"),
    job("title", 0, title, "title of 4 arbitrary printable characters"),
    job("sub", 0, sub, "7 subaccount options, 5 characters, 3 of them symbolic"),
    job("bools", 0, bools, "true and false in every case, one letter arbitrary"),
    job("zero_one", 0, zero_one, "one arbitrary character as a boolean"),
    job("tolerances", 0, tolerances, "up to 3 default tolerances for 2 currencies and the fallback, digits symbolic"),
    job("bad_tolerance", 0, bad_tolerance, "12 shapes of default tolerance"),
    job("multiplier", 0, multiplier, "dd.dd, digits symbolic"),
    job("operating", 0, operating, "1 to 3 operating currencies, one letter symbolic"),
    job("documents", 0, documents, "2 documents, one letter symbolic"),
    job("booking", 0, booking, "7 booking methods with any one character replaced by any other, as option and in open"),
    job("mode", 0, mode, "plugin processing modes with one character replaced"),
    job("maxlines", 0, maxlines, "3 characters of digits and others"),
    job("names", 0, names, "23 option names, 5 positions replaced by any character or extended"),
    job("currency", 0, currency, "currencies of 3 symbolic characters"),
    job("bad_value", 0, bad_value, "13 bad values"),
];
