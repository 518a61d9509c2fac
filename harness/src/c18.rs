//! C18: dates are accepted exactly if they are in the calendar.
use crate::util::*;
use DirectiveVariant as V;

/// places that take a date (@)
const CTX: [&str; 19] = [
    "@ * \"x\"\n  Assets:A 1 USD\n",
    "@ txn \"p\" \"x\"\n",
    "@ price USD 1 EUR\n",
    "@ balance Assets:A 1 USD\n",
    "@ open Assets:A\n",
    "@ close Assets:A\n",
    "@ commodity USD\n",
    "@ pad Assets:A Equity:B\n",
    "@ document Assets:A \"x\"\n",
    "@ note Assets:A \"x\"\n",
    "@ event \"x\" \"y\"\n",
    "@ query \"x\" \"y\"\n",
    "@ custom \"x\"\n",
    "2024-01-01 custom \"x\" @\n",
    "2024-01-01 custom \"x\" 1 @ TRUE\n",
    "2024-01-01 close Assets:A\n  key: @\n",
    "2024-01-01 * \"x\"\n  Assets:A 1 USD {@}\n",
    "2024-01-01 * \"x\"\n  Assets:A 1 USD {2 USD, @, \"l\"}\n    key: @\n",
    "pushmeta key: @\n2024-01-01 close Assets:A\npopmeta key:\n",
];
fn got(k: usize, p: &ParseSuccess) -> Option<time::Date> {
    let d = p.directives[0].item();
    let mv = |m: Option<&MetaValue>| match m {
        Some(MetaValue::Simple(SimpleValue::Date(d))) => Some(*d),
        _ => None,
    };
    if k < 13 {
        return Some(*d.date().item());
    }
    match d.variant() {
        V::Custom(c) => mv(c.values().nth(k - 13).map(|v| v.item())),
        V::Transaction(t) => {
            let p = posting(t, 0);
            let c = p.cost_spec().and_then(|c| c.date()).map(|d| *d.item());
            if k == 17 {
                check(mv(meta_get(p.metadata(), "key")) == c, "the same date in cost and metadata");
            }
            c
        }
        _ => mv(meta_get(d.metadata(), "key")),
    }
}
/// days of a month, by the rules of the calendar; 0 for no month
fn days(y: i32, m: i32) -> i32 {
    let leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0));
    let long = (m == 1) | (m == 3) | (m == 5) | (m == 7) | (m == 8) | (m == 10) | (m == 12);
    let short = (m == 4) | (m == 6) | (m == 9) | (m == 11);
    31 * long as i32 + 30 * short as i32 + (28 + leap as i32) * (m == 2) as i32
}
fn v(d: &[u8]) -> i32 {
    d.iter().fold(0i32, |a, c| a.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as i32))
}
fn try_it(k: usize, d: &[u8; 8], s1: u8, s2: u8) {
    let mut t = Text::new();
    t.b.extend_from_slice(&d[0..4]);
    t.b.push(s1);
    t.b.extend_from_slice(&d[4..6]);
    t.b.push(s2);
    t.b.extend_from_slice(&d[6..8]);
    let mut x = Text::new();
    for c in CTX[k].bytes() {
        if c == b'@' {
            x.b.extend_from_slice(&t.b);
        } else {
            x.b.push(c);
        }
    }
    let line = CTX[k].bytes().take_while(|c| *c != b'@').filter(|c| *c == b'\n').count() + 1;
    let (y, m, dd) = (v(&d[0..4]), v(&d[4..6]), v(&d[6..8]));
    let good = (dd >= 1) & (dd <= days(y, m));
    with_parse(x.str(), |src, p| match p {
        Ok(p) => {
            cover(0);
            check(good, "a date that does not exist was accepted");
            check(p.directives.len() == 1, "one directive");
            match got(k, &p) {
                Some(g) => check((g.year() == y) & (g.month() as i32 == m) & (g.day() as i32 == dd), "the date is the one written"),
                None => check(false, "no date where one was written"),
            }
        }
        Err(e) => {
            cover(1);
            check(!good, "an existing date was rejected");
            let l = src.resolve_span(&e.errors[0].span());
            check(l.start_line <= line && line <= l.end_line, "the error is at the date");
        }
    })
}
fn digits(t: &str) -> [u8; 8] {
    let mut d = [0u8; 8];
    for (i, c) in t.bytes().enumerate() {
        d[i] = if c == b'?' { byte(&DIGIT) } else { c };
    }
    d
}
fn seps() -> (u8, u8) {
    (pick(b"-/"), pick(b"-/"))
}
/// all eight digits
fn all() {
    let (a, c) = seps();
    try_it(4, &digits("????????"), a, c)
}
/// month and day, in every place
fn places() {
    let k = choose(19) as usize;
    let y = pick(&["2024", "2023", "1900", "2000"]);
    let (a, c) = pick(&[(b'-', b'-'), (b'/', b'/')]);
    try_it(k, &digits(&[y, "????"].concat()), a, c)
}
/// the year, around the end of February and of other months, in every place
fn years() {
    let k = choose(19) as usize;
    let md = pick(&["0228", "0229", "0230", "0430", "0431", "1231", "0101"]);
    try_it(k, &digits(&["????", md].concat()), b'-', b'-')
}
/// two dates in one ledger, in different places
fn two() {
    let (a, c) = (digits("20??0229"), digits("2024??3?"));
    let mut x = Text::new();
    let put = |x: &mut Text, d: &[u8; 8], s: &str| {
        x.b.extend_from_slice(&d[0..4]);
        x.lit(s);
        x.b.extend_from_slice(&d[4..6]);
        x.lit(s);
        x.b.extend_from_slice(&d[6..8]);
    };
    put(&mut x, &a, "-");
    x.lit(" close Assets:A\n  key: ");
    put(&mut x, &c, "/");
    x.lit("\n");
    let ok = |d: &[u8; 8]| (v(&d[6..8]) >= 1) & (v(&d[6..8]) <= days(v(&d[0..4]), v(&d[4..6])));
    with_iff(x.str(), ok(&a) & ok(&c), "existing dates were rejected", "a date that does not exist was accepted", |_, p| {
        let d = &p.directives[0];
        check(d.date().year() == v(&a[0..4]) && d.date().month() as u8 == 2 && d.date().day() == 29, "the date of the directive");
        match meta_get(d.metadata(), "key") {
            Some(MetaValue::Simple(SimpleValue::Date(g))) => check(g.year() == 2024 && g.month() as i32 == v(&c[4..6]) && g.day() as i32 == v(&c[6..8]), "the date in metadata"),
            _ => check(false, "no date where one was written"),
        }
    })
}

pub const JOBS: &[Job] = &[
    job("all", 0, all, "all eight digits symbolic, four combinations of separators"),
    job("places", 0, places, "month and day symbolic in 4 years, 19 places, both separators"),
    job("years", 0, years, "year symbolic, 7 days of the year, 19 places"),
    job("two", 0, two, "two dates with 4 symbolic digits in one directive"),
];
