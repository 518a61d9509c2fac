//! C03: a number literal denotes exactly the decimal that is written.
use crate::util::*;

fn lit_ok(b: &[u8]) -> bool {
    // [0-9]+(,[0-9]{3})*(\.[0-9]+)?
    let n = b.len();
    let mut i = 0;
    while i < n && is_digit(b[i]) {
        i += 1;
    }
    if i == 0 {
        return false;
    }
    while i < n && b[i] == b',' {
        if i + 3 >= n || !is_digit(b[i + 1]) || !is_digit(b[i + 2]) || !is_digit(b[i + 3]) {
            return false;
        }
        i += 4;
    }
    if i < n && b[i] == b'.' {
        i += 1;
        let st = i;
        while i < n && is_digit(b[i]) {
            i += 1;
        }
        if i == st {
            return false;
        }
    }
    i == n
}
fn lit_value(b: &[u8]) -> (i128, u32) {
    let mut m = 0i128;
    let mut sc = 0;
    let mut frac = false;
    for c in b {
        if *c == b'.' {
            frac = true;
        } else if *c != b',' {
            m = m.wrapping_mul(10).wrapping_add(dv(*c));
            if frac {
                sc += 1;
            }
        }
    }
    (m, sc)
}

/// where a number can stand in a ledger
const CTX: &[(&str, &str)] = &[
    ("2024-01-01 * \"x\"\n  Assets:A  ", " USD\n"),
    ("2024-01-01 balance Assets:A  ", " USD\n"),
    ("2024-01-01 balance Assets:A 1 ~ ", " USD\n"),
    ("2024-01-01 price EUR ", " USD\n"),
    ("2024-01-01 * \"x\"\n  Assets:A  1 EUR {", " USD}\n"),
    ("2024-01-01 * \"x\"\n  Assets:A  1 EUR {1 # ", " USD}\n"),
    ("2024-01-01 * \"x\"\n  Assets:A  1 EUR @ ", " USD\n"),
    ("2024-01-01 * \"x\"\n  Assets:A  1 EUR @@ ", " USD\n"),
    ("2024-01-01 open Assets:A\n  key: ", "\n"),
    ("2024-01-01 open Assets:A\n  key: ", " USD\n"),
    ("2024-01-01 custom \"x\" ", "\n"),
    ("2024-01-01 custom \"x\" ", " USD\n"),
];
fn get(p: &ParseSuccess, c: usize) -> Option<Decimal> {
    let d = p.directives[0].item();
    let mv = |v: &MetaValue| match v {
        MetaValue::Amount(a) => Some(a.number().value()),
        MetaValue::Simple(SimpleValue::Expr(e)) => Some(e.value()),
        _ => None,
    };
    match (d.variant(), c) {
        (DirectiveVariant::Transaction(t), 0) => posting(t, 0).amount().map(|a| a.value()),
        (DirectiveVariant::Transaction(t), 4) => posting(t, 0).cost_spec()?.per_unit().map(|a| a.value()),
        (DirectiveVariant::Transaction(t), 5) => posting(t, 0).cost_spec()?.total().map(|a| a.value()),
        (DirectiveVariant::Transaction(t), _) => match posting(t, 0).price_annotation()?.item() {
            PriceSpec::CurrencyAmount(ScopedExprValue::PerUnit(e), _) if c == 6 => Some(e.value()),
            PriceSpec::CurrencyAmount(ScopedExprValue::Total(e), _) if c == 7 => Some(e.value()),
            _ => None,
        },
        (DirectiveVariant::Balance(b), 1) => Some(b.atol().amount().number().value()),
        (DirectiveVariant::Balance(b), 2) => b.atol().tolerance().map(|d| *d.item()),
        (DirectiveVariant::Price(b), _) => Some(b.amount().number().value()),
        (DirectiveVariant::Open(_), _) => mv(meta_get(d.metadata(), "key")?),
        (DirectiveVariant::Custom(b), _) => mv(b.values().next()?.item()),
        _ => None,
    }
}
fn run(x: &Text, r: Range<usize>, c: usize) {
    let b = x.b[r].to_vec();
    with_ok(x.str(), "well-formed number rejected", |_, p| {
        let (m, sc) = lit_value(&b);
        let v = get(p, c);
        check(v.is_some(), "number not where it belongs");
        check(dec_is(v.unwrap(), m, sc), "number differs from what is written");
    })
}

/// any text of n digits, commas and points: accepted exactly if well formed, and exact
fn shape(n: usize) {
    let mut x = Text::new();
    x.lit(CTX[0].0);
    let r = x.sym(union(DIGIT, set_of(b",.")), n);
    x.lit(CTX[0].1);
    let b = x.b[r].to_vec();
    with_parse(x.str(), |_, p| match p {
        Ok(p) => {
            cover(0);
            check(lit_ok(&b), "malformed number accepted");
            let (m, sc) = lit_value(&b);
            let v = get(&p, 0);
            check(v.is_some(), "number lost");
            check(dec_is(v.unwrap(), m, sc), "number differs from what is written");
        }
        Err(_) => {
            cover(1);
            check(!lit_ok(&b), "well-formed number rejected");
        }
    })
}
/// i integer digits and f fractional digits; all symbolic up to 18 of them, and otherwise only the
/// first one, the last two and two around the position where 64 bits run out
fn digits(i: usize, f: usize, commas: bool) {
    let mut x = Text::new();
    x.lit(CTX[0].0);
    let st = x.b.len();
    let total = i + f;
    let alt = total > 18 && flip();
    let mut n = 0;
    let mut put = |x: &mut Text| {
        if total <= 18 || n == 0 || n == 18 || n == 19 || n + 2 >= total {
            x.sym(DIGIT, 1);
        } else {
            x.lit(if alt { "9" } else { ["1", "8", "4", "0", "7", "3"][n % 6] });
        }
        n += 1;
    };
    for k in 0..i {
        if commas && k > 0 && (i - k) % 3 == 0 {
            x.lit(",");
        }
        put(&mut x);
    }
    if f > 0 {
        x.lit(".");
        for _ in 0..f {
            put(&mut x);
        }
    }
    let r = st..x.b.len();
    x.lit(CTX[0].1);
    run(&x, r, 0)
}
fn lengths() {
    let (i, f) = pick(&[(1, 0), (1, 1), (2, 2), (3, 5), (7, 0), (9, 2), (12, 4), (18, 0), (1, 17), (10, 8)]);
    digits(i, f, false)
}
fn long() {
    let (i, f) = pick(&[(28, 0), (1, 27), (14, 14), (20, 8), (4, 24), (1, 19), (19, 0), (20, 0), (22, 2)]);
    digits(i, f, false)
}
fn commas() {
    let (i, f) = pick(&[(4, 0), (6, 2), (7, 3), (12, 0), (13, 2), (21, 2)]);
    digits(i, f, true)
}
/// every length of integer and fraction, with and without commas; first and last digits symbolic
fn grid() {
    let i = choose(28) as usize + 1;
    let f = choose(29 - i as u8) as usize;
    let commas = i > 3 && flip();
    let mut x = Text::new();
    x.lit(CTX[0].0);
    let st = x.b.len();
    for k in 0..i + f {
        if k == i {
            x.lit(".");
        } else if commas && k > 0 && k < i && (i - k) % 3 == 0 {
            x.lit(",");
        }
        if k == 0 || k + 1 == i + f {
            x.sym(DIGIT, 1);
        } else {
            x.lit(["1", "8", "4", "0", "7", "3"][k % 6]);
        }
    }
    let r = st..x.b.len();
    x.lit(CTX[0].1);
    run(&x, r, 0)
}
/// around the limits of what a decimal can hold: exact, or an error
fn edge() {
    let n = 27 + choose(9) as usize;
    let f = pick(&[0, 1, 2, 14, 26, 27, 28, 29, 30, 33]).min(n - 1);
    let c = pick(&[0usize, 3, 8]);
    let lead = pick(&["7922816251426433759354395033", "0000000000", "8", "1", "79228162514264337593543950336"]);
    let mut x = Text::new();
    x.lit(CTX[c].0);
    let mut m = 0i128;
    for k in 0..n {
        if k == n - f {
            x.lit(".");
        }
        let d = if k + 1 == n { byte(&DIGIT) } else { *lead.as_bytes().get(k).unwrap_or(&b'0') };
        x.b.push(d);
        m = m.wrapping_mul(10).wrapping_add(dv(d));
    }
    x.lit(CTX[c].1);
    let good = m < 1 << 96 && f <= 28;
    with_iff(x.str(), good, "a number that can be held was rejected", "a number that cannot be held was accepted", |_, p| {
        let v = get(p, c);
        check(v.is_some_and(|v| dec_is(v, m, f as u32)), "value and decimal places of a number");
    })
}
/// leading group longer than three digits, several groups
fn lead_group() {
    let mut x = Text::new();
    x.lit(CTX[0].0);
    let st = x.b.len();
    let k = choose(6) as usize + 1;
    x.sym(DIGIT, k);
    for _ in 0..choose(3) {
        x.lit(",");
        x.sym(DIGIT, 3);
    }
    if flip() {
        x.lit(".");
        x.sym(DIGIT, 2);
    }
    let r = st..x.b.len();
    x.lit(CTX[0].1);
    run(&x, r, 0)
}
fn contexts() {
    let c = choose(CTX.len() as u8) as usize;
    let mut x = Text::new();
    x.lit(CTX[c].0);
    let st = x.b.len();
    match choose(3) {
        0 => {
            x.sym(DIGIT, 2);
        }
        1 => {
            x.sym(DIGIT, 3);
            x.lit(".");
            x.sym(DIGIT, 3);
        }
        _ => {
            x.sym(DIGIT, 1);
            x.lit(",");
            x.sym(DIGIT, 3);
            x.lit(".");
            x.sym(DIGIT, 1);
        }
    }
    let r = st..x.b.len();
    x.lit(CTX[c].1);
    run(&x, r, c)
}
/// trailing zeros in the fraction are kept, leading zeros do not matter
fn zeros() {
    let mut x = Text::new();
    x.lit(CTX[0].0);
    let st = x.b.len();
    for _ in 0..choose(4) {
        x.lit("0");
    }
    x.sym(DIGIT, 1);
    x.lit(".");
    x.sym(set_of(b"05"), 1);
    for _ in 0..choose(5) {
        x.lit("0");
    }
    x.sym(set_of(b"0123"), 1);
    let r = st..x.b.len();
    x.lit(CTX[0].1);
    run(&x, r, 0)
}
/// unary sign
fn signed() {
    let mut x = Text::new();
    x.lit(CTX[0].0);
    let neg = flip();
    x.lit(if neg { "-" } else { "+" });
    if flip() {
        x.lit(" ");
    }
    let st = x.b.len();
    x.sym(DIGIT, 2);
    x.lit(".");
    x.sym(DIGIT, 2);
    let b = x.b[st..].to_vec();
    x.lit(CTX[0].1);
    with_ok(x.str(), "signed number rejected", |_, p| {
        let (m, sc) = lit_value(&b);
        let v = get(p, 0).unwrap();
        check(v.scale() == sc, "scale of a signed number");
        check(v.mantissa() == if neg { m.wrapping_neg() } else { m }, "sign or value of a number");
    })
}

pub const JOBS: &[Job] = &[
    job("shape5", 0, || shape(5), "every text of 5 digits, commas and points"),
    job("shape7", 1, || shape(7), "every text of 7 digits, commas and points"),
    job("shape3", 0, || shape(3), "every text of 3 digits, commas and points"),
    job("shape1", 0, || shape(1), "every single digit, comma or point"),
    job("lengths", 0, lengths, "1 to 18 digits in total, all symbolic, 10 positions of the point"),
    job("long", 0, long, "19 to 28 digits in total, 9 positions of the point; first, last two and two middle digits symbolic"),
    job("commas", 0, commas, "4 to 21 integer digits in comma-separated groups, 0 to 3 fractional"),
    job("grid", 0, grid, "every length of integer part and fraction up to 28 digits together, with and without commas; first and last digit symbolic"),
    job("edge", 0, edge, "27 to 35 digits around the largest number and the most decimal places, last digit symbolic: exact or an error"),
    job("lead_group", 0, lead_group, "leading group of 1 to 6 digits, 0 to 2 further groups"),
    job("contexts", 0, contexts, "12 places a number can stand in, 3 shapes, digits symbolic"),
    job("zeros", 0, zeros, "leading and trailing zeros"),
    job("signed", 0, signed, "unary plus and minus"),
];
