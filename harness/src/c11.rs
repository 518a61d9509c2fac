//! C11: costs and prices mean what was written.
use crate::model::{b, date_is, dg, nm, up, Bs};
use crate::util::*;

/// a number as written, and its value
#[derive(Clone)]
struct Num {
    s: Bs,
    m: i128,
    sc: u32,
}
const NUMS: u8 = 8;
fn num(k: u8) -> Num {
    let d = if k == 5 || k == 7 { b'0' } else { byte(&DIGIT) };
    let v = dv(d);
    let (p, s, m, sc): (&str, &str, i128, u32) = match k {
        0 => ("", "", v, 0),
        1 => ("1", "", 10 + v, 0),
        2 => ("-0.", "", -v, 1),
        3 => ("1,23", ".50", 123050 + 100 * v, 2),
        4 => ("(1+", ")", 1 + v, 0),
        5 => ("", ".0", 0, 2),
        6 => ("2 * ", "", 2 * v, 0),
        _ => ("123456789", "123456789.12345678", 12345678901234567891 * 10000000 + 2345678, 8),
    };
    let mut t = b(p);
    if k == 7 {
        // 123456789 0 123456789.12345678
        t.push(b'0');
        t.extend_from_slice(s.as_bytes());
        return Num { s: t, m: 123456789012345678912345678, sc: 8 };
    }
    if k == 5 {
        return Num { s: b("0.00"), m: 0, sc: 2 };
    }
    t.push(d);
    t.extend_from_slice(s.as_bytes());
    Num { s: t, m, sc }
}
impl Num {
    fn is(&self, e: Decimal) -> bool {
        dec_is(e, self.m, self.sc)
    }
}
#[derive(Clone, Default)]
struct C {
    per: Option<Num>,
    total: Option<Num>,
    cur: Option<Bs>,
    date: Option<Bs>,
    label: Option<Bs>,
    merge: bool,
}
const COMPS: u8 = 13;
/// fields set by each kind of component: per unit 1, total 2, currency 4, date 8, label 16, merge 32
const MASK: [u8; 13] = [1, 1, 2, 3, 5, 5, 6, 7, 4, 4, 8, 16, 32];
impl C {
    /// writes one component
    fn comp(&mut self, x: &mut Text, k: u8, nk: u8, tight: bool) {
        let sp = if tight { "" } else { " " };
        let p = |x: &mut Text, s: &[u8]| x.b.extend_from_slice(s);
        let m = MASK[k as usize];
        if k < 8 {
            if m & 1 != 0 {
                let n = num(nk);
                p(x, &n.s);
                self.per = Some(n);
            }
            if matches!(k, 1 | 2 | 3 | 5 | 6 | 7) {
                x.lit(if m & 1 != 0 { " #" } else { "#" });
            }
            if m & 2 != 0 {
                let n = num((nk + 3) % NUMS);
                x.lit(" ");
                p(x, &n.s);
                self.total = Some(n);
            }
            if m & 4 != 0 {
                // a number may be followed by its currency at once
                let c = up("US");
                x.lit(if k == 5 { " " } else { sp });
                p(x, &c);
                self.cur = Some(c);
            }
            return;
        }
        match k {
            8 => {
                let c = up("EU");
                p(x, &c);
                self.cur = Some(c);
            }
            9 => {
                let c = up("EU");
                x.lit("# ");
                p(x, &c);
                self.cur = Some(c);
            }
            10 => {
                let d = if nk % 2 == 0 { dg("2024-03-1") } else { dg("1999/12/0") };
                assume(nk % 2 == 0 || d[9] != b'0');
                p(x, &d);
                self.date = Some(d);
            }
            11 => {
                let l = match nk % 4 {
                    0 => nm("lot "),
                    1 => b(""),
                    2 => b("2024-01-01"),
                    _ => b("{# *}, \u{e9}\u{6f22}"),
                };
                x.lit("\"");
                p(x, &l);
                x.lit("\"");
                self.label = Some(l);
            }
            _ => {
                x.lit("*");
                self.merge = true;
            }
        }
    }
    fn verify(&self, c: &CostSpec) {
        let o = |a: &Option<Num>, n: Option<Decimal>| match (a, n) {
            (None, None) => true,
            (Some(a), Some(n)) => a.is(n),
            _ => false,
        };
        let t = |a: &Option<Bs>, n: Option<&str>| match (a, n) {
            (None, None) => true,
            (Some(a), Some(n)) => eq(a, n.as_bytes()),
            _ => false,
        };
        check(o(&self.per, c.per_unit().map(|x| x.value())), "cost per unit");
        check(o(&self.total, c.total().map(|x| x.value())), "total cost");
        check(t(&self.cur, c.currency().map(|x| x.item().as_ref())), "cost currency");
        check(t(&self.label, c.label().map(|x| *x.item())), "cost label");
        check(c.merge() == self.merge, "cost merge marker");
        check(
            match (&self.date, c.date()) {
                (None, None) => true,
                (Some(a), Some(n)) => date_is(n.item(), a),
                _ => false,
            },
            "cost date",
        );
    }
}
#[derive(Clone)]
struct Pr {
    total: bool,
    num: Option<Num>,
    cur: Option<Bs>,
}
/// price of kind k < 8; nk is the kind of number
fn price(x: &mut Text, k: u8, nk: u8, tight: bool) -> Pr {
    let mut p = Pr { total: k & 1 == 1, num: None, cur: None };
    x.lit(if p.total { "@@" } else { "@" });
    let sp = if tight { "" } else { " " };
    if k & 2 != 0 {
        let n = num(nk);
        x.lit(sp);
        x.b.extend_from_slice(&n.s);
        p.num = Some(n);
    }
    if k & 4 != 0 {
        let c = up("EU");
        x.lit(sp);
        x.b.extend_from_slice(&c);
        p.cur = Some(c);
    }
    p
}
impl Pr {
    fn verify(&self, p: &PriceSpec) {
        let n = |s: &ScopedExprValue, b: &Num| match s {
            ScopedExprValue::PerUnit(e) => !self.total && b.is(e.value()),
            ScopedExprValue::Total(e) => self.total && b.is(e.value()),
        };
        let ok = match (&self.num, &self.cur, p) {
            (None, None, PriceSpec::Unspecified) => true,
            (None, Some(c), PriceSpec::BareCurrency(k)) => eq(c, k.as_ref().as_bytes()),
            (Some(v), None, PriceSpec::BareAmount(s)) => n(s, v),
            (Some(v), Some(c), PriceSpec::CurrencyAmount(s, k)) => n(s, v) && eq(c, k.as_ref().as_bytes()),
            _ => false,
        };
        check(ok, "price");
    }
}
#[derive(Clone, Default)]
struct Po {
    flag: bool,
    num: Option<Num>,
    cur: Option<Bs>,
    cost: Option<C>,
    price: Option<Pr>,
    key: bool,
}
/// the start of a posting: amount shape a < 4
fn start(x: &mut Text, a: u8, flag: bool, nk: u8) -> Po {
    let mut p = Po { flag, ..Po::default() };
    x.lit(if flag { "  ! Assets:Stock" } else { "  Assets:Stock" });
    if a & 1 != 0 {
        let n = num(nk);
        x.lit(" ");
        x.b.extend_from_slice(&n.s);
        p.num = Some(n);
    }
    if a & 2 != 0 {
        let c = up("HOO");
        x.lit(" ");
        x.b.extend_from_slice(&c);
        p.cur = Some(c);
    }
    p
}
fn verify(w: &Po, p: &Posting) {
    check(p.flag().is_some() == w.flag, "flag of the posting");
    check(eqs(p.account().item().as_ref(), "Assets:Stock"), "account of the posting");
    check(
        match (&w.num, p.amount()) {
            (None, None) => true,
            (Some(n), Some(v)) => n.is(v.value()),
            _ => false,
        },
        "amount of the posting",
    );
    check(
        match (&w.cur, p.currency()) {
            (None, None) => true,
            (Some(n), Some(v)) => eq(n, v.item().as_ref().as_bytes()),
            _ => false,
        },
        "currency of the posting",
    );
    check(p.cost_spec().is_some() == w.cost.is_some(), "a cost exactly if written");
    check(p.price_annotation().is_some() == w.price.is_some(), "a price exactly if written");
    if let Some(c) = &w.cost {
        c.verify(p.cost_spec().unwrap());
    }
    if let Some(c) = &w.price {
        c.verify(p.price_annotation().unwrap());
    }
    check(p.metadata().key_values().len() == w.key as usize && p.metadata().tags().len() == 0, "metadata of the posting");
}
fn ledger(x: &Text, w: &[Po]) {
    with_ok(x.str(), "valid cost or price rejected", |_, p| {
        check(p.directives.len() == 1 && p.warnings.is_empty(), "one directive");
        let t = the_txn(p);
        check(t.postings().len() == w.len() + 1, "number of postings");
        for (i, w) in w.iter().enumerate() {
            verify(w, posting(t, i));
        }
        let l = posting(t, w.len());
        check(eqs(l.account().item().as_ref(), "Equity:Rest") && l.amount().is_none() && l.currency().is_none() && l.cost_spec().is_none() && l.price_annotation().is_none(), "the posting after");
    })
}
const H: &str = "2024-05-06 * \"x\"\n";
/// every sequence of up to n distinct components
fn comps(n: u8, tight: bool) {
    let mut x = Text::new();
    x.lit(H);
    let mut w = start(&mut x, 3, false, 1);
    x.lit(if tight { "{" } else { " { " });
    let mut c = C::default();
    let mut seen = 0;
    for i in 0..n {
        // COMPS: no more
        let k = choose(COMPS + 1);
        if k == COMPS {
            break;
        }
        assume(seen & MASK[k as usize] == 0);
        seen |= MASK[k as usize];
        if i > 0 {
            // a comma between digits would belong to the number
            x.lit(if !tight { " , " } else if k == 10 || (k < 8 && MASK[k as usize] & 1 != 0) { ", " } else { "," });
        }
        c.comp(&mut x, k, (i + k) % NUMS, tight);
    }
    x.lit(if tight { "}\n" } else { " }\n" });
    w.cost = Some(c);
    x.lit("  Equity:Rest\n");
    ledger(&x, &[w]);
}
/// every kind of amount, with every kind of number
fn amounts() {
    let mut x = Text::new();
    x.lit(H);
    let mut w = start(&mut x, 3, false, 1);
    x.lit(" {");
    let (k, nk, tight) = (choose(8), choose(NUMS), flip());
    let mut c = C::default();
    let rest = choose(4);
    if rest == 1 {
        c.comp(&mut x, 10, nk, tight);
        x.lit(", ");
    }
    c.comp(&mut x, k, nk, tight);
    if rest == 2 {
        x.lit(",");
        c.comp(&mut x, 11, nk, tight);
    }
    if rest == 3 {
        x.lit(", ");
        c.comp(&mut x, 12, nk, tight);
    }
    x.lit("}\n");
    w.cost = Some(c);
    x.lit("  Equity:Rest\n");
    ledger(&x, &[w]);
}
/// every kind of price, with every kind of number
fn prices() {
    let mut x = Text::new();
    x.lit(H);
    let a = choose(4);
    let mut w = start(&mut x, a, flip(), choose(NUMS));
    x.lit(" ");
    let k = choose(8);
    w.price = Some(price(&mut x, k, choose(NUMS), flip()));
    x.lit("\n  Equity:Rest\n");
    ledger(&x, &[w]);
}
/// cost and price together, in postings next to each other
fn one(x: &mut Text, a: u8, ck: u8, pk: u8, meta: bool) -> Po {
    let mut w = start(x, a, false, ck % NUMS);
    if ck > 0 {
        x.lit(" {");
        let mut c = C::default();
        if ck > 1 {
            c.comp(x, ck - 2, pk % NUMS, false);
        }
        x.lit("}");
        w.cost = Some(c);
    }
    if pk > 0 {
        x.lit(" ");
        w.price = Some(price(x, pk - 1, (ck + pk) % NUMS, false));
    }
    x.lit("\n");
    if meta {
        x.lit("    key: 1 USD\n");
        w.key = true;
    }
    w
}
fn combo() {
    let mut x = Text::new();
    x.lit(H);
    let w = one(&mut x, choose(4), choose(COMPS + 2), choose(9), flip());
    x.lit("  Equity:Rest\n");
    ledger(&x, &[w]);
}
fn pairs() {
    let mut x = Text::new();
    x.lit(H);
    let v = one(&mut x, 3, choose(COMPS + 2), pick(&[0u8, 1, 8, 5]), false);
    let w = one(&mut x, pick(&[0u8, 3]), choose(COMPS + 2), pick(&[0u8, 2, 7]), false);
    x.lit("  Equity:Rest\n");
    ledger(&x, &[v, w]);
}
/// the same posting twice, and with the currency of amount, cost and price all alike
fn same() {
    let mut x = Text::new();
    x.lit(H);
    let c = up("US");
    let n = num(choose(NUMS));
    let total = flip();
    let neg = flip();
    x.lit("  Assets:Stock ").lit(if neg { "-1 " } else { "1 " });
    x.b.extend_from_slice(&c);
    x.lit(" {");
    x.b.extend_from_slice(&n.s);
    x.lit(" ");
    x.b.extend_from_slice(&c);
    x.lit(if total { "} @@ " } else { "} @ " });
    x.b.extend_from_slice(&n.s);
    x.lit(" ");
    x.b.extend_from_slice(&c);
    x.lit("\n  Equity:Rest\n");
    let one = Num { s: b("1"), m: if neg { -1 } else { 1 }, sc: 0 };
    let w = Po { num: Some(one), cur: Some(c.clone()), cost: Some(C { per: Some(n.clone()), cur: Some(c.clone()), ..C::default() }), price: Some(Pr { total, num: Some(n), cur: Some(c) }), ..Po::default() };
    ledger(&x, &[w]);
}

pub const JOBS: &[Job] = &[
    job("comps3", 0, || comps(3, false), "every sequence of up to 3 distinct cost components of 13 kinds"),
    job("comps6", 0, || comps(6, true), "every sequence of up to 6 distinct cost components of 13 kinds, written without white space"),
    job("amounts", 0, amounts, "8 kinds of cost amount, 8 kinds of number, alone, before and after other components"),
    job("prices", 0, prices, "8 kinds of price, 8 kinds of number, 4 kinds of posting amount with 8 kinds of number"),
    job("combo", 0, combo, "4 kinds of posting amount, 15 of cost, 9 of price, with and without metadata"),
    job("pairs", 0, pairs, "two postings, 15 kinds of cost each, 4 and 3 of price"),
    job("same", 0, same, "cost and price equal in number and currency, 8 kinds of number"),
];
