//! C17: equal elements are equal wherever they stand.
use crate::c19::{flags, posting_of, tl_meta};
use crate::model::*;
use crate::util::*;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

/// what an element feeds to a hasher
#[derive(Default)]
struct Fed(Vec<u8>);
impl Hasher for Fed {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn fed<T: Hash>(x: &T) -> Vec<u8> {
    let mut f = Fed::default();
    x.hash(&mut f);
    f.0
}

const D1: &str = "2024-02-03";
const PAD: [&str; 4] = ["", "\n", "; a comment\n\n", "; é\n* x\n; a much longer line of comment, so that positions have more digits\n\n\n"];
/// the two texts are parsed apart, the second after some padding, and their directives compared
fn compare(x: &[u8], y: &[u8], same: bool) {
    let mut z = Text::new();
    z.lit(pick(&PAD));
    z.b.extend_from_slice(y);
    let t = |x: &[u8]| unsafe { std::str::from_utf8_unchecked(x) }.to_string();
    with_ok(&t(x), "valid ledger rejected", |_, p| {
        with_ok(&t(&z.b), "valid ledger rejected", |_, q| {
            for (a, b) in p.directives.iter().zip(&q.directives) {
                judge(a, b, same);
            }
        })
    })
}
fn judge(a: &Spanned<Directive>, b: &Spanned<Directive>, same: bool) {
    check((a == b) == same, if same { "equal directives at different places are not equal" } else { "different directives are equal" });
    check((b == a) == same && (a.item() == b.item()) == same && (a != b) != same, "equality is consistent");
    check(a == a && b == b && a.clone() == *a, "a directive equals itself and its clone");
    if same {
        cover(1);
        check(a.metadata() == b.metadata() && a.date() == b.date() && a.variant() == b.variant(), "parts of equal directives are equal");
    }
}
fn put(d: &Dir) -> Bs {
    let mut x = Text::new();
    d.put(&mut x);
    x.b
}
fn kinds() {
    let k = choose(2 * KINDS);
    let l = if flip() { k } else { choose(2 * KINDS) };
    let f = |k: u8| put(&dir(D1, if k < KINDS { kind(k) } else { kind_rich(k - KINDS) }));
    let (x, y) = (f(k), f(l));
    compare(&x, &y, k == l && eq(&x, &y))
}
fn dates() {
    let k = choose(KINDS);
    let d = |s: Bs| Dir { date: s, d: kind_rich(k), meta: Meta::default() };
    let (mut a, mut c) = (b("2024-02-03"), b("2024-02-03"));
    let i = pick(&[0, 1, 2, 3, 6, 9]);
    let s = if i == 6 { set_of(b"123456789") } else if i == 9 { set_of(b"123456789") } else { set_of(b"123456789") };
    a[i] = byte(&s);
    c[i] = byte(&s);
    let same = eq(&a, &c);
    compare(&put(&d(a)), &put(&d(c)), same)
}
fn set_eq(a: &[&Bs], c: &[&Bs]) -> bool {
    a.len() == c.len() && a.iter().all(|x| c.iter().any(|y| eq(x, y)))
}
fn metas() {
    let k = choose(KINDS - 1);
    let (m, n) = (tl_meta(), tl_meta());
    let t = |m: &Meta| m.htags.iter().chain(&m.ltags).cloned().collect::<Vec<_>>();
    let l = |m: &Meta| m.hlinks.iter().chain(&m.llinks).cloned().collect::<Vec<_>>();
    let r = |v: &[Bs]| v.to_vec();
    let (tm, tn, lm, ln) = (r(&t(&m)), r(&t(&n)), r(&l(&m)), r(&l(&n)));
    let kv = |m: &Meta| {
        let mut x = Text::new();
        for (k, v) in &m.kv {
            x.b.extend_from_slice(k);
            x.lit(":");
            v.put(&mut x);
            x.lit("\n");
        }
        x.b
    };
    let same = set_eq(&tm.iter().collect::<Vec<_>>(), &tn.iter().collect::<Vec<_>>()) && set_eq(&lm.iter().collect::<Vec<_>>(), &ln.iter().collect::<Vec<_>>()) && eq(&kv(&m), &kv(&n));
    let f = |m: &Meta| put(&Dir { date: b(D1), d: kind_rich(k), meta: m.clone() });
    compare(&f(&m), &f(&n), same)
}
fn vals() {
    let (k, l) = (choose(VALS), choose(VALS));
    let custom = flip();
    let f = |k: u8| {
        let v = val(k);
        let mut x = Text::new();
        v.put(&mut x);
        let mut d = dir(D1, if custom { D::Custom(b("c"), vec![v.clone(), Val::Bool(true)]) } else { kind_rich(8) });
        if !custom {
            d.meta.kv = vec![(b("aa"), v), (b("bb"), Val::Bool(true))];
        }
        (put(&d), x.b)
    };
    let ((x, a), (y, c)) = (f(k), f(l));
    compare(&x, &y, k == l && eq(&a, &c))
}
/// the same values under other keys, or in another order
fn orders() {
    let v = [(b("aa"), Val::Str(b("x"))), (b("bb"), Val::Num(b("1"))), (b("cc"), Val::Bool(true))];
    let f = |p: [usize; 3], q: [usize; 3]| {
        let mut d = dir(D1, kind_rich(8));
        d.meta.kv = (0..3).map(|i| (v[p[i]].0.clone(), v[q[i]].1.clone())).collect();
        d.meta.htags = (0..3).map(|i| v[p[i]].0.clone()).collect();
        put(&d)
    };
    const P: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let (p, q) = (pick(&P), pick(&P));
    compare(&f(P[0], P[0]), &f(p, q), p == q)
}
fn posts() {
    let (k, l) = (choose(14), choose(14));
    let full = flip();
    let two = choose(3);
    let f = |k: u8| {
        let p = posting_of(k, full);
        let ps = match two {
            0 => vec![p],
            1 => vec![post("Assets:Z"), p],
            _ => vec![p, post("Assets:Z")],
        };
        put(&dir(D1, D::Txn(b("*"), None, Some(b("n")), ps)))
    };
    let (x, y) = (f(k), f(l));
    compare(&x, &y, k == l && eq(&x, &y))
}
fn headers(nf: u8) {
    let h = || {
        let f = flags((choose(nf) + 7) % 8);
        let s = |k: u8| match k {
            0 => None,
            1 => Some(b("")),
            2 => Some(nm("p")),
            _ => Some(b("long text")),
        };
        let n = s(if nf < 8 { choose(4) } else { 2 });
        let p = if nf < 8 && n.is_some() { s(choose(3)) } else { None };
        (f, p, n)
    };
    let (a, c) = (h(), h());
    let o = |a: &Option<Bs>, c: &Option<Bs>| {
        let e = Vec::new();
        eq(a.as_ref().unwrap_or(&e), c.as_ref().unwrap_or(&e))
    };
    let fl = |f: &Bs| if f[0] == b't' { b("*") } else { f.clone() };
    let same = eq(&fl(&a.0), &fl(&c.0)) && o(&a.1, &c.1) && o(&a.2, &c.2);
    let f = |h: (Bs, Option<Bs>, Option<Bs>)| put(&dir(D1, D::Txn(h.0, h.1, h.2, vec![post("Assets:A")])));
    compare(&f(a), &f(c), same)
}
/// numbers of postings, order of postings
fn counts() {
    let ps = ["Assets:A", "Assets:B", "Assets:C"];
    let (m, n) = (choose(4), choose(4));
    let (s, t) = (choose(3), choose(3));
    let f = |n: u8, s: u8| put(&dir(D1, D::Txn(b("*"), None, Some(b("n")), (0..n).map(|i| post(ps[(i + s) as usize % 3])).collect())));
    compare(&f(m, s), &f(n, t), m == n && (m == 0 || s == t))
}
fn opens() {
    let o = || {
        let n = choose(3);
        let cs: Vec<Bs> = (0..n).map(|i| b([["AA", "BB"], ["CC", "DD"]][i as usize][choose(2) as usize])).collect();
        let bk = pick(&[None, Some("FIFO"), Some("LIFO")]).map(b);
        (cs, bk)
    };
    let (a, c) = (o(), o());
    let same = set_eq(&a.0.iter().collect::<Vec<_>>(), &c.0.iter().collect::<Vec<_>>()) && a.1 == c.1;
    let f = |(mut cs, bk): (Vec<Bs>, Option<Bs>), r: bool| {
        if r {
            cs.reverse();
        }
        put(&dir(D1, D::Open(b("Assets:A"), cs, bk)))
    };
    let r = flip();
    compare(&f(a, false), &f(c, r), same)
}
/// both in one ledger, at a distance
fn together() {
    let k = choose(KINDS);
    let rich = flip();
    let f = || if rich { kind_rich(k) } else { kind(k) };
    let (x, y) = (put(&dir(D1, f())), put(&dir(D1, f())));
    let same = eq(&x, &y);
    let mut t = Text::new();
    t.b.extend_from_slice(&x);
    t.lit(pick(&PAD));
    t.b.extend_from_slice(&y);
    with_ok(t.str(), "valid ledger rejected", |_, p| {
        check(p.directives.len() == 2, "number of directives");
        judge(&p.directives[0], &p.directives[1], same);
        check(p.directives[0].span() != p.directives[1].span(), "positions differ");
    })
}
fn plugins() {
    let f = || {
        let mut x = Text::new();
        x.lit("plugin \"m");
        x.sym(LOWER, 1);
        x.lit("\"");
        match choose(3) {
            0 => {}
            1 => {
                x.lit(" \"c");
                x.sym(LOWER, 1);
                x.lit("\"");
            }
            _ => {
                x.lit(" \"\"");
            }
        }
        x.lit("\n");
        x.b
    };
    let (x, y) = (f(), f());
    let same = eq(&x, &y);
    let mut t = Text::new();
    t.b.extend_from_slice(&x);
    t.lit(pick(&PAD));
    t.b.extend_from_slice(&y);
    with_ok(t.str(), "valid ledger rejected", |_, p| check((p.plugins[0] == p.plugins[1]) == same && (p.plugins[1] != p.plugins[0]) != same, "plugins are equal exactly if written alike"))
}
/// names in two directives: equality, hashing and lookup
fn names() {
    let mut x = Text::new();
    let (mut r, mut s) = (Vec::new(), Vec::new());
    for v in [&mut r, &mut s] {
        x.lit("2024-01-01 * \"n\" #t");
        v.push(x.sym(LOWER, 1));
        x.lit(" ^t");
        v.push(x.sym(LOWER, 1));
        x.lit("\n  k");
        v.push(x.sym(LOWER, 1));
        x.lit(": C");
        v.push(x.sym(UPPER, 1));
        x.lit("\n  Assets:A");
        v.push(x.sym(LOWER, 1));
        x.lit(" 1 U");
        v.push(x.sym(UPPER, 1));
        x.lit("\n");
        x.lit(pick(&PAD));
    }
    let same = |i: usize| eq(&x.b[r[i].clone()], &x.b[s[i].clone()]);
    with_ok(x.str(), "valid ledger rejected", |_, p| {
        let (d, e) = (&p.directives[0], &p.directives[1]);
        macro_rules! pair {
            ($i:expr, $a:expr, $b:expr, $m:expr) => {
                let (a, b) = ($a, $b);
                check((a == b) == same($i) && (a.item() == b.item()) == same($i), $m);
                if same($i) {
                    check(eq(&fed(a), &fed(b)), "equal elements hash alike");
                }
                check(eq(&fed(a), &fed(a.item())), "an element hashes alike with and without position");
            };
        }
        pair!(0, d.metadata().tags().next().unwrap(), e.metadata().tags().next().unwrap(), "tags are equal exactly if written alike");
        pair!(1, d.metadata().links().next().unwrap(), e.metadata().links().next().unwrap(), "links are equal exactly if written alike");
        let ((k, v), (l, w)) = (d.metadata().key_values().next().unwrap(), e.metadata().key_values().next().unwrap());
        pair!(2, k, l, "keys are equal exactly if written alike");
        check((v == w) == same(3), "values are equal exactly if written alike");
        let (q, u) = (posting(as_txn(d).unwrap(), 0), posting(as_txn(e).unwrap(), 0));
        check((q.account() == u.account()) == same(4), "accounts are equal exactly if written alike");
        pair!(5, q.currency().unwrap(), u.currency().unwrap(), "currencies are equal exactly if written alike");
        check((q == u) == (same(4) && same(5)), "postings are equal exactly if written alike");
        let mut h = HashMap::new();
        h.insert(*d.metadata().tags().next().unwrap(), 1);
        check(h.contains_key(e.metadata().tags().next().unwrap()) == same(0), "a tag read at one place finds one read at another");
    })
}
/// the same words mean another account once account types have other names
fn types() {
    const T: [(&str, &str); 5] = [("Assets", "assets"), ("Liabilities", "liabilities"), ("Equity", "equity"), ("Income", "income"), ("Expenses", "expenses")];
    let i = choose(5) as usize;
    let j = choose(5) as usize;
    let mut d = Text::new();
    d.lit("2024-01-01 ");
    let a = T[i].0;
    let t = pick(&["open @:A\n", "close @:A\n", "note @:A \"n\"\n", "pad @:A @:B\n", "balance @:A 1 USD\n", "document @:A \"f\"\n", "custom \"c\" @:A\n", "commodity USD\n  key: @:A\n", "* \"n\"\n  @:A 1 USD\n"]);
    for c in t.bytes() {
        if c == b'@' {
            d.lit(a);
        } else {
            d.b.push(c);
        }
    }
    let mut x = Text::new();
    x.b.extend_from_slice(&d.b);
    if i == j {
        // another type gets another name: no difference
        x.lit("option \"name_").lit(T[(i + 1) % 5].1).lit("\" \"Other\"\n");
    } else {
        x.lit("option \"name_").lit(T[i].1).lit("\" \"Other\"\n");
        x.lit("option \"name_").lit(T[j].1).lit("\" \"").lit(a).lit("\"\n");
    }
    x.b.extend_from_slice(&d.b);
    with_ok(x.str(), "valid ledger rejected", |_, p| judge(&p.directives[0], &p.directives[1], i == j))
}
/// explicit positions
fn spans() {
    let any = range(0, 255);
    let sp = || Span { source: byte(&any) as usize, start: byte(&any) as usize, end: byte(&any) as usize };
    let (s, t) = (sp(), sp());
    let (i, j) = (byte(&any), byte(&any));
    let (a, b) = (spanned(i, s), spanned(j, t));
    let at = |p: &Span, q: &Span| p.source == q.source && p.start == q.start && p.end == q.end;
    cover(0);
    check((a == b) == (i == j), "equality goes by the item only");
    check(!(i == j) || eq(&fed(&a), &fed(&b)), "equal items hash alike");
    check(eq(&fed(&a), &fed(&i)), "an element hashes as its item");
    check(*a.item() == i && at(a.span(), &s) && *a == i, "item and position are those given");
    let m = a.map(|x| x.wrapping_add(1));
    check(*m.item() == i.wrapping_add(1) && at(m.span(), &s), "map keeps the position");
    let m = a.map_into(|x| (x, 1u8));
    check(m.item().0 == i && at(m.span(), &s), "map_into keeps the position");
    let m = a.as_ref();
    check(**m.item() == i && at(m.span(), &s), "as_ref keeps the position");
    let mut c = a;
    *c = j;
    check(*c.item() == j && at(c.span(), &s) && (c == b), "changing the item keeps the position");
    let d = b.clone();
    check(d == b && at(d.span(), &t), "a clone is alike");
    let o = Some(&a);
    check(OptionalItem::item(&o).is_some_and(|x| *x == i) && OptionalItem::<u8>::item(&None).is_none(), "item of an option");
}
fn sets() {
    let any = range(0, 255);
    let sp = || Span { source: 0, start: byte(&any) as usize, end: byte(&any) as usize };
    let (s, t) = (sp(), sp());
    let mut x = Text::new();
    x.sym(UPPER, 2);
    let mut y = Text::new();
    y.sym(UPPER, 2);
    cover(0);
    let (c, d) = (Currency::try_from(x.str()).unwrap(), Currency::try_from(y.str()).unwrap());
    let same = eq(&x.b, &y.b);
    let mut h = HashSet::new();
    h.insert(spanned(c, s));
    check(h.contains(&spanned(d, t)) == same, "lookup goes by the item only");
    check(h.insert(spanned(d, t)) != same, "insertion goes by the item only");
    check(h.len() == if same { 1 } else { 2 }, "a set holds each item once");
    check((c == d) == same && (c.cmp(&d) == std::cmp::Ordering::Equal) == same, "currencies are equal exactly if alike");
}
/// errors and warnings made from an element point at it
fn reports() {
    let k = choose(KINDS);
    let x = put(&dir(D1, kind_rich(k)));
    let mut t = Text::new();
    t.lit(pick(&PAD));
    let at = t.b.len();
    t.b.extend_from_slice(&x);
    with_ok(t.str(), "valid ledger rejected", |src, p| {
        let d = &p.directives[0];
        let e = d.error("because");
        let w = d.as_ref().warning("maybe");
        check(e.span() == *d.span() && w.span() == *d.span() && d.span().start == at, "a report points at the element");
        check(eqs(src.resolve_span(&e.span()).content, std::str::from_utf8(&x).unwrap().trim_end()), "a report resolves to the element");
        check(eqs(e.reason(), "because") && eqs(w.reason(), "maybe"), "a report carries its reason");
        check(e.message().starts_with("invalid ") && w.message().starts_with("questionable "), "a report names the element");
        let e2 = e.related_to(d).in_context(d);
        check(e2.span() == *d.span() && e2.related().all(|r| r.1 == *d.span()) && e2.contexts().all(|r| r.1 == *d.span()), "related elements keep their position");
    })
}

pub static JOBS: &[Job] = &[
    job("kinds", 0, kinds, "every pair of 12 kinds of directive, plain with symbolic letters or rich"),
    job("dates", 0, dates, "two symbolic digits of a date, 12 kinds"),
    job("metas", 0, metas, "every pair of 7 shapes of metadata on 11 kinds"),
    job("vals", 0, vals, "every pair of 13 kinds of value, in metadata and customs"),
    job("orders", 0, orders, "three keys, values and tags in every order"),
    job("posts", 0, posts, "every pair of 14 shapes of posting with symbolic contents"),
    job("headers", 0, || headers(2), "every pair of transaction headers of 2 flags, payee and narration"),
    job("flags", 0, || headers(8), "every pair of 8 flags"),
    job("headers4", 1, || headers(4), "every pair of transaction headers of 4 flags, payee and narration"),
    job("counts", 0, counts, "0 to 3 postings in several orders"),
    job("opens", 0, opens, "sets of currencies and booking methods"),
    job("together", 0, together, "two directives in one ledger"),
    job("plugins", 0, plugins, "pairs of plugins with symbolic letters"),
    job("names", 0, names, "tags, links, keys, currencies, accounts with symbolic letters, equality and hash"),
    job("types", 0, types, "the same account name under two types, 5 by 5 types, 9 kinds of directive"),
    job("spans", 0, spans, "symbolic 8-bit spans and items"),
    job("sets", 0, sets, "symbolic currencies and spans in a set"),
    job("reports", 0, reports, "errors and warnings made from 12 kinds of directive"),
];
