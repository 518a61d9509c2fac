//! What a directive should hold, independent of the parser: emit it as ledger text, compare it with what was parsed.
use crate::util::*;

pub type Bs = Vec<u8>;
pub fn b(s: &str) -> Bs {
    s.as_bytes().to_vec()
}
/// s with a symbolic lower-case letter appended
pub fn nm(s: &str) -> Bs {
    let mut v = b(s);
    v.push(byte(&LOWER));
    v
}
/// s with a symbolic upper-case letter appended
pub fn up(s: &str) -> Bs {
    let mut v = b(s);
    v.push(byte(&UPPER));
    v
}
/// s with a symbolic digit appended
pub fn dg(s: &str) -> Bs {
    let mut v = b(s);
    v.push(byte(&DIGIT));
    v
}
/// mantissa and scale of [-]digits[.digits]
pub fn lit(s: &[u8]) -> (i128, u32) {
    let (mut m, mut sc, mut frac, mut neg) = (0i128, 0, false, false);
    for c in s {
        match *c {
            b'.' => frac = true,
            b'-' => neg = true,
            b',' | b'+' => {}
            c => {
                m = m.wrapping_mul(10).wrapping_add(dv(c));
                sc += frac as u32;
            }
        }
    }
    (if neg { m.wrapping_neg() } else { m }, sc)
}
pub fn num_is(d: Decimal, s: &[u8]) -> bool {
    let (m, sc) = lit(s);
    d.scale() == sc && d.mantissa() == m
}
pub fn date_is(d: &time::Date, s: &[u8]) -> bool {
    let v = |r: &[u8]| r.iter().fold(0i32, |a, c| a.wrapping_mul(10).wrapping_add(c.wrapping_sub(b'0') as i32));
    d.year() == v(&s[0..4]) && d.month() as u8 as i32 == v(&s[5..7]) && d.day() as i32 == v(&s[8..10])
}
pub fn acc_is(a: &Account, s: &[u8]) -> bool {
    let t = match s[0] {
        b'A' => AccountType::Assets,
        b'L' => AccountType::Liabilities,
        b'I' => AccountType::Income,
        _ if s[1] == b'q' => AccountType::Equity,
        _ => AccountType::Expenses,
    };
    eq(a.as_ref().as_bytes(), s) && a.account_type() == t
}
fn quoted(x: &mut Text, s: &[u8]) {
    x.lit("\"");
    x.b.extend_from_slice(s);
    x.lit("\"");
}

#[derive(Clone)]
pub enum Val {
    Str(Bs),
    Cur(Bs),
    Acc(Bs),
    Tag(Bs),
    Link(Bs),
    Date(Bs),
    Bool(bool),
    Null,
    None,
    Num(Bs),
    Amt(Bs, Bs),
}
impl Val {
    pub fn put(&self, x: &mut Text) {
        match self {
            Val::Str(s) => quoted(x, s),
            Val::Cur(s) | Val::Acc(s) | Val::Date(s) | Val::Num(s) => x.b.extend_from_slice(s),
            Val::Tag(s) => {
                x.lit("#");
                x.b.extend_from_slice(s);
            }
            Val::Link(s) => {
                x.lit("^");
                x.b.extend_from_slice(s);
            }
            Val::Bool(v) => {
                x.lit(if *v { "TRUE" } else { "FALSE" });
            }
            Val::Null => {
                x.lit("NULL");
            }
            Val::None => {}
            Val::Amt(n, c) => {
                x.b.extend_from_slice(n);
                x.lit(" ");
                x.b.extend_from_slice(c);
            }
        }
    }
    pub fn is(&self, v: &MetaValue) -> bool {
        use SimpleValue as S;
        match (self, v) {
            (Val::Amt(n, c), MetaValue::Amount(a)) => num_is(a.number().value(), n) && eq(a.currency().item().as_ref().as_bytes(), c),
            (Val::Str(s), MetaValue::Simple(S::String(v))) => eq(v.as_bytes(), s),
            (Val::Cur(s), MetaValue::Simple(S::Currency(v))) => eq(v.as_ref().as_bytes(), s),
            (Val::Acc(s), MetaValue::Simple(S::Account(v))) => acc_is(v, s),
            (Val::Tag(s), MetaValue::Simple(S::Tag(v))) => eq(v.as_ref().as_bytes(), s),
            (Val::Link(s), MetaValue::Simple(S::Link(v))) => eq(v.as_ref().as_bytes(), s),
            (Val::Date(s), MetaValue::Simple(S::Date(v))) => date_is(v, s),
            (Val::Bool(s), MetaValue::Simple(S::Bool(v))) => *s == *v,
            (Val::Null | Val::None, MetaValue::Simple(S::Null)) => true,
            (Val::Num(s), MetaValue::Simple(S::Expr(v))) => num_is(v.value(), s),
            _ => false,
        }
    }
}
#[derive(Clone, Default)]
pub struct Meta {
    /// tags and links on the first line, then on lines of their own
    pub htags: Vec<Bs>,
    pub hlinks: Vec<Bs>,
    pub ltags: Vec<Bs>,
    pub llinks: Vec<Bs>,
    pub kv: Vec<(Bs, Val)>,
}
impl Meta {
    fn put_head(&self, x: &mut Text) {
        for t in &self.htags {
            x.lit(" #");
            x.b.extend_from_slice(t);
        }
        for t in &self.hlinks {
            x.lit(" ^");
            x.b.extend_from_slice(t);
        }
    }
    fn put_lines(&self, x: &mut Text, ind: &str) {
        for (i, (k, v)) in self.kv.iter().enumerate() {
            if i == 1 {
                self.put_tl(x, ind);
            }
            x.lit(ind);
            x.b.extend_from_slice(k);
            x.lit(": ");
            v.put(x);
            x.lit("\n");
        }
        if self.kv.len() < 2 {
            self.put_tl(x, ind);
        }
    }
    fn put_tl(&self, x: &mut Text, ind: &str) {
        for t in &self.ltags {
            x.lit(ind).lit("#");
            x.b.extend_from_slice(t);
            x.lit("\n");
        }
        for t in &self.llinks {
            x.lit(ind).lit("^");
            x.b.extend_from_slice(t);
            x.lit("\n");
        }
    }
    pub fn verify(&self, m: &Metadata) {
        let bts = |v: &[Bs], w: &[Bs], n: usize, f: &dyn Fn(&Bs) -> bool| n == v.len() + w.len() && v.iter().all(f) && w.iter().all(f);
        check(bts(&self.htags, &self.ltags, m.tags().len(), &|t| m.tags().any(|x| eq(x.item().as_ref().as_bytes(), t))), "tags are those written");
        check(bts(&self.hlinks, &self.llinks, m.links().len(), &|t| m.links().any(|x| eq(x.item().as_ref().as_bytes(), t))), "links are those written");
        check(m.key_values().len() == self.kv.len(), "metadata keys are those written");
        for (k, v) in &self.kv {
            let g = m.key_values().find(|(key, _)| eq(key.item().as_ref().as_bytes(), k)).map(|x| x.1);
            check(g.is_some_and(|g| v.is(g.item())), "metadata values are those written");
            let g = std::str::from_utf8(k).ok().and_then(|k| Key::try_from(k).ok()).and_then(|k| m.key_value(k));
            check(g.is_some_and(|g| v.is(g.item())), "metadata values are found by key");
        }
        check(m.is_empty() == (self.kv.is_empty() && self.htags.len() + self.ltags.len() + self.hlinks.len() + self.llinks.len() == 0), "metadata is empty exactly if nothing is written");
    }
}
#[derive(Clone, Default)]
pub struct Cost {
    pub per: Option<Bs>,
    pub total: Option<Bs>,
    pub cur: Option<Bs>,
    pub date: Option<Bs>,
    pub label: Option<Bs>,
    pub merge: bool,
}
impl Cost {
    pub fn put(&self, x: &mut Text) {
        x.lit("{");
        let mut any = false;
        if let Some(p) = &self.per {
            x.b.extend_from_slice(p);
            any = true;
        }
        if let Some(p) = &self.total {
            x.lit(if any { " # " } else { "# " });
            x.b.extend_from_slice(p);
            any = true;
        }
        if let Some(p) = &self.cur {
            x.lit(if any { " " } else { "" });
            x.b.extend_from_slice(p);
            any = true;
        }
        if let Some(p) = &self.date {
            x.lit(if any { ", " } else { "" });
            x.b.extend_from_slice(p);
            any = true;
        }
        if let Some(p) = &self.label {
            x.lit(if any { ", " } else { "" });
            quoted(x, p);
            any = true;
        }
        if self.merge {
            x.lit(if any { ", *" } else { "*" });
        }
        x.lit("}");
    }
    pub fn verify(&self, c: &CostSpec) {
        let o = |a: &Option<Bs>, n: Option<Decimal>| match (a, n) {
            (None, None) => true,
            (Some(a), Some(n)) => num_is(n, a),
            _ => false,
        };
        let t = |a: &Option<Bs>, n: Option<&str>| match (a, n) {
            (None, None) => true,
            (Some(a), Some(n)) => eq(a, n.as_bytes()),
            _ => false,
        };
        check(o(&self.per, c.per_unit().map(|x| x.value())), "cost per unit");
        check(o(&self.total, c.total().map(|x| x.value())), "total cost");
        check(t(&self.cur, c.currency().map(|x| x.item().as_ref())), "cost currency");
        check(t(&self.label, c.label().map(|x| *x.item())), "cost label");
        check(c.merge() == self.merge, "cost merge");
        check(
            match (&self.date, c.date()) {
                (None, None) => true,
                (Some(a), Some(n)) => date_is(n.item(), a),
                _ => false,
            },
            "cost date",
        );
    }
}
#[derive(Clone)]
pub struct Prc {
    pub total: bool,
    pub num: Option<Bs>,
    pub cur: Option<Bs>,
}
impl Prc {
    pub fn put(&self, x: &mut Text) {
        x.lit(if self.total { "@@" } else { "@" });
        for p in [&self.num, &self.cur].into_iter().flatten() {
            x.lit(" ");
            x.b.extend_from_slice(p);
        }
    }
    pub fn verify(&self, p: &PriceSpec) {
        let n = |s: &ScopedExprValue, b: &Bs| match s {
            ScopedExprValue::PerUnit(e) => !self.total && num_is(e.value(), b),
            ScopedExprValue::Total(e) => self.total && num_is(e.value(), b),
        };
        let ok = match (&self.num, &self.cur, p) {
            (None, None, PriceSpec::Unspecified) => true,
            (None, Some(c), PriceSpec::BareCurrency(k)) => eq(c, k.as_ref().as_bytes()),
            (Some(v), None, PriceSpec::BareAmount(s)) => n(s, v),
            (Some(v), Some(c), PriceSpec::CurrencyAmount(s, k)) => n(s, v) && eq(c, k.as_ref().as_bytes()),
            _ => false,
        };
        check(ok, "price");
    }
}
#[derive(Clone)]
pub struct Post {
    pub flag: Option<Bs>,
    pub acc: Bs,
    pub num: Option<Bs>,
    pub cur: Option<Bs>,
    pub cost: Option<Cost>,
    pub price: Option<Prc>,
    pub meta: Meta,
}
pub fn post(acc: &str) -> Post {
    Post { flag: None, acc: b(acc), num: None, cur: None, cost: None, price: None, meta: Meta::default() }
}
pub fn flag_is(f: &Flag, s: &[u8]) -> bool {
    match (f, s[0]) {
        (Flag::Asterisk, b'*') | (Flag::Asterisk, b't') | (Flag::Exclamation, b'!') | (Flag::Ampersand, b'&') | (Flag::Hash, b'#') | (Flag::Question, b'?') | (Flag::Percent, b'%') => true,
        (Flag::Letter(l), b'\'') => l.char() as u32 == s[1] as u32,
        _ => false,
    }
}
impl Post {
    pub fn put(&self, x: &mut Text) {
        x.lit("  ");
        if let Some(f) = &self.flag {
            x.b.extend_from_slice(f);
            x.lit(" ");
        }
        x.b.extend_from_slice(&self.acc);
        for p in [&self.num, &self.cur].into_iter().flatten() {
            x.lit(" ");
            x.b.extend_from_slice(p);
        }
        if let Some(c) = &self.cost {
            x.lit(" ");
            c.put(x);
        }
        if let Some(c) = &self.price {
            x.lit(" ");
            c.put(x);
        }
        x.lit("\n");
        self.meta.put_lines(x, "    ");
    }
    pub fn verify(&self, p: &Posting) {
        check(
            match (&self.flag, p.flag()) {
                (None, None) => true,
                (Some(a), Some(f)) => flag_is(f.item(), a),
                _ => false,
            },
            "flag of a posting",
        );
        check(acc_is(p.account().item(), &self.acc), "account of a posting");
        check(
            match (&self.num, p.amount()) {
                (None, None) => true,
                (Some(a), Some(f)) => num_is(f.value(), a),
                _ => false,
            },
            "amount of a posting",
        );
        check(
            match (&self.cur, p.currency()) {
                (None, None) => true,
                (Some(a), Some(f)) => eq(f.item().as_ref().as_bytes(), a),
                _ => false,
            },
            "currency of a posting",
        );
        check(self.cost.is_some() == p.cost_spec().is_some() && self.price.is_some() == p.price_annotation().is_some(), "cost and price of a posting are there exactly if written");
        if let Some(c) = &self.cost {
            c.verify(p.cost_spec().unwrap().item());
        }
        if let Some(c) = &self.price {
            c.verify(p.price_annotation().unwrap().item());
        }
        self.meta.verify(p.metadata());
    }
}
#[derive(Clone)]
pub enum D {
    Txn(Bs, Option<Bs>, Option<Bs>, Vec<Post>),
    Price(Bs, Bs, Bs),
    Balance(Bs, Bs, Option<Bs>, Bs),
    Open(Bs, Vec<Bs>, Option<Bs>),
    Close(Bs),
    Commodity(Bs),
    Pad(Bs, Bs),
    Document(Bs, Bs),
    Note(Bs, Bs),
    Event(Bs, Bs),
    Query(Bs, Bs),
    Custom(Bs, Vec<Val>),
}
#[derive(Clone)]
pub struct Dir {
    pub date: Bs,
    pub d: D,
    pub meta: Meta,
}
pub fn dir(date: &str, d: D) -> Dir {
    Dir { date: b(date), d, meta: Meta::default() }
}
impl Dir {
    pub fn put(&self, x: &mut Text) {
        fn p(x: &mut Text, s: &[u8]) {
            x.b.extend_from_slice(s);
        }
        p(x, &self.date);
        x.lit(" ");
        match &self.d {
            D::Txn(f, pa, na, _) => {
                p(x, f);
                for s in [pa, na].into_iter().flatten() {
                    x.lit(" ");
                    quoted(x, s);
                }
            }
            D::Price(c, n, k) => {
                x.lit("price ");
                p(x, c);
                x.lit(" ");
                p(x, n);
                x.lit(" ");
                p(x, k);
            }
            D::Balance(a, n, t, c) => {
                x.lit("balance ");
                p(x, a);
                x.lit(" ");
                p(x, n);
                if let Some(t) = t {
                    x.lit(" ~ ");
                    p(x, t);
                }
                x.lit(" ");
                p(x, c);
            }
            D::Open(a, cs, bk) => {
                x.lit("open ");
                p(x, a);
                for (i, c) in cs.iter().enumerate() {
                    x.lit(if i == 0 { " " } else { "," });
                    p(x, c);
                }
                if let Some(k) = bk {
                    x.lit(" ");
                    quoted(x, k);
                }
            }
            D::Close(a) => {
                x.lit("close ");
                p(x, a);
            }
            D::Commodity(a) => {
                x.lit("commodity ");
                p(x, a);
            }
            D::Pad(a, s) => {
                x.lit("pad ");
                p(x, a);
                x.lit(" ");
                p(x, s);
            }
            D::Document(a, s) | D::Note(a, s) => {
                x.lit(if matches!(self.d, D::Note(..)) { "note " } else { "document " });
                p(x, a);
                x.lit(" ");
                quoted(x, s);
            }
            D::Event(a, s) | D::Query(a, s) => {
                x.lit(if matches!(self.d, D::Event(..)) { "event " } else { "query " });
                quoted(x, a);
                x.lit(" ");
                quoted(x, s);
            }
            D::Custom(t, vs) => {
                x.lit("custom ");
                quoted(x, t);
                for v in vs {
                    x.lit(" ");
                    v.put(x);
                }
            }
        }
        self.meta.put_head(x);
        x.lit("\n");
        self.meta.put_lines(x, "  ");
        if let D::Txn(_, _, _, ps) = &self.d {
            for q in ps {
                q.put(x);
            }
        }
    }
    pub fn verify(&self, d: &Directive) {
        check(date_is(d.date().item(), &self.date), "date of a directive");
        self.meta.verify(d.metadata());
        // an empty payee or narration counts as none
        let os = |a: &Option<Bs>, v: Option<&str>| match (a, v) {
            (None, None) => true,
            (Some(a), None) => a.is_empty(),
            (Some(a), Some(v)) => !a.is_empty() && eq(a, v.as_bytes()),
            _ => false,
        };
        use DirectiveVariant as V;
        match (&self.d, d.variant()) {
            (D::Txn(f, pa, na, ps), V::Transaction(t)) => {
                check(flag_is(t.flag().item(), f), "flag of a transaction");
                check(os(pa, t.payee().map(|s| *s.item())), "payee");
                check(os(na, t.narration().map(|s| *s.item())), "narration");
                check(t.postings().len() == ps.len(), "number of postings");
                for (q, p) in ps.iter().zip(t.postings()) {
                    q.verify(p.item());
                }
            }
            (D::Price(c, n, k), V::Price(p)) => check(eq(c, p.currency().item().as_ref().as_bytes()) && num_is(p.amount().number().value(), n) && eq(k, p.amount().currency().item().as_ref().as_bytes()), "price directive"),
            (D::Balance(a, n, t, c), V::Balance(p)) => {
                check(acc_is(p.account().item(), a), "account of a balance");
                let am = p.atol().amount();
                check(num_is(am.number().value(), n) && eq(c, am.currency().item().as_ref().as_bytes()), "amount of a balance");
                check(
                    match (t, p.atol().tolerance()) {
                        (None, None) => true,
                        (Some(t), Some(v)) => num_is(*v.item(), t),
                        _ => false,
                    },
                    "tolerance of a balance",
                );
            }
            (D::Open(a, cs, bk), V::Open(p)) => {
                check(acc_is(p.account().item(), a), "account of an open");
                check(p.currencies().len() == cs.len() && cs.iter().all(|c| p.currencies().any(|k| eq(k.item().as_ref().as_bytes(), c))), "currencies of an open");
                check(
                    match (bk, p.booking()) {
                        (None, None) => true,
                        (Some(t), Some(v)) => eq(AsRef::<str>::as_ref(v.item()).as_bytes(), t),
                        _ => false,
                    },
                    "booking of an open",
                );
            }
            (D::Close(a), V::Close(p)) => check(acc_is(p.account().item(), a), "account of a close"),
            (D::Commodity(a), V::Commodity(p)) => check(eq(p.currency().item().as_ref().as_bytes(), a), "currency of a commodity"),
            (D::Pad(a, s), V::Pad(p)) => check(acc_is(p.account().item(), a) && acc_is(p.source().item(), s), "accounts of a pad"),
            (D::Document(a, s), V::Document(p)) => check(acc_is(p.account().item(), a) && eq(p.path().item().as_bytes(), s), "document"),
            (D::Note(a, s), V::Note(p)) => check(acc_is(p.account().item(), a) && eq(p.comment().item().as_bytes(), s), "note"),
            (D::Event(a, s), V::Event(p)) => check(eq(p.event_type().item().as_bytes(), a) && eq(p.description().item().as_bytes(), s), "event"),
            (D::Query(a, s), V::Query(p)) => check(eq(p.name().item().as_bytes(), a) && eq(p.content().item().as_bytes(), s), "query"),
            (D::Custom(t, vs), V::Custom(p)) => {
                check(eq(p.type_().item().as_bytes(), t), "type of a custom");
                check(p.values().len() == vs.len() && vs.iter().zip(p.values()).all(|(a, v)| a.is(v.item())), "values of a custom");
            }
            _ => check(false, "kind of directive"),
        }
    }
}

/// a metadata value of kind k, of VALS kinds
pub const VALS: u8 = 13;
pub fn val(k: u8) -> Val {
    match k {
        0 => Val::Str(nm("v ")),
        1 => Val::Num(dg("-4")),
        2 => Val::Amt(dg("1."), up("US")),
        3 => Val::Date(dg("2024-03-1")),
        4 => Val::Acc(nm("Assets:M")),
        5 => Val::Tag(nm("vt")),
        6 => Val::Link(nm("vl")),
        7 => Val::Cur(up("EU")),
        8 => Val::Bool(true),
        9 => Val::Bool(false),
        10 => Val::Null,
        11 => Val::Str(b("")),
        _ => Val::Num(b("1234.50")),
    }
}
pub const KINDS: u8 = 12;
/// a directive of kind k with plain contents
pub fn kind(k: u8) -> D {
    match k {
        0 => D::Txn(b("*"), None, Some(b("n")), vec![post("Assets:A")]),
        1 => D::Price(b("USD"), dg("1."), up("EU")),
        2 => D::Balance(nm("Assets:B"), dg("-2"), None, b("USD")),
        3 => D::Open(nm("Liabilities:B"), vec![up("US")], None),
        4 => D::Close(nm("Income:B")),
        5 => D::Commodity(up("EU")),
        6 => D::Pad(nm("Assets:P"), nm("Equity:Q")),
        7 => D::Document(nm("Expenses:D"), nm("/f")),
        8 => D::Note(nm("Assets:D"), nm("hello ")),
        9 => D::Event(nm("loc"), nm("to")),
        10 => D::Query(nm("q"), nm("SELECT ")),
        _ => D::Custom(nm("c"), vec![Val::Bool(true), Val::Str(nm("s"))]),
    }
}
/// the same kind with other, longer contents
pub fn kind_rich(k: u8) -> D {
    match k {
        0 => D::Txn(
            b("!"),
            Some(b("payee")),
            Some(b("narr")),
            vec![
                Post { num: Some(b("-10.50")), cur: Some(b("USD")), ..post("Assets:A:B") },
                Post { flag: Some(b("!")), num: Some(b("5")), cur: Some(b("HOOL")), cost: Some(Cost { per: Some(b("2.1")), cur: Some(b("USD")), ..Cost::default() }), price: Some(Prc { total: false, num: Some(b("3")), cur: Some(b("USD")) }), ..post("Expenses:C") },
                post("Equity:Z"),
            ],
        ),
        1 => D::Price(b("HOOL"), b("-1000.25"), b("USD")),
        2 => D::Balance(b("Liabilities:B:C"), b("100.00"), Some(b("0.05")), b("EUR")),
        3 => D::Open(b("Equity:B:C:D"), vec![b("USD"), b("EUR"), b("GBP")], Some(b("FIFO"))),
        4 => D::Close(b("Assets:A:B:C")),
        5 => D::Commodity(b("VERY-LONG.NAME_1")),
        6 => D::Pad(b("Liabilities:P:X"), b("Income:Q:Y")),
        7 => D::Document(b("Assets:A"), b("a/b c.pdf")),
        8 => D::Note(b("Assets:A"), b("")),
        9 => D::Event(b(""), b("x y z")),
        10 => D::Query(b("name"), b("")),
        _ => D::Custom(b("type"), vec![]),
    }
}
/// all of the given directives, on ascending dates, in one ledger
pub fn run(ds: &[Dir]) {
    let mut x = Text::new();
    for d in ds {
        d.put(&mut x);
    }
    with_ok(x.str(), "valid ledger rejected", |_, p| {
        check(p.directives.len() == ds.len(), "number of directives");
        check(p.warnings.is_empty(), "no warnings");
        for (m, d) in ds.iter().zip(&p.directives) {
            m.verify(d.item());
        }
    })
}
