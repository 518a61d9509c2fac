//! C10: account type names follow the name_ options.
use crate::model::{b, Bs};
use crate::util::*;

const T: [AccountType; 5] = [AccountType::Assets, AccountType::Liabilities, AccountType::Equity, AccountType::Income, AccountType::Expenses];
const OPT: [&str; 5] = ["name_assets", "name_liabilities", "name_equity", "name_income", "name_expenses"];
const DEF: [&str; 5] = ["Assets", "Liabilities", "Equity", "Income", "Expenses"];

/// the current names, and what the renames so far should have done
#[derive(Clone)]
struct Names {
    n: [Bs; 5],
}
impl Names {
    fn new() -> Names {
        Names { n: DEF.map(b) }
    }
    /// None: the name is taken by another type
    fn rename(&mut self, t: usize, n: &[u8]) -> bool {
        for (i, m) in self.n.iter().enumerate() {
            if i != t && eq(m, n) {
                return false;
            }
        }
        self.n[t] = n.to_vec();
        true
    }
    fn of(&self, n: &[u8]) -> Option<AccountType> {
        (0..5).find(|i| eq(&self.n[*i], n)).map(|i| T[i])
    }
    fn agree(&self, o: &Options) {
        for i in 0..5 {
            check(eq(o.account_type_name(T[i]).as_ref().as_bytes(), &self.n[i]), "options give the current name of each type");
        }
    }
}
fn opt(x: &mut Text, t: usize, n: &[u8]) -> Range<usize> {
    x.lit("option \"").lit(OPT[t]).lit("\" \"");
    let s = x.b.len();
    x.b.extend_from_slice(n);
    let e = x.b.len();
    x.lit("\"\n");
    s - 1..e + 1
}
fn open(x: &mut Text, n: &[u8], sub: &str) {
    x.lit("2024-01-01 open ");
    x.b.extend_from_slice(n);
    x.lit(":").lit(sub).lit("\n");
}
fn ty<'x>(d: &'x Spanned<Directive>) -> (AccountType, &'x str) {
    match d.variant() {
        DirectiveVariant::Open(o) => (o.account().account_type(), o.account().item().as_ref()),
        _ => (AccountType::Assets, ""),
    }
}
/// n renames; accounts under the names current at each point, in between and at the end
fn hist(n: usize, nt: u8, pool: &[&str]) {
    let mut m = Names::new();
    let mut x = Text::new();
    let mut want: Vec<AccountType> = Vec::new();
    let mut bad: Option<Range<usize>> = None;
    for _ in 0..n {
        let t = choose(nt) as usize;
        let k = b(pick(pool));
        open(&mut x, &m.n[t], "Before");
        want.push(T[t]);
        let r = opt(&mut x, t, &k);
        if !m.rename(t, &k) {
            bad = Some(r);
            break;
        }
        open(&mut x, &m.n[t], "After");
        want.push(T[t]);
    }
    if let Some(r) = bad {
        with_parse(x.str(), |s, p| match p {
            Ok(_) => check(false, "a name taken by another type was accepted"),
            Err(e) => {
                cover(1);
                check(e.errors.len() == 1, "one bad rename, one error");
                let sp = s.resolve_span(&e.errors[0].span());
                check(eq(sp.content.as_bytes(), &x.b[r.clone()]), "the error is at the name");
            }
        });
        return;
    }
    for i in (0..5).rev() {
        open(&mut x, &m.n[i], "End");
        want.push(T[i]);
    }
    with_ok(x.str(), "accounts under current names rejected", |_, p| {
        check(p.directives.len() == want.len(), "one directive for each account");
        for (d, t) in p.directives.iter().zip(&want) {
            check(ty(d).0 == *t, "type of an account");
        }
        m.agree(&p.options);
    });
    // any other name is not accepted
    let k = pick(pool);
    if m.of(k.as_bytes()).is_none() {
        let l = x.b.len();
        open(&mut x, k.as_bytes(), "X");
        with_parse(x.str(), |s, p| match p {
            Ok(_) => check(false, "an account under a name that no type has was accepted"),
            Err(e) => {
                cover(2);
                check(e.errors.len() == 1, "one bad account, one error");
                let sp = s.resolve_span(&e.errors[0].span());
                check(sp.start_line == lines_before(&x.b, l), "the error is at the account");
            }
        })
    }
}
/// a name with symbolic letters, and an account with others
fn symbolic() {
    let t = choose(5) as usize;
    let c = union(ALNUM, set_of(b"-"));
    let (u, v) = (byte(&UPPER), byte(&UPPER));
    let mut name = vec![u];
    let mut used = vec![v];
    let n = choose(3);
    for _ in 0..n {
        name.push(byte(&c));
        used.push(byte(&c));
    }
    let mut x = Text::new();
    opt(&mut x, t, &name);
    open(&mut x, &used, "A");
    let good = eq(&name, &used);
    let tt = T[t];
    with_iff(x.str(), good, "an account under the new name rejected", "an account under a name that no type has accepted", |_, p| {
        check(ty(&p.directives[0]).0 == tt, "type of an account");
        check(eq(p.options.account_type_name(tt).as_ref().as_bytes(), &name), "options give the new name");
    })
}
/// no option: exactly the default names
fn default_names() {
    let d = pick(&DEF);
    let mut name = b(d);
    match choose(3) {
        0 => {
            // any character changed
            let i = choose(d.len() as u8) as usize;
            name[i] = byte(&ALNUM);
            assume(i > 0 || name[0].wrapping_sub(b'A') < 26);
        }
        1 => name.push(byte(&ALNUM)),
        _ => {
            name.pop();
        }
    }
    let mut x = Text::new();
    open(&mut x, &name, "A");
    let good = eqs(std::str::from_utf8(&name).unwrap_or(""), d);
    with_iff(x.str(), good, "a default name rejected", "a name that is no default accepted", |_, p| check(ty(&p.directives[0]).1.len() == name.len() + 2, "the account"))
}
/// renamed to a name that differs in one character from the old one or another's
fn near() {
    let t = choose(5) as usize;
    let d = pick(&DEF);
    let mut name = b(d);
    let i = 1 + choose(d.len() as u8 - 1) as usize;
    name[i] = byte(&ALNUM);
    let mut m = Names::new();
    let ok = m.rename(t, &name);
    let mut x = Text::new();
    opt(&mut x, t, &name);
    let u = choose(5) as usize;
    open(&mut x, DEF[u].as_bytes(), "A");
    let good = ok && (u != t || eq(&name, DEF[t].as_bytes()));
    with_iff(x.str(), good, "current names rejected", "a name that is taken, or gone, accepted", |_, p| {
        check(ty(&p.directives[0]).0 == T[u], "type of an account");
        m.agree(&p.options);
    })
}
const CTX: [&str; 13] = [
    "2024-01-02 open @:A",
    "2024-01-02 close @:A",
    "2024-01-02 balance @:A 1 USD",
    "2024-01-02 pad @:A @@:Q",
    "2024-01-02 pad @@:Q @:A",
    "2024-01-02 note @:A \"x\"",
    "2024-01-02 document @:A \"x\"",
    "2024-01-02 custom \"x\" @:A 1",
    "2024-01-02 commodity USD\n  key: @:A",
    "2024-01-02 * \"x\"\n  @:A 1 USD\n  @@:Q",
    "2024-01-02 * \"x\"\n  @@:Q 1 USD\n  ! @:A",
    "2024-01-02 * \"x\"\n  @@:Q 1 USD\n    key: @:A",
    "pushmeta key: @:A\n2024-01-02 close @@:Q\npopmeta key:",
];
fn fill(x: &mut Text, c: &str, a: &[u8], q: &[u8]) {
    let v = c.as_bytes();
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'@' && v[i + 1] == b'@' {
            x.b.extend_from_slice(q);
            i += 2;
        } else if v[i] == b'@' {
            x.b.extend_from_slice(a);
            i += 1;
        } else {
            x.b.push(v[i]);
            i += 1;
        }
    }
    x.lit("\n");
}
fn acct<'x, 'a>(k: usize, p: &'x ParseSuccess<'a>) -> &'x Account<'a> {
    use DirectiveVariant as V;
    let d = p.directives[p.directives.len() - 1].item();
    let mv = |m: &'x Metadata<'a>| match meta_get(m, "key") {
        Some(MetaValue::Simple(SimpleValue::Account(a))) => a,
        _ => panic!("no account in metadata"),
    };
    match d.variant() {
        V::Open(o) => o.account().item(),
        V::Close(o) if k == 1 => o.account().item(),
        V::Close(_) | V::Commodity(_) => mv(d.metadata()),
        V::Balance(o) => o.account().item(),
        V::Pad(o) if k == 3 => o.account().item(),
        V::Pad(o) => o.source().item(),
        V::Note(o) => o.account().item(),
        V::Document(o) => o.account().item(),
        V::Custom(o) => match o.values().next().unwrap().item() {
            MetaValue::Simple(SimpleValue::Account(a)) => a,
            _ => panic!("no account in custom"),
        },
        V::Transaction(t) if k == 9 => posting(t, 0).account().item(),
        V::Transaction(t) if k == 10 => posting(t, 1).account().item(),
        V::Transaction(t) => mv(posting(t, 0).metadata()),
        _ => panic!("other directive"),
    }
}
/// every place that takes an account, with the names of all types changed or not
fn contexts() {
    let k = choose(13) as usize;
    let t = choose(5) as usize;
    let mut m = Names::new();
    let mut x = Text::new();
    let style = choose(4);
    let mut old = m.n[t].clone();
    match style {
        0 => {}
        1 => {
            let n = vec![b'N', byte(&LOWER)];
            opt(&mut x, t, &n);
            m.rename(t, &n);
        }
        2 => {
            // all five move on by one, by way of temporary names
            for i in 0..5 {
                let n = vec![b'T', b'0' + i as u8];
                opt(&mut x, i, &n);
                m.rename(i, &n);
            }
            for i in 0..5 {
                opt(&mut x, i, DEF[(i + 1) % 5].as_bytes());
                m.rename(i, DEF[(i + 1) % 5].as_bytes());
            }
            old = b("T0");
        }
        _ => {
            // there and back
            opt(&mut x, t, b"Tmp");
            opt(&mut x, t, DEF[t].as_bytes());
            old = b("Tmp");
        }
    }
    let q = m.n[(t + 2) % 5].clone();
    let l = x.b.len();
    fill(&mut x, CTX[k], &m.n[t], &q);
    with_ok(x.str(), "an account under a current name rejected", |_, p| {
        let a = acct(k, p);
        check(a.account_type() == T[t], "type of an account");
        let mut n = m.n[t].clone();
        n.extend_from_slice(b":A");
        check(eq(a.as_ref().as_bytes(), &n), "name of an account");
        m.agree(&p.options);
    });
    if style != 0 {
        x.b.truncate(l);
        fill(&mut x, CTX[k], &old, &q);
        with_parse(x.str(), |_, p| {
            check(p.is_err(), "an account under an old name accepted");
            cover(1);
        });
    }
}
/// an option in the middle applies to what comes after and not to what comes before, whatever the dates
fn position() {
    let t = choose(5) as usize;
    let n = choose(4) as usize;
    let at = choose(n as u8 + 1) as usize;
    let mut x = Text::new();
    let mut good = true;
    for i in 0..n + 1 {
        if i == at {
            opt(&mut x, t, b"Nova");
        }
        if i == n {
            break;
        }
        let new = flip();
        good &= new == (i >= at);
        x.lit(pick(&["2023-06-01", "2024-01-01", "2025-12-31"])).lit(" close ").lit(if new { "Nova" } else { DEF[t] }).lit(":A\n");
    }
    with_iff(x.str(), good, "accounts under the names current where they stand rejected", "an account under a name not current where it stands accepted", |_, p| {
        check(p.directives.len() == n, "one directive for each account");
        for d in &p.directives {
            match d.variant() {
                DirectiveVariant::Close(c) => check(c.account().account_type() == T[t], "type of an account"),
                _ => check(false, "kind of directive"),
            }
        }
    })
}
/// type names in other scripts, and of every length
fn unicode() {
    let t = choose(5) as usize;
    let mut name = vec![byte(&UPPER)];
    let mut y = Text::new();
    for _ in 0..1 + choose(2) {
        ch(&mut y, choose(4), true);
    }
    name.extend_from_slice(&y.b);
    let n = choose(12);
    for _ in 0..n {
        name.push(b'z');
    }
    let mut x = Text::new();
    opt(&mut x, t, &name);
    let l = x.b.len();
    open(&mut x, &name, "A");
    with_ok(x.str(), "an account under the new name rejected", |_, p| {
        check(ty(&p.directives[0]).0 == T[t], "type of an account");
        check(eq(ty(&p.directives[0]).1.as_bytes(), &x.b[l + 16..x.b.len() - 1]), "name of an account");
        check(eq(p.options.account_type_name(T[t]).as_ref().as_bytes(), &name), "options give the new name");
    })
}
const P8: &[&str] = &["Assets", "Liabilities", "Equity", "Income", "Expenses", "Aktiva", "X", "Assets-2"];
const P4: &[&str] = &["Assets", "Liabilities", "Aktiva", "X"];

pub const JOBS: &[Job] = &[
    job("default", 0, default_names, "each default name with any character changed, added or removed"),
    job("near", 0, near, "a type renamed to a default name with any character changed, accounts of each type"),
    job("symbolic", 0, symbolic, "name and account of 1 to 3 symbolic characters each"),
    job("hist2", 0, || hist(2, 5, P8), "2 renames of 5 types to 8 names, accounts under every name before, between and after"),
    job("hist3", 0, || hist(3, 2, P4), "3 renames of 2 types to 4 names"),
    job("hist4", 0, || hist(4, 2, P4), "4 renames of 2 types to 4 names"),
    job("hist3full", 1, || hist(3, 4, P8), "3 renames of 4 types to 8 names"),
    job("contexts", 0, contexts, "13 places that take an account, 5 types, renamed, not renamed, rotated or renamed back"),
    job("position", 0, position, "up to 3 accounts before and after an option, with any dates"),
    job("unicode", 0, unicode, "new names with symbolic characters of 1 to 4 bytes, 2 to 15 characters"),
];
