//! C16: names are valid exactly by the rules, through the API and in a ledger.
use crate::util::*;
use DirectiveVariant as V;

fn up_(c: char) -> bool {
    (c as u32).wrapping_sub('A' as u32) < 26
}
fn lo_(c: char) -> bool {
    (c as u32).wrapping_sub('a' as u32) < 26
}
fn dg_(c: char) -> bool {
    (c as u32).wrapping_sub('0' as u32) < 10
}
fn alnum(c: char) -> bool {
    if (c as u32) < 128 {
        up_(c) | lo_(c) | dg_(c)
    } else {
        c.is_alphanumeric()
    }
}
fn is(c: char, s: &str) -> bool {
    s.bytes().fold(false, |a, b| a | (b as u32 == c as u32))
}
/// the rules, each for text that is not empty
fn currency_rule(s: &[char]) -> bool {
    let (f, l) = (s[0], s[s.len() - 1]);
    let mid = |c: char| up_(c) | dg_(c) | is(c, "'._-");
    let mut ok = (up_(f) | is(f, "/")) & (up_(l) | dg_(l));
    let mut letter = false;
    for (i, c) in s.iter().enumerate() {
        ok &= (i == 0) | mid(*c);
        letter |= up_(*c);
    }
    ok & letter
}
fn rest(s: &[char], extra: &str) -> bool {
    s.iter().fold(true, |a, c| a & (alnum(*c) | is(*c, extra)))
}
fn account_name_rule(s: &[char]) -> bool {
    if s.is_empty() {
        return false;
    }
    let c = s[0];
    let f = if (c as u32) < 128 { up_(c) | dg_(c) } else { c.is_alphabetic() };
    f & rest(&s[1..], "-")
}
fn type_name_rule(s: &[char]) -> bool {
    up_(s[0]) & rest(&s[1..], "-")
}
fn tag_rule(s: &[char]) -> bool {
    rest(s, "-_/.")
}
fn key_rule(s: &[char]) -> bool {
    lo_(s[0]) & rest(&s[1..], "-_")
}
const KINDS: u8 = 6;
/// through the API: accepted, with that very text
fn api(k: u8, s: &str) -> bool {
    fn same<'a, T: AsRef<str> + std::fmt::Display, E: std::fmt::Display>(r: Result<T, E>, s: &str) -> bool {
        match r {
            Ok(t) => {
                cover(0);
                check(eqs(t.as_ref(), s), "a name gives back the text it was made of");
                true
            }
            Err(_) => {
                cover(1);
                false
            }
        }
    }
    match k {
        0 => same(Currency::try_from(s), s),
        1 => same(AccountName::try_from(s), s),
        2 => same(AccountTypeName::try_from(s), s),
        3 => same(Tag::try_from(s), s),
        4 => same(Link::try_from(s), s),
        _ => same(Key::try_from(s), s),
    }
}
fn rule(k: u8, s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    match k {
        0 => currency_rule(&c),
        1 => account_name_rule(&c),
        2 => type_name_rule(&c),
        3 | 4 => tag_rule(&c),
        _ => key_rule(&c),
    }
}
fn judge(k: u8, s: &str) {
    note(s);
    let a = api(k, s);
    if rule(k, s) {
        check(a, "a valid name was rejected");
    } else {
        check(!a, "an invalid name was accepted");
    }
}
/// n arbitrary ASCII characters
fn ascii(n: usize) {
    let k = choose(KINDS);
    let mut x = Text::new();
    x.sym(ASCII, n);
    judge(k, x.str())
}
/// a long name with an arbitrary character at any position
fn long() {
    let k = choose(KINDS);
    let n = pick(&[5usize, 8, 12, 23, 24, 25, 33, 65]);
    let i = choose(n as u8) as usize;
    let fill = if k == 5 { b'b' } else { b'B' };
    let mut x = Text::new();
    for j in 0..n {
        if j == i {
            x.sym(ASCII, 1);
        } else {
            x.b.push(if j % 3 == 2 { b'7' } else { fill });
        }
    }
    judge(k, x.str())
}
/// one character beyond ASCII, at the start, in the middle or at the end
fn wide() {
    let k = choose(KINDS);
    let n = choose(3);
    let mut x = Text::new();
    if n > 0 {
        x.lit(if k == 5 { "b" } else { "B" });
    }
    match choose(3) {
        0 => x.utf2(),
        1 => x.utf3(),
        _ => x.utf4(),
    };
    if n == 2 {
        x.lit("3");
    }
    judge(k, x.str())
}
fn empty() {
    for (k, m) in [(0, "an empty currency was accepted"), (1, "an empty account name was accepted"), (2, "an empty account type name was accepted"), (5, "an empty key was accepted")] {
        check(!api(k, ""), m);
    }
}
fn subaccount(n: usize) {
    let mut x = Text::new();
    x.sym(ASCII, n);
    let s = x.str();
    note(s);
    let c: Vec<char> = s.chars().collect();
    let good = c.split(|c| *c == ':').all(account_name_rule);
    match Subaccount::try_from(s) {
        Ok(t) => {
            cover(0);
            check(good, "an invalid subaccount was accepted");
            check(eqs(t.as_ref(), s), "a name gives back the text it was made of");
        }
        Err(_) => {
            cover(1);
            check(!good, "a valid subaccount was rejected");
        }
    }
}
fn subaccount_long() {
    let n = pick(&[1usize, 2, 3, 5]);
    let i = choose(n as u8) as usize;
    let mut x = Text::new();
    for j in 0..n {
        if j > 0 {
            x.lit(":");
        }
        if i == j {
            x.lit(pick(&["", "A", "9-x"]));
            x.sym(ASCII, 1);
        } else {
            x.lit(["Abc", "X", "1a"][j % 3]);
        }
    }
    let s = x.str();
    let c: Vec<char> = s.chars().collect();
    let good = c.split(|c| *c == ':').all(account_name_rule);
    check(Subaccount::try_from(s).is_ok() == good, "a subaccount is valid exactly if each of its names is");
}
fn flag() {
    let mut x = Text::new();
    match choose(4) {
        0 => x.sym(ASCII, 1),
        1 => x.any2(),
        2 => x.any3(),
        _ => x.utf4(),
    };
    let c = x.str().chars().next().unwrap();
    match FlagLetter::try_from(c) {
        Ok(f) => {
            cover(0);
            check(up_(c), "an invalid flag letter was accepted");
            check(f.char() == c, "a flag letter gives back its character");
        }
        Err(_) => {
            cover(1);
            check(!up_(c), "a valid flag letter was rejected");
        }
    }
}
/// a ledger with the name in one of the places that take it
const CTX: [&[&str]; 6] = [
    &["2024-01-01 commodity @\n", "2024-01-01 * \"x\"\n  Assets:A 1 @\n", "2024-01-01 open Assets:A USD,@\n", "option \"operating_currency\" \"@\"\n"],
    &["2024-01-01 close Assets:@\n", "2024-01-01 close Assets:A:@\n", "2024-01-01 close Assets:@:B\n"],
    &["option \"name_income\" \"@\"\n2024-01-01 close @:A\n"],
    &["2024-01-01 close Assets:A #@\n", "2024-01-01 * \"x\" #@ ^link\n", "2024-01-01 close Assets:A\n  #@\n", "pushtag #@\n2024-01-01 close Assets:A\npoptag #@\n"],
    &["2024-01-01 close Assets:A ^@\n", "2024-01-01 * \"x\" #tag ^@\n", "2024-01-01 close Assets:A\n  ^@\n"],
    &["2024-01-01 close Assets:A\n  @: 1\n", "2024-01-01 * \"x\"\n  Assets:A 1 USD\n    @: 1\n", "pushmeta @: 1\n2024-01-01 close Assets:A\npopmeta @:\n"],
];
/// whether the parsed ledger has exactly this name in that place
fn has(k: u8, c: usize, p: &ParseSuccess, s: &str) -> bool {
    if k == 0 && c == 3 {
        return p.options.operating_currency().count() == 1 && p.options.operating_currency().all(|c| eqs(c.as_ref(), s));
    }
    if p.directives.len() != 1 {
        return false;
    }
    let d = p.directives[0].item();
    match (k, d.variant()) {
        (0, V::Commodity(x)) => eqs(x.currency().item().as_ref(), s),
        (0, V::Transaction(t)) => posting(t, 0).currency().is_some_and(|x| eqs(x.item().as_ref(), s)),
        (0, V::Open(o)) => o.currencies().any(|x| eqs(x.item().as_ref(), s)),
        (1, V::Close(x)) => {
            let a = x.account().item().as_ref();
            let want = match c {
                0 => ["Assets:", s, ""].concat(),
                1 => ["Assets:A:", s, ""].concat(),
                _ => ["Assets:", s, ":B"].concat(),
            };
            eqs(a, &want)
        }
        (2, V::Close(x)) => eqs(x.account().item().as_ref(), &[s, ":A"].concat()) && x.account().item().account_type() == AccountType::Income,
        (3, _) => d.metadata().tags().len() == 1 && has_tag(d.metadata(), s),
        (4, _) => d.metadata().links().len() == 1 && has_link(d.metadata(), s),
        (5, V::Transaction(t)) => posting(t, 0).metadata().key_values().len() == 1 && meta_get(posting(t, 0).metadata(), s).is_some(),
        (5, _) => d.metadata().key_values().len() == 1 && meta_get(d.metadata(), s).is_some(),
        _ => false,
    }
}
fn ledger(k: u8, c: usize, s: &str) -> bool {
    let mut x = Text::new();
    for b in CTX[k as usize][c].bytes() {
        if b == b'@' {
            x.lit(s);
        } else {
            x.b.push(b);
        }
    }
    with_parse(x.str(), |_, p| match p {
        Ok(p) => has(k, c, &p, s),
        Err(_) => false,
    })
}
/// ASCII names: the same through the API and in a ledger
fn both(s: &str, k: u8, c: usize) {
    // a colon between two names
    assume(k != 1 || s.bytes().fold(true, |a, b| a & (b != b':')));
    let a = rule(k, s);
    let l = ledger(k, c, s);
    if l {
        cover(0);
        check(a, "a ledger accepted an invalid name");
    } else {
        cover(1);
        check(!a, "a ledger rejected a valid name");
    }
    check(api(k, s) == a, "the API follows the rule");
}
/// characters that may stand in some name, and some that may not
const SOME: Set = union(ALNUM, set_of(b"-_/.':#^ \n@\"\\;,"));
fn agree2() {
    let k = choose(KINDS);
    let c = choose(CTX[k as usize].len() as u8) as usize;
    let mut x = Text::new();
    x.sym(ASCII, 1);
    x.sym(ASCII, 1);
    let s = x.str();
    both(s, k, c)
}
fn agree3() {
    let k = choose(KINDS);
    let mut x = Text::new();
    x.sym(SOME, 3);
    both(x.str(), k, 0)
}
fn agree_long() {
    let k = choose(KINDS);
    let c = choose(CTX[k as usize].len() as u8) as usize;
    let n = pick(&[3usize, 5, 9, 24, 25, 40]);
    let i = pick(&[0, 1, n / 2, n - 2, n - 1]);
    let fill = if k == 5 { b'b' } else { b'B' };
    let mut x = Text::new();
    for j in 0..n {
        if j == i {
            x.sym(ASCII, 1);
        } else {
            x.b.push(if j % 3 == 2 { b'7' } else { fill });
        }
    }
    both(x.str(), k, c)
}
/// single characters and others: a ledger accepts nothing that the API does not
fn within() {
    let k = choose(KINDS);
    let c = choose(CTX[k as usize].len() as u8) as usize;
    let mut x = Text::new();
    let n = choose(3);
    if n == 1 {
        x.lit(if k == 5 { "bb" } else { "B" });
    }
    match choose(4) {
        0 => x.sym(ASCII, 1),
        1 => x.utf2(),
        2 => x.utf3(),
        _ => x.utf4(),
    };
    if n == 2 {
        x.lit("B");
    }
    let s = x.str();
    if ledger(k, c, s) {
        cover(2);
        check(rule(k, s) && api(k, s), "a ledger accepted an invalid name");
    }
}

pub const JOBS: &[Job] = &[
    job("ascii1", 0, || ascii(1), "6 kinds of name, any ASCII character"),
    job("ascii2", 0, || ascii(2), "6 kinds of name, any 2 ASCII characters"),
    job("ascii3", 0, || ascii(3), "6 kinds of name, any 3 ASCII characters"),
    job("ascii4", 0, || ascii(4), "6 kinds of name, any 4 ASCII characters"),
    job("ascii6", 0, || ascii(6), "6 kinds of name, any 6 ASCII characters"),
    job("long", 0, long, "names of 5 to 65 characters with any ASCII character at any position"),
    job("wide", 0, wide, "one symbolic 2-, 3- or 4-byte character at the start, in the middle or at the end"),
    job("empty", 0, empty, "the empty text"),
    job("sub3", 0, || subaccount(3), "subaccounts of any 3 ASCII characters"),
    job("sub4", 0, || subaccount(4), "subaccounts of any 4 ASCII characters"),
    job("sub7", 0, || subaccount(7), "subaccounts of any 7 ASCII characters"),
    job("sublong", 0, subaccount_long, "subaccounts of 1 to 5 names, any ASCII character in one of them"),
    job("flag", 0, flag, "any ASCII, 2-byte or 3-byte character as flag letter"),
    job("agree2", 0, agree2, "any 2 ASCII characters, in 18 places of a ledger"),
    job("agree3", 0, agree3, "3 characters out of 76, in a ledger"),
    job("agreelong", 0, agree_long, "names of 3 to 40 characters with any ASCII character at 5 positions, in 18 places of a ledger"),
    job("within", 0, within, "any ASCII and some wide characters, in 18 places of a ledger"),
];
