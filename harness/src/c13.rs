//! C13: layout and comments do not change the meaning.
use crate::c19::{posting_of, tl_meta};
use crate::model::*;
use crate::util::*;

/// where layout may change in a ledger written with single spaces, plain line ends and two-space indents
#[derive(Clone, Copy, PartialEq)]
enum Gap {
    Start,
    Space,
    Indent,
    Eol,
    End,
}
/// a piece of text, or a gap
enum Piece {
    Text(Bs),
    Gap(Gap),
}
fn pieces(s: &[u8]) -> Vec<Piece> {
    let mut v = vec![Piece::Gap(Gap::Start)];
    let mut t = Vec::new();
    let (mut quoted, mut bol) = (false, true);
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        let g = if quoted {
            None
        } else if c == b'\n' {
            Some(if i + 1 == s.len() { Gap::End } else { Gap::Eol })
        } else if c == b' ' && bol {
            while s[i + 1] == b' ' {
                i += 1;
            }
            Some(Gap::Indent)
        } else if c == b' ' {
            Some(Gap::Space)
        } else {
            None
        };
        bol = c == b'\n' && !quoted;
        if c == b'"' {
            quoted = !quoted;
        }
        match g {
            Some(g) => {
                if !t.is_empty() {
                    v.push(Piece::Text(std::mem::take(&mut t)));
                }
                v.push(Piece::Gap(g));
            }
            None => t.push(c),
        }
        i += 1;
    }
    v
}
const SPACE: [&str; 4] = [" ", "  ", "\t", " \t    "];
const INDENT: [&str; 4] = ["  ", " ", "\t", "        "];
/// % is a symbolic printable character, $ a symbolic character of two bytes
const EOL: [&str; 22] = [
    "\n",
    "\r\n",
    " \n",
    "\t \r\n",
    " ; %\n",
    ";%%\n",
    ";;$ \r\n",
    "\n\n",
    "\r\n\r\n",
    "\n  \n",
    "\n\t\r\n\n",
    "\n; %%\n",
    "\n  ; $%\n",
    " ; a \" b\n\n;; c \"\n",
    "\n* %$\n",
    "\n** Section \"%\n",
    "\n#+TITLE: %\n",
    "\n: %\n",
    "\n\n* A\n\n* B\n; %\n\n",
    "\r\n* %\r\n\r\n",
    "\n! %\n",
    "\n  : x y\n",
];
const START: [&str; 9] = ["", "\n", "; %$\n", "* %\n", "\r\n\r\n", "  \n\n", "  ; %\n", "#+TITLE: \"%\n\n* A\n", ": %\n"];
const END: [&str; 15] = ["\n", "", "\r\n", " ", "\n\n\n", "\n; %$", "\n  ", "\n* %", ";%", " ; %\n", "\n\t; $\n", "\n** \"%\n\n", "\n:$", "\n  \n", "\r\n\t"];

fn alts(g: Gap) -> &'static [&'static str] {
    match g {
        Gap::Start => &START,
        Gap::Space => &SPACE,
        Gap::Indent => &INDENT,
        Gap::Eol => &EOL,
        Gap::End => &END,
    }
}
fn emit(x: &mut Text, s: &str) {
    for c in s.bytes() {
        match c {
            b'%' => {
                x.sym(range(0x20, 0x7e), 1);
            }
            b'$' => {
                x.b.push(0xC3);
                x.sym(range(0x80, 0xBF), 1);
            }
            c => x.b.push(c),
        }
    }
}
/// fill each gap by what `f` selects
fn lay(p: &[Piece], mut f: impl FnMut(usize, Gap) -> u8) -> Text {
    let mut x = Text::new();
    for (i, q) in p.iter().enumerate() {
        match q {
            Piece::Text(t) => x.b.extend_from_slice(t),
            Piece::Gap(g) => {
                let k = f(i, *g);
                emit(&mut x, alts(*g)[k as usize % alts(*g).len()])
            }
        }
    }
    x
}
/// one gap of all changes
fn one_gap(p: &[Piece]) -> Text {
    let gaps: Vec<usize> = (0..p.len()).filter(|i| matches!(p[*i], Piece::Gap(_))).collect();
    let at = gaps[choose(gaps.len() as u8) as usize];
    let Piece::Gap(g) = p[at] else { unreachable!() };
    let k = 1 + choose(alts(g).len() as u8 - 1);
    lay(p, |i, _| if i == at { k } else { 0 })
}
/// two gaps change
fn two_gaps(p: &[Piece]) -> Text {
    let gaps: Vec<usize> = (0..p.len()).filter(|i| matches!(p[*i], Piece::Gap(_))).collect();
    let a = choose(gaps.len() as u8) as usize;
    let b = a + 1 + choose((gaps.len() - a).min(4) as u8) as usize;
    let (a, b) = (gaps[a], gaps[b % gaps.len()]);
    let k = |at: usize| match p[at] {
        Piece::Gap(g) => choose(alts(g).len() as u8),
        _ => 0,
    };
    let (ka, kb) = (k(a), if a == b { 0 } else { k(b) });
    lay(p, |i, _| if i == a { ka } else if i == b { kb } else { 0 })
}
/// all gaps of a sort change alike
fn all_gaps(p: &[Piece]) -> Text {
    let (s, n, e, st, en) = (choose(4), choose(4), choose(EOL.len() as u8), 0, choose(2));
    let mut count = 0;
    lay(p, |_, g| match g {
        Gap::Start => st,
        Gap::Space => s,
        Gap::Indent => n,
        Gap::Eol => {
            // symbolic characters in the first few only
            count += 1;
            if count > 2 && EOL[e as usize].bytes().any(|c| c == b'%' || c == b'$') { 11 % 10 } else { e }
        }
        Gap::End => en,
    })
}

fn model(k: u8, meta: bool) -> Vec<Dir> {
    let mut d = dir("2024-02-03", kind_rich(k));
    if meta {
        d.meta.kv = vec![(b("key"), Val::Str(b("a ; b"))), (b("k2"), Val::Num(b("12")))];
        d.meta.ltags.push(b("tt"));
        if !matches!(d.d, D::Custom(..)) {
            d.meta.htags.push(b("t"));
            d.meta.hlinks.push(b("l"));
        }
    }
    vec![dir("2024-01-01", kind_plain(4)), d, dir("2024-03-01", kind_plain((k + 3) % KINDS))]
}
/// kind() without symbolic parts
fn kind_plain(k: u8) -> D {
    match k {
        0 => D::Txn(b("*"), None, Some(b("n * ;")), vec![Post { num: Some(b("1")), cur: Some(b("USD")), ..post("Assets:A") }, post("Assets:B")]),
        1 => D::Price(b("USD"), b("1.5"), b("EUR")),
        2 => D::Balance(b("Assets:B"), b("-2"), None, b("USD")),
        3 => D::Open(b("Liabilities:B"), vec![b("USD")], None),
        4 => D::Close(b("Income:B")),
        5 => D::Commodity(b("EUR")),
        6 => D::Pad(b("Assets:P"), b("Equity:Q")),
        7 => D::Document(b("Expenses:D"), b("/f")),
        8 => D::Note(b("Assets:D"), b("hello \n* you\n  ; x\n")),
        9 => D::Event(b("loc"), b("to")),
        10 => D::Query(b("q"), b("SELECT")),
        _ => D::Custom(b("c"), vec![Val::Bool(true), Val::Str(b("s"))]),
    }
}
fn canon(ds: &[Dir]) -> Vec<Piece> {
    let mut x = Text::new();
    for d in ds {
        d.put(&mut x);
    }
    pieces(&x.b)
}
fn same(ds: &[Dir], x: &Text) {
    with_ok(x.str(), "layout made a ledger unreadable", |_, p| {
        check(p.directives.len() == ds.len(), "layout changed the number of directives");
        check(p.warnings.is_empty(), "layout caused a warning");
        for (m, d) in ds.iter().zip(&p.directives) {
            m.verify(d.item());
        }
    })
}
fn one(meta: bool) {
    let ds = model(choose(KINDS), meta);
    let p = canon(&ds);
    same(&ds, &one_gap(&p))
}
fn two() {
    let ds = model(choose(KINDS), true);
    let p = canon(&ds[1..2]);
    same(&ds[1..2], &two_gaps(&p))
}
fn all() {
    let ds = model(choose(KINDS), true);
    let p = canon(&ds);
    same(&ds, &all_gaps(&p))
}
/// every shape of posting and header
fn postings() {
    let mut d = Dir { date: b("2024-02-03"), d: D::Txn(b("*"), Some(b("p")), Some(b("n")), vec![posting_of(choose(14), true), posting_of(3, true)]), meta: Meta::default() };
    if flip() {
        d.meta = tl_meta();
    }
    let ds = [d];
    let p = canon(&ds);
    let (s, n, e, en) = (choose(4), 2 * choose(2), choose(11), choose(2));
    same(
        &ds,
        &lay(&p, |_, g| match g {
            Gap::Start => 0,
            Gap::Space => s,
            Gap::Indent => n,
            Gap::Eol => [0, 1, 2, 3, 7, 8, 9, 10, 13, 1, 0][e as usize],
            Gap::End => en,
        }),
    )
}
/// pragmas: their effect is the same
const PRAGMAS: &str = "option \"title\" \"My ; title\"\noption \"operating_currency\" \"USD\"\nplugin \"a.b\" \"c d\"\nplugin \"e\"\npushtag #pt\npushmeta pk: 1.50 EUR\n2024-01-01 open Assets:A USD,EUR\npoptag #pt\npopmeta pk:\noption \"name_income\" \"Earnings\"\noption \"long_string_maxlines\" \"2\"\n2024-01-02 note Earnings:A \"x\ny\nz\"\n";
fn pragmas() {
    let p = pieces(PRAGMAS.as_bytes());
    let x = if flip() { one_gap(&p) } else { all_gaps(&p) };
    with_ok(x.str(), "layout made a ledger unreadable", |src, r| {
        check(r.options.title().is_some_and(|t| eqs(t.item(), "My ; title")), "layout changed an option");
        check(r.options.operating_currency().map(|c| c.as_ref()).eq(["USD"]), "layout changed an option");
        check(r.plugins.len() == 2 && eqs(r.plugins[0].module_name().item(), "a.b") && r.plugins[0].config().is_some_and(|c| eqs(c.item(), "c d")) && eqs(r.plugins[1].module_name().item(), "e") && r.plugins[1].config().is_none(), "layout changed a plugin");
        check(r.directives.len() == 2, "layout changed the number of directives");
        let m = r.directives[0].metadata();
        check(has_tag(m, "pt") && m.tags().len() == 1 && m.key_values().len() == 1 && meta_get(m, "pk").is_some_and(|v| Val::Amt(b("1.50"), b("EUR")).is(v)), "layout changed pushed tags or metadata");
        check(r.directives[1].metadata().is_empty(), "layout changed pushed tags or metadata");
        check(r.warnings.len() == 1 && eqs(src.resolve_span(&r.warnings[0].span()).content, "\"x\ny\nz\""), "layout changed the warnings");
    })
}
/// errors stay as they are
const WRONG: [&str; 10] = [
    "2024-01-01 open Assets:A USD,EUR,USD\n2024-01-02 close Assets:A\n",
    "2024-01-01 * \"n\" #t #t\n  Assets:A 1 USD\n  Assets:B\n2024-01-02 close Assets:A\n",
    "option \"nonsense\" \"x\"\n2024-01-02 close Assets:A\n",
    "2024-01-02 close Assets:A\npoptag #x\n2024-01-02 close Assets:A\n",
    "2024-01-02 close Assets:A\npushmeta kk: 1\n2024-01-02 close Assets:A\n",
    "2024-01-01 * \"n\"\n  aa: 1\n  aa: 2\n  Assets:A 1 USD\n2024-01-02 close Assets:A\n",
    "2024-01-01 opens Assets:A USD\n2024-01-02 close Assets:A\n",
    "2024-01-01 * \"n\"\n  Assets:A 1 USD EUR\n2024-01-02 close Assets:A\n",
    "2024-01-01 open Asset:A\n2024-01-02 close Assets:A\n2024-02-30 close Assets:A\n2024-01-02 close Assets:A\n",
    "2024-01-01 balance Assets:A USD\n2024-01-01 close Assets:A\n2024-01-01 price 1 USD\n2024-01-01 close Assets:A\n",
];
fn summary(s: &str) -> Option<Vec<(String, String)>> {
    with_parse(s, |src, r| match r {
        Ok(_) => None,
        Err(e) => Some(e.errors.iter().map(|e| (e.reason().to_string(), src.resolve_span(&e.span()).content.split_whitespace().collect())).collect()),
    })
}
fn errors() {
    let t = pick(&WRONG);
    let p = pieces(t.as_bytes());
    let x = if flip() { one_gap(&p) } else { all_gaps(&p) };
    let (a, z) = (summary(t), summary(x.str()));
    cover(0);
    check(a.is_some() && z.is_some(), "layout made an error disappear");
    let (a, z) = (a.unwrap(), z.unwrap());
    check(a.len() == z.len(), "layout changed the number of errors");
    for (e, f) in a.iter().zip(&z) {
        check(eqs(&e.0, &f.0) && eqs(&e.1, &f.1), "layout changed an error");
    }
}
/// layout alone is an empty ledger
fn empty() {
    let mut x = Text::new();
    emit(&mut x, pick(&START));
    for _ in 0..choose(2) {
        emit(&mut x, pick(&EOL));
    }
    emit(&mut x, pick(&END));
    with_ok(x.str(), "layout alone is no error", |_, p| check(p.directives.is_empty() && p.warnings.is_empty() && p.plugins.is_empty(), "layout alone means nothing"))
}
/// three symbolic characters of a comment or heading, any but line ends
fn comments() {
    let ds = model(0, true);
    let p = canon(&ds[1..2]);
    let lead = pick(&[" ;", "\n;", "\n  ;", "\n*", "\n* ", "\n#", "\n:", "\n!", "\n?", "\n%", "\n&"]);
    let gaps: Vec<usize> = (0..p.len()).filter(|i| matches!(p[*i], Piece::Gap(Gap::Eol))).collect();
    let at = pick(&gaps);
    let mut x = Text::new();
    for (i, q) in p.iter().enumerate() {
        match q {
            Piece::Text(t) => x.b.extend_from_slice(t),
            Piece::Gap(_) if i == at => {
                x.lit(lead);
                match choose(3) {
                    0 => {
                        x.sym(minus(range(1, 127), set_of(b"\r\n")), 3);
                    }
                    1 => {
                        x.utf3();
                        x.sym(minus(range(1, 127), set_of(b"\r\n")), 1);
                    }
                    _ => {
                        x.utf2();
                        x.utf4();
                    }
                }
                x.lit("\n");
            }
            Piece::Gap(g) => {
                x.lit(alts(*g)[0]);
            }
        }
    }
    same(&ds[1..2], &x)
}

/// several lines without meaning in a row, of any mixture
const IDLE: [&str; 9] = ["\n", "  \n", "; %\n", "\t; %\r\n", "* %\n", "** A\r\n", ": %\n", "! x\n", "\r\n"];
fn stacks(n: u8) {
    let mut d = dir("2024-02-03", kind_plain(pick(&[0, 3])));
    d.meta.kv = vec![(b("key"), Val::Str(b("v")))];
    let ds = [d, dir("2024-03-01", kind_plain(4))];
    let p = canon(&ds);
    let gaps: Vec<usize> = (0..p.len()).filter(|i| matches!(p[*i], Piece::Gap(Gap::Eol | Gap::Start | Gap::End))).collect();
    let at = pick(&gaps);
    let mut x = Text::new();
    for (i, q) in p.iter().enumerate() {
        match q {
            Piece::Text(t) => x.b.extend_from_slice(t),
            Piece::Gap(g) if i == at => {
                if *g != Gap::Start {
                    x.lit(pick(&["\n", " ; c\r\n"]));
                }
                for _ in 0..n {
                    emit(&mut x, pick(&IDLE));
                }
            }
            Piece::Gap(g) => {
                x.lit(alts(*g)[0]);
            }
        }
    }
    same(&ds, &x)
}

pub static JOBS: &[Job] = &[
    job("one", 0, || one(true), "12 kinds of directive with metadata between two others, every gap, each of the other layouts there"),
    job("one_plain", 1, || one(false), "the same without metadata"),
    job("all", 0, all, "12 kinds of directive, all gaps at once, 4 kinds of space, 4 indents, 22 line ends"),
    job("two", 1, two, "12 kinds of directive, two nearby gaps, each with any layout"),
    job("postings", 0, postings, "14 shapes of posting under every space, indent and 11 line ends"),
    job("pragmas", 0, pragmas, "options, plugins, pushes and pops, warnings under any layout in one gap or in all"),
    job("errors", 0, errors, "10 ledgers with errors under any layout in one gap or in all"),
    job("stacks", 0, || stacks(3), "3 lines without meaning out of 9 kinds in a row, after every line of a transaction or open with metadata"),
    job("stacks4", 1, || stacks(4), "4 such lines"),
    job("empty", 0, empty, "layout without any declaration"),
    job("comments", 0, comments, "three symbolic characters in a comment or heading after every line"),
];
