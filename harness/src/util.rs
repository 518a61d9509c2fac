//! Shared helpers of the harnesses.
pub use crate::sym::*;
pub use crate::{job, Job};
pub use beancount_parser_lima::*;
pub use rust_decimal::Decimal;
pub use std::ops::Range;

/// Equality of two byte strings without a branch per byte.
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut acc = 0u8;
    for i in 0..a.len() {
        acc |= a[i] ^ b[i];
    }
    acc == 0
}
pub fn eqs(a: &str, b: &str) -> bool {
    eq(a.as_bytes(), b.as_bytes())
}

/// A choice 0..n made by the solver; the executor follows each value.
pub fn choose(n: u8) -> u8 {
    if n < 2 {
        return 0;
    }
    fork(byte(&range(0, n - 1)) as u64) as u8
}
pub fn flip() -> bool {
    choose(2) == 1
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choose(xs.len() as u8) as usize]
}

/// Parse an inline ledger and hand the result over.
pub fn with_parse<R>(s: &str, f: impl FnOnce(&BeancountSources, Result<ParseSuccess, ParseError>) -> R) -> R {
    note(s);
    let sources = BeancountSources::from(s);
    let parser = BeancountParser::new(&sources);
    let r = parser.parse();
    f(&sources, r)
}
/// Parse an inline ledger that has to be accepted.
pub fn with_ok(s: &str, m: &'static str, f: impl FnOnce(&BeancountSources, &ParseSuccess)) {
    with_parse(s, |src, r| {
        check(r.is_ok(), m);
        if let Ok(p) = r {
            cover(0);
            f(src, &p)
        }
    })
}
/// Parse an inline ledger that has to be accepted iff `good`.
pub fn with_iff(s: &str, good: bool, mgood: &'static str, mbad: &'static str, f: impl FnOnce(&BeancountSources, &ParseSuccess)) {
    with_parse(s, |src, r| match r {
        Ok(p) => {
            cover(0);
            check(good, mbad);
            f(src, &p)
        }
        Err(e) => {
            cover(1);
            check(!good, mgood);
            check(!e.errors.is_empty(), "a failed parse carries no error");
        }
    })
}

pub fn is_digit(b: u8) -> bool {
    b.wrapping_sub(b'0') < 10
}
pub fn dv(b: u8) -> i128 {
    b.wrapping_sub(b'0') as i128
}
/// exactly this mantissa and scale
pub fn dec_is(d: Decimal, mantissa: i128, scale: u32) -> bool {
    d.scale() == scale && d.mantissa() == mantissa
}

pub fn as_txn<'x, 'a>(d: &'x Directive<'a>) -> Option<&'x Transaction<'a>> {
    match d.variant() {
        DirectiveVariant::Transaction(t) => Some(t),
        _ => None,
    }
}
pub fn the_txn<'x, 'a>(p: &'x ParseSuccess<'a>) -> &'x Transaction<'a> {
    as_txn(p.directives[0].item()).unwrap()
}
pub fn posting<'x, 'a>(t: &'x Transaction<'a>, i: usize) -> &'x Spanned<Posting<'a>> {
    t.postings().nth(i).unwrap()
}
pub fn has_tag(m: &Metadata, t: &str) -> bool {
    m.tags().any(|x| eqs(x.item().as_ref(), t))
}
pub fn has_link(m: &Metadata, t: &str) -> bool {
    m.links().any(|x| eqs(x.item().as_ref(), t))
}
pub fn meta_get<'x, 'a>(m: &'x Metadata<'a>, k: &str) -> Option<&'x MetaValue<'a>> {
    m.key_values().find(|(key, _)| eqs(key.item().as_ref(), k)).map(|(_, v)| v.item())
}
pub fn meta_str<'x>(m: &'x Metadata, k: &str) -> Option<&'x str> {
    match meta_get(m, k) {
        Some(MetaValue::Simple(SimpleValue::String(s))) => Some(s),
        _ => None,
    }
}
pub fn lines_before(s: &[u8], at: usize) -> usize {
    s[..at].iter().filter(|b| **b == b'\n').count() + 1
}

/// Ledger text from a template: `[`..`]` mark elements (ranges in order of their opening), `%` and `$`
/// are filled by `hole` (told whether it is `$`).
pub fn tpl(t: &str, mut hole: impl FnMut(&mut Text, bool)) -> (Text, Vec<Range<usize>>) {
    let mut x = Text::new();
    let mut r: Vec<Range<usize>> = Vec::new();
    let mut open: Vec<usize> = Vec::new();
    for c in t.bytes() {
        match c {
            b'[' => {
                open.push(r.len());
                r.push(x.b.len()..x.b.len());
            }
            b']' => {
                let k = open.pop().unwrap();
                r[k].end = x.b.len();
            }
            b'%' => hole(&mut x, false),
            b'$' => hole(&mut x, true),
            c => x.b.push(c),
        }
    }
    (x, r)
}
/// The span resolves to exactly this part of the text, on the right lines.
pub fn at(src: &BeancountSources, x: &[u8], span: &Span, r: &Range<usize>, m: &'static str) {
    let s = src.resolve_span(span);
    check(span.source == 0 && span.start == r.start, m);
    check(eq(s.content.as_bytes(), &x[r.clone()]), m);
    check(s.start_line == lines_before(x, r.start) && s.end_line == lines_before(x, r.end), "line numbers of a span");
    check(s.file_name.is_none(), "an inline source has no file name");
}

/// one symbolic character: ASCII letter, or 2, 3 or 4 bytes long; a letter if so required
pub fn ch(x: &mut Text, k: u8, letter: bool) {
    match (k, letter) {
        (0, false) => {
            x.sym(union(LOWER, UPPER), 1);
        }
        (1, false) => {
            x.b.push(0xC3);
            x.sym(range(0x80, 0xBF), 1);
        }
        (2, false) => {
            x.b.extend_from_slice(&[0xE3, 0x80]);
            x.sym(range(0x80, 0xBF), 1);
        }
        (_, false) => {
            x.b.extend_from_slice(&[0xF0, 0x9F, 0x98]);
            x.sym(range(0x80, 0xBF), 1);
        }
        (0, true) => {
            x.sym(UPPER, 1);
        }
        (1, true) => {
            x.b.push(0xC3);
            x.sym(range(0xA0, 0xB6), 1);
        }
        (2, true) => {
            x.b.extend_from_slice(&[0xE4, 0xBD]);
            x.sym(range(0x80, 0xBF), 1);
        }
        (_, true) => {
            x.b.extend_from_slice(&[0xF0, 0x90, 0x8C]);
            x.sym(range(0xB0, 0xBF), 1);
        }
    };
}
