//! C12: strings are read verbatim, escapes decoded, long ones warned about.
use crate::model::Bs;
use crate::util::*;

/// places that take a string, marked @; q is another string
const CTX: [&str; 20] = [
    "2024-01-01 * @\n",
    "2024-01-01 * @ \"q\"\n  Assets:A\n",
    "2024-01-01 * \"q\" @\n  Assets:A 1 USD\n",
    "2024-01-01 txn @ \"q\" #tag ^link\n",
    "2024-01-01 note Assets:A @\n",
    "2024-01-01 document Assets:A @\n",
    "2024-01-01 event @ \"q\"\n",
    "2024-01-01 event \"q\" @\n",
    "2024-01-01 query @ \"q\"\n",
    "2024-01-01 query \"q\" @\n",
    "2024-01-01 custom @\n",
    "2024-01-01 custom \"q\" 1 @ TRUE\n",
    "2024-01-01 close Assets:A\n  key: @\n",
    "2024-01-01 * \"q\"\n  Assets:A 1 USD\n    key: @\n  Assets:B\n",
    "2024-01-01 * \"q\"\n  Assets:A 1 USD {5 USD, @}\n",
    "pushmeta key: @\n2024-01-01 close Assets:A\npopmeta key:\n",
    "option \"title\" @\n",
    "plugin @\n",
    "plugin \"q\" @\n",
    "plugin @ \"q\"\n",
];
fn fill(x: &mut Text, c: &str, s: &[u8]) -> Range<usize> {
    let mut r = 0..0;
    for c in c.bytes() {
        if c == b'@' {
            r.start = x.b.len();
            x.lit("\"");
            x.b.extend_from_slice(s);
            x.lit("\"");
            r.end = x.b.len();
        } else {
            x.b.push(c);
        }
    }
    r
}
/// the string parsed in place k; an empty payee or narration counts as none
fn got<'x>(k: usize, p: &'x ParseSuccess) -> &'x str {
    use DirectiveVariant as V;
    match k {
        16 => return p.options.title().map_or("(none)", |t| *t.item()),
        17 | 19 => return *p.plugins[0].module_name().item(),
        18 => return p.plugins[0].config().map_or("(none)", |t| *t.item()),
        _ => {}
    }
    let d = p.directives[0].item();
    match d.variant() {
        V::Transaction(t) => match k {
            0 | 2 => t.narration().map_or("", |t| *t.item()),
            1 | 3 => t.payee().map_or("", |t| *t.item()),
            13 => meta_str(posting(t, 0).metadata(), "key").unwrap_or("(none)"),
            _ => posting(t, 0).cost_spec().and_then(|c| c.label()).map_or("(none)", |t| *t.item()),
        },
        V::Note(n) => *n.comment().item(),
        V::Document(n) => *n.path().item(),
        V::Event(n) if k == 6 => *n.event_type().item(),
        V::Event(n) => *n.description().item(),
        V::Query(n) if k == 8 => *n.name().item(),
        V::Query(n) => *n.content().item(),
        V::Custom(n) if k == 10 => *n.type_().item(),
        V::Custom(n) => match n.values().nth(1).map(|v| v.item()) {
            Some(MetaValue::Simple(SimpleValue::String(s))) => *s,
            _ => "(none)",
        },
        _ => meta_str(d.metadata(), "key").unwrap_or("(none)"),
    }
}
const PLAIN: Set = minus(minus(ASCII, set_of(b"\"")), set_of(b"\\"));
const ELEMS: u8 = 11;
/// one character as written (s) and as meant (v)
fn elem(k: u8, s: &mut Bs, v: &mut Bs) {
    let esc: Option<(&[u8], u8)> = match k {
        0 => Some((b"\\n", b'\n')),
        1 => Some((b"\\t", b'\t')),
        2 => Some((b"\\r", b'\r')),
        3 => Some((b"\\\"", b'"')),
        4 => Some((b"\\\\", b'\\')),
        5 => Some((b"\r\n", 0)),
        _ => None,
    };
    if let Some((w, c)) = esc {
        s.extend_from_slice(w);
        if k == 5 {
            v.extend_from_slice(w);
        } else {
            v.push(c);
        }
        return;
    }
    let mut x = Text::new();
    match k {
        6 => {
            x.sym(PLAIN, 1);
        }
        7 => {
            x.any2();
        }
        8 => {
            x.any3();
        }
        9 => ch(&mut x, 3, false),
        _ => {
            x.lit("n");
        }
    }
    s.extend_from_slice(&x.b);
    v.extend_from_slice(&x.b);
}
fn content(k: usize, n: u8) {
    let (mut s, mut v) = (Bs::new(), Bs::new());
    for _ in 0..n {
        elem(choose(ELEMS), &mut s, &mut v);
    }
    let mut x = Text::new();
    fill(&mut x, CTX[k], &s);
    with_ok(x.str(), "a string was rejected", |_, p| {
        check(eq(got(k, p).as_bytes(), &v), "the string is the one written");
        check(p.warnings.is_empty(), "no warning for a short string");
        check(p.directives.len() == (k < 16) as usize && p.plugins.len() == (k > 16) as usize, "nothing else is read");
    })
}
/// n arbitrary ASCII characters between quotes and then more: what ends the string is the first quote that is not escaped
fn raw(n: usize) {
    let mut x = Text::new();
    x.lit("2024-01-01 note Assets:A \"");
    let r = x.sym(union(set_of(b"\"\\nt\n \r;x"), set_of(b"'")), n);
    x.lit("\"\n");
    // reference reading
    let mut v = Bs::new();
    let mut i = r.start;
    let (mut end, mut bad) = (r.end, false);
    while i < r.end + 1 {
        let c = x.b[i];
        if c == b'"' {
            end = i;
            break;
        }
        if c == b'\\' {
            i += 1;
            match x.b[i] {
                b'n' => v.push(b'\n'),
                b't' => v.push(b'\t'),
                b'r' => v.push(b'\r'),
                b'\'' => v.push(b'\''),
                b'"' => v.push(b'"'),
                b'\\' => v.push(b'\\'),
                _ => bad = true,
            }
        } else {
            v.push(c);
        }
        i += 1;
        end = i;
    }
    // only the case that the string ends where the line does
    if end != r.end {
        return;
    }
    with_iff(x.str(), !bad, "a string was rejected", "an unknown escape was accepted", |_, p| {
        check(eq(got(4, p).as_bytes(), &v), "the string is the one written");
    })
}
/// a longer string with one special character at any position
fn at_position() {
    let n = pick(&[7usize, 15, 16, 17, 31, 33, 64, 100]);
    let i = choose(n as u8) as usize;
    let (mut s, mut v) = (Bs::new(), Bs::new());
    let k = choose(ELEMS);
    for j in 0..n {
        if j == i {
            elem(k, &mut s, &mut v);
        }
        s.push(b'a' + (j % 26) as u8);
        v.push(b'a' + (j % 26) as u8);
    }
    let mut x = Text::new();
    fill(&mut x, CTX[4], &s);
    with_ok(x.str(), "a string was rejected", |_, p| check(eq(got(4, p).as_bytes(), &v), "the string is the one written"))
}
/// two strings on one line do not run into each other
fn two() {
    let k = pick(&[1usize, 2, 6, 7, 8, 9, 18, 19]);
    let (mut s, mut v) = (Bs::new(), Bs::new());
    let (mut s2, mut v2) = (Bs::new(), Bs::new());
    elem(choose(ELEMS), &mut s, &mut v);
    elem(choose(ELEMS), &mut s2, &mut v2);
    let first = matches!(k, 1 | 6 | 8 | 19);
    let c = CTX[k];
    let mut x = Text::new();
    for (j, w) in c.split("\"q\"").enumerate() {
        if j == 1 {
            x.lit("\"");
            x.b.extend_from_slice(&s2);
            x.lit("\"");
        }
        fill(&mut x, w, &s);
    }
    let other = match k {
        1 => 2,
        2 => 1,
        6 => 7,
        7 => 6,
        8 => 9,
        9 => 8,
        18 => 17,
        _ => 18,
    };
    let _ = first;
    with_ok(x.str(), "two strings were rejected", |_, p| {
        check(eq(got(k, p).as_bytes(), &v), "the string is the one written");
        check(eq(got(other, p).as_bytes(), &v2), "the other string is the one written");
    })
}
/// n lines, separated as chosen; brk 0 newline, 1 CRLF, 2 escape, 3 escaped return (not a line)
/// shape 0 all with a character, 1 the last empty, 2 the first empty, 3 all empty, 4 the middle ones empty
fn lines(n: usize, brk: u8, c: u8) -> Bs {
    shaped(n, brk, c, 0)
}
fn shaped(n: usize, brk: u8, c: u8, shape: u8) -> Bs {
    let empty = |i: usize| match shape {
        0 => false,
        1 => i + 1 == n,
        2 => i == 0,
        3 => true,
        _ => i != 0 && i + 1 != n,
    };
    let mut s = if empty(0) { vec![] } else { vec![c] };
    for i in 1..n {
        s.extend_from_slice(match brk {
            0 => b"\n",
            1 => b"\r\n",
            2 => b"\\n",
            _ => b"\\r",
        });
        if !empty(i) {
            s.push(c);
        }
    }
    s
}
/// the warnings are exactly these, each at its string
fn warned(src: &BeancountSources, x: &Text, ws: &[Warning], want: &[Range<usize>]) {
    check(ws.len() == want.len(), "a warning for each string that is too long, and no other");
    for (w, r) in ws.iter().zip(want) {
        let sp = src.resolve_span(&w.span());
        check(w.span().start == r.start && eq(sp.content.as_bytes(), &x.b[r.clone()]), "the warning is at the string");
    }
}
/// every place, every limit, lines around it
fn limit() {
    let k = choose(20) as usize;
    let l = choose(5) as usize;
    let n = 1 + choose(6) as usize;
    let brk = choose(4);
    let mut x = Text::new();
    x.lit("option \"long_string_maxlines\" \"");
    x.b.push(b'0' + l as u8);
    x.lit("\"\n");
    // no limit below 1 in lines with other strings
    if l == 0 && (CTX[k].contains('q') || k == 16) {
        return;
    }
    let bad = flip();
    let r = fill(&mut x, CTX[k], &lines(n, brk, b'w'));
    if bad {
        x.lit("2024-01-01 open 5\n");
    }
    let count = if brk == 3 { 1 } else { n };
    let want: &[Range<usize>] = if count > l { &[r] } else { &[] };
    with_parse(x.str(), |src, p| match p {
        Ok(p) => {
            check(!bad, "a bad declaration was accepted");
            cover(0);
            check(p.options.long_string_maxlines().map(|v| *v.item()) == Some(l), "the limit set");
            warned(src, &x, &p.warnings, want);
        }
        Err(e) => {
            check(bad, "a string was rejected");
            cover(1);
            warned(src, &x, &e.warnings, want);
        }
    })
}
fn default_limit() {
    let k = choose(20) as usize;
    let n = pick(&[60usize, 63, 64, 65, 66, 100, 130]);
    let brk = choose(3);
    let mut x = Text::new();
    let r = fill(&mut x, CTX[k], &lines(n, brk, b'w'));
    let want: &[Range<usize>] = if n > 64 { &[r] } else { &[] };
    with_ok(x.str(), "a string was rejected", |src, p| {
        check(p.options.long_string_maxlines().is_none(), "the limit is not set");
        warned(src, &x, &p.warnings, want);
    })
}
/// empty lines count
fn blank_lines() {
    let k = choose(20) as usize;
    let l = 1 + choose(3) as usize;
    let n = l + choose(3) as usize;
    let mut x = Text::new();
    x.lit("option \"long_string_maxlines\" \"");
    x.b.push(b'0' + l as u8);
    x.lit("\"\n");
    let r = fill(&mut x, CTX[k], &shaped(n, choose(3), b'w', choose(5)));
    let want: &[Range<usize>] = if n > l { &[r] } else { &[] };
    with_ok(x.str(), "a string was rejected", |src, p| warned(src, &x, &p.warnings, want))
}
/// symbolic limit
fn limit_digits() {
    let (a, c) = (byte(&DIGIT), byte(&DIGIT));
    let l = dv(a) * 10 + dv(c);
    let n = pick(&[1usize, 2, 5, 9, 10, 12, 40, 64, 65, 70]);
    let mut x = Text::new();
    x.lit("option \"long_string_maxlines\" \"");
    x.b.push(a);
    x.b.push(c);
    x.lit("\"\n");
    let r = fill(&mut x, CTX[4], &lines(n, choose(3), b'w'));
    with_ok(x.str(), "a string was rejected", |src, p| {
        if (n as i128) > l {
            cover(1);
            warned(src, &x, &p.warnings, &[r]);
        } else {
            cover(2);
            warned(src, &x, &p.warnings, &[]);
        }
    })
}
/// several strings of different lengths, with the limit changing in between
fn several(m: u8, small: bool) {
    let mut x = Text::new();
    let mut l = 64;
    let mut want = Vec::new();
    for _ in 0..m {
        match if small { 1 + choose(4) } else { choose(9) } {
            v @ 0..=2 => {
                l = 1 + v as usize;
                x.lit("option \"long_string_maxlines\" \"");
                x.b.push(b'0' + l as u8);
                x.lit("\"\n");
            }
            v => {
                let n = if small { pick(&[2usize, 3]) } else { pick(&[1usize, 2, 3, 4]) };
                let k = [0usize, 2, 13, 11, 7, 17][v as usize - 3];
                let r = fill(&mut x, CTX[k], &lines(n, (v % 2) * 2, b'w'));
                if n > l {
                    want.push(r);
                }
            }
        }
    }
    with_ok(x.str(), "strings were rejected", |src, p| warned(src, &x, &p.warnings, &want))
}

pub const JOBS: &[Job] = &[
    job("places1", 0, || content(choose(20) as usize, choose(2)), "0 or 1 characters of 11 kinds (5 escapes, CRLF, any ASCII, any 2- or 3-byte, some 4-byte) in 20 places"),
    job("content2", 0, || content(pick(&[2, 4, 12]), 2), "2 characters of 11 kinds in 3 places"),
    job("content3", 0, || content(4, 3), "3 characters of 11 kinds"),
    job("raw4", 0, || raw(4), "4 arbitrary characters out of 10, quotes and backslashes among them"),
    job("raw6", 0, || raw(6), "6 arbitrary characters out of 10"),
    job("position", 0, at_position, "one character of 11 kinds at each position of strings of 7 to 100 characters"),
    job("two", 0, two, "two strings next to each other, a character of 11 kinds in each"),
    job("limit", 0, limit, "20 places, limits 0 to 4, 1 to 6 lines, 4 kinds of line break, with and without an error elsewhere"),
    job("blank", 0, blank_lines, "20 places, limits 1 to 3, as many lines or one or two more, first, last, inner or all lines empty"),
    job("default", 0, default_limit, "20 places, 60 to 130 lines against the default limit"),
    job("digits", 0, limit_digits, "limits 0 to 99 (symbolic), 10 numbers of lines, 3 kinds of line break"),
    job("several3", 0, || several(3, false), "3 strings or changes of the limit"),
    job("several5", 0, || several(5, true), "5 strings or changes of the limit"),
];
