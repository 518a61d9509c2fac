//! C06: span resolution is total and exact for any span a caller can construct, and synthetic spans
//! resolve to their own fragment for ever.
use crate::util::*;

fn piece(x: &mut Text, k: u8) {
    match k {
        0 => {
            x.sym(set_of(b"wxyz"), 1);
        }
        1 => {
            x.sym(set_of(b" \t\n\r"), 1);
        }
        2 => {
            // U+00C0..U+00FF
            x.b.push(0xC3);
            x.sym(range(0x80, 0xBF), 1);
        }
        3 => {
            // U+3000 (a space) .. U+303F
            x.b.extend_from_slice(&[0xE3, 0x80]);
            x.sym(range(0x80, 0xBF), 1);
        }
        _ => {
            x.b.extend_from_slice(&[0xF0, 0x9F, 0x98]);
            x.sym(range(0x80, 0xBF), 1);
        }
    }
}
fn boundary(b: &[u8], i: usize) -> bool {
    i == 0 || i == b.len() || (i < b.len() && b[i] & 0xC0 != 0x80)
}
/// what a span resolves to: nothing if it is not a span of the text, else the text without trailing
/// whitespace, unless there is nothing but whitespace
fn expect(b: &[u8], start: usize, end: usize) -> Option<Range<usize>> {
    if start > end || end > b.len() || !boundary(b, start) || !boundary(b, end) {
        return None;
    }
    let s = unsafe { std::str::from_utf8_unchecked(&b[start..end]) };
    let t = s.trim_end();
    Some(start..start + if t.is_empty() { s.len() } else { t.len() })
}
fn err(span: Span) -> Error {
    spanned(Booking::Strict, span).error("x")
}
fn check_span(b: &[u8], s: &SpannedSource, text: &str, start: usize, end: usize) {
    match expect(b, start, end) {
        None => {
            cover(1);
            check(s.content.is_empty() && text.is_empty(), "an invalid span resolves to text");
        }
        Some(r) => {
            cover(2);
            check(eq(s.content.as_bytes(), &b[r.clone()]), "text of a span");
            check(eq(text.as_bytes(), &b[r.clone()]), "text of an error");
            check(s.start_line == lines_before(b, r.start), "start line of a span");
            check(s.end_line == lines_before(b, r.end), "end line of a span");
        }
    }
}
const BIG: usize = usize::MAX;

/// any span over a text of n pieces
fn any(n: usize) {
    let mut x = Text::new();
    for _ in 0..n {
        let k = choose(5);
        piece(&mut x, k);
    }
    let lim = x.b.len() as u8 + 3;
    let v = |k: u8| if k + 1 == lim { BIG } else { k as usize };
    let (start, end) = (v(choose(lim)), v(choose(lim)));
    let source = if n > 2 { 0 } else { pick(&[0, 1, BIG]) };
    let span = Span { source, start, end };
    note(x.str());
    let src = BeancountSources::from(x.str());
    let e = err(span);
    let s = src.resolve_span(&span);
    if source == 0 {
        check_span(&x.b, &s, src.error_source_text(&e), start, end);
    } else {
        check(s.content.is_empty() && src.error_source_text(&e).is_empty(), "an unknown source has no text");
    }
    check(s.file_name.is_none() || source != 0, "an inline source has no file name");
    let y = SyntheticSources::new(&src);
    let s2 = y.resolve_span(&span);
    check(eqs(s2.content, s.content) && s2.start_line == s.start_line && s2.end_line == s.end_line, "real spans resolve the same through synthetic sources");
    check(eqs(y.error_source_text(&e), src.error_source_text(&e)), "error text the same through synthetic sources");
    if n < 3 {
        let mut w = Vec::new();
        check(src.write_report::<_, ErrorKind, _>(&mut w, &e).is_ok() && !w.is_empty(), "report written");
    }
    cover(0);
}
/// a history of synthetic spans under names a and b: all resolve to their fragment, then and later
fn history(steps: usize, kinds: u8) {
    const BASE: &str = "2024-01-01 open Assets:A\n";
    let src = BeancountSources::from(BASE);
    note(BASE);
    let mut y = SyntheticSources::new(&src);
    let mut done: Vec<(usize, Range<usize>, Span)> = Vec::new();
    let mut all: [Text; 2] = [Text::new(), Text::new()];
    for _ in 0..steps {
        let w = choose(2) as usize;
        let mut f = Text::new();
        match choose(kinds) {
            0 => piece(&mut f, 0),
            1 => {
                piece(&mut f, 2);
                f.lit("\n");
            }
            2 => {
                f.lit("x");
                piece(&mut f, 3);
                f.lit("y");
            }
            3 => {}
            4 => {
                piece(&mut f, 1);
                piece(&mut f, 0);
            }
            _ => piece(&mut f, 4),
        }
        note(f.str());
        let sp = y.create_synthetic_span(["a", "b"][w], f.str());
        let st = all[w].b.len();
        all[w].b.extend_from_slice(&f.b);
        done.push((w, st..st + f.b.len(), sp));
    }
    for (w, r, sp) in &done {
        let s = y.resolve_span(sp);
        // line numbers count within the synthetic source of that name
        let want = expect(&all[*w].b, r.start, r.end).unwrap();
        check(eq(s.content.as_bytes(), &all[*w].b[want.clone()]), "a synthetic span does not resolve to its fragment");
        check(s.start_line == lines_before(&all[*w].b, want.start) && s.end_line == lines_before(&all[*w].b, want.end), "lines of a synthetic span");
        check(s.file_name == Some(["a", "b"][*w]), "file name of a synthetic span");
        let e = err(*sp);
        check(eqs(y.error_source_text(&e), s.content), "error text of a synthetic span");
    }
    // the real source is not disturbed
    let s = y.resolve_span(&Span { source: 0, start: 16, end: 24 });
    check(eqs(s.content, "Assets:A") && s.start_line == 1, "real spans after synthetic ones");
    cover(0);
}
/// the report of an error at a synthetic span: line and column within that source
fn report() {
    const BASE: &str = "2024-01-01 open Assets:A\n";
    let src = BeancountSources::from(BASE);
    let mut y = SyntheticSources::new(&src);
    let mut col = 1;
    let mut line = 1;
    let mut last = None;
    for i in 0..3 {
        let mut f = Text::new();
        let k = choose(4);
        ch(&mut f, k, false);
        f.lit("z");
        if flip() {
            f.lit("\n");
        }
        last = Some(y.create_synthetic_span("aa", f.str()));
        if i < 2 {
            if f.b.ends_with(b"\n") {
                line += 1;
                col = 1;
            } else {
                col += 2;
            }
        }
    }
    let e = err(last.unwrap());
    let mut w = Vec::new();
    check(y.write_report::<_, ErrorKind, _>(&mut w, &e).is_ok(), "report written");
    let want = format!("aa:{}:{} ", line, col);
    let want = want.as_bytes();
    let found = (0..w.len().saturating_sub(want.len())).any(|i| w[i] == b'a' && eq(&w[i..i + want.len()], want));
    check(found, "position in the report of a synthetic span");
    cover(0);
}
/// names of any shape: equal names share a source, different ones do not
fn names() {
    let src = BeancountSources::from("");
    let mut y = SyntheticSources::new(&src);
    let mut n = Text::new();
    let any = union(range(0x20, 0x7e), set_of(b"\t\n"));
    let ln = choose(3) as usize;
    n.sym(any, ln);
    let mut m = Text::new();
    let lm = choose(4) as usize;
    m.sym(any, lm);
    let same = eq(&n.b, &m.b);
    let a = y.create_synthetic_span(n.str(), "p\nq");
    let b = y.create_synthetic_span(m.str(), "r");
    check((a.source == b.source) == same, "sources are shared exactly by equal names");
    let (sa, sb) = (y.resolve_span(&a), y.resolve_span(&b));
    check(eqs(sa.content, "p\nq") && eqs(sb.content, "r"), "text of a synthetic span");
    check(sb.start_line == if same { 2 } else { 1 }, "line of a synthetic span");
    check(eqs(sb.file_name.unwrap(), m.str()) && eqs(sa.file_name.unwrap(), n.str()), "name of a synthetic span");
    check(a.source != 0 && b.source != 0, "synthetic sources are not real ones");
    cover(0);
}

pub const JOBS: &[Job] = &[
    job("any1", 0, || any(1), "every span over every text of 1 character (1 to 4 bytes), bounds 0..length+1 and the largest integer, 3 sources"),
    job("any2", 0, || any(2), "every span over every text of 2 characters, 3 sources"),
    job("any3", 0, || any(3), "every span over every text of 3 characters"),
    job("history4", 0, || history(4, 3), "4 synthetic spans, 2 names, 3 kinds of fragment"),
    job("history3", 0, || history(3, 6), "3 synthetic spans, 2 names, 6 kinds of fragment"),
    job("history5", 1, || history(5, 4), "5 synthetic spans, 2 names, 4 kinds of fragment"),
    job("report", 0, report, "line and column of 3 synthetic fragments with multi-byte characters"),
    job("names", 0, names, "two symbolic names of 0 to 3 printable characters or white space"),
];
