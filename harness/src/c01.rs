//! C01: no input makes the library panic.
use crate::util::*;

fn exercise_errors<K: ErrorOrWarningKind + Clone>(sources: &BeancountSources, es: &[ErrorOrWarning<K>]) -> usize {
    let mut w = Vec::new();
    for e in es {
        let s = sources.resolve_span(&e.span());
        out((s.start_line + s.end_line) as u64);
        let _ = sources.error_source_text(e).len();
        for (_, sp) in e.contexts() {
            let _ = sources.resolve_span(&sp);
        }
        for (_, sp) in e.related() {
            let _ = sources.resolve_span(&sp);
        }
    }
    sources.write_errors_or_warnings(&mut w, es.to_vec()).unwrap();
    w.len()
}

pub fn exercise_sources(sources: &BeancountSources, display: bool) {
    let parser = BeancountParser::new(sources);
    match parser.parse() {
        Ok(ok) => {
            cover(0);
            out(ok.directives.len() as u64);
            let mut app = Vec::new();
            for d in &ok.directives {
                if display {
                    let text = d.to_string();
                    out(text.len() as u64);
                }
                let s = sources.resolve_span(d.span());
                out(s.content.len() as u64);
                let mut e = d.error("application error");
                if let DirectiveVariant::Transaction(t) = d.variant() {
                    e = e.related_to_all(t.postings());
                    for p in t.postings() {
                        let _ = sources.resolve_span(p.span());
                        if let Some(a) = p.amount() {
                            e = e.related_to(a);
                        }
                    }
                }
                app.push(e);
            }
            out(exercise_errors(sources, &app) as u64);
            exercise_errors(sources, &ok.warnings);
        }
        Err(e) => {
            cover(1);
            out(1000 + e.errors.len() as u64);
            for x in &e.errors {
                let _ = x.to_string().len();
            }
            out(exercise_errors(sources, &e.errors) as u64);
            exercise_errors(sources, &e.warnings);
        }
    }
}

fn exercise(s: &str) {
    note(s);
    exercise_sources(&BeancountSources::from(s), true);
}
/// without rendering the directives (decimal rendering of symbolic numbers is out of reach)
fn exercise_nd(s: &str) {
    note(s);
    exercise_sources(&BeancountSources::from(s), false);
}

const CTX: &[(&str, &str)] = &[
    ("", ""),
    ("2024-01-01 ", "\n"),
    ("2024-01-01 open Assets:A", "\n"),
    ("2024-01-01 open Assets:A ", "\n"),
    ("2024-01-01 * ", "\n  Assets:A  1 USD\n"),
    ("2024-01-01 * \"x\"\n  ", "\n"),
    ("2024-01-01 * \"x\"\n  Assets:A ", "\n"),
    ("2024-01-01 * \"x\"\n  Assets:A 10 ", "\n"),
    ("2024-01-01 * \"x\"\n  Assets:A 1", "0 USD\n"),
    ("2024-01-01 * \"x\"\n  Assets:A 10 USD {", "}\n"),
    ("2024-01-01 * \"x\"\n  Assets:A 10 USD {2 USD, ", "} @ 3 EUR\n"),
    ("2024-01-01 * \"x\"\n  Assets:A 10 USD @", "\n"),
    ("2024-01-01 open Assets:A\n  k", ": 1\n"),
    ("2024-01-01 open Assets:A\n  key: ", "\n"),
    ("2024-01-01 note Assets:A \"a", "b\"\n"),
    ("2024-01-01 note Assets:A \"\\", "b\"\n"),
    ("pushtag #", "\npoptag #a\n"),
    ("pushmeta k", " 1\npopmeta key:\n"),
    ("plugin \"", "\" \"x\"\n"),
    ("; c", "\n2024-01-01 open Assets:A\n"),
    ("2024-01-01 open Assets:A\n", "\n2024-01-02 open Assets:B\n"),
    ("2024-01-01 open Assets:A\n", ""),
    ("2024-01-01 open Assets:A\n  ", ""),
    ("2024-01-01 open Assets:A", ""),
    ("2024-01-01 open Assets:A #t", "\n"),
    ("2024-01-01 balance Assets:A 10 ", " USD\n"),
    ("2024-01-01 custom \"x\" ", " TRUE\n"),
    ("2024-01-01 price USD", " 1 EUR\n"),
    ("option \"title", "\" \"x\"\n"),
    ("20", "4-01-01 open Assets:A\n"),
    ("2024-0", "-01 open Assets:A\n"),
    ("2024-01-01 open A", ":A\n"),
];

fn hole(x: &mut Text, k: u8) {
    match k {
        0 => {
            x.sym(ASCII, 1);
        }
        1 => {
            x.sym(ASCII, 2);
        }
        2 => {
            x.utf2();
        }
        3 => {
            x.utf3();
        }
        4 => {
            x.utf4();
        }
        5 => {
            x.sym(ASCII, 1);
            x.utf2();
        }
        6 => {
            x.utf3();
            x.sym(ASCII, 1);
        }
        7 => {
            x.sym(ASCII, 3);
        }
        8 => {
            x.any2();
        }
        _ => {
            x.any3();
        }
    };
}
fn ctxs(k: u8, lo: usize, hi: usize) {
    let i = choose((hi - lo) as u8) as usize + lo;
    let mut x = Text::new();
    x.lit(CTX[i].0);
    hole(&mut x, k);
    x.lit(CTX[i].1);
    exercise(x.str());
}
const N: usize = CTX.len();

const OPTS: &[&str] = &[
    "title", "name_assets", "name_liabilities", "name_equity", "name_income", "name_expenses", "account_previous_balances", "account_previous_earnings", "account_previous_conversions",
    "account_current_earnings", "account_current_conversions", "account_unrealized_gains", "account_rounding", "conversion_currency", "inferred_tolerance_default", "inferred_tolerance_multiplier",
    "infer_tolerance_from_cost", "documents", "operating_currency", "render_commas", "long_string_maxlines", "booking_method", "plugin_processing_mode", "no_such_option",
];
fn opts(k: u8) {
    let i = choose(OPTS.len() as u8) as usize;
    let mut x = Text::new();
    x.lit("option \"").lit(OPTS[i]).lit("\" \"");
    if k >= 10 {
        x.lit("A");
    }
    hole(&mut x, k % 10);
    x.lit("\"\n");
    exercise(x.str());
}

fn op(x: &mut Text) {
    x.sym(set_of(b"+-*/"), 1);
}
fn expr_ops() {
    let mut x = Text::new();
    x.lit("2024-01-01 * \"x\"\n  Assets:A  ");
    let op = |x: &mut Text| {
        x.sym(set_of(b"+-*"), 1);
    };
    x.sym(DIGIT, 1);
    op(&mut x);
    x.sym(DIGIT, 1);
    op(&mut x);
    x.lit("(");
    x.sym(DIGIT, 1);
    op(&mut x);
    x.lit("2) USD\n");
    exercise_nd(x.str());
}
/// operands one of a few, followed one by one
fn operand(x: &mut Text) {
    x.lit(["0", "1", "3", "7.50", "0.00"][choose(5) as usize]);
}
fn expr_div() {
    let mut x = Text::new();
    x.lit("2024-01-01 * \"x\"\n  Assets:A  ");
    operand(&mut x);
    op(&mut x);
    x.lit(if choose(2) == 1 { "-(" } else { "(" });
    operand(&mut x);
    op(&mut x);
    operand(&mut x);
    x.lit(") USD\n");
    exercise(x.str());
}
fn big_numbers() {
    let mut x = Text::new();
    x.lit("2024-01-01 * \"x\"\n  Assets:A  ");
    for _ in 0..choose(5) {
        x.lit("9999999");
    }
    x.sym(DIGIT, 1);
    if choose(2) == 1 {
        x.lit(".");
        for _ in 0..choose(5) {
            x.lit("9999999");
        }
        x.sym(DIGIT, 1);
    }
    x.lit(" USD\n");
    exercise_nd(x.str());
}
fn big_expr() {
    let mut x = Text::new();
    x.lit("2024-01-01 * \"x\"\n  Assets:A  79228162514264337593543950335");
    op(&mut x);
    match choose(4) {
        0 => x.lit("1"),
        1 => x.lit("0.1"),
        2 => x.lit("79228162514264337593543950335"),
        _ => x.lit("0.0000000000000000000000000001"),
    };
    x.lit(" USD\n");
    exercise(x.str());
}
fn dates() {
    let mut x = Text::new();
    x.sym(DIGIT, 4);
    x.sym(set_of(b"-/"), 1);
    x.sym(DIGIT, 2);
    x.sym(set_of(b"-/"), 1);
    x.sym(DIGIT, 2);
    x.lit(" open Assets:A\n");
    exercise_nd(x.str());
}
fn times() {
    let mut x = Text::new();
    x.lit("2024-01-01 custom \"x\" ");
    x.sym(DIGIT, 2);
    x.lit(":");
    x.sym(DIGIT, 2);
    if choose(2) == 1 {
        x.lit(":");
        x.sym(DIGIT, 2);
    }
    x.lit("\n");
    exercise_nd(x.str());
}
/// decimal digits of other scripts where ASCII digits are expected
fn unicode_digits() {
    let mut x = Text::new();
    let dig = |x: &mut Text| {
        x.b.push(0xD9);
        let b = byte(&range(0xA0, 0xA9));
        x.b.push(b);
    };
    let nd = choose(3);
    if nd == 0 {
        for _ in 0..4 {
            dig(&mut x);
        }
        x.lit("-01-0");
        dig(&mut x);
        x.lit(" open Assets:A\n");
    } else if nd == 1 {
        x.lit("2024-01-01 custom \"x\" 1");
        dig(&mut x);
        x.lit(":1");
        dig(&mut x);
        x.lit("\n");
    } else {
        x.lit("2024-01-01 * \"x\"\n  Assets:A  1");
        dig(&mut x);
        x.lit(".");
        dig(&mut x);
        x.lit(" USD\n");
    }
    exercise(x.str());
}
/// escapes in string literals
fn escapes() {
    let mut x = Text::new();
    x.lit("2024-01-01 note Assets:A \"\\");
    match choose(4) {
        0 => {
            x.sym(PRINT, 1);
        }
        1 => {
            x.lit("x");
            x.sym(PRINT, 2);
        }
        2 => {
            x.lit("u{");
            x.sym(PRINT, 2);
            x.lit("}");
        }
        _ => {
            x.lit("u");
            x.sym(ALNUM, 4);
        }
    };
    x.lit("\"\n");
    exercise(x.str());
}

/// an expression of very many operands
fn long_expr() {
    let mut x = Text::new();
    x.lit("2024-01-01 price USD 1");
    for _ in 0..100_000 {
        x.lit("+1");
    }
    x.lit(" EUR\n");
    with_parse(x.str(), |_, _| cover(0))
}
/// very many declarations of a kind in a row
fn rows() {
    let t = pick(&["pushtag #a\npoptag #a\n", "plugin \"p\"\nplugin \"p\"\n"]);
    let n = 12000;
    let mut x = Text::new();
    for _ in 0..n {
        x.lit(t);
    }
    x.lit("2024-01-01 open Assets:A");
    x.sym(LOWER, 1);
    x.lit("\n");
    with_ok(x.str(), "valid ledger rejected", |_, p| check(p.directives.len() == 1, "directives lost"))
}

pub const JOBS: &[Job] = &[
    job("ascii1", 0, || ctxs(0, 0, N), "32 ledger positions, one arbitrary ASCII byte"),
    job("utf2", 0, || ctxs(2, 0, N), "32 ledger positions, one 2-byte UTF-8 character of four blocks"),
    job("utf3", 0, || ctxs(3, 0, N), "32 ledger positions, one 3-byte UTF-8 character of three blocks"),
    job("utf4", 0, || ctxs(4, 0, N), "32 ledger positions, one 4-byte UTF-8 character of two blocks"),
    job("any2", 1, || ctxs(8, 0, N), "32 ledger positions, any 2-byte UTF-8 character"),
    job("any3", 1, || ctxs(9, 0, 6), "positions 0-5, any 3-byte UTF-8 character"),
    job("ascii_utf2", 1, || ctxs(5, 0, N), "32 ledger positions, one ASCII byte then one 2-byte character"),
    job("utf3_ascii", 1, || ctxs(6, 0, N), "32 ledger positions, one 3-byte character then one ASCII byte"),
    job("ascii2a", 0, || ctxs(1, 0, 8), "positions 0-7, two arbitrary ASCII bytes"),
    job("ascii2b", 0, || ctxs(1, 8, 16), "positions 8-15, two arbitrary ASCII bytes"),
    job("ascii2c", 1, || ctxs(1, 16, N), "positions 16-31, two arbitrary ASCII bytes"),
    job("opts1", 0, || opts(0), "24 option names, value is one ASCII byte"),
    job("opts2", 1, || opts(1), "24 option names, value is two ASCII bytes"),
    job("opts_utf2", 0, || opts(2), "24 option names, value is one 2-byte character"),
    job("opts_utf4", 0, || opts(4), "24 option names, value is one 4-byte character"),
    job("opts_a_utf2", 0, || opts(12), "24 option names, value is A and one 2-byte character"),
    job("expr_ops", 0, expr_ops, "d op d op (d op 2), digits symbolic, operators + - *"),
    job("expr_div", 0, expr_div, "a op (b op c), operators + - * /, operands among 0 1 3 7.50 0.00"),
    job("big_numbers", 0, big_numbers, "number literals of 1 to 29 digits before and 0 to 29 after the point"),
    job("big_expr", 0, big_expr, "largest decimal combined with extreme operands, operator symbolic"),
    job("dates", 0, dates, "all digits and both separators of a date symbolic"),
    job("times", 0, times, "all digits of a time symbolic"),
    job("unicode_digits", 0, unicode_digits, "Arabic-Indic digits in dates, times, numbers"),
    job("escapes", 0, escapes, "escape sequences in a string literal"),
    job("ascii3_0", 1, || ctxs(7, 0, 1), "whole file of three ASCII bytes"),
    job("ascii3_6", 1, || ctxs(7, 6, 7), "three ASCII bytes after a posting's account"),
    job("ascii3_13", 1, || ctxs(7, 13, 14), "three ASCII bytes as metadata value"),
    job("rows", 0, rows, "24000 pragmas in a row"),
    job("long_expr", 0, long_expr, "a sum of 100,001 numbers (known finding)"),
];
