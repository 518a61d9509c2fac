//! C21: the result does not depend on hash order.
//!
//! Each job parses a ledger once with fixed hashing and once with the hash values of the keys marked
//! `hk` (or `HK`) in one hash table chosen by the solver, and compares.
use crate::util::*;

/// the words of a debug rendering, in any order
fn words(s: &str) -> String {
    let mut w: Vec<&str> = s.split(|c: char| "{}[](), ".contains(c)).filter(|w| !w.is_empty()).collect();
    w.sort_unstable();
    w.join(" ")
}
/// everything parsed, with positions; in the order returned where that is promised
fn digest(path: Option<&str>, text: &str) -> Vec<String> {
    let sources = match path {
        Some(p) => match BeancountSources::try_from(std::path::PathBuf::from(p)) {
            Ok(s) => s,
            Err(_) => return vec!["unreadable".to_string()],
        },
        None => BeancountSources::from(text),
    };
    let parser = BeancountParser::new(&sources);
    let mut v = Vec::new();
    let place = |s: &Span| {
        let r = sources.resolve_span(s);
        format!("{} {}-{} {}", r.file_name.unwrap_or("-"), r.start_line, r.end_line, r.content)
    };
    match parser.parse() {
        Ok(p) => {
            v.push("ok".to_string());
            for d in &p.directives {
                v.push(words(&format!("{d:?}")));
                v.push(place(d.span()));
            }
            v.push(words(&format!("{:?}", p.options)));
            for x in &p.plugins {
                v.push(format!("{x:?}"));
            }
            for w in &p.warnings {
                v.push(words(&format!("{w:?}")));
                v.push(place(&w.span()));
            }
        }
        Err(p) => {
            let mut e: Vec<String> = p.errors.iter().map(|e| format!("{} {}", words(&format!("{e:?}")), place(&e.span()))).collect();
            e.sort_unstable();
            v.push("errors".to_string());
            v.extend(e);
            for w in &p.warnings {
                v.push(words(&format!("{w:?}")));
            }
        }
    }
    v
}
/// `tables` tables at most in which the hash values are chosen, `keys` keys at most in one, each of `vals` values
fn again(tables: u8, keys: usize, vals: u8, path: Option<&str>, text: &str) {
    note(text);
    let t = choose(tables);
    let h: Vec<u8> = (0..keys).map(|_| byte(&range(0, vals - 1))).collect();
    hash_mode(1);
    let want = digest(path, text);
    cover(if want[0] == "ok" { 0 } else { 1 });
    hash_mode(1000 + t as u64);
    for b in h {
        hash_pool(b);
    }
    for _ in 0..reps() {
        let got = digest(path, text);
        check(want.len() == got.len(), "parsing again gives another number of results");
        check(want.iter().zip(&got).all(|(a, b)| a == b), "parsing again gives another result");
    }
}

/// files for the root, hka, hkb and hkc each
const FILES: [[&str; 4]; 14] = [
    // directives of the same date, plugins and an option in each
    [
        "include \"hka.bean\"\ninclude \"hkb.bean\"\ninclude \"hkc.bean\"\n2024-01-01 open Assets:R\nplugin \"r\"\n",
        "2024-01-01 open Assets:A\nplugin \"a\"\noption \"title\" \"t\"\n",
        "2024-01-01 open Assets:B\nplugin \"b\"\noption \"render_commas\" \"true\"\n",
        "2024-01-01 open Assets:C\nplugin \"c\"\noption \"booking_method\" \"FIFO\"\n",
    ],
    // by one pattern
    ["include \"hk*.bean\"\n2024-01-01 open Assets:R\n", "2024-01-01 open Assets:A\nplugin \"a\"\n", "2024-01-01 open Assets:B\nplugin \"b\"\n", "2024-01-01 open Assets:C\nplugin \"c\"\n"],
    // nested, with a cycle
    ["include \"hka.bean\"\n2024-01-01 open Assets:R\n", "include \"hkb.bean\"\n2024-01-01 open Assets:A\n", "2024-01-01 open Assets:B\ninclude \"hkc.bean\"\n", "2024-01-01 open Assets:C\ninclude \"hka.bean\"\n"],
    // account type names in one file, used in others
    [
        "include \"hka.bean\"\ninclude \"hkb.bean\"\ninclude \"hkc.bean\"\n",
        "option \"name_assets\" \"Vermoegen\"\n2024-01-01 open Vermoegen:A\n",
        "2024-01-01 open Vermoegen:B\n",
        "2024-01-01 open Vermoegen:C\n",
    ],
    ["include \"hka.bean\"\ninclude \"hkb.bean\"\ninclude \"hkc.bean\"\n", "2024-01-01 open Assets:A\n", "option \"name_assets\" \"Vermoegen\"\n2024-01-01 open Vermoegen:B\n", "2024-01-01 open Vermoegen:C\n"],
    ["include \"hka.bean\"\ninclude \"hkb.bean\"\ninclude \"hkc.bean\"\n", "2024-01-01 open Assets:A\n", "2024-01-01 open Assets:B\n", "option \"name_assets\" \"Vermoegen\"\n2024-01-01 open Vermoegen:C\n"],
    // long strings
    [
        "include \"hka.bean\"\ninclude \"hkb.bean\"\ninclude \"hkc.bean\"\n",
        "2024-01-01 note Assets:A \"a\nb\nc\"\n",
        "option \"long_string_maxlines\" \"2\"\n2024-01-01 note Assets:A \"a\nb\nc\"\n",
        "2024-01-01 note Assets:A \"a\nb\nc\nd\"\n",
    ],
    // syntax errors in each
    ["include \"hka.bean\"\ninclude \"hkb.bean\"\ninclude \"hkc.bean\"\n2024-01-01 open\n", "2024-01-01 opan Assets:A\n", "2024-01-01 open Foo:A\n2024-01-01 open Assets:A\n", "2024-01-01 balance Assets:A\n"],
    // files included again, with other tags
    [
        "include \"hka.bean\"\npushtag #x\ninclude \"hka.bean\"\npoptag #x\ninclude \"hkb.bean\"\ninclude \"hkc.bean\"\n",
        "2024-01-01 open Assets:A\n",
        "pushtag #y\ninclude \"hkc.bean\"\npoptag #y\n2024-01-01 open Assets:B\n",
        "2024-01-01 open Assets:C\n",
    ],
    // the same option in several files, missing files
    [
        "include \"hka.bean\"\ninclude \"hkb.bean\"\ninclude \"hkc.bean\"\ninclude \"hkd.bean\"\n",
        "option \"title\" \"a\"\n",
        "option \"title\" \"b\"\n",
        "option \"title\" \"c\"\ninclude \"hke.bean\"\n",
    ],
    // by different paths
    ["include \"hka.bean\"\ninclude \"hkb.bean\"\n2024-01-01 open Assets:R\n", "include \"x/../hkc.bean\"\n2024-01-01 open Assets:A\n", "include \"hkc.bean\"\n2024-01-01 open Assets:B\n", "2024-01-01 open Assets:C\n"],
    // tags and metadata pushed in one file and popped in another
    [
        "include \"hka.bean\"\ninclude \"hkb.bean\"\ninclude \"hkc.bean\"\n",
        "pushtag #x\npushmeta kk: 1\n2024-01-01 open Assets:A\n",
        "2024-01-01 open Assets:B\npoptag #x\n2024-01-01 open Assets:D\n",
        "2024-01-01 open Assets:C\npopmeta kk:\n2024-01-01 open Assets:E\n",
    ],
    // options for parsing in two files, neither the first
    [
        "include \"hka.bean\"\ninclude \"hkb.bean\"\ninclude \"hkc.bean\"\n2024-01-01 open Assets:R\n",
        "include \"hkc.bean\"\n2024-01-01 note Assets:A \"a\nb\nc\"\n",
        "option \"name_income\" \"Einkommen\"\n2024-01-01 open Einkommen:B\n",
        "option \"long_string_maxlines\" \"2\"\n2024-01-01 open Assets:C\n",
    ],
    // warnings in each
    [
        "option \"long_string_maxlines\" \"1\"\ninclude \"hka.bean\"\ninclude \"hkb.bean\"\ninclude \"hkc.bean\"\n2024-01-01 note Assets:R \"a\nb\"\n",
        "2024-01-01 note Assets:A \"a\nb\"\n",
        "2024-01-01 note Assets:B \"a\nb\"\n",
        "2024-01-01 note Assets:C \"a\nb\"\n",
    ],
];
fn files(tables: u8, vals: u8) {
    let d = fs_root();
    let k = choose(FILES.len() as u8) as usize;
    for (i, n) in ["r", "hka", "hkb", "hkc"].iter().enumerate() {
        fs_add(&format!("{d}/{n}.bean"), FILES[k][i].as_bytes());
    }
    fs_add(&format!("{d}/x/y"), b"");
    again(tables, 5, vals, Some(&format!("{d}/r.bean")), &FILES[k].join("--\n"));
}
fn files5() {
    files(10, 4)
}
fn files8() {
    files(14, 5)
}

/// ledgers in which the marked keys are tags, links, metadata, currencies, options and so on
const INLINE: [&str; 16] = [
    "pushtag #hk1\npushtag #hk2\npushtag #hk3\n2024-01-01 * \"n\"\n",
    "pushmeta hk1: 1\npushmeta hk2: 2\npushmeta hk3: 3\n2024-01-01 * \"n\"\n",
    "pushtag #hk1\npushtag #hk2\npushtag #hk1\n2024-01-01 * \"n\" #hk3\npoptag #hk1\npoptag #hk1\n2024-01-01 * \"n\" #hk2\npoptag #hk2\n",
    "pushmeta hk1: 1\npushmeta hk2: 2\n2024-01-01 * \"n\"\n  hk2: 3\n  hk3: 4\npopmeta hk2:\npopmeta hk1:\n2024-01-01 * \"n\"\n",
    "poptag #hk1\npoptag #hk2\npopmeta hk1:\npopmeta hk2:\n",
    "2024-01-01 * \"n\" #hk1 #hk2 #hk3\n  #hk4\n2024-01-01 * \"n\" #hk1 #hk1\n",
    "2024-01-01 * \"n\" ^hk1 ^hk2 ^hk3\n  ^hk4\n",
    "2024-01-01 * \"n\"\n  hk1: 1\n  hk2: \"a\"\n  hk3: USD\n  Assets:A 1 USD\n    hk1: 2\n    hk2: 3\n",
    "2024-01-01 * \"n\"\n  hk1: 1\n  hk2: 1\n  hk1: 2\n  hk2: 3\n",
    "2024-01-01 open Assets:A HKA,HKB,HKC\n2024-01-01 open Assets:B HKA,HKB,HKA\n",
    "option \"operating_currency\" \"HKA\"\noption \"operating_currency\" \"HKB\"\noption \"operating_currency\" \"HKC\"\n",
    "option \"inferred_tolerance_default\" \"HKA:0.1\"\noption \"inferred_tolerance_default\" \"HKB:0.2\"\noption \"inferred_tolerance_default\" \"*:0.3\"\n",
    "option \"inferred_tolerance_default\" \"HKA:0.1\"\noption \"inferred_tolerance_default\" \"HKB:0.2\"\noption \"inferred_tolerance_default\" \"HKA:0.3\"\n",
    "option \"documents\" \"hka\"\noption \"documents\" \"hkb\"\noption \"documents\" \"hkc\"\noption \"documents\" \"hka\"\n",
    "option \"name_assets\" \"Hka\"\noption \"name_income\" \"Hkb\"\noption \"name_equity\" \"Hkc\"\n2024-01-01 open Hka:A\n2024-01-01 open Hkb:A\n2024-01-01 open Hkc:A\n",
    "option \"name_assets\" \"Hka\"\noption \"name_income\" \"Hka\"\noption \"name_equity\" \"Hkb\"\n2024-01-01 open Hka:A\n2024-01-01 open Hkb:A\n2024-01-01 open Equity:A\n",
];
fn inline(tables: u8, vals: u8) {
    again(tables, 6, vals, None, INLINE[choose(INLINE.len() as u8) as usize]);
}
fn inline4() {
    inline(8, 4)
}
fn inline7() {
    inline(14, 5)
}

pub static JOBS: &[Job] = &[
    job("files", 0, files5, "14 ledgers of 4 files; in each of the first 10 hash tables keyed by path, each path's hash one of 4"),
    job("files8", 1, files8, "the same, in 14 hash tables, one of 5"),
    job("inline", 0, inline4, "16 ledgers; in each of the first 8 hash tables keyed by tags, links, metadata keys, currencies, options or names, each key's hash one of 4"),
    job("inline7", 1, inline7, "the same, in 14 hash tables, one of 5"),
];
