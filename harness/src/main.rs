//! Harnesses: every property has a module with a table of jobs.  A job builds
//! ledgers with symbolic bytes, runs the public API of the crate under test on
//! them and asserts the property.  The same code runs under the symbolic
//! executor (cfg symex) and natively on concrete bytes (replay).
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod model;
mod sym;
mod util;

/// (name, tier: 0 quick and thorough, 1 thorough only, bounds in words)
pub struct Job {
    pub name: &'static str,
    pub tier: u8,
    pub f: fn(),
    pub note: &'static str,
}
pub const fn job(name: &'static str, tier: u8, f: fn(), note: &'static str) -> Job {
    Job { name, tier, f, note }
}

pub static PROPS: &[(u64, &[Job])] = &[(1, c01::JOBS), (2, c02::JOBS), (3, c03::JOBS), (4, c04::JOBS), (5, c05::JOBS), (6, c06::JOBS), (7, c07::JOBS), (8, c08::JOBS), (9, c09::JOBS), (10, c10::JOBS), (11, c11::JOBS), (12, c12::JOBS), (13, c13::JOBS), (14, c14::JOBS), (15, c15::JOBS), (16, c16::JOBS), (17, c17::JOBS), (18, c18::JOBS), (19, c19::JOBS), (20, c20::JOBS), (21, c21::JOBS)];

#[cfg(symex)]
#[no_mangle]
pub extern "C" fn h_entry(h: u64, t: u64) {
    entry(h, t)
}
pub fn entry(h: u64, t: u64) {
    let mut i = 0;
    while i < PROPS.len() {
        if PROPS[i].0 == h {
            (PROPS[i].1[t as usize].f)();
            return;
        }
        i += 1;
    }
}

#[cfg(symex)]
fn main() {}

#[cfg(not(symex))]
mod native {
    use super::*;
    use std::io::{BufRead, Write};
    fn esc(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o
    }
    thread_local! { static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
    pub fn list() {
        for (h, jobs) in PROPS {
            for (t, j) in jobs.iter().enumerate() {
                println!("{{\"h\":{},\"t\":{},\"name\":\"C{:02}.{}\",\"tier\":{},\"note\":\"{}\"}}", h, t, h, esc(j.name), j.tier, esc(j.note));
            }
        }
    }
    /// lines "h t hexbytes" on stdin; one JSON line each on stdout
    pub fn replay() {
        std::panic::set_hook(Box::new(|i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                String::new()
            };
            let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            MSG.with(|x| *x.borrow_mut() = m + &l);
        }));
        let show = std::env::args().any(|a| a == "--show");
        for (i, l) in std::io::stdin().lock().lines().enumerate() {
            let l = l.unwrap();
            let p: Vec<&str> = l.split(' ').collect();
            let (h, t) = (p[0].parse::<u64>().unwrap(), p[1].parse::<u64>().unwrap());
            let b: Vec<u8> = p.get(2).map_or(vec![], |s| (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect());
            let run = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                sym::N.with(|n| {
                    *n.borrow_mut() = Default::default();
                    n.borrow_mut().input = b;
                });
                let r = std::panic::catch_unwind(|| entry(h, t));
                let msg = MSG.with(|m| m.borrow().clone());
                sym::cleanup();
                sym::N.with(|n| {
                    let n = n.borrow();
                    let status = match (&r, n.failed, n.bad_input) {
                        (Ok(()), _, _) => "ok",
                        (Err(_), Some(_), _) => "assert",
                        (Err(_), None, true) => "badinput",
                        (Err(e), None, false) if e.is::<sym::AssumeFailed>() => "assume",
                        _ => "panic",
                    };
                    let m = n.failed.map_or(msg, |s| s.to_string());
                    let notes = if show { n.notes.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",") } else { String::new() };
                    format!(
                        "{{\"i\":{},\"status\":\"{}\",\"msg\":\"{}\",\"outs\":[{}],\"covers\":\"{:x}\",\"notes\":[{}]}}",
                        i,
                        status,
                        if status == "ok" { String::new() } else { esc(&m) },
                        n.outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                        n.covers,
                        notes
                    )
                })
            });
            println!("{}", run.unwrap().join().unwrap());
            std::io::stdout().flush().unwrap();
        }
    }
}

#[cfg(not(symex))]
fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("list") => native::list(),
        Some("replay") => native::replay(),
        _ => eprintln!("usage: harness list | harness replay [--show]"),
    }
}
