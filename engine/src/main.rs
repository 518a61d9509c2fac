mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> c_int;
    fn wait(s: *mut c_int) -> c_int;
    fn _exit(c: c_int) -> !;
    fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn getpid() -> c_int;
}

#[repr(C)]
struct Shared {
    next_job: AtomicU64,
    tokens: AtomicI64,
    started: AtomicU64,
    finished: AtomicU64,
    viols: AtomicU64,
    paths: AtomicU64,
    inc: AtomicU64,
}

pub struct Job {
    pub name: String,
    pub entry: String,
    pub args: Vec<u64>,
    pub seed: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

struct Opts {
    outdir: String,
    max_viol: u64,
    deadline: f64,
    max_paths: u64,
    verbose: bool,
}

fn main() {
    let mut ll = String::new();
    let mut jobs_file = String::new();
    let mut procs = 8i64;
    let mut o = Opts { outdir: ".".into(), max_viol: 3, deadline: 1e9, max_paths: u64::MAX, verbose: false };
    let mut rlimit = 0u32;
    let mut max_steps = 400_000_000u64;
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().unwrap();
        match k.as_str() {
            "--ll" => ll = v(),
            "--jobs" => jobs_file = v(),
            "--procs" => procs = v().parse().unwrap(),
            "--out" => o.outdir = v(),
            "--max-viol" => o.max_viol = v().parse().unwrap(),
            "--deadline" => o.deadline = v().parse().unwrap(),
            "--max-paths" => o.max_paths = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--rlimit" => rlimit = v().parse().unwrap(),
            "-v" => o.verbose = true,
            _ => panic!("unknown option {}", k),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let m = ir::Module::load(text);
    let load_t = t0.elapsed().as_secs_f64();
    let jobs: Vec<Job> = std::fs::read_to_string(&jobs_file)
        .expect("jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let p: Vec<&str> = l.split_whitespace().collect();
            Job { name: p[0].into(), entry: p[1].into(), args: p[3..].iter().map(|x| x.parse().unwrap()).collect(), seed: p[2].parse().unwrap() }
        })
        .collect();
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    let nw = procs.min(jobs.len() as i64).max(1);
    sh.tokens.store(procs - nw, SeqCst);
    let mut eng = Engine::new(m);
    eng.sv.rlimit = rlimit;
    eng.max_steps = max_steps;
    std::fs::create_dir_all(&o.outdir).unwrap();
    for _ in 0..nw {
        sh.started.fetch_add(1, SeqCst);
        let p = unsafe { fork() };
        if p == 0 {
            worker(&mut eng, &jobs, sh, &o, t0, true);
        }
        if p < 0 {
            eprintln!("fork failed");
            std::process::exit(3);
        }
    }
    let mut bad = false;
    loop {
        let mut s = 0;
        let p = unsafe { wait(&mut s) };
        if p < 0 {
            break;
        }
        if s != 0 {
            bad = true;
        }
    }
    let (st, fi) = (sh.started.load(SeqCst), sh.finished.load(SeqCst));
    println!(
        "{{\"load_s\":{:.2},\"wall_s\":{:.2},\"procs_started\":{},\"procs_finished\":{},\"paths\":{},\"violations\":{},\"incomplete\":{},\"crashed\":{}}}",
        load_t,
        t0.elapsed().as_secs_f64(),
        st,
        fi,
        sh.paths.load(SeqCst),
        sh.viols.load(SeqCst),
        sh.inc.load(SeqCst),
        bad || st != fi
    );
    std::process::exit(if bad || st != fi { 3 } else { 0 });
}

fn worker(eng: &mut Engine, jobs: &[Job], sh: &'static Shared, o: &Opts, t0: Instant, mut take_jobs: bool) -> ! {
    let mut children = 0;
    let mut out = BufWriter::new(File::create(format!("{}/res.{}.jsonl", o.outdir, unsafe { getpid() })).unwrap());
    let mut incomplete = 0u64;
    loop {
        let mut st = match eng.work.pop() {
            Some(s) => s,
            None => {
                if !take_jobs {
                    break;
                }
                let j = sh.next_job.fetch_add(1, SeqCst);
                if j as usize >= jobs.len() {
                    take_jobs = false;
                    continue;
                }
                let jb = &jobs[j as usize];
                eng.start(j as u32, &jb.entry, &jb.args, jb.seed)
            }
        };
        let jb = &jobs[st.job as usize];
        let late = t0.elapsed().as_secs_f64() > o.deadline;
        if late || sh.viols.load(SeqCst) >= o.max_viol || sh.paths.load(SeqCst) > o.max_paths {
            incomplete += 1;
            sh.inc.fetch_add(1, SeqCst);
            if incomplete < 50 {
                writeln!(out, "{{\"t\":\"inc\",\"job\":\"{}\",\"msg\":\"{}\"}}", jb.name, if late { "deadline" } else { "stopped" }).unwrap();
            }
            continue;
        }
        match eng.run(&mut st) {
            End::Done => {
                eng.st.paths += 1;
                sh.paths.fetch_add(1, SeqCst);
                let outs = eng.eval_outs(&st);
                writeln!(
                    out,
                    "{{\"t\":\"path\",\"job\":\"{}\",\"bytes\":\"{}\",\"outs\":[{}],\"covers\":\"{:x}\",\"steps\":{},\"asserts\":{},\"dom\":{}}}",
                    jb.name,
                    hex(&st.assign),
                    outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                    st.covers,
                    st.steps,
                    st.nasserts,
                    st.dom.iter().map(|d| expr::set_len(d) as f64).fold(0.0, |a, b| a + b.log2()).round()
                )
                .unwrap();
            }
            End::Pruned => eng.st.pruned += 1,
            End::Violation(v) => {
                sh.viols.fetch_add(1, SeqCst);
                writeln!(
                    out,
                    "{{\"t\":\"viol\",\"job\":\"{}\",\"kind\":\"{}\",\"msg\":\"{}\",\"bytes\":\"{}\",\"stack\":[{}]}}",
                    jb.name,
                    v.kind,
                    esc(&v.msg),
                    hex(&v.bytes),
                    v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
                )
                .unwrap();
            }
            End::Incomplete(m) => {
                sh.inc.fetch_add(1, SeqCst);
                writeln!(
                    out,
                    "{{\"t\":\"inc\",\"job\":\"{}\",\"msg\":\"{}\",\"bytes\":\"{}\",\"stack\":[{}]}}",
                    jb.name,
                    esc(&m),
                    hex(&st.assign),
                    eng.stack_names(&st).iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
                )
                .unwrap();
            }
        }
        drop(st);
        // hand half of the pending states to an idle core
        if eng.work.len() >= 2 {
            let t = sh.tokens.fetch_sub(1, SeqCst);
            if t <= 0 {
                sh.tokens.fetch_add(1, SeqCst);
            } else {
                out.flush().unwrap();
                sh.started.fetch_add(1, SeqCst);
                let p = unsafe { fork() };
                if p < 0 {
                    sh.started.fetch_sub(1, SeqCst);
                    sh.tokens.fetch_add(1, SeqCst);
                } else {
                    let w = std::mem::take(&mut eng.work);
                    let mine = if p == 0 { 0 } else { 1 };
                    eng.work = w.into_iter().enumerate().filter(|(i, _)| i % 2 == mine).map(|x| x.1).collect();
                    if p == 0 {
                        eng.sv.after_fork();
                        eng.st = Default::default();
                        std::mem::forget(out);
                        worker(eng, jobs, sh, o, t0, false);
                    }
                    children += 1;
                }
            }
        }
    }
    let s = &eng.st;
    let q = &eng.sv.stats;
    writeln!(
        out,
        "{{\"t\":\"stats\",\"steps\":{},\"forks\":{},\"paths\":{},\"pruned\":{},\"branches\":{},\"sym_loads\":{},\"asserts\":{},\"asserts_symbolic\":{},\"concretized\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_ms\":{},\"max_ms\":{},\"assert_queries\":{},\"exprs\":{},\"used\":[{}]}}",
        s.steps,
        s.forks,
        s.paths,
        s.pruned,
        s.branches,
        s.sym_loads,
        s.asserts,
        s.asserts_symbolic,
        s.concretized,
        q.queries,
        q.sat,
        q.unsat,
        q.unknown,
        q.cache_hits,
        q.solver_ns / 1_000_000,
        q.max_ns / 1_000_000,
        q.assert_queries,
        eng.x.nodes.len(),
        eng.used.iter().enumerate().filter(|x| *x.1).map(|(i, _)| format!("\"{}\"", eng.m.funcs[i].name)).collect::<Vec<_>>().join(",")
    )
    .unwrap();
    out.flush().unwrap();
    // release the core before waiting for children
    sh.tokens.fetch_add(1, SeqCst);
    let mut ok = true;
    for _ in 0..children {
        let mut st = 0;
        let p = unsafe { wait(&mut st) };
        if p < 0 || st != 0 {
            ok = false;
        }
    }
    sh.finished.fetch_add(1, SeqCst);
    unsafe { _exit(if ok { 0 } else { 1 }) }
}
