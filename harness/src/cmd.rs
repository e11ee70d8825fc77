//! Command-line solvers (spec/CmdSolver.tla): schedules played with stand-in programs. C16, C17.
use crate::run::{catch, hash_str, Ctx, Rng};
use numopt::matrix::coo::CooMat;
use numopt::problem::base::{Problem, ProblemSol};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::{ProblemMilp, ProblemMilpIO};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::{SolverCbcCmd, SolverClpCmd};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver};
use std::sync::Arc;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ the stand-in program

/// What an honest solver writes for a problem: values derived from its text, so that they
/// tell which problem was solved.
pub fn answer(lp: &str, cbc: bool, style: u64) -> (String, BTreeMap<usize, (f64, f64)>, BTreeMap<usize, f64>) {
    let h = hash_str(lp);
    let mut xs = BTreeMap::new();
    let mut cs = BTreeMap::new();
    for t in lp.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
        if let Some(i) = t.strip_prefix("x_").and_then(|i| i.parse::<usize>().ok()) {
            let r = hash_str(&format!("{} {}", h, i));
            xs.insert(i, ((r % 4001) as f64 / 8. - 250., (r / 4001 % 33) as f64 - 16.));
        }
        if let Some(i) = t.strip_prefix("c_").and_then(|i| i.parse::<usize>().ok()) {
            cs.insert(i, (hash_str(&format!("{} c {}", h, i)) % 65) as f64 - 32.);
        }
    }
    let mut s = if cbc || style % 2 == 0 { format!("Optimal - objective value {:.8}\n", 1.5) } else { "optimal\nObjective value 1.5\n".to_string() };
    for (i, m) in cs.iter() { s += &format!("{:7} c_{:<20} {:>15} {:>22}\n", i, i, 1.0, m); }
    for (i, (x, m)) in xs.iter() { s += &format!("{}{:7} x_{:<20} {:>15} {:>22}\n", if (style >> 3) % 4 == *i as u64 % 4 { "** " } else { "" }, i, i, x, m); }
    (s, xs, cs)
}

/// The parts of a solver's command line that matter.
#[derive(Debug, Clone, Default)]
pub struct Args { pub lp: String, pub log: Option<String>, pub sol: Option<String>, pub solves: bool, pub all: bool, pub order: bool }
pub fn parse_args(a: &[String]) -> Args {
    let mut r = Args::default();
    let mut i = 0;
    r.order = true;
    while i < a.len() {
        let k = a[i].to_lowercase();
        let k = k.trim_start_matches('-');
        let next = a.get(i + 1).cloned();
        if k == "import" { r.lp = next.unwrap_or_default(); i += 2; }
        else if k.starts_with("log") && next.as_ref().map_or(false, |n| n.parse::<i64>().is_ok()) { r.order &= !r.solves; r.log = next; i += 2; }
        else if k.starts_with("printi") { r.all = next.as_ref().map_or(false, |n| n.starts_with("all")); i += 2; }
        else if k.starts_with("solu") { r.order &= r.solves; r.sol = next; i += 2; }
        else if k.starts_with("solv") || k.starts_with("initials") || k.starts_with("branch") || k.starts_with("primals") || k.starts_with("duals") { r.order &= !r.lp.is_empty(); r.solves = true; i += 1; }
        else { if r.lp.is_empty() && i == 0 { r.lp = a[i].clone(); } i += 1; }
    }
    r
}

/// The body of the stand-in program (this executable under the name cbc or clp).
pub fn program(name: &str) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if let Ok(f) = std::env::var("FAKE_LOG") { // tells that it ran
        let mut o = std::fs::OpenOptions::new().append(true).create(true).open(f).unwrap();
        writeln!(o, "{} {}", name, args.join(" ")).ok();
    }
    if let Ok(d) = std::env::var("FAKE_AUTO") { // works on its own
        let a = parse_args(&args);
        let ms = hash_str(&args.join(" ")) % d.parse::<u64>().unwrap_or(3).max(1);
        std::thread::sleep(Duration::from_millis(ms));
        let text = match std::fs::read_to_string(&a.lp) { Ok(t) => t, Err(_) => return 0 };
        std::thread::sleep(Duration::from_millis(ms));
        if let Some(s) = a.sol { std::fs::write(s, answer(&text, name == "cbc", 0).0).ok(); }
        return 0;
    }
    let sock = match std::env::var("FAKE_SOCK").ok().and_then(|s| UnixStream::connect(s).ok()) { Some(s) => s, None => return 9 };
    let mut w = sock.try_clone().unwrap();
    writeln!(w, "{}", json!({"name": name, "args": args, "pid": std::process::id()})).ok();
    let mut r = BufReader::new(sock);
    let mut line = String::new();
    loop {
        line.clear();
        if r.read_line(&mut line).unwrap_or(0) == 0 { return 9; }
        let c: Value = match serde_json::from_str(&line) { Ok(c) => c, Err(_) => return 9 };
        let path = c["path"].as_str().unwrap_or("").to_string();
        let reply = match c["op"].as_str().unwrap_or("") {
            "read" => match std::fs::read(&path) { Ok(t) => json!({"ok": true, "text": String::from_utf8_lossy(&t)}), Err(_) => json!({"ok": false}) },
            "put" => json!({"ok": std::fs::write(&path, c["text"].as_str().unwrap()).is_ok()}),
            "del" => json!({"ok": std::fs::remove_file(&path).is_ok()}),
            "chat" => { // more than a pipe holds, on both streams
                let l = format!("{:70}\n", "a solver tells what it does");
                for _ in 0..1200 { print!("{}", l); }
                std::io::stdout().flush().ok();
                for _ in 0..1200 { eprint!("{}", l); }
                json!({"ok": true})
            }
            "exit" => return c["code"].as_i64().unwrap() as i32,
            _ => unsafe {
                let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &none);
                libc::kill(libc::getpid(), c["signal"].as_i64().unwrap_or(9) as i32);
                libc::kill(libc::getpid(), libc::SIGKILL);
                return 9
            },
        };
        if writeln!(w, "{}", reply).is_err() { return 9; }
    }
}

struct Prog { r: BufReader<UnixStream>, w: UnixStream, name: String, args: Args, raw: Vec<String>, text: Option<String> }
impl Prog {
    fn ask(&mut self, v: Value) -> Value {
        if writeln!(self.w, "{}", v).is_err() { return json!({"ok": false}); }
        let mut l = String::new();
        if self.r.read_line(&mut l).unwrap_or(0) == 0 { return json!({"ok": false}); }
        serde_json::from_str(&l).unwrap_or(json!({"ok": false}))
    }
    fn tell(&mut self, v: Value) { writeln!(self.w, "{}", v).ok(); }
}

// ------------------------------------------------------------------ the solves

enum Any { Cbc(SolverCbcCmd), Clp(SolverClpCmd) }
impl Any {
    fn new(kind: &str) -> Any { if kind == "cbc" { Any::Cbc(SolverCbcCmd::new()) } else { Any::Clp(SolverClpCmd::new()) } }
    fn get(&self) -> &dyn Solver { match self { Any::Cbc(s) => s, Any::Clp(s) => s } }
    fn get_mut(&mut self) -> &mut dyn Solver { match self { Any::Cbc(s) => s, Any::Clp(s) => s } }
}

/// Problem number `tag` and its LP text; class by solver and style.
fn problem(tag: usize, kind: &str, style: u64) -> Problem {
    let (nx, na) = (2 + (tag + style as usize) % 3 + if style % 97 == 0 { [300, 3000][style as usize / 97 % 2] } else if style % 7 == 0 { 9 } else { 0 }, tag % 3);
    let c: Vec<f64> = (0..nx).map(|j| (10 * tag + j + 1) as f64).collect();
    let (mut r, mut k, mut v) = (vec![], vec![], vec![]);
    for i in 0..na { for j in 0..nx { r.push(i); k.push(j); v.push((i + 2 * j) as f64 + 0.5); } }
    let a = CooMat::new((na, nx), r, k, v);
    let b: Vec<f64> = (0..na).map(|i| (tag + i) as f64).collect();
    let (l, u) = (vec![-(tag as f64); nx], vec![1e8; nx]);
    if kind == "clp" || style % 2 == 0 { Problem::Lp(ProblemLp::new(c, a, b, l, u, None)) }
    else { Problem::Milp(ProblemMilp::new(c, a, b, l, u, (0..nx).map(|j| j % 2 == 0).collect(), None)) }
}
fn milp(p: &mut Problem) -> &mut ProblemMilp { match p { Problem::Lp(x) => x.as_mut_milp(), Problem::Milp(x) => x, _ => panic!("harness") } }

type Outcome = Result<Result<(SolverStatus, ProblemSol), String>, String>;
fn solve(s: &dyn Solver, mut p: Problem) -> Outcome { catch(|| s.solve(&mut p).map_err(|e| e.to_string())) }

/// Does the outcome report the answer to the problem with this text?
fn answers(o: &(SolverStatus, ProblemSol), text: &str, nx: usize, na: usize) -> Result<(), String> {
    let (_, xs, cs) = answer(text, true, 0);
    let s = &o.1;
    if s.x.len() != nx || s.pi.len() != nx || s.mu.len() != nx || s.lam.len() != na { return Err("a solution of the wrong size".to_string()); }
    for i in 0..nx {
        let (x, m) = xs[&i];
        if s.x[i] != x || s.pi[i] != m.max(0.) || s.mu[i] != (-m).max(0.) { return Err(format!("x[{}] = {}, multipliers {} and {}, where the program's solution has {} and {}", i, s.x[i], s.pi[i], s.mu[i], x, m)); }
    }
    for i in 0..na { if s.lam[i] != cs[&i] { return Err(format!("multiplier {} of row {} where the program's solution has {}", s.lam[i], i, cs[&i])); } }
    Ok(())
}

fn show(o: &Outcome) -> String { match o { Err(e) => format!("panic: {}", e), Ok(Err(e)) => format!("failed call: {}", e), Ok(Ok((s, _))) => format!("{}", s) } }

static CASES: AtomicUsize = AtomicUsize::new(0);
static STUCK: AtomicUsize = AtomicUsize::new(0);
const WAIT: Duration = Duration::from_secs(20);

pub struct Scratch { pub base: PathBuf, pub cwd: PathBuf, pub tmp: PathBuf, home: PathBuf }
impl Scratch {
    pub fn new() -> Scratch {
        let home = std::env::current_dir().unwrap();
        let base = home.join(format!("w{}_{}", std::process::id(), CASES.fetch_add(1, Ordering::SeqCst)));
        let s = Scratch { cwd: base.join("cwd"), tmp: base.join("tmp"), base, home };
        for d in [&s.cwd, &s.tmp, &s.base.join("bin"), &s.base.join("none"), &s.base.join("bad")] { std::fs::create_dir_all(d).unwrap(); }
        let me = std::env::current_exe().unwrap();
        for k in ["cbc", "clp"] {
            std::os::unix::fs::symlink(&me, s.base.join("bin").join(k)).unwrap();
            std::fs::write(s.base.join("bad").join(k), "#!/bin/sh\nexit 0\n").unwrap(); // not executable
        }
        std::env::set_var("TMPDIR", &s.tmp);
        std::env::set_var("PATH", s.base.join("bin"));
        std::env::set_current_dir(&s.cwd).unwrap();
        s
    }
    fn path(&self, d: &str) { std::env::set_var("PATH", self.base.join(d)); }
    pub fn leftovers(&self) -> Vec<String> {
        let mut v = Vec::new();
        for d in [&self.cwd, &self.tmp] { if let Ok(r) = std::fs::read_dir(d) { for f in r.flatten() { v.push(f.file_name().to_string_lossy().to_string()); } } }
        v
    }
}
impl Drop for Scratch { fn drop(&mut self) { std::env::set_current_dir(&self.home).ok(); std::fs::remove_dir_all(&self.base).ok(); } }

fn limit_files(on: bool) {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut r);
        r.rlim_cur = if on { 30 } else { r.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &r);
    }
}

struct Run { rx: Receiver<Outcome>, out: Option<Outcome>, prog: Option<Prog>, text: String, nx: usize, na: usize, log: i32 }

pub fn check(ctx: &mut Ctx, case: &Value) {
    if STUCK.load(Ordering::SeqCst) > 1 { return; } // each takes its time: two are enough
    ctx.evaluations += 1;
    if case.get("stress").is_some() { return stress(ctx, case); }
    let kinds: Vec<String> = case["k"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
    let faults: Vec<String> = case["f"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
    let n = kinds.len();
    let seed = hash_str(&case.to_string()) ^ std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let mut rng = Rng(seed);
    let sc = Scratch::new();
    let sock = sc.base.join("s");
    let listener = UnixListener::bind(&sock).unwrap();
    listener.set_nonblocking(true).unwrap();
    std::env::set_var("FAKE_SOCK", &sock);
    std::env::remove_var("FAKE_AUTO");
    // one solver object of each kind for all solves, or one for each
    let shared = rng.below(3) > 0;
    let mut solvers: Vec<Any> = kinds.iter().map(|k| Any::new(k)).collect();
    let mut obj: Vec<usize> = (0..n).collect();
    if shared { for i in 0..n { obj[i] = (0..n).find(|j| kinds[*j] == kinds[i]).unwrap(); } }
    let mut logs = vec![0; n];
    for i in 0..n { logs[i] = if rng.below(4) == 0 { -1 } else { rng.below(6) as i32 };
        if obj[i] == i && logs[i] >= 0 { solvers[i].get_mut().set_param("logLevel", SolverParam::IntParam(logs[i])).unwrap(); } }
    for i in 0..n { logs[i] = logs[obj[i]]; if let Some(SolverParam::IntParam(x)) = solvers[obj[i]].get().get_param("logLevel") { logs[i] = *x; } }
    let solvers: Vec<Arc<std::sync::RwLock<Any>>> = solvers.into_iter().map(|s| Arc::new(std::sync::RwLock::new(s))).collect();
    let mut runs: Vec<Option<Run>> = (0..n).map(|_| None).collect();
    let fail = |ctx: &mut Ctx, i: usize, what: String| ctx.fail(format!("solve {} ({}, {}): {}", i + 1, kinds[i], faults[i], what));

    for ev in case["ev"].as_array().unwrap() {
        let (what, i) = (ev[0].as_str().unwrap(), ev[1].as_i64().unwrap() as usize - 1);
        let f = faults[i].as_str();
        match what {
            "start" => {
                let style = rng.next() >> 8;
                let mut p = problem(i + 1, &kinds[i], style);
                let own = sc.base.join(format!("own{}", i));
                milp(&mut p).write_to_lp_file(own.to_str().unwrap()).expect("own text");
                let text = std::fs::read_to_string(&own).unwrap();
                let (nx, na) = (milp(&mut p).nx(), milp(&mut p).na());
                match f { "missing" => sc.path("none"), "notexec" => sc.path("bad"), "nodir" => { std::fs::remove_dir_all(&sc.cwd).unwrap(); }
                    "notmp" => std::env::set_var("TMPDIR", sc.base.join("nowhere")), "full" => limit_files(true),
                    "noparam" => { solvers[obj[i]].write().unwrap().get_mut().get_params_mut().remove("logLevel"); } _ => {} }
                let (tx, rx) = channel();
                let s = solvers[obj[i]].clone();
                // the problem is not Send (it holds a closure), but it moves into the thread whole
                struct Whole(Problem);
                unsafe impl Send for Whole {}
                let w = Whole(p);
                std::thread::spawn(move || { let w = w; let s = s.read().unwrap(); tx.send(solve(s.get(), w.0)).ok(); });
                let mut r = Run { rx, out: None, prog: None, text, nx, na, log: logs[i] };
                let t = Instant::now();
                loop {
                    if let Ok((c, _)) = listener.accept() {
                        c.set_nonblocking(false).unwrap();
                        c.set_read_timeout(Some(WAIT)).unwrap();
                        let w = c.try_clone().unwrap();
                        let mut rd = BufReader::new(c);
                        let mut l = String::new();
                        rd.read_line(&mut l).ok();
                        let v: Value = serde_json::from_str(&l).unwrap_or(json!({}));
                        let raw: Vec<String> = v["args"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
                        r.prog = Some(Prog { r: rd, w, name: v["name"].as_str().unwrap_or("").to_string(), args: parse_args(&raw), raw, text: None });
                        break;
                    }
                    if let Ok(o) = r.rx.try_recv() { r.out = Some(o); break; }
                    if t.elapsed() > WAIT { STUCK.fetch_add(1, Ordering::SeqCst); fail(ctx, i, "neither starts the program nor returns".to_string()); return; }
                    std::thread::sleep(Duration::from_micros(200));
                }
                // the system is well again for others, except in the solve itself
                limit_files(false);
                sc.path("bin");
                std::env::set_var("TMPDIR", &sc.tmp);
                if f == "noparam" && r.out.is_some() { solvers[obj[i]].write().unwrap().get_mut().get_params_mut().insert("logLevel".to_string(), SolverParam::IntParam(r.log)); }
                let expected = !["missing", "notexec", "nodir", "notmp", "full", "noparam"].contains(&f);
                if expected && r.prog.is_none() { fail(ctx, i, format!("returns without running the program: {}", show(r.out.as_ref().unwrap()))); return; }
                if let Some(p) = r.prog.as_ref() {
                    ctx.count("programs_started");
                    let a = &p.args;
                    let bad = if p.name != kinds[i] { "is another program" } else if !a.solves || !a.order { "does not solve the problem and then write its solution" }
                        else if a.sol.is_none() || !a.all { "is not asked for the whole solution" } else if f != "noparam" && a.log != Some(r.log.to_string()) { "does not have the configured log level" } else { "" };
                    if bad != "" { fail(ctx, i, format!("the program {} {} {}", p.name, p.raw.join(" "), bad)); return; }
                }
                // a program that runs although the system failed: it must get the whole problem
                if !expected && r.prog.is_some() {
                    ctx.count("ran_anyway");
                    let text = r.text.clone();
                    let p = r.prog.as_mut().unwrap();
                    let got = p.ask(json!({"op": "read", "path": p.args.lp}));
                    if got["text"].as_str() != Some(&text) { p.tell(json!({"op": "exit", "code": 1})); fail(ctx, i, "the program is started without the problem".to_string()); return; }
                    let (s, _, _) = answer(&text, kinds[i] == "cbc", rng.next());
                    p.ask(json!({"op": "put", "path": p.args.sol, "text": s}));
                    p.tell(json!({"op": "exit", "code": 0}));
                    match r.rx.recv_timeout(WAIT) { Ok(o) => r.out = Some(o), Err(_) => { STUCK.fetch_add(1, Ordering::SeqCst); fail(ctx, i, "does not return".to_string()); return; } }
                }
                if f == "nodir" { std::fs::create_dir_all(&sc.cwd).unwrap(); std::env::set_current_dir(&sc.cwd).unwrap(); }
                if r.out.is_some() { if !judge(ctx, case, i, &r, !expected, &fail) { return; } }
                runs[i] = Some(r);
            }
            "read" => {
                let r = runs[i].as_mut().unwrap();
                let own = r.text.clone();
                let p = r.prog.as_mut().unwrap();
                if f == "noread" { continue; }
                let got = p.ask(json!({"op": "read", "path": p.args.lp}));
                if got["ok"] != true { fail(ctx, i, format!("the program cannot read its problem file {}", p.args.lp)); return; }
                let t = got["text"].as_str().unwrap().to_string();
                if t != own { fail(ctx, i, "the program is given a problem that is not this solve's".to_string()); return; }
                p.text = Some(t);
            }
            "write" => {
                let cbc = kinds[i] == "cbc";
                let r = runs[i].as_mut().unwrap();
                let p = r.prog.as_mut().unwrap();
                if f == "none" || f == "noread" { continue; }
                if f == "dirgone" { std::fs::remove_dir_all(&sc.cwd).unwrap(); }
                if f == "lpgone" { p.ask(json!({"op": "del", "path": p.args.lp})); }
                let (s, _, _) = answer(p.text.as_ref().unwrap(), cbc, rng.next());
                let lines: Vec<&str> = s.lines().collect();
                let t = match f {
                    "infeasible" => (match (cbc, rng.below(2)) { (true, 0) => "Infeasible - objective value 0.00000000\n".to_string(), (true, _) => "Integer infeasible - objective value 0.00000000\n".to_string(),
                        (false, 0) => "Infeasible - objective value 0\n".to_string(), (false, _) => "infeasible\nObjective value 0\n".to_string() }) + &lines[lines.len() - r.nx..].join("\n") + "\n",
                    "unbounded" => s.replacen(if s.starts_with("optimal") { "optimal" } else { "Optimal" }, "Unbounded", 1),
                    "empty" => String::new(),
                    "cut" => lines[..lines.len() - 1].join("\n") + "\n",
                    "half" => { let l = lines[lines.len() - 1]; let cut = l.rfind(|c: char| c == ' ').unwrap(); s[..s.len() - (l.len() - cut) - 1].trim_end().to_string() }
                    "garbage" => "Optimal - objective value 1\n#!@ nothing here\n\u{1}\n".to_string(),
                    "extra" => s.clone() + &format!("{:7} x_{} 1 0\n", 99, r.nx + 5),
                    _ => s.clone(),
                };
                if f == "chatty" && p.ask(json!({"op": "chat"}))["ok"] != true { STUCK.fetch_add(1, Ordering::SeqCst); fail(ctx, i, "the program cannot print what it does".to_string()); return; }
                p.ask(json!({"op": "put", "path": p.args.sol, "text": t}));
            }
            "exit" => {
                let r = runs[i].as_mut().unwrap();
                let p = r.prog.as_mut().unwrap();
                // any exit code but 0, and any signal that ends a program
                let code = if rng.below(2) == 0 { [1, 2, 126, 127, 128, 129, 130, 134, 137, 139, 143, 255][rng.below(12) as usize] } else { 1 + rng.below(255) };
                let signal = [libc::SIGKILL, libc::SIGTERM, libc::SIGSEGV, libc::SIGABRT, libc::SIGINT, libc::SIGHUP, libc::SIGXCPU, libc::SIGPIPE, libc::SIGBUS, libc::SIGFPE][rng.below(10) as usize];
                p.tell(match f { "exit" => json!({"op": "exit", "code": code}), "kill" => json!({"op": "kill", "signal": signal}), _ => json!({"op": "exit", "code": 0}) });
                match r.rx.recv_timeout(WAIT) { Ok(o) => r.out = Some(o), Err(_) => { STUCK.fetch_add(1, Ordering::SeqCst); fail(ctx, i, "does not return after its program ended".to_string()); return; } }
                if f == "dirgone" { std::fs::create_dir_all(&sc.cwd).unwrap(); std::env::set_current_dir(&sc.cwd).unwrap(); }
                let r = runs[i].take().unwrap();
                if !judge(ctx, case, i, &r, false, &fail) { return; }
                runs[i] = Some(r);
            }
            x => panic!("harness: event {}", x),
        }
    }
    let left = sc.leftovers();
    if !left.is_empty() { ctx.fail(format!("files remain after all solves returned: {:?}", left)); return; }
    if faults.iter().any(|f| f != "ok") || n > 1 { ctx.nontrivial += 1; }
}

fn judge(ctx: &mut Ctx, case: &Value, i: usize, r: &Run, any: bool, fail: &dyn Fn(&mut Ctx, usize, String)) -> bool {
    let want = case["r"][i].as_str().unwrap();
    let o = r.out.as_ref().unwrap();
    ctx.count(&format!("expected_{}", want));
    let got = match o { Err(_) => "panic", Ok(Err(_)) => "error", Ok(Ok((SolverStatus::Error, _))) => "error", Ok(Ok((SolverStatus::Solved, _))) => "solved", Ok(Ok((SolverStatus::Infeasible, _))) => "infeasible", Ok(Ok((SolverStatus::Unknown, _))) => "error" };
    // a solve that worked although the system failed it may say so
    if got != want && !(any && got == "solved" && r.prog.is_some()) { fail(ctx, i, format!("reports {:?} where {} is the truth", show(o), want)); return false; }
    if got == "solved" {
        if let Err(e) = answers(o.as_ref().unwrap().as_ref().unwrap(), &r.text, r.nx, r.na) { fail(ctx, i, format!("reports {}", e)); return false; }
    }
    true
}

/// Free-running solves in one directory from several threads (and processes); the program works on its own.
fn stress(ctx: &mut Ctx, case: &Value) {
    let sc = Scratch::new();
    std::env::set_var("FAKE_AUTO", case["stress"].to_string());
    let num = |k: &str, d: i64| case[k].as_i64().unwrap_or(d) as usize;
    let (threads, reps, procs) = (num("threads", 2), num("reps", 1), num("procs", 0));
    let mut bad: Vec<String> = Vec::new();
    if procs == 0 { bad = solves(&sc.base, 1, threads, reps); }
    else {
        let me = std::env::current_exe().unwrap();
        let kids: Vec<_> = (0..procs).map(|k| std::process::Command::new(&me).arg("child").arg(&sc.base).arg((1 + k * threads * reps).to_string())
            .arg(threads.to_string()).arg(reps.to_string()).stdout(std::process::Stdio::piped()).spawn().expect("child")).collect();
        for k in kids {
            let o = k.wait_with_output().expect("child");
            bad.extend(String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.strip_prefix("bad: ").map(|l| l.to_string())));
            if !o.status.success() { bad.push(format!("a process with concurrent solves ended with {}", o.status)); }
        }
    }
    std::env::remove_var("FAKE_AUTO");
    *ctx.counters.entry("concurrent_solves".to_string()).or_insert(0) += (threads * reps * procs.max(1)) as u64;
    for b in bad { ctx.fail(format!("concurrent solves disturb each other: {}", b)); return; }
    let left = sc.leftovers();
    if !left.is_empty() { ctx.fail(format!("files remain after all solves returned: {:?}", left)); return; }
    ctx.nontrivial += 1;
}

/// A process with solves of its own (drv child <base> <tag> <threads> <reps>).
pub fn child(a: &[String]) {
    for b in solves(std::path::Path::new(&a[0]), a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap()) { println!("bad: {}", b.replace('\n', " ")); }
}

fn solves(base: &std::path::Path, tag: usize, threads: usize, reps: usize) -> Vec<String> {
    let cbc = Arc::new(Any::new("cbc"));
    let clp = Arc::new(Any::new("clp"));
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|t| { let (cbc, clp, base) = (cbc.clone(), clp.clone(), base.to_path_buf()); s.spawn(move || {
            let own = base.join(format!("own{}_{}", tag, t));
            for k in 0..reps {
                let kind = if (t + k) % 2 == 0 { "cbc" } else { "clp" };
                let mut p = problem(tag + t * reps + k, kind, (t * 7 + k) as u64);
                milp(&mut p).write_to_lp_file(own.to_str().unwrap()).expect("own text");
                let text = std::fs::read_to_string(&own).unwrap();
                let (nx, na) = (milp(&mut p).nx(), milp(&mut p).na());
                let fresh = Any::new(kind);
                let s = if k % 3 == 0 { &fresh } else if kind == "cbc" { &*cbc } else { &*clp };
                let o = solve(s.get(), p);
                match &o {
                    Ok(Ok(r)) if r.0 == SolverStatus::Solved => if let Err(e) = answers(r, &text, nx, na) { return Some(format!("thread {} solve {} ({}): {}", t, k, kind, e)); },
                    _ => return Some(format!("thread {} solve {} ({}): {}", t, k, kind, show(&o))),
                }
            }
            None
        }) }).collect();
        hs.into_iter().filter_map(|h| h.join().unwrap()).collect()
    })
}
