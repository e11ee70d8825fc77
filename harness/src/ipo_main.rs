//! ipo <cb|use> <property> <case file>: SolverIpopt with a stand-in for the Ipopt library, which this
//! executable defines itself (spec/IpoptCb.tla, spec/IpoptUse.tla). C18, C19, C20.
use harness::run::{catch, hash_str, quiet_panics, run_cases, summary, Ctx, Rng};
use libc::{c_char, c_double, c_int, c_void};
use numopt::matrix::coo::CooMat;
use numopt::problem::base::{Problem, ProblemSol};
use harness::cmd::{parse_args, Scratch};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::{SolverCbcCmd, SolverClpCmd, SolverIpopt};
use std::collections::BTreeMap;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::ffi::CStr;
use std::ptr::null_mut;

// ------------------------------------------------------------------ the stand-in library

type EvalF = extern "C" fn(c_int, *const c_double, c_int, *mut c_double, *mut c_void) -> c_int;
type EvalG = extern "C" fn(c_int, *const c_double, c_int, c_int, *mut c_double, *mut c_void) -> c_int;
type EvalJ = extern "C" fn(c_int, *const c_double, c_int, c_int, c_int, *mut c_int, *mut c_int, *mut c_double, *mut c_void) -> c_int;
type EvalH = extern "C" fn(c_int, *const c_double, c_int, c_double, c_int, *const c_double, c_int, c_int, *mut c_int, *mut c_int, *mut c_double, *mut c_void) -> c_int;

#[derive(Clone)]
struct Handle { n: i32, m: i32, nnzj: i32, nnzh: i32, style: i32, l: Vec<f64>, u: Vec<f64>, gl: Vec<f64>, gu: Vec<f64>, f: EvalF, g: EvalG, gf: EvalF, j: EvalJ, h: EvalH, user: *mut c_void }

#[derive(Default)]
struct Lib { handles: Vec<(usize, Handle)>, events: Vec<Value>, script: Value, start: Vec<f64>, wrong: Option<String>, case: Value, open: Vec<Handle>, failure: Option<String>, calls: u64 }
thread_local! { static LIB: RefCell<Lib> = RefCell::new(Lib::default()); }

fn vec_of(p: *const c_double, n: c_int) -> Vec<f64> { if p.is_null() || n <= 0 { vec![] } else { unsafe { std::slice::from_raw_parts(p, n as usize).to_vec() } } }
fn text(p: *const c_char) -> String { unsafe { CStr::from_ptr(p).to_string_lossy().to_string() } }
/// A number of a case (spec/IpoptUse.tla names some that are no small integers).
fn num(v: &Value) -> f64 {
    let x = v.as_f64().unwrap();
    match x.abs() as i64 { 777001 => f64::NAN, 777002 => x.signum() * f64::INFINITY, 777003 => x.signum() * 1e300, 777004 => x.signum() * 1e-9, 777005 => x.signum() * 5e-324, 777006 => x.signum() * 1e-20, 777007 => x.signum() * 100000001., 777008 => x.signum() * 1e12, 777009 => x.signum() * 1e15,
        777010 => x.signum() * 1e18, 777011 => x.signum() * 1e19, 777012 => x.signum() * 2e19, _ => x }
}
fn nums(v: &Value) -> Vec<f64> { v.as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default() }
fn alike(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || x.is_nan() && y.is_nan()) }

#[no_mangle]
pub extern "C" fn CreateIpoptProblem(n: c_int, xl: *const c_double, xu: *const c_double, m: c_int, gl: *const c_double, gu: *const c_double, nnzj: c_int, nnzh: c_int, style: c_int,
                                     f: EvalF, g: EvalG, gf: EvalF, j: EvalJ, h: EvalH) -> *mut c_void {
    LIB.with(|l| {
        let mut l = l.borrow_mut();
        let made = l.script["create"] != false;
        l.events.push(json!(["create", made]));
        if !made { return null_mut(); }
        let id = Box::into_raw(Box::new(0u64)) as usize;
        l.handles.push((id, Handle { n, m, nnzj, nnzh, style, l: vec_of(xl, n), u: vec_of(xu, n), gl: vec_of(gl, m), gu: vec_of(gu, m), f, g, gf, j, h, user: null_mut() }));
        id as *mut c_void
    })
}
#[no_mangle]
pub extern "C" fn FreeIpoptProblem(p: *mut c_void) {
    LIB.with(|l| {
        let mut l = l.borrow_mut();
        l.events.push(json!(["free"]));
        if !l.handles.iter().any(|h| h.0 == p as usize) { l.wrong = Some("release of something that is no Ipopt problem".to_string()); }
    })
}
fn option(l: &mut Lib, kind: &str, key: String, v: Value) -> c_int {
    let ok = l.script["reject"] != key.as_str();
    l.events.push(json!([kind, key, v, ok]));
    ok as c_int
}
#[no_mangle]
pub extern "C" fn AddIpoptIntOption(_p: *mut c_void, k: *const c_char, v: c_int) -> c_int { LIB.with(|l| option(&mut l.borrow_mut(), "int", text(k), json!(v))) }
#[no_mangle]
pub extern "C" fn AddIpoptStrOption(_p: *mut c_void, k: *const c_char, v: *const c_char) -> c_int { LIB.with(|l| option(&mut l.borrow_mut(), "str", text(k), json!(text(v)))) }
#[no_mangle]
pub extern "C" fn AddIpoptNumOption(_p: *mut c_void, k: *const c_char, v: c_double) -> c_int { LIB.with(|l| option(&mut l.borrow_mut(), "str", text(k), json!(v.to_string()))) }
#[no_mangle]
pub extern "C" fn IpoptSolve(p: *mut c_void, x: *mut c_double, g: *mut c_double, obj: *mut c_double, mg: *mut c_double, ml: *mut c_double, mu: *mut c_double, user: *mut c_void) -> c_int {
    let (script, mut h) = LIB.with(|l| {
        let mut l = l.borrow_mut();
        l.events.push(json!(["solve"]));
        let h = l.handles.iter().rev().find(|h| h.0 == p as usize).map(|h| h.1.clone());
        (l.script.clone(), h)
    });
    if let Some(h) = h.as_mut() { h.user = user; }
    let h = match h { Some(h) => h, None => { LIB.with(|l| l.borrow_mut().wrong = Some("IpoptSolve of something that is no Ipopt problem".to_string())); return -199; } };
    if script["what"] == "cb" { callbacks(h); return 0; }
    LIB.with(|l| l.borrow_mut().start = vec_of(x, h.n));
    let put = |p: *mut c_double, v: Vec<f64>| { if !p.is_null() { for (i, y) in v.iter().enumerate() { unsafe { *p.add(i) = *y; } } } };
    put(x, nums(&script["x"]));
    put(mg, nums(&script["mg"]));
    put(ml, nums(&script["ml"]));
    put(mu, nums(&script["mu"]));
    put(g, vec![33.; h.m.max(0) as usize]);
    put(obj, vec![44.]);
    script["code"].as_i64().unwrap() as c_int
}

// ------------------------------------------------------------------ problems

type Poly = Vec<(f64, Vec<i32>)>;
fn poly(v: &Value) -> Poly { v.as_array().unwrap().iter().map(|t| (t[0].as_f64().unwrap(), nums(&t[1]).iter().map(|e| *e as i32).collect())).collect() }
fn val(p: &Poly, x: &[f64]) -> f64 { p.iter().map(|(c, e)| c * e.iter().zip(x).map(|(e, x)| x.powi(*e)).product::<f64>()).sum() }
fn diff(p: &Poly, i: usize) -> Poly { p.iter().filter(|t| t.1[i] > 0 && t.0 != 0.).map(|(c, e)| { let mut f = e.clone(); f[i] -= 1; (c * e[i] as f64, f) }).collect() }

/// Entries of a sparse matrix with values that are polynomials: some repeated, in any order.
fn entries(m: Vec<(usize, usize, Poly)>, nx: usize, rng: &mut Rng) -> Vec<(usize, usize, Poly)> {
    let mut r = Vec::new();
    for (i, j, p) in m {
        if p.is_empty() && rng.below(5) > 0 { continue; }
        if rng.below(5) == 0 { // the entry is the sum of two
            let q = (rng.below(9) as f64 - 4., vec![0; nx]);
            let mut p = p;
            p.push((-q.0, vec![0; nx]));
            r.push((i, j, vec![q]));
            r.push((i, j, p));
        }
        else { r.push((i, j, p)); }
    }
    for k in (1..r.len()).rev() { r.swap(k, rng.below(k as u64 + 1) as usize); }
    r
}
fn pattern(shape: (usize, usize), e: &[(usize, usize, Poly)]) -> CooMat<f64> { CooMat::from_pattern(shape, e.iter().map(|t| t.0).collect(), e.iter().map(|t| t.1).collect()) }
fn lower(p: &Poly, nx: usize) -> Vec<(usize, usize, Poly)> { (0..nx).flat_map(|i| (0..=i).map(move |j| (i, j))).map(|(i, j)| (i, j, diff(&diff(p, i), j))).collect() }

/// The problem may be embedded in a wider one: `cols` variables before its own, `lin` linear
/// rows before its own, `non` nonlinear rows (linear in its first variable) before its own.
#[derive(Clone, Copy)]
struct Pad { cols: usize, lin: usize, non: usize }
impl Pad {
    fn of(q: &Value) -> Pad { let n = |k: &str| q["pad"][k].as_u64().unwrap_or(0) as usize; Pad { cols: n("cols"), lin: n("lin"), non: n("non") } }
    fn x(&self, own: Vec<f64>) -> Vec<f64> { (0..self.cols).map(|j| (j % 5) as f64 - 2.).chain(own).collect() }
    fn entry(&self, i: usize) -> Option<(usize, f64)> { if self.cols == 0 { None } else { Some((i % self.cols, (i % 5 + 1) as f64)) } }
    fn b(&self, i: usize) -> f64 { (i % 4) as f64 }
    fn slope(&self, k: usize) -> f64 { (k % 7 + 1) as f64 }
    fn lam(&self, na: usize, own: Vec<f64>) -> Vec<f64> {
        let at = na.min(own.len());
        (0..self.lin).map(|i| (i % 3) as f64 - 1.).chain(own[..at].iter().cloned()).chain((0..self.non).map(|k| (k % 4) as f64 - 1.)).chain(own[at..].iter().cloned()).collect()
    }
    fn g(&self, na: usize, x: &[f64], own: Vec<f64>) -> Vec<f64> {
        (0..self.lin).map(|i| self.entry(i).map(|(j, v)| v * x[j]).unwrap_or(0.) - self.b(i)).chain(own[..na].iter().cloned()).chain((0..self.non).map(|k| self.slope(k) * x[self.cols])).chain(own[na..].iter().cloned()).collect()
    }
    fn row(&self, na: usize, i: usize) -> usize { if i < na { self.lin + i } else { self.lin + self.non + i } }
}

fn build(q: &Value, rng: &mut Rng) -> Problem {
    let pad = Pad::of(q);
    let own = q["nx"].as_u64().unwrap() as usize;
    let nx = pad.cols + own;
    let ob = nums(&q["b"]);
    let (phi, fs): (Poly, Vec<Poly>) = (poly(&q["phi"]), q["fs"].as_array().unwrap().iter().map(poly).collect());
    let (mut r, mut c, mut d) = (vec![], vec![], vec![]);
    for e in q["a"].as_array().unwrap() { r.push(e[0].as_u64().unwrap() as usize - 1 + pad.lin); c.push(e[1].as_u64().unwrap() as usize - 1 + pad.cols); d.push(e[2].as_f64().unwrap()); }
    for i in 0..pad.lin { if let Some((j, v)) = pad.entry(i) { r.push(i); c.push(j); d.push(v); } }
    let b: Vec<f64> = (0..pad.lin).map(|i| pad.b(i)).chain(ob).collect();
    let a = CooMat::new((b.len(), nx), r, c, d);
    let (l, u) = (vec![-1e8; nx], vec![1e8; nx]);
    if fs.is_empty() && pad.non == 0 && phi.iter().all(|t| t.1.iter().sum::<i32>() == 1) && rng.below(2) == 0 {
        let cost = (0..nx).map(|i| if i < pad.cols { 0. } else { val(&diff(&phi, i - pad.cols), &vec![0.; own]) }).collect();
        return Problem::Lp(ProblemLp::new(cost, a, b, l, u, None));
    }
    let gp: Vec<Poly> = (0..own).map(|i| diff(&phi, i)).collect();
    let hp = entries(lower(&phi, own), own, rng);
    let mut je = Vec::new();
    for (k, f) in fs.iter().enumerate() { for i in 0..own { je.push((k, i, diff(f, i))); } }
    let mut je: Vec<_> = entries(je, own, rng).into_iter().map(|(k, i, p)| (k + pad.non, i, p)).collect();
    for k in 0..pad.non { je.push((k, 0, vec![(pad.slope(k), vec![0; own])])); }
    let he: Vec<_> = fs.iter().map(|f| entries(lower(f, own), own, rng)).collect();
    let at = |r: usize, c: usize, e: &[(usize, usize, Poly)]| e.iter().map(|t| (t.0 + r, t.1 + c, t.2.clone())).collect::<Vec<_>>();
    let (hphi, jac) = (pattern((nx, nx), &at(pad.cols, pad.cols, &hp)), pattern((pad.non + fs.len(), nx), &at(0, pad.cols, &je)));
    let hs = (0..pad.non).map(|_| CooMat::from_nnz((nx, nx), 0)).chain(he.iter().map(|e| pattern((nx, nx), &at(pad.cols, pad.cols, e)))).collect();
    Problem::Nlp(ProblemNlp::new(hphi, a, b, jac, hs, l, u, None, Box::new(move |p, g, h, f, j, hh, x| {
        let x = &x[pad.cols..];
        *p = val(&phi, x);
        for i in 0..x.len() { g[pad.cols + i] = val(&gp[i], x); }
        for (k, e) in hp.iter().enumerate() { h.data_mut()[k] = val(&e.2, x); }
        for k in 0..pad.non { f[k] = pad.slope(k) * x[0]; }
        for (k, e) in fs.iter().enumerate() { f[pad.non + k] = val(e, x); }
        for (k, e) in je.iter().enumerate() { j.data_mut()[k] = val(&e.2, x); }
        for (m, es) in he.iter().enumerate() { for (k, e) in es.iter().enumerate() { hh[pad.non + m].data_mut()[k] = val(&e.2, x); } }
    })))
}

// ------------------------------------------------------------------ C18

const MARK: f64 = -7771.25;
const IMARK: c_int = -77712;
struct Seen { jac: Option<(Vec<c_int>, Vec<c_int>)>, hess: Option<(Vec<c_int>, Vec<c_int>)> }

/// Called where Ipopt would solve: opens the next problem, or plays the history on all of them.
fn callbacks(h: Handle) {
    let (case, k) = LIB.with(|l| { let mut l = l.borrow_mut(); l.open.push(h); (l.case.clone(), l.open.len()) });
    if k < case["q"].as_array().unwrap().len() { solve_next(&case, k); return; }
    let open = LIB.with(|l| l.borrow().open.clone());
    let mut seen: Vec<Seen> = open.iter().map(|_| Seen { jac: None, hess: None }).collect();
    let mut run = || -> Result<u64, String> {
        let structures: Vec<Value> = (0..open.len()).flat_map(|p| ["jacS", "hS"].iter().map(move |k| json!({"p": p + 1, "k": k, "bad": "", "x": [], "lam": [], "of": 0, "new": false, "nl": false}))).collect();
        let ops: Vec<&Value> = structures.iter().chain(case["ops"].as_array().unwrap()).collect();
        for (t, op) in ops.iter().enumerate() {
            let p = op["p"].as_u64().unwrap() as usize - 1;
            call(&open[p], &case["q"][p], &mut seen[p], op).map_err(|e| format!("call {} ({} on problem {}{}): {}", t as i64 - structures.len() as i64 + 1, op["k"], p + 1,
                if op["bad"] == "" { String::new() } else { format!(", wrong in {}", op["bad"]) }, e))?;
        }
        Ok(ops.len() as u64)
    };
    let r = run();
    LIB.with(|l| match r { Ok(n) => l.borrow_mut().calls += n, Err(e) => l.borrow_mut().failure = Some(e) });
}
fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1. + b.abs()) }

fn call(h: &Handle, q: &Value, seen: &mut Seen, op: &Value) -> Result<(), String> {
    let (k, bad) = (op["k"].as_str().unwrap(), op["bad"].as_str().unwrap());
    let pad = Pad::of(q);
    let na = q["b"].as_array().unwrap().len();
    let nx = (pad.cols as i64 + q["nx"].as_i64().unwrap()) as c_int;
    let m = (pad.lin + pad.non + na + q["fs"].as_array().unwrap().len()) as c_int;
    if h.n != nx || h.m != m { return Err(format!("the problem was created with sizes {} and {}, not {} and {}", h.n, h.m, nx, m)); }
    let n = match bad { "n+" => nx + 1, "n-" => nx - 1, "n0" => -1, _ => nx };
    let mm = match bad { "m+" => m + 1, "m-" => m - 1, _ => m };
    let nnz = if k.starts_with("jac") { h.nnzj } else { h.nnzh };
    let kk = match bad { "k+" => nnz + 1, "k-" => nnz - 1, _ => nnz };
    let mut x = pad.x(nums(&op["x"]));
    let mut lam = pad.lam(na, nums(&op["lam"]));
    x.extend([MARK; 4]); // readable beyond the end
    lam.extend([MARK; 4]);
    let out_len = match k { "f" => 1, "grad" => nx, "g" => m, "jac" => h.nnzj, "h" => h.nnzh, _ => 0 } as usize;
    let mut out = vec![MARK; out_len + 8];
    let mut rows = vec![IMARK; nnz.max(0) as usize + 8];
    let mut cols = rows.clone();
    let px = if bad == "x" || k.ends_with('S') { std::ptr::null() } else { x.as_ptr() };
    let po = if bad == "out" { null_mut() } else { out.as_mut_ptr() };
    let pu = if bad == "user" { null_mut() } else { h.user };
    let pl = if bad == "lam" { std::ptr::null() } else { lam.as_ptr() };
    let new = (op["new"] == true) as c_int;
    let nl = (op["nl"] == true) as c_int;
    let of = op["of"].as_f64().unwrap();
    let (pr, pc) = (if bad == "irow" { null_mut() } else { rows.as_mut_ptr() }, if bad == "jcol" { null_mut() } else { cols.as_mut_ptr() });
    let ok = match k {
        "f" => (h.f)(n, px, new, po, pu),
        "grad" => (h.gf)(n, px, new, po, pu),
        "g" => (h.g)(n, px, new, mm, po, pu),
        "jac" => (h.j)(n, px, new, mm, kk, null_mut(), null_mut(), po, pu),
        "h" => (h.h)(n, px, new, of, mm, pl, nl, kk, null_mut(), null_mut(), po, pu),
        "jacS" => (h.j)(n, px, 0, mm, kk, pr, pc, null_mut(), pu),
        "hS" => (h.h)(n, px, 0, 1., mm, std::ptr::null(), 0, kk, pr, pc, null_mut(), pu),
        x => panic!("harness: call {}", x),
    };
    if bad != "" {
        if ok != 0 { return Err(format!("is not refused ({})", ok)); }
        if out.iter().any(|v| *v != MARK) || rows.iter().chain(cols.iter()).any(|v| *v != IMARK) { return Err("is refused but writes".to_string()); }
        return Ok(());
    }
    if ok != 1 { return Err(format!("returns {} to a proper call", ok)); }
    if out[out_len..].iter().any(|v| *v != MARK) { return Err("writes past the end of its buffer".to_string()); }
    if k.ends_with('S') {
        if rows[nnz as usize..].iter().chain(cols[nnz as usize..].iter()).any(|v| *v != IMARK) { return Err("writes past the end of its index buffers".to_string()); }
        rows.truncate(nnz as usize);
        cols.truncate(nnz as usize);
        for v in rows.iter_mut().chain(cols.iter_mut()) { *v -= h.style; }
        let top = if k == "jacS" { m } else { nx };
        for (r, c) in rows.iter().zip(&cols) { if *r < 0 || *r >= top || *c < 0 || *c >= nx || (k == "hS" && r < c) { return Err(format!("announces a position ({}, {})", r, c)); } }
        let s = if k == "jacS" { &mut seen.jac } else { &mut seen.hess };
        if let Some(old) = s { if *old != (rows.clone(), cols.clone()) { return Err("announces other positions than before".to_string()); } }
        *s = Some((rows, cols));
        return Ok(());
    }
    let e = &op["e"];
    match k {
        "f" => if !close(out[0], e.as_f64().unwrap()) { return Err(format!("objective {} where it is {}", out[0], e)); },
        "grad" | "g" => {
            let want = if k == "g" { pad.g(na, &x, nums(e)) } else { std::iter::repeat(0.).take(pad.cols).chain(nums(e)).collect() };
            for (i, v) in want.iter().enumerate() { if !close(out[i], *v) { return Err(format!("entry {} is {} where it is {}", i, out[i], v)); } }
        }
        _ => {
            let (rs, cs) = if k == "jac" { seen.jac.as_ref().unwrap() } else { seen.hess.as_ref().unwrap() };
            let mut sums: BTreeMap<(usize, usize), (f64, f64)> = BTreeMap::new();
            for t in 0..nnz as usize { sums.entry((rs[t] as usize, cs[t] as usize)).or_insert((0., 0.)).0 += out[t]; }
            for (i, row) in e.as_array().unwrap().iter().enumerate() {
                let i = if k == "jac" { pad.row(na, i) } else { pad.cols + i };
                for (j, v) in nums(row).iter().enumerate() { sums.entry((i, pad.cols + j)).or_insert((0., 0.)).1 += v; }
            }
            if k == "jac" {
                for i in 0..pad.lin { if let Some((j, v)) = pad.entry(i) { sums.entry((i, j)).or_insert((0., 0.)).1 += v; } }
                for r in 0..pad.non { sums.entry((pad.lin + na + r, pad.cols)).or_insert((0., 0.)).1 += pad.slope(r); }
            }
            for ((i, j), (got, v)) in &sums { if !close(*got, *v) { return Err(format!("entry ({}, {}) adds up to {} where it is {}", i, j, got, v)); } }
        }
    }
    Ok(())
}

fn solve_next(case: &Value, k: usize) {
    let mut rng = Rng(hash_str(&case.to_string()) ^ k as u64 ^ std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64) << 32);
    let mut p = build(&case["q"][k], &mut rng);
    let r = SolverIpopt::new().solve(&mut p);
    if let Err(e) = r { LIB.with(|l| { let mut l = l.borrow_mut(); if l.failure.is_none() { l.failure = Some(format!("solving problem {} fails: {}", k + 1, e)); } }); }
}

fn check_cb(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    LIB.with(|l| { *l.borrow_mut() = Lib { script: json!({"what": "cb"}), case: case.clone(), ..Default::default() }; });
    let r = catch(|| solve_next(case, 0));
    let lib = LIB.with(|l| std::mem::take(&mut *l.borrow_mut()));
    if let Err(e) = r { ctx.fail(format!("panic: {}", e)); return; }
    if let Some(e) = lib.failure.or(lib.wrong) { ctx.fail(e); return; }
    if lib.calls == 0 { ctx.fail("Ipopt is never started".to_string()); return; }
    *ctx.counters.entry("calls".to_string()).or_insert(0) += lib.calls;
    for op in case["ops"].as_array().unwrap() { ctx.count(if op["bad"] != "" { "refused" } else { op["k"].as_str().unwrap() }); }
    ctx.nontrivial += 1;
}

// ------------------------------------------------------------------ C19

fn use_problem(q: &Value) -> Problem {
    let n = |k: &str| q[k].as_u64().unwrap() as usize;
    let (nx, na, nf) = (n("nx"), n("na"), n("nf"));
    let a = CooMat::new((na, nx), (0..na.min(nx)).collect(), (0..na.min(nx)).collect(), vec![2.; na.min(nx)]);
    let x0 = if q["start"] == true { Some(nums(&q["x0"])) } else { None };
    let (l, u, b) = (nums(&q["l"]), nums(&q["u"]), nums(&q["b"]));
    if q["cls"] == "lp" { return Problem::Lp(ProblemLp::new(vec![1.; nx], a, b, l, u, x0)); }
    let h = (0..nf).map(|_| CooMat::from_nnz((nx, nx), 0)).collect();
    Problem::Nlp(ProblemNlp::new(CooMat::from_nnz((nx, nx), 0), a, b, CooMat::from_nnz((nf, nx), 0), h, l, u, x0, Box::new(|_, _, _, _, _, _, _| {})))
}

fn check_use(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    let mut s = SolverIpopt::new();
    let mut problems: Vec<(Value, Problem)> = Vec::new();
    for (t, st) in case["steps"].as_array().unwrap().iter().enumerate() {
        if st["s"] == "set" {
            let r = if st["name"] == "print" { s.set_param("print_level", SolverParam::IntParam(st["v"].as_i64().unwrap() as i32)) }
                    else { let v = st["v"].as_str().unwrap(); s.set_param("sb", SolverParam::StrParam(if v == "nul" { "y\0es".to_string() } else { v.to_string() })) };
            if let Err(e) = r { ctx.fail(format!("step {}: setting {} fails: {}", t + 1, st["name"], e)); return; }
            continue;
        }
        let q = &st["q"];
        let mut script = q.clone();
        script["what"] = json!("use");
        LIB.with(|l| { *l.borrow_mut() = Lib { script, ..Default::default() }; });
        let mut p = use_problem(q);
        let out: Result<Result<(SolverStatus, ProblemSol), String>, String> = catch(|| s.solve(&mut p).map_err(|e| e.to_string()));
        problems.push((q.clone(), p));
        let lib = LIB.with(|l| std::mem::take(&mut *l.borrow_mut()));
        let want = st["r"].as_str().unwrap();
        let got = match &out { Err(_) => "panic", Ok(Err(_)) => "fail", Ok(Ok((x, _))) => match x { SolverStatus::Solved => "solved", SolverStatus::Infeasible => "infeasible", SolverStatus::Error => "error", SolverStatus::Unknown => "unknown" } };
        ctx.count(&format!("expected_{}", want));
        let fail = |ctx: &mut Ctx, e: String| ctx.fail(format!("step {} (code {}, creation {}, rejected option {}): {}", t + 1, q["code"], q["create"], q["reject"], e));
        if got != want { fail(ctx, format!("ends as {} where it is {}", got, want)); return; }
        if ctx.records.len() < 4000 { ctx.records.push(json!({"ev": lib.events, "print": st["print"], "sb": st["sb"], "r": got})); }
        // also judged by TLC from the record; here for runs beyond the records kept
        let frees = lib.events.iter().filter(|e| e[0] == "free").count();
        let made = lib.events.iter().filter(|e| e[0] == "create" && e[1] == true).count();
        if frees != made { fail(ctx, format!("{} Ipopt problems created and {} released", made, frees)); return; }
        if let Some(w) = lib.wrong { fail(ctx, w); return; }
        for (_, h) in &lib.handles {
            let (na, nf) = (q["na"].as_i64().unwrap() as i32, q["nf"].as_i64().unwrap() as i32);
            let nx = q["nx"].as_i64().unwrap() as i32;
            if h.n != nx || h.m != na + nf || h.l != nums(&q["l"]) || h.u != nums(&q["u"]) || h.gl != vec![0.; (na + nf) as usize] || h.gu != h.gl {
                fail(ctx, format!("Ipopt is given sizes {} and {}, limits {:?} {:?}, constraint limits {:?} {:?}", h.n, h.m, h.l, h.u, h.gl, h.gu)); return;
            }
        }
        if let Ok(Ok((_, sol))) = &out {
            let nx = q["nx"].as_u64().unwrap() as usize;
            let start = if q["start"] == true { nums(&q["x0"]) } else { vec![0.; nx] };
            if lib.start != start { fail(ctx, format!("Ipopt is started at {:?} and not {:?}", lib.start, start)); return; }
            for (k, g, w) in [("x", &sol.x, &q["x"]), ("pi", &sol.pi, &q["ml"]), ("mu", &sol.mu, &q["mu"]), ("lam", &sol.lam, &st["lam"]), ("nu", &sol.nu, &st["nu"])] {
                if !alike(g, &nums(w)) { fail(ctx, format!("{} is reported as {:?} where Ipopt gave {}", k, g, w)); return; }
            }
        }
    }
    // the problems are as they were
    for (q, p) in problems.iter() {
        let (l, u, b, x0) = match p { Problem::Lp(p) => (p.l(), p.u(), p.b(), p.x0()), Problem::Nlp(p) => (p.l(), p.u(), p.b(), p.x0()), _ => panic!("harness") };
        if l != &nums(&q["l"])[..] || u != &nums(&q["u"])[..] || b != &nums(&q["b"])[..] || x0.map(|x| x.to_vec()) != (if q["start"] == true { Some(nums(&q["x0"])) } else { None }) {
            ctx.fail("a solve changed its problem".to_string());
            return;
        }
    }
    ctx.nontrivial += 1;
}

// ------------------------------------------------------------------ C20

/// A solver that has nothing but parameters.
struct Custom(std::collections::HashMap<String, SolverParam>);
impl Solver for Custom {
    fn get_params(&self) -> &std::collections::HashMap<String, SolverParam> { &self.0 }
    fn get_params_mut(&mut self) -> &mut std::collections::HashMap<String, SolverParam> { &mut self.0 }
    fn solve(&self, _p: &mut Problem) -> Result<(SolverStatus, ProblemSol), simple_error::SimpleError> { Err(simple_error::SimpleError::new("none")) }
}
fn solver(kind: &str) -> Box<dyn Solver> {
    match kind {
        "clp" => Box::new(SolverClpCmd::new()), "cbc" => Box::new(SolverCbcCmd::new()), "ipopt" => Box::new(SolverIpopt::new()),
        _ => Box::new(Custom([("a", SolverParam::IntParam(3)), ("b", SolverParam::FloatParam(1.25)), ("c", SolverParam::StrParam("text".to_string())), ("d", SolverParam::IntParam(-4)), ("a b", SolverParam::FloatParam(-0.5))]
            .iter().map(|(k, v)| (k.to_string(), v.clone())).collect())),
    }
}
fn param(v: &Value) -> SolverParam {
    // a text ending in *n stands for n repetitions of what comes before
    let t = &match v[1].as_str().unwrap().rsplit_once('*') { Some((t, n)) => t.repeat(n.parse().unwrap()), None => v[1].as_str().unwrap().to_string() };
    match v[0].as_str().unwrap() { "int" => SolverParam::IntParam(t.parse().unwrap()), "float" => SolverParam::FloatParam(t.parse().unwrap()), _ => SolverParam::StrParam(t.to_string()) }
}
fn shown(p: &SolverParam) -> String { match p { SolverParam::IntParam(i) => format!("int {}", i), SolverParam::FloatParam(f) => format!("float {:?}", f), SolverParam::StrParam(s) => format!("str {:?}", s) } }
fn table(s: &dyn Solver) -> BTreeMap<String, String> { s.get_params().iter().map(|(k, v)| (k.clone(), shown(v))).collect() }

fn class_problem(c: &str, t: usize) -> Problem {
    let nx = 2 + t % 2;
    let a = CooMat::new((1, nx), vec![0, 0, 0], vec![0, 1, 0], vec![1., 2., 0.5]);
    let (b, l, u, x0) = (vec![t as f64], vec![-1.; nx], vec![5.; nx], if t % 3 == 0 { None } else { Some(vec![0.5; nx]) });
    let p: Vec<bool> = (0..nx).map(|i| i == 1 && !c.ends_with('0')).collect();
    let pat = || CooMat::from_pattern((nx, nx), vec![0], vec![0]);
    let jac = CooMat::from_pattern((1, nx), vec![0], vec![1]);
    let eval: numopt::problem::base::ProblemEval = Box::new(|p, g, h, f, j, hh, x| { *p = x[0] * x[0]; g[0] = 2. * x[0]; h.data_mut()[0] = 2.; f[0] = x[1] - 1.; j.data_mut()[0] = 1.; hh[0].data_mut()[0] = x[0]; });
    match c.trim_end_matches('0') {
        "nlp" if c == "nlp0" => {
            let e: numopt::problem::base::ProblemEval = Box::new(|p, g, _h, _f, _j, _hh, x| { *p = x[0]; g[0] = 1.; });
            let none = || CooMat::from_pattern((nx, nx), vec![], vec![]);
            let mut q = ProblemNlp::new(none(), a, b, CooMat::from_pattern((0, nx), vec![], vec![]), vec![], l, u, x0, e);
            q.evaluate(&vec![1.5; nx]);
            q.combine_h(&[]);
            Problem::Nlp(q)
        }
        "lp" => Problem::Lp(ProblemLp::new(vec![1.; nx], a, b, l, u, x0)),
        "milp" => Problem::Milp(ProblemMilp::new(vec![1.; nx], a, b, l, u, p, x0)),
        "nlp" => { let mut q = ProblemNlp::new(pat(), a, b, jac, vec![pat()], l, u, x0, eval); q.evaluate(&vec![1.5; nx]); q.combine_h(&[3.]); Problem::Nlp(q) }
        _ => { let mut q = ProblemMinlp::new(pat(), a, b, jac, vec![pat()], l, u, p, x0, eval); q.evaluate(&vec![1.5; nx]); q.combine_h(&[3.]); Problem::Minlp(q) }
    }
}
fn coo(m: &CooMat<f64>) -> String { format!("{:?}{:?}", (m.rows(), m.cols()), m.iter().collect::<Vec<_>>()) }
fn minlp(q: &ProblemMinlp) -> String {
    format!("{:?} {} {:?} {} {} {:?} {:?} {} {:?} {} {:?} {:?} {:?}", q.x0(), q.phi(), q.gphi(), coo(q.hphi()), coo(q.a()), q.b(), q.f(), coo(q.j()), q.h().iter().map(coo).collect::<Vec<_>>(), coo(q.hcomb()), q.l(), q.u(), q.p())
}
fn snapshot(p: &mut Problem) -> String {
    match p {
        Problem::Lp(q) => { let rest = minlp(q.as_mut_nlp().as_mut_minlp()); format!("lp {:?} {} {:?} {:?} {:?} {:?} {}", q.c(), coo(q.a()), q.b(), q.l(), q.u(), q.x0(), rest) }
        Problem::Milp(q) => { let rest = minlp(q.as_mut_minlp()); format!("milp {:?} {} {:?} {:?} {:?} {:?} {:?} {}", q.c(), coo(q.a()), q.b(), q.l(), q.u(), q.p().to_vec(), q.x0().map(|x| x.to_vec()), rest) }
        Problem::Nlp(q) => format!("nlp {}", minlp(q.as_mut_minlp())),
        Problem::Minlp(q) => format!("minlp {}", minlp(q)),
    }
}

fn check_params(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    let kind = case["k"].as_str().unwrap();
    let mut objs = [solver(kind), solver(kind)];
    let created = table(&*objs[0]);
    if table(&*objs[1]) != created { ctx.fail(format!("two new {} solvers have different parameters", kind)); return; }
    let types = case["ops"][0]["after"][0].as_object().unwrap();
    let want: Vec<&String> = types.keys().collect();
    if want.iter().any(|k| !created.contains_key(*k)) { ctx.fail(format!("a {} solver has the parameters {:?} and not {:?}", kind, created.keys(), want)); return; }
    let needs = case["ops"].as_array().unwrap().iter().any(|o| o["op"] == "solve");
    let sc = if needs { Some(Scratch::new()) } else { None };
    for (t, op) in case["ops"].as_array().unwrap().iter().enumerate() {
        let o = op["o"].as_u64().unwrap() as usize - 1;
        let name = op["name"].as_str().unwrap();
        let ok = op["ok"] == true;
        let fail = |ctx: &mut Ctx, e: String| ctx.fail(format!("{} solver, step {} ({} {} {}): {}", kind, t + 1, op["op"], name, op["v"], e));
        if op["op"] == "set" {
            let r = match catch(|| objs[o].set_param(name, param(&op["v"]))) { Ok(r) => r, Err(e) => { fail(ctx, format!("panic: {}", e)); return; } };
            ctx.count(if ok { "set" } else { "set_refused" });
            if r.is_ok() != ok { fail(ctx, format!("{} where it {}", if r.is_ok() { "succeeds" } else { "fails" }, if ok { "should succeed" } else { "should fail" })); return; }
        }
        else {
            let sc = sc.as_ref().unwrap();
            let log = sc.base.join(format!("log{}", t));
            std::env::set_var("FAKE_LOG", &log);
            std::env::set_var("FAKE_AUTO", "1");
            LIB.with(|l| { *l.borrow_mut() = Lib { script: json!({"what": "use", "code": 0}), ..Default::default() }; });
            let mut p = class_problem(name, t + 2 * o);
            let before = snapshot(&mut p);
            let params = table(&*objs[o]);
            let r = match catch(|| objs[o].solve(&mut p).map_err(|e| e.to_string())) { Ok(r) => r, Err(e) => { fail(ctx, format!("panic: {}", e)); return; } };
            let lib = LIB.with(|l| std::mem::take(&mut *l.borrow_mut()));
            let ran = std::fs::read_to_string(&log).unwrap_or_default();
            let left = sc.leftovers();
            ctx.count(if ok { "solved" } else { "refused" });
            if ok {
                match &r { Ok((SolverStatus::Solved, _)) => (), _ => { fail(ctx, format!("a supported problem is not solved: {:?}", r.as_ref().map(|x| x.0.to_string()))); return; } }
                if kind == "ipopt" {
                    let get = |k: &str| lib.events.iter().find(|e| e[1] == k).map(|e| if e[0] == "int" { format!("int {}", e[2]) } else { format!("str {:?}", e[2].as_str().unwrap()) });
                    if !lib.events.contains(&json!(["solve"])) || ran != "" { fail(ctx, "is not solved by Ipopt".to_string()); return; }
                    if get("print_level").as_ref() != params.get("print_level") || get("sb").as_ref() != params.get("sb") { fail(ctx, format!("Ipopt is run with options {:?} and {:?} instead of {:?}", get("print_level"), get("sb"), params)); return; }
                } else {
                    let words: Vec<String> = ran.split_whitespace().map(|s| s.to_string()).collect();
                    if ran.lines().count() != 1 || words[0] != kind || !lib.events.is_empty() { fail(ctx, format!("is not solved by one run of {} but by {:?}", kind, ran)); return; }
                    let level = parse_args(&words[1..]).log;
                    if level.as_ref().map(|l| format!("int {}", l)).as_ref() != params.get("logLevel") { fail(ctx, format!("the program is run with log level {:?} instead of {:?}", level, params.get("logLevel"))); return; }
                }
            } else {
                if r.is_ok() { fail(ctx, "an unsupported problem is not refused".to_string()); return; }
                if ran != "" || !lib.events.is_empty() { fail(ctx, format!("an unsupported problem makes it run {:?} {:?}", ran, lib.events)); return; }
                let after = snapshot(&mut p);
                if after != before { fail(ctx, format!("a refused problem is changed from {} to {}", before, after)); return; }
            }
            if !left.is_empty() { fail(ctx, format!("files remain: {:?}", left)); return; }
        }
        for k in 0..2 {
            for (nm, v) in op["after"][k].as_object().unwrap() {
                let want = if v[0] == "init" { created[nm].clone() } else { shown(&param(v)) };
                let got = objs[k].get_param(nm).map(shown);
                if got.as_ref() != Some(&want) || table(&*objs[k]).get(nm) != Some(&want) { fail(ctx, format!("afterwards {} of object {} is {:?} and not {}", nm, k + 1, got, want)); return; }
            }
            if objs[k].get_params().len() != created.len() { fail(ctx, "the set of parameters changed".to_string()); return; }
        }
    }
    ctx.nontrivial += 1;
}

fn main() {
    quiet_panics();
    let me = std::env::args().next().unwrap_or_default();
    let me = me.rsplit('/').next().unwrap();
    if me == "cbc" || me == "clp" { std::process::exit(harness::cmd::program(me)); }
    let a: Vec<String> = std::env::args().collect();
    let ctx = match a[1].as_str() { "cb" => run_cases(&a[3], &a[2], 8, check_cb), "use" => run_cases(&a[3], &a[2], 8, check_use), "params" => run_cases(&a[3], &a[2], 1, check_params), x => panic!("unknown driver {}", x) };
    if let Ok(f) = std::env::var("RECORDS") {
        use std::io::Write;
        let mut w = std::io::BufWriter::new(std::fs::File::create(f).expect("records file"));
        for r in ctx.records.iter() { writeln!(w, "{}", r).unwrap(); }
    }
    println!("{}", summary(&ctx));
}
