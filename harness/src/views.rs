//! Problem objects made by hand (spec/Views.tla). C23.
use crate::run::{catch, hash_str, Ctx, Rng};
use numopt::matrix::coo::CooMat;
use numopt::problem::base::{Problem, ProblemEval};
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::ProblemMilp;
use numopt::problem::minlp::ProblemMinlp;
use numopt::problem::nlp::ProblemNlp;
use serde_json::Value;
use std::collections::BTreeMap;

type Ent = (usize, usize, f64);
fn nums(v: &Value) -> Vec<f64> { v.as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap()).collect()).unwrap_or_default() }
fn ents(v: &Value) -> Vec<Ent> { v.as_array().map(|a| a.iter().map(|e| (e[0].as_u64().unwrap() as usize - 1, e[1].as_u64().unwrap() as usize - 1, e[2].as_f64().unwrap())).collect()).unwrap_or_default() }

/// The problem may be embedded in a wider one (Pad of spec/Views.tla).
#[derive(Clone, Copy)]
struct Pad { cols: usize, lin: usize, non: usize }
impl Pad {
    fn front(&self, x: f64, own: Vec<f64>) -> Vec<f64> { (0..self.cols).map(|_| x).chain(own).collect() }
    fn slope(&self, k: usize) -> f64 { (k % 7 + 1) as f64 }
    fn f(&self, first: f64, own: Vec<f64>) -> Vec<f64> { (0..self.non).map(|k| self.slope(k) * first).chain(own).collect() }
}

struct Data { pad: Pad, at: std::cell::Cell<f64>, class: String, nx: usize, na: usize, nf: usize, c: Vec<f64>, q: Vec<Ent>, a: Vec<Ent>, b: Vec<f64>, l: Vec<f64>, u: Vec<f64>, p: Vec<bool>, x0: Option<Vec<f64>>, con: Vec<(Vec<f64>, f64, Vec<Ent>)> }

fn parse(p: &Value) -> Data {
    let n = |k: &str| p[k].as_u64().unwrap() as usize;
    let linear = ["lp", "milp"].contains(&p["class"].as_str().unwrap());
    let z = |k: &str| p["pad"][k].as_u64().unwrap_or(0) as usize;
    let pad = Pad { cols: z("cols"), lin: z("lin"), non: if linear { 0 } else { z("non") } };
    let x0 = nums(&p["x0"]);
    let at = |r: usize, e: Vec<Ent>| e.into_iter().map(|(i, j, v)| (i + r, j + pad.cols, v)).collect::<Vec<Ent>>();
    let mut a = at(pad.lin, ents(&p["a"]));
    for i in 0..pad.lin { if pad.cols > 0 { a.push((i, i % pad.cols, (i % 5 + 1) as f64)); } }
    let mut con: Vec<(Vec<f64>, f64, Vec<Ent>)> = (0..pad.non).map(|_| (vec![], 0., vec![])).collect();
    con.extend(p["con"].as_array().map(|a| a.iter().map(|k| (nums(&k["c"]), k["k"].as_f64().unwrap(), at(pad.cols, ents(&k["q"])))).collect()).unwrap_or(vec![]));
    Data { pad, at: std::cell::Cell::new(0.), class: p["class"].as_str().unwrap().to_string(), nx: pad.cols + n("nx"), na: pad.lin + n("na"), nf: pad.non + n("nf"), c: pad.front(0., nums(&p["c"])), q: at(pad.cols, ents(&p["q"])), a,
           b: (0..pad.lin).map(|i| (i % 4) as f64).chain(nums(&p["b"])).collect(), l: pad.front(-1., nums(&p["l"])), u: pad.front(2., nums(&p["u"])),
           p: (0..pad.cols).map(|j| !["lp", "nlp"].contains(&p["class"].as_str().unwrap()) && j % 3 == 0).chain(p["p"].as_array().unwrap().iter().map(|x| x == true)).collect(),
           x0: if x0.is_empty() { None } else { Some(pad.front(0.5, x0)) }, con }
}

fn add(n: usize, d: i64) -> usize { (n as i64 + d) as usize }
fn resize(v: &[f64], d: i64) -> Vec<f64> { let mut v = v.to_vec(); v.resize(add(v.len(), d), 1.5); v }
fn mat(r: usize, c: usize, e: &[Ent], zero: bool) -> CooMat<f64> {
    let e: Vec<&Ent> = e.iter().filter(|e| e.0 < r && e.1 < c).collect();
    CooMat::new((r, c), e.iter().map(|e| e.0).collect(), e.iter().map(|e| e.1).collect(), e.iter().map(|e| if zero { 0. } else { e.2 }).collect())
}
fn quad(c: &[f64], k: f64, q: &[Ent], x: &[f64]) -> f64 { c.iter().zip(x).map(|(a, b)| a * b).sum::<f64>() + k + q.iter().map(|e| e.2 * x[e.0] * x[e.1]).sum::<f64>() }
fn grad(c: &[f64], q: &[Ent], x: &[f64], i: usize) -> f64 { c[i] + q.iter().map(|e| (if e.0 == i { e.2 * x[e.1] } else { 0. }) + (if e.1 == i { e.2 * x[e.0] } else { 0. })).sum::<f64>() }
fn hess(q: &[Ent]) -> Vec<f64> { q.iter().map(|e| if e.0 == e.1 { 2. * e.2 } else { e.2 }).collect() }

fn make(d: &Data, bad: &str, delta: i64) -> Problem {
    let w = |s: &str| if s == bad { delta } else { 0 };
    let (nx, nf) = (d.nx, d.nf);
    let a = mat(add(d.na, w("arows")), add(nx, w("acols")), &d.a, false);
    let (b, l, u) = (resize(&d.b, w("b")), resize(&d.l, w("l")), resize(&d.u, w("u")));
    let mut p = d.p.clone();
    p.resize(add(nx, w("p")), true);
    let c = resize(&d.c, w("c"));
    let hphi = mat(add(nx, w("hrows")), add(nx, w("hcols")), &d.q, true);
    let (pad, own) = (d.pad, nx - d.pad.cols);
    let all: Vec<Ent> = (0..pad.non).map(|k| (k, pad.cols, 0.)).chain((pad.non..nf).flat_map(|k| (pad.cols..nx).map(move |i| (k, i, 0.)))).collect();
    let j = mat(nf, add(nx, w("jcols")), &all, true);
    let nh = add(nf, w("hcount"));
    let h: Vec<CooMat<f64>> = (0..nh).map(|k| { let e: &[Ent] = if k < nf { &d.con[k].2 } else { &[] }; let last = k + 1 == nf;
        mat(add(nx, if last { w("Hrows") } else { 0 }), add(nx, if last { w("Hcols") } else { 0 }), e, true) }).collect();
    let dc = pad.front(0., d.c.get(pad.cols..).map(|c| c.to_vec()).unwrap_or(vec![]));
    let (dq, con) = (d.q.clone(), d.con.iter().map(|c| (if c.0.is_empty() { vec![] } else { pad.front(0., c.0.clone()) }, c.1, c.2.clone())).collect::<Vec<_>>());
    let eval: ProblemEval = Box::new(move |p, g, hp, f, jj, hh, x| {
        *p = quad(&dc, 0., &dq, x);
        for i in pad.cols..x.len() { g[i] = grad(&dc, &dq, x, i); }
        hp.data_mut().copy_from_slice(&hess(&dq));
        for k in 0..pad.non { f[k] = pad.slope(k) * x[pad.cols]; jj.data_mut()[k] = pad.slope(k); }
        for (k, c) in con.iter().enumerate().skip(pad.non) {
            f[k] = quad(&c.0, c.1, &c.2, x);
            for i in 0..own { jj.data_mut()[pad.non + (k - pad.non) * own + i] = grad(&c.0, &c.2, x, pad.cols + i); }
            hh[k].data_mut().copy_from_slice(&hess(&c.2));
        }
    });
    match d.class.as_str() {
        "lp" => Problem::Lp(ProblemLp::new(c, a, b, l, u, d.x0.clone())),
        "milp" => Problem::Milp(ProblemMilp::new(c, a, b, l, u, p, d.x0.clone())),
        "nlp" => Problem::Nlp(ProblemNlp::new(hphi, a, b, j, h, l, u, d.x0.clone(), eval)),
        _ => Problem::Minlp(ProblemMinlp::new(hphi, a, b, j, h, l, u, p, d.x0.clone(), eval)),
    }
}

fn triplets(m: &CooMat<f64>) -> Vec<Ent> { m.iter().map(|(i, j, v)| (*i, *j, *v)).collect() }
fn sums(e: &[Ent]) -> BTreeMap<(usize, usize), f64> { let mut m = BTreeMap::new(); for (i, j, v) in e { *m.entry((*i, *j)).or_insert(0.) += v; } m.retain(|_, v| *v != 0.); m }

macro_rules! data { ($o:expr, $d:expr) => { {
    if ($o.nx(), $o.na()) != ($d.nx, $d.na) { return Err(format!("sizes {} {}", $o.nx(), $o.na())); }
    if $o.b() != &$d.b[..] || $o.l() != &$d.l[..] || $o.u() != &$d.u[..] { return Err(format!("vectors {:?} {:?} {:?}", $o.b(), $o.l(), $o.u())); }
    if $o.x0().map(|x| x.to_vec()) != $d.x0 { return Err(format!("start {:?}", $o.x0())); }
    if ($o.a().rows(), $o.a().cols()) != ($d.na, $d.nx) || sums(&triplets($o.a())) != sums(&$d.a) { return Err(format!("matrix {:?}", $o.a())); }
} } }
macro_rules! values { ($o:expr, $d:expr, $w:expr) => { {
    if $o.nf() != $d.nf { return Err(format!("{} nonlinear constraints", $o.nf())); }
    if let Some(w) = $w {
        if $o.phi() != w["phi"].as_f64().unwrap() { return Err(format!("objective {}", $o.phi())); }
        if $o.gphi() != &$d.pad.front(0., nums(&w["gphi"]))[..] { return Err(format!("gradient {:?}", $o.gphi())); }
        let n = $d.nx;
        let put = |q: &[Ent], v: &Value| sums(&q.iter().zip(nums(v)).map(|(e, v)| (e.0, e.1, v)).collect::<Vec<_>>());
        if ($o.hphi().rows(), $o.hphi().cols()) != (n, n) || sums(&triplets($o.hphi())) != put(&$d.q, &w["hphi"]) { return Err(format!("Hessian {:?}", $o.hphi())); }
        if $o.f() != &$d.pad.f($d.at.get(), nums(&w["f"]))[..] { return Err(format!("constraints {:?}", $o.f())); }
        let jw = sums(&w["j"].as_array().unwrap().iter().enumerate().flat_map(|(k, r)| nums(r).into_iter().enumerate().map(move |(i, v)| (k, i, v))).map(|(k, i, v)| (k + $d.pad.non, i + $d.pad.cols, v))
            .chain((0..$d.pad.non).map(|k| (k, $d.pad.cols, $d.pad.slope(k)))).collect::<Vec<_>>());
        if ($o.j().rows(), $o.j().cols()) != ($d.nf, n) || sums(&triplets($o.j())) != jw { return Err(format!("Jacobian {:?}", $o.j())); }
        if $o.h().len() != $d.nf { return Err(format!("{} constraint Hessians", $o.h().len())); }
        for k in 0..$d.nf { if sums(&triplets(&$o.h()[k])) != (if k < $d.pad.non { BTreeMap::new() } else { put(&$d.con[k].2, &w["h"][k - $d.pad.non]) }) { return Err(format!("Hessian of constraint {}: {:?}", k + 1, $o.h()[k])); } }
    }
} } }
fn combined(d: &Data, m: &CooMat<f64>, w: &Value) -> Result<(), String> {
    let want: Vec<Ent> = d.con[d.pad.non..].iter().enumerate().flat_map(|(k, c)| c.2.iter().zip(nums(&w["h"][k])).map(|(e, v)| (e.0, e.1, v)).collect::<Vec<_>>()).collect();
    if (m.rows(), m.cols()) != (d.nx, d.nx) || sums(&triplets(m)) != sums(&want) { return Err(format!("combination {:?}", m)); }
    Ok(())
}
fn is_lower(m: &CooMat<f64>) -> bool { m.iter().all(|(i, j, _)| j <= i) }

/// One step through a view: evaluate, combine, or only look.
enum Do<'a> { Look, Eval(&'a [f64], &'a Value), Combine(&'a [f64], &'a Value) }

fn on_minlp(o: &mut ProblemMinlp, d: &Data, step: &Do) -> Result<(), String> {
    match step {
        Do::Eval(x, w) => { catch(|| o.evaluate(x)).map_err(|e| format!("panic: {}", e))?; values!(o, d, Some(w)); }
        Do::Combine(nu, w) => {
            let r = catch(|| o.combine_h(nu));
            if w["refused"] == true { if r.is_ok() { return Err(format!("combines {} Hessians with {} factors", d.nf, nu.len())); } }
            else { r.map_err(|e| format!("panic: {}", e))?; combined(d, o.hcomb(), w)?; if !is_lower(o.hcomb()) { return Err("the combination is not lower triangular".to_string()); } }
        }
        Do::Look => values!(o, d, None::<&Value>),
    }
    data!(o, d);
    if o.p() != &d.p[..] { return Err(format!("integer marks {:?}", o.p())); }
    Ok(())
}
fn on_nlp(o: &mut ProblemNlp, d: &Data, step: &Do) -> Result<(), String> {
    match step {
        Do::Eval(x, w) => { catch(|| o.evaluate(x)).map_err(|e| format!("panic: {}", e))?; values!(o, d, Some(w)); }
        Do::Combine(nu, w) => {
            let r = catch(|| o.combine_h(nu));
            if w["refused"] == true { if r.is_ok() { return Err(format!("combines {} Hessians with {} factors", d.nf, nu.len())); } }
            else { r.map_err(|e| format!("panic: {}", e))?; combined(d, o.hcomb(), w)?; }
        }
        Do::Look => values!(o, d, None::<&Value>),
    }
    data!(o, d);
    match step { Do::Eval(_, w) => values!(o.as_mut_minlp(), d, Some(w)), _ => () } // the view of the view
    Ok(())
}
fn on_milp(o: &mut ProblemMilp, d: &Data) -> Result<(), String> {
    data!(o, d);
    if o.c() != &d.c[..] { return Err(format!("objective {:?}", o.c())); }
    if o.p() != &d.p[..] { return Err(format!("integer marks {:?}", o.p())); }
    Ok(())
}
fn on_lp(o: &ProblemLp, d: &Data) -> Result<(), String> {
    data!(o, d);
    if o.c() != &d.c[..] { return Err(format!("objective {:?}", o.c())); }
    Ok(())
}
fn through(p: &mut Problem, d: &Data, view: &str, step: &Do) -> Result<(), String> {
    match (p, view) {
        (Problem::Lp(o), "lp") => on_lp(o, d), (Problem::Lp(o), "milp") => on_milp(o.as_mut_milp(), d),
        (Problem::Lp(o), "nlp") => on_nlp(o.as_mut_nlp(), d, step), (Problem::Lp(o), "minlp") => on_minlp(o.as_mut_minlp(), d, step),
        (Problem::Milp(o), "milp") => on_milp(o, d), (Problem::Milp(o), "minlp") => on_minlp(o.as_mut_minlp(), d, step),
        (Problem::Nlp(o), "nlp") => on_nlp(o, d, step), (Problem::Nlp(o), "minlp") => on_minlp(o.as_mut_minlp(), d, step),
        (Problem::Minlp(o), "minlp") => on_minlp(o, d, step), _ => panic!("harness: view {}", view),
    }
}

/// An evaluation anywhere; what it gives is not looked at.
fn wander(p: &mut Problem, view: &str, x: &[f64]) -> Result<(), String> {
    catch(|| match (p, view) {
        (Problem::Lp(o), "nlp") => o.as_mut_nlp().evaluate(x), (Problem::Lp(o), "minlp") => o.as_mut_minlp().evaluate(x), (Problem::Milp(o), "minlp") => o.as_mut_minlp().evaluate(x),
        (Problem::Nlp(o), "nlp") => o.evaluate(x), (Problem::Nlp(o), "minlp") => o.as_mut_minlp().evaluate(x), (Problem::Minlp(o), "minlp") => o.evaluate(x), _ => (),
    })
}

pub fn check(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    let d = parse(&case["p"]);
    let (bad, delta) = (case["bad"][0].as_str().unwrap(), case["bad"][1].as_i64().unwrap());
    let r = catch(|| make(&d, bad, delta));
    if bad != "" {
        ctx.count("inconsistent");
        if r.is_ok() { ctx.fail(format!("a {} problem whose {} is {} too {} is accepted", d.class, bad, delta.abs(), if delta > 0 { "large" } else { "small" })); return; }
        ctx.nontrivial += 1;
        return;
    }
    let mut rng = Rng(hash_str(&case.to_string()) ^ std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64) << 32);
    let mut p = match r { Ok(p) => p, Err(e) => { ctx.fail(format!("a {} problem of consistent sizes panics: {}", d.class, e)); return; } };
    let s = numopt::problem::base::ProblemSol::new(d.nx, d.na, d.nf);
    if (s.x.len(), s.pi.len(), s.mu.len(), s.lam.len(), s.nu.len()) != (d.nx, d.nx, d.nx, d.na, d.nf) || [&s.x, &s.pi, &s.mu, &s.lam, &s.nu].iter().any(|v| v.iter().any(|x| *x != 0.)) { ctx.fail(format!("a new solution is {:?}", s)); return; }
    let views: &[&str] = match d.class.as_str() { "lp" => &["lp", "milp", "nlp", "minlp"], "milp" => &["milp", "minlp"], "nlp" => &["nlp", "minlp"], _ => &["minlp"] };
    for v in views { if let Err(e) = through(&mut p, &d, v, &Do::Look) { ctx.fail(format!("a new {} as {}: {}", d.class, v, e)); return; } }
    for (t, o) in case["ops"].as_array().map(|a| a.to_vec()).unwrap_or_default().iter().enumerate() {
        let mut x = nums(&o["x"]);
        if o["op"] == "eval" { x = d.pad.front(1., x); d.at.set(x[d.pad.cols]); } else { x = (0..d.pad.non).map(|k| k as f64 - 2.).chain(x).collect(); }
        let step = if o["op"] == "eval" { ctx.count("evaluated"); Do::Eval(&x, &o["want"]) } else { ctx.count("combined"); Do::Combine(&x, &o["want"]) };
        let v = o["view"].as_str().unwrap();
        // evaluations at other points before leave no trace in this one
        if let Do::Eval(..) = step {
            let odd = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e200, -1e200, f64::MAX, 0., -0., 5e-324, 1e-170, 1.];
            for k in 0..rng.below(3) {
                let at: Vec<f64> = if k == 1 { vec![odd[rng.below(11) as usize]; d.nx] } else { x.iter().map(|x| if rng.below(2) == 0 { *x } else { odd[rng.below(11) as usize] }).collect() };
                let through = views[rng.below(views.len() as u64) as usize];
                if let Err(e) = wander(&mut p, through, &at) { ctx.fail(format!("before step {}: a {} as {} evaluated at {:?}: {}", t + 1, d.class, through, at, e)); return; }
                ctx.count("wandered");
            }
        }
        if let Err(e) = through(&mut p, &d, v, &step) { ctx.fail(format!("step {}: a {} as {}, {} {:?}: {}", t + 1, d.class, v, o["op"], x, e)); return; }
        for v in views { if let Err(e) = through(&mut p, &d, v, &Do::Look) { ctx.fail(format!("after step {}: a {} as {}: {}", t + 1, d.class, v, e)); return; } }
    }
    ctx.nontrivial += 1;
}
