//! Checks of expression programs: C01 to C06 and C22.
use crate::jet::{close, close_q, Jet};
use crate::prog::{self, Run};
use crate::run::{catch, hash_str, Ctx, Rng};
use numopt::model::node_base::NodeBase;
use numopt::model::node_cmp::NodeCmp;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_std::NodeStd;
use numopt::model::{Node, VariableScalar};
use serde_json::Value;
use std::collections::{HashMap, HashSet};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn assign<'a>(vars: &'a [Node], pt: &[f64]) -> HashMap<&'a Node, f64> {
    vars.iter().zip(pt).map(|(v, x)| (v, *x)).collect()
}

pub fn hash_of<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }

/// Two points at which every value is moderate and unlikely to be special.
pub fn points(env: &Value, seed: u64, extra: usize) -> Vec<Vec<f64>> {
    let base: Vec<f64> = env.as_array().unwrap().iter().map(|q| q[0].as_f64().unwrap() / q[1].as_f64().unwrap()).collect();
    let mut out = vec![base.clone()];
    let mut r = Rng(seed);
    for _ in 0..extra {
        out.push(base.iter().map(|_| { let s = r.sym(2.5); s + 0.25 * s.signum() }).collect());
    }
    out
}

pub struct Prep { pub run: Run, pub pts: Vec<Vec<f64>>, pub refs: Vec<Vec<Jet>>, pub deg: Vec<i64>, pub random: bool, pub bushy: bool, pub seed: u64 }

const BUSHY: f64 = 8000.;

/// The variants of a program that are run: as it is; with all variables named alike; with
/// constants of an extreme magnitude and points of another magnitude.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Variant { Plain, Alike, Scaled }
thread_local! { static VARIANT: std::cell::Cell<Variant> = std::cell::Cell::new(Variant::Plain); }

pub fn prepare(ctx: &mut Ctx, case: &Value, order: usize, extra: usize) -> Prep {
    let variant = VARIANT.with(|v| v.get());
    let dup = ctx.is("C05") || variant == Variant::Alike;
    let names: Vec<String> = case["n"].as_array().unwrap().iter().map(|n| if dup { "x".to_string() } else { n.as_str().unwrap().to_string() }).collect();
    let mut ins = prog::parse(&case["i"]);
    let seed = hash_str(&case["i"].to_string());
    let mut stretch = 1.;
    let mut extreme = false; // overflow and underflow are expected: only panics are looked at
    if variant == Variant::Scaled {
        let s = if (seed >> 28) % 3 == 0 { [1e-200, 1e150][(seed >> 20) as usize % 2] } else { [1e-12, 1e-7, 1e5, 1e11, 1. + 2f64.powi(-36), 1. + 2f64.powi(-30)][(seed >> 20) as usize % 6] };
        extreme = s < 1e-100 || s > 1e100;
        for i in ins.iter_mut() { if i.op == "k" || matches!(i.f.as_str(), "rs" | "os" | "sr" | "so") { i.scale = s; } }
        stretch = [1., 1e-6, 1e3][(seed >> 24) as usize % 3];
    }
    let kinds: Vec<bool> = (0..names.len()).map(|k| seed >> (k % 64) & 1 == 1).collect();
    let tower = ins.len() > 60;
    let many = ctx.is("C02") || ctx.is("C22");
    let z = prog::sizes(names.len(), &ins).last().cloned().unwrap_or(0.);
    let bushy = many && !tower && names.len() == 4 && variant == Variant::Plain && z > 200. && z <= BUSHY; // many routes, only the last register
    let limit = if names.len() > 20 { 3000. } else if names.len() > 4 { 400. } else if ctx.is("C22") && tower { 200. } else if bushy { BUSHY } else if many { 60. } else { 5000. };
    let mut run = prog::run_real(&names, &kinds, ins, limit);
    run.order = (run.order - 2 + order).min(5);
    let mut pts = points(&case["e"], seed, extra);
    if stretch != 1. { for p in pts.iter_mut() { for x in p.iter_mut() { *x *= stretch; } } }
    let upto = run.regs.len() + if run.panic.is_some() { 1 } else { 0 };
    let mut refs: Vec<Vec<Jet>> = pts.iter().map(|p| run.reference(p, upto)).collect();
    // quotients are differentiated with powers of their divisors: far from one, they overflow
    for r in refs.iter_mut() { let mut far = false; for j in r.iter_mut() { let x = j.c[0].abs(); far |= x != 0. && !(1e-35..1e35).contains(&x); if far { j.ok = false; } } }
    if extreme { for r in refs.iter_mut() { for j in r.iter_mut() { j.ok = false; } } }
    // the floating-point reference against the exact numbers computed by TLC
    let x = case["x"].as_array();
    if let Some(x) = x { if variant != Variant::Scaled && refs[0].last().map_or(false, |j| j.ok) && x.len() == 3 && run.regs.len() == run.nv() + run.ins.len() && order >= 2 {
        let j = refs[0].last().unwrap();
        let nv = run.nv();
        let mut ok = close_q(j.c[0], &x[0], j.m[0]);
        for v in 0..nv {
            ok &= close_q(j.g(v).0, &x[1][v], j.g(v).1);
            for w in 0..nv { ok &= close_q(j.h(v, w).0, &x[2][v][w], j.h(v, w).1); }
        }
        if !ok { ctx.count("reference_disagrees"); eprintln!("reference disagrees with TLC: {}", case); }
        ctx.count("reference_confirmed_by_tlc");
    } }
    let deg = case["d"].as_array().map(|d| d.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default();
    let random = run.nv() > 2;
    Prep { run, pts, refs, deg, random, bushy, seed }
}

/// Registers a check looks at: the last one for enumerated programs (the others were
/// the last ones of shorter programs), all for random programs.
fn targets(p: &Prep) -> Vec<usize> {
    let n = p.run.regs.len();
    if p.bushy { return if n > p.run.nv() { vec![n - 1] } else { vec![] }; }
    let every = if p.run.ins.len() > 200 { 39 } else { 13 };
    if p.run.ins.len() > 60 { (p.run.nv()..n).filter(|k| (k % every == 0 && *k > 40) || k + 1 == n).collect() }
    else if p.random { (p.run.nv()..n).collect() } else if n > p.run.nv() { vec![n - 1] } else { vec![] }
}

/// A panic while differentiating is a violation unless the expression is undefined
/// everywhere (it divides by zero identically).
fn deriv<T>(ctx: &mut Ctx, p: &Prep, t: usize, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match catch(f) {
        Ok(d) => Some(d),
        Err(e) => {
            if p.refs.iter().any(|r| r[t].ok) { ctx.fail(format!("{} of {} panicked: {}", what, p.run.regs[t], e)); }
            else { ctx.count("undefined_everywhere"); }
            None
        }
    }
}

pub fn check(ctx: &mut Ctx, case: &Value) {
    VARIANT.with(|c| c.set(Variant::Plain));
    if let Some(cases) = case["side"].as_array() { if let Err(e) = crate::side::exprs(ctx, cases) { ctx.fail(format!("sum of many expressions: {}", e)); } return; }
    let seed = hash_str(&case["i"].to_string());
    let random = case["n"].as_array().unwrap().len() > 2;
    let before = ctx.violations.len();
    one(ctx, case);
    let size = case["i"].as_array().map_or(0, |i| i.len());
    if matches!(ctx.prop.as_str(), "C01" | "C02" | "C03" | "C04" | "C06") && random && size <= 16 && seed % 2 == 0 && ctx.violations.len() == before {
        let p = prepare(ctx, case, 2, 2);
        crate::side::offer_expr(ctx, &p, case);
    }
    for v in [Variant::Alike, Variant::Scaled] {
        if ctx.violations.len() > before { return; }
        if !(random || (v == Variant::Scaled && seed % 4 == 0)) || (v == Variant::Alike && ctx.is("C05")) || (v == Variant::Alike && ctx.is("C06")) { continue; }
        VARIANT.with(|c| c.set(v));
        one(ctx, case);
        ctx.count(if v == Variant::Alike { "programs_with_names_alike" } else { "programs_with_extreme_constants" });
        for w in ctx.violations.iter_mut().skip(before) { w["variant"] = format!("{:?}", v).into(); }
        VARIANT.with(|c| c.set(Variant::Plain));
    }
}

fn one(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    match ctx.prop.clone().as_str() {
        "C01" => c01(ctx, case),
        "C02" => c02(ctx, case),
        "C03" => c03(ctx, case),
        "C04" => c04(ctx, case),
        "C05" => c05(ctx, case),
        "C06" => c06(ctx, case),
        "C22" => c22(ctx, case),
        p => panic!("harness: no expression check for {}", p),
    }
}

fn zero_divisor(p: &Prep, k: usize) -> bool {
    // is the divisor of instruction k zero at every point where it is defined?
    let i = &p.run.ins[k];
    // (a derivative of what is undefined everywhere meets the same division)
    if i.op == "der" { return p.refs.iter().all(|r| !r[i.a].ok); }
    if i.op != "div" { return false; }
    if matches!(i.f.as_str(), "rs" | "os") { return i.n == 0; }
    let d = if matches!(i.f.as_str(), "sr" | "so") { i.a } else { i.b };
    p.refs.iter().all(|r| !r[d].ok || r[d].c[0].abs() <= 1e-9 * r[d].m[0])
}
fn literal_zero_divisor(p: &Prep, k: usize) -> bool {
    let i = &p.run.ins[k];
    let isk = |r: usize| r >= p.run.nv() && p.run.ins[r - p.run.nv()].op == "k" && p.run.ins[r - p.run.nv()].n == 0;
    match (i.op.as_str(), i.f.as_str()) {
        ("div", "rs") | ("div", "os") => i.n == 0,
        ("div", "sr") | ("div", "so") => isk(i.a),
        ("div", _) | ("Fdiv", _) => isk(i.b),
        _ => false }
}

fn c01(ctx: &mut Ctx, case: &Value) {
    let p = prepare(ctx, case, 0, 2);
    let r = &p.run;
    let nv = r.nv();
    if let Some(m) = &r.panic {
        let k = r.regs.len() - nv;
        if zero_divisor(&p, k) { ctx.count("division_by_constant_zero_refused"); }
        else { ctx.fail(format!("instruction {} ({:?}) panicked: {}", k + 1, r.ins[k], m)); return; }
    }
    let mut any = false;
    for t in targets(&p) {
        for (q, pt) in p.pts.iter().enumerate() {
            let m = assign(&r.vars, pt);
            let got = r.regs[t].evaluate(&m);
            let want = &p.refs[q][t];
            if want.usable(0) {
                any = true;
                if !close(got, want.v()) {
                    ctx.fail(format!("register {} = {} evaluates to {} at {:?}, but the program means {}", t + 1, r.regs[t], got, pt, want.c[0]));
                    return;
                }
            }
            if literal_zero_divisor(&p, t - nv) && got.is_finite() {
                ctx.fail(format!("register {} divides by the constant zero but evaluates to {}", t + 1, got)); return;
            }
        }
        // missing values: dependence is measured at the points by changing one value
        for v in 0..nv {
            let q = 0;
            if !p.refs[q][t].usable(0) { continue; }
            let mut other = p.pts[q].clone(); other[v] += 0.375;
            let j0 = &p.refs[q][t];
            let j1 = &r.reference(&other, t + 1)[t];
            if j1.usable(0) && (j0.c[0] - j1.c[0]).abs() > 1e-6 * (j0.m[0] + j1.m[0]) {
                let mut m = assign(&r.vars, &p.pts[q]);
                m.remove(&r.vars[v]);
                let got = r.regs[t].evaluate(&m);
                if !got.is_nan() { ctx.fail(format!("register {} = {} depends on variable {} but evaluates to {} without it", t + 1, r.regs[t], v + 1, got)); return; }
                m.insert(&r.vars[v], f64::NAN);
                let got = r.regs[t].evaluate(&m);
                if !got.is_nan() { ctx.fail(format!("register {} = {} depends on variable {} but evaluates to {} when it is NaN", t + 1, r.regs[t], v + 1, got)); return; }
                ctx.count("missing_value_checked");
            }
        }
    }
    // later operations leave earlier expressions alone: rebuild each prefix and compare
    if p.random {
        for t in nv..r.regs.len() {
            if r.ins.len() > 60 && t % 9 > 0 { continue; }
            let short = prog::run_real(&r.names, &vec![false; nv], r.ins[..t + 1 - nv].to_vec(), 5000.);
            if short.regs.len() <= t { continue; }
            let m = assign(&r.vars, &p.pts[1]);
            let ms = assign(&short.vars, &p.pts[1]);
            let (a, b) = (r.regs[t].evaluate(&m), short.regs[t].evaluate(&ms));
            // hash maps may order merged terms differently, so allow rounding
            let mag = p.refs[1][t].m[0];
            if p.refs[1][t].usable(0) && !((a - b).abs() <= 1e-10 * mag) {
                ctx.fail(format!("register {} evaluates to {} after the whole program but to {} right after it was built", t + 1, a, b)); return;
            }
        }
    }
    if any { ctx.nontrivial += 1; }
}

/// Checks derivative expressions of register t against the reference gradient.
fn derivative_ok(ctx: &mut Ctx, p: &Prep, t: usize, v: usize, d: &Node, how: &str) -> bool {
    let r = &p.run;
    for (q, pt) in p.pts.iter().enumerate() {
        let want = &p.refs[q][t];
        if !want.usable(1) { continue; }
        ctx.count("derivative_points");
        let got = d.evaluate(&assign(&r.vars, pt));
        if !close(got, want.g(v)) {
            ctx.fail(format!("{}: d({})/d(variable {}) = {} evaluates to {} at {:?}, but the derivative is {}", how, r.regs[t], v + 1, d, got, pt, want.g(v).0));
            return false;
        }
    }
    true
}

fn c02(ctx: &mut Ctx, case: &Value) {
    let p = prepare(ctx, case, 1, 2);
    let r = &p.run;
    let nv = r.nv();
    let alien = VariableScalar::new_continuous("x");
    let mut any = false;
    for t in targets(&p) {
        let f = &r.regs[t];
        if r.size[t] > 256. && p.refs.iter().any(|j| j[t].usable(1)) {
            let routes = f.all_simple_paths(&r.vars.iter().collect::<Vec<_>>()).values().map(|x| x.len()).max().unwrap_or(0);
            if routes > 100 { ctx.count("over_100_routes"); } if routes > 300 { ctx.count("over_300_routes"); } if routes > 1000 { ctx.count("over_1000_routes"); } }
        let deps: Vec<usize> = (0..nv).filter(|v| p.refs.iter().any(|j| j[t].usable(1) && j[t].g(*v).0 != 0.)).collect();
        if !deps.is_empty() { any = true; }
        for v in 0..nv {
            let d = match deriv(ctx, &p, t, "derivative", || f.derivative(&r.vars[v])) { Some(d) => d, None => continue };
            if !derivative_ok(ctx, &p, t, v, &d, "derivative") { return; }
            if r.uses[t] >> v & 1 == 0 {
                // not even mentioned: zero everywhere, also where the expression is undefined
                let z = d.evaluate(&assign(&r.vars, &p.pts[0]));
                if z != 0. { ctx.fail(format!("derivative of {} by variable {} it does not mention is {}", f, v + 1, z)); return; }
            }
        }
        // several at once: any subset, repeated requests, variables that do not occur
        let mask = p.seed >> 7 | 1;
        let mut req: Vec<&Node> = (0..nv).filter(|v| mask >> (v % 64) & 1 == 1).map(|v| &r.vars[v]).collect();
        let want: HashSet<Node> = req.iter().map(|v| (*v).clone()).chain(std::iter::once(alien.clone())).collect();
        req.push(&alien);
        req.push(req[0]);
        let ds = match deriv(ctx, &p, t, "derivatives", || f.derivatives(&req)) { Some(d) => d, None => continue };
        let keys: HashSet<Node> = ds.keys().cloned().collect();
        if keys != want { ctx.fail(format!("derivatives of {} has {} entries for {} requested variables", f, keys.len(), want.len())); return; }
        for v in 0..nv { if let Some(d) = ds.get(&r.vars[v]) { if !derivative_ok(ctx, &p, t, v, d, "derivatives") { return; } } }
        let z = ds[&alien].evaluate(&assign(&r.vars, &p.pts[0]));
        if z != 0. { ctx.fail(format!("derivative of {} by a variable that does not occur is {}", f, z)); return; }
        // derivative of a derivative
        if r.size[t] <= 8. && r.order >= 2 || (!p.random && r.size[t] <= 6.) { second(ctx, &p, t); }
    }
    if any { ctx.nontrivial += 1; }
}

fn second(ctx: &mut Ctx, p: &Prep, t: usize) {
    let r = &p.run;
    let v = (p.seed % r.nv() as u64) as usize;
    let w = ((p.seed >> 8) % r.nv() as u64) as usize;
    let dd = match deriv(ctx, p, t, "second derivative", || r.regs[t].derivative(&r.vars[v]).derivative(&r.vars[w])) { Some(d) => d, None => return };
    for (q, pt) in p.pts.iter().enumerate() {
        if !p.refs[q][t].ok { continue; }
        let s = crate::jet::Space::get(r.nv(), r.order.max(2));
        let mut regs: Vec<Jet> = pt.iter().enumerate().map(|(k, x)| Jet::var(&s, k, *x)).collect();
        for i in r.ins.iter().take(t + 1 - r.nv()) { let j = prog::den(i, &regs, &s); regs.push(j); }
        if !regs[t].usable(2) { continue; }
        let got = dd.evaluate(&assign(&r.vars, pt));
        if !close(got, regs[t].h(v, w)) {
            ctx.fail(format!("d2({})/d{}d{} = {} evaluates to {} at {:?}, not {}", r.regs[t], v + 1, w + 1, dd, got, pt, regs[t].h(v, w).0)); return;
        }
        ctx.count("second_derivative_points");
    }
}

fn c03(ctx: &mut Ctx, case: &Value) {
    let p = prepare(ctx, case, 2, 2);
    let r = &p.run;
    let nv = r.nv();
    let mut any = false;
    let index: HashMap<&Node, usize> = r.vars.iter().enumerate().map(|(k, v)| (v, k)).collect();
    for t in targets(&p) {
        let wide = nv > 20 && t + 1 == r.regs.len() || nv > 4 && r.ins.len() <= 60 && (nv == 20 || p.seed % 4 == 0) && t + 1 == r.regs.len() && r.size[t] <= 90.;
        if r.size[t] > 14. && !wide { continue; }
        if r.size[t] > 14. { ctx.count("wide_components"); if r.uses[t].count_ones() > 14 { ctx.count("fifteen_variables"); } }
        let c = match deriv(ctx, &p, t, "std_components", || r.regs[t].std_components()) { Some(c) => c, None => continue };
        let mut g: HashMap<usize, &Node> = HashMap::new();
        for (v, e) in c.gphi.iter() {
            match index.get(v) {
                None => { ctx.fail(format!("gradient of {} has an entry for a variable that is not in it", r.regs[t])); return; }
                Some(k) => if g.insert(*k, e).is_some() { ctx.fail(format!("gradient of {} has two entries for variable {}", r.regs[t], k + 1)); return; }
            }
        }
        let mut h: HashMap<(usize, usize), &Node> = HashMap::new();
        for (v, w, e) in c.hphi.iter() {
            match (index.get(v), index.get(w)) {
                (Some(a), Some(b)) => if h.insert((*a.min(b), *a.max(b)), e).is_some() {
                    ctx.fail(format!("Hessian of {} has two entries for variables {} {}", r.regs[t], a + 1, b + 1)); return; },
                _ => { ctx.fail(format!("Hessian of {} has an entry for a variable that is not in it", r.regs[t])); return; }
            }
        }
        for (q, pt) in p.pts.iter().enumerate() {
            let want = &p.refs[q][t];
            if !want.usable(2) { continue; }
            let m = assign(&r.vars, pt);
            let got = c.phi.evaluate(&m);
            if !close(got, want.v()) { ctx.fail(format!("component expression of {} evaluates to {} at {:?}, not {}", r.regs[t], got, pt, want.c[0])); return; }
            for v in 0..nv {
                let got = g.get(&v).map(|e| e.evaluate(&m)).unwrap_or(0.);
                if !close(got, want.g(v)) { ctx.fail(format!("gradient of {} by variable {} is {} at {:?}, not {}", r.regs[t], v + 1, got, pt, want.g(v).0)); return; }
                for w in v..nv {
                    let got = h.get(&(v, w)).map(|e| e.evaluate(&m)).unwrap_or(0.);
                    if !close(got, want.h(v, w)) { ctx.fail(format!("Hessian of {} by variables {} {} is {} at {:?}, not {}", r.regs[t], v + 1, w + 1, got, pt, want.h(v, w).0)); return; }
                    if want.h(v, w).0 != 0. { any = true; }
                    ctx.count("hessian_entries");
                }
            }
        }
    }
    if any { ctx.nontrivial += 1; }
}

fn affine_ok(ctx: &mut Ctx, p: &Prep, t: usize) -> bool {
    let r = &p.run;
    let nv = r.nv();
    let index: HashMap<&Node, usize> = r.vars.iter().enumerate().map(|(k, v)| (v, k)).collect();
    let c = match catch(|| r.regs[t].std_properties()) { Ok(c) => c, Err(e) => { ctx.fail(format!("std_properties of {} panicked: {}", r.regs[t], e)); return false; } };
    let mut a = vec![None; nv];
    for (v, x) in c.a.iter() {
        match index.get(v) {
            None => { ctx.fail(format!("variables of {} include one that is not in it", r.regs[t])); return false; }
            Some(k) => { a[*k] = Some(*x);
                if r.uses[t] >> k & 1 == 0 { ctx.fail(format!("variables of {} include {} which it does not mention", r.regs[t], k + 1)); return false; } }
        }
    }
    for (q, pt) in p.pts.iter().enumerate() {
        let want = &p.refs[q][t];
        if want.usable(1) { for v in 0..nv {
            if want.g(v).0.abs() > 1e-6 * want.g(v).1 && a[v].is_none() {
                ctx.fail(format!("{} depends on variable {} but it is not among its variables", r.regs[t], v + 1)); return false;
            }
        } }
        if c.affine && want.usable(1) {
            ctx.count("affine_points");
            let got = c.b + (0..nv).map(|v| a[v].unwrap_or(0.) * pt[v]).sum::<f64>();
            if !close(got, want.v()) { ctx.fail(format!("{} is reported affine with value {} at {:?}, but its value is {}", r.regs[t], got, pt, want.c[0])); return false; }
            for v in 0..nv { let x = a[v].unwrap_or(0.);
                if !close(x, want.g(v)) { ctx.fail(format!("{} is reported affine with coefficient {} of variable {}, not {}", r.regs[t], x, v + 1, want.g(v).0)); return false; } }
        }
        // an affine function that is undefined nowhere in a neighbourhood has no curvature
        if c.affine && want.usable(2) { for v in 0..nv { for w in 0..nv {
            if want.h(v, w).0.abs() > 1e-6 * want.h(v, w).1 { ctx.fail(format!("{} is reported affine but is curved", r.regs[t])); return false; } } } }
    }
    if let Some(d) = p.deg.get(t) { if *d <= 1 && !c.affine {
        ctx.fail(format!("{} is written as a linear combination of variables but not reported affine", r.regs[t])); return false; } }
    if c.affine && c.a.len() > 0 { ctx.count("affine"); } else if !c.affine { ctx.count("not_affine"); }
    true
}

fn c04(ctx: &mut Ctx, case: &Value) {
    let p = prepare(ctx, case, 2, 2);
    let mut any = false;
    for t in targets(&p) { any = true; if !affine_ok(ctx, &p, t) { return; } }
    if any { ctx.nontrivial += 1; }
}

fn c05(ctx: &mut Ctx, case: &Value) {
    let p = prepare(ctx, case, 1, 2);
    let r = &p.run;
    let nv = r.nv();
    // identity: clones equal and hash alike, separately created ones differ
    for a in 0..nv { for b in 0..nv { if (r.vars[a] == r.vars[b]) != (a == b) {
        ctx.fail(format!("variables {} and {} of the same name compare {}", a + 1, b + 1, r.vars[a] == r.vars[b])); return; } } }
    let other = prog::run_real(&r.names, &vec![false; nv], r.ins.clone(), 5000.);
    for t in 0..r.regs.len() {
        let c = r.regs[t].clone();
        if c != r.regs[t] || hash_of(&c) != hash_of(&r.regs[t]) { ctx.fail(format!("clone of register {} differs from it", t + 1)); return; }
        if t < other.regs.len() && other.regs[t] == r.regs[t] { ctx.fail(format!("separately built registers {} compare equal", t + 1)); return; }
        let (l, g, e) = (r.regs[t].leq(&r.vars[0]), r.regs[t].geq(&r.vars[0]), r.regs[t].equal(&r.vars[0]));
        for k in [&l, &g, &e] { let k2 = k.clone();
            if &k2 != k || hash_of(&k2) != hash_of(k) { ctx.fail("clone of a constraint differs from it".to_string()); return; } }
        let l2 = r.regs[t].leq(&r.vars[0]);
        if l == l2 || l == g || g == e { ctx.fail("separately created constraints compare equal".to_string()); return; }
    }
    // clones of variables address the same values; same-named variables do not
    let clones: Vec<Node> = r.vars.iter().map(|v| v.clone()).collect();
    let mut any = false;
    for t in targets(&p) {
        let q = 1;
        let want = &p.refs[q][t];
        if want.usable(0) {
            let got = r.regs[t].evaluate(&assign(&clones, &p.pts[q]));
            if !close(got, want.v()) { ctx.fail(format!("{} evaluates to {} with values given for clones, not {}", r.regs[t], got, want.c[0])); return; }
            any = true;
        }
        if r.size[t] <= 40. { for v in 0..nv {
            let d = match deriv(ctx, &p, t, "derivative", || r.regs[t].derivative(&clones[v])) { Some(d) => d, None => continue };
            if !derivative_ok(ctx, &p, t, v, &d, "derivative by a clone") { return; }
        } }
        if !affine_ok(ctx, &p, t) { return; }
    }
    if any { ctx.nontrivial += 1; }
}

fn c06(ctx: &mut Ctx, case: &Value) {
    let p = prepare(ctx, case, 0, 2);
    let r = &p.run;
    let set: HashSet<&String> = r.names.iter().collect();
    if set.len() != r.names.len() { ctx.count("ambiguous_names_skipped"); return; }
    // the text of a number is that number
    let mut rng = Rng(hash_str(&case["i"].to_string()) ^ 77);
    for z in 0..4 {
        let v = match z { 0 => f64::from_bits(rng.next()), 1 => (rng.next() >> 4) as f64 / 8., 2 => (rng.next() % 100000) as f64 * 1e-7, _ => rng.sym(1.) };
        if !v.is_finite() { continue; }
        let text = format!("{}", numopt::model::constant::ConstantScalar::new(v));
        if crate::text::eval(&text, &HashMap::new()) != Ok(v) { ctx.fail(format!("the text {:?} of the number {:?} is another number", text, v)); return; }
        ctx.count("numbers");
    }
    let mut any = false;
    for t in targets(&p) {
        let text = format!("{}", r.regs[t]);
        if format!("{:?}", r.regs[t]) != text { ctx.count("debug_text_differs"); }
        for (q, pt) in p.pts.iter().enumerate() {
            let want = &p.refs[q][t];
            if !want.usable(0) { continue; }
            let env: HashMap<&str, f64> = r.names.iter().map(|s| s.as_str()).zip(pt.iter().cloned()).collect();
            match crate::text::eval(&text, &env) {
                Err(e) => { ctx.fail(format!("text {:?} is not an expression: {}", text, e)); return; }
                Ok(got) => if !close(got, want.v()) {
                    ctx.fail(format!("text {:?} means {} at {:?}, but the expression means {}", text, got, pt, want.c[0])); return;
                }
            }
            any = true;
        }
    }
    if any { ctx.nontrivial += 1; }
}

fn combine(n: &Node, x: &[f64]) -> Option<f64> {
    match n {
        Node::FunctionAdd(_) => Some(x.iter().sum()),
        Node::FunctionMul(_) => Some(x.iter().product()),
        Node::FunctionDiv(_) if x.len() == 2 => Some(x[0] / x[1]),
        Node::FunctionCos(_) if x.len() == 1 => Some(x[0].cos()),
        Node::FunctionSin(_) if x.len() == 1 => Some(x[0].sin()),
        _ => None,
    }
}

fn c22(ctx: &mut Ctx, case: &Value) {
    let p = prepare(ctx, case, 0, 1);
    let r = &p.run;
    let nv = r.nv();
    let alien = VariableScalar::new_continuous("x");
    let mut any = false;
    for t in targets(&p) {
        let f = &r.regs[t];
        // every node reachable through arguments, and every route to a variable
        let mut stack: Vec<Vec<Node>> = vec![vec![f.clone()]];
        let mut routes: HashMap<Node, HashMap<Vec<Node>, usize>> = HashMap::new();
        let mut seen: HashSet<Node> = HashSet::new();
        let mut n = 0;
        while let Some(path) = stack.pop() {
            n += 1;
            if n > 60000 { break; }
            let last = path.last().unwrap().clone();
            if let Node::VariableScalar(_) = last { *routes.entry(last.clone()).or_default().entry(path.clone()).or_insert(0) += 1; }
            let args = last.arguments();
            if seen.insert(last.clone()) {
                if last.is_constant() || matches!(last, Node::VariableScalar(_)) {
                    if !args.is_empty() { ctx.fail(format!("{} has arguments", last)); return; }
                } else { for (q, pt) in p.pts.iter().enumerate() {
                    let m = assign(&r.vars, pt);
                    let got = last.evaluate(&m);
                    if !p.refs[q][t].usable(0) { continue; }
                    let xs: Vec<f64> = args.iter().map(|a| a.evaluate(&m)).collect();
                    let mag: f64 = xs.iter().map(|x| x.abs()).sum::<f64>().max(got.abs());
                    match combine(&last, &xs) {
                        Some(w) if (w - got).abs() <= 1e-9 * mag || (w.is_nan() && got.is_nan()) || w == got => {}
                        w => { ctx.fail(format!("arguments {:?} of {} combine to {:?}, but it evaluates to {}", xs, last, w, got)); return; }
                    }
                    ctx.count("nodes_combined");
                } }
            }
            for a in args { let mut q = path.clone(); q.push(a.clone()); stack.push(q); }
        }
        if n > 60000 { ctx.count("too_large"); continue; }
        // the variables of the program that matter must be reached
        for v in 0..nv { if r.uses[t] >> v & 1 == 0 && routes.contains_key(&r.vars[v]) {
            ctx.fail(format!("{} reaches variable {} which the program does not mention", f, v + 1)); return; } }
        for mask in [p.seed >> 5, u64::MAX] {
            let mut req: Vec<&Node> = (0..nv).filter(|v| mask >> (v % 64) & 1 == 1).map(|v| &r.vars[v]).collect();
            req.push(&alien);
            req.push(req[0]);
            let want: HashSet<Node> = req.iter().map(|v| (*v).clone()).collect();
            let got = match catch(|| f.all_simple_paths(&req)) { Ok(g) => g, Err(e) => { ctx.fail(format!("path enumeration panicked: {}", e)); return; } };
            let keys: HashSet<Node> = got.keys().cloned().collect();
            if keys != want { ctx.fail(format!("path enumeration of {} returns {} variables for {} requested", f, keys.len(), want.len())); return; }
            for v in want.iter() {
                let mut m: HashMap<Vec<Node>, usize> = HashMap::new();
                for path in got[v].iter() { *m.entry(path.clone()).or_insert(0) += 1; }
                let w = routes.get(v).cloned().unwrap_or_default();
                if m != w { ctx.fail(format!("path enumeration of {} to {} returns {} routes, but there are {}", f, v, got[v].len(), w.values().sum::<usize>())); return; }
                if !w.is_empty() { any = true; }
                ctx.count("path_sets");
            }
        }
    }
    if any { ctx.nontrivial += 1; }
}
