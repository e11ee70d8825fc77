//! Models solved end to end by the real solvers: exact optimum (spec/Opt.tla, C21), known primal and
//! dual solution (spec/KktGen.tla, C12).
use crate::run::{catch, hash_str, Ctx, Rng};
use numopt::model::node_cmp::NodeCmp;
use numopt::model::{Constraint, Model, Node, Objective, VariableScalar};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use numopt::solver::{SolverCbcCmd, SolverClpCmd, SolverIpopt};
use serde_json::Value;
use std::collections::HashMap;

fn nums(v: &Value) -> Vec<f64> { v.as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap()).collect()).unwrap_or_default() }

/// The sum of coefficient times variable (times variable again: quad) in some writing.
fn terms(vars: &[Node], a: &[f64], quad: &[f64], k: f64, rng: &mut Rng) -> Vec<Node> {
    let mut t = Vec::new();
    for (i, x) in vars.iter().enumerate() {
        let mut c = a[i];
        if rng.below(6) == 0 { let e = rng.below(5) as f64 - 2.; if e != 0. { t.push(x * e); c -= e; } }
        if c != 0. || rng.below(12) == 0 { t.push(match rng.below(5) { 0 => c * x, 1 if c == 1. => x.clone(), 2 if c == -1. => -x, 3 if c != 0. => x / (1. / c), _ => x * c }); }
        if quad[i] != 0. { t.push(match rng.below(3) { 0 => quad[i] * x * x, 1 => x * (quad[i] * x), _ => (x * x) * quad[i] }); }
    }
    if k != 0. { if rng.below(2) == 0 { let h = rng.below(5) as f64; t.push(VariableScalar::new_continuous("z") * 0. + (k - h)); t.push(numopt::model::constant::ConstantScalar::new(h)); } else { t.push(numopt::model::constant::ConstantScalar::new(k)); } }
    for i in (1..t.len()).rev() { let j = rng.below(i as u64 + 1) as usize; t.swap(i, j); }
    t
}
fn sum(t: Vec<Node>, rng: &mut Rng) -> Node {
    let mut t = t;
    if t.is_empty() { return numopt::model::constant::ConstantScalar::new(0.); }
    while t.len() > 1 {
        let i = if rng.below(3) == 0 { rng.below(t.len() as u64 - 1) as usize } else { 0 };
        let b = t.remove(i + 1);
        let a = t.remove(i);
        t.insert(i, match rng.below(4) { 0 => &a + &b, 1 => a + b, 2 => a - (-&b), _ => &a + b });
    }
    t.pop().unwrap()
}
/// terms  op  b  in some writing; both sides may hold variables. lhs - rhs stays terms - b.
fn relate(op: &str, t: Vec<Node>, b: f64, rng: &mut Rng) -> Constraint {
    let n = t.len();
    if n > 0 && rng.below(3) == 0 { // some terms to the right
        let cut = rng.below(n as u64 + 1) as usize;
        let right: Vec<Node> = t[cut..].iter().map(|x| -x).collect();
        let l = sum(t[..cut].to_vec(), rng);
        let r = sum(right, rng) + b;
        return match op { "le" => l.leq(&r), "ge" => l.geq(&r), _ => l.equal(&r) };
    }
    let l = sum(t, rng);
    match (op, rng.below(3)) {
        ("le", 0) => b.geq(&l), ("ge", 0) => b.leq(&l), // the scalar first
        ("le", _) => l.leq(b), ("ge", _) => l.geq(b), _ => l.equal(b),
    }
}

fn solver(name: &str) -> Box<dyn Solver> {
    match name {
        "cbc" => { let mut s = SolverCbcCmd::new(); s.set_param("logLevel", SolverParam::IntParam(0)).unwrap(); Box::new(s) }
        "clp" => { let mut s = SolverClpCmd::new(); s.set_param("logLevel", SolverParam::IntParam(0)).unwrap(); Box::new(s) }
        _ => { let mut s = SolverIpopt::new(); s.set_param("print_level", SolverParam::IntParam(0)).unwrap(); s.set_param("sb", SolverParam::StrParam("yes".to_string())).unwrap(); Box::new(s) }
    }
}
fn start(m: &mut Model, vars: &[Node], rng: &mut Rng) {
    if rng.below(2) == 0 { return; }
    let vals: Vec<(&Node, f64)> = vars.iter().filter(|_| rng.below(3) > 0).map(|v| v).collect::<Vec<_>>().into_iter().map(|v| (v, rng.below(7) as f64 - 3.)).collect();
    m.set_init_primals(&vals.into_iter().collect::<HashMap<&Node, f64>>());
}
fn seed(case: &Value) -> u64 { hash_str(&case.to_string()) ^ (std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64) << 20) }

pub fn check(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    let q = &case["q"];
    let mut rng = Rng(seed(case));
    let ints: Vec<bool> = q["ints"].as_array().unwrap().iter().map(|b| b == true).collect();
    let d = q["d"].as_f64().unwrap();
    let part = |v: &Value| nums(v).iter().map(|x| x / d).collect::<Vec<f64>>();
    let (lo, hi, c) = (part(&q["lo"]), part(&q["hi"]), nums(&q["c"]));
    let (c0, max) = (q["c0"].as_f64().unwrap(), q["dir"] == "max");
    let nv = c.len();
    let bests: Vec<(f64, f64)> = case["best"].as_array().unwrap().iter().map(|b| (b[0].as_f64().unwrap(), b[1].as_f64().unwrap())).collect();
    let feasible = bests.iter().all(|b| b.1 > 0.);
    let best = if feasible { bests.iter().map(|b| b.0 / b.1).sum::<f64>() + c0 } else { 0. };
    let any_int = ints.iter().any(|b| *b);
    let mut solvers = vec!["cbc"];
    if !any_int { solvers.push("clp"); if case["strict"] == true { solvers.push("ipopt"); } }
    for name in solvers {
        let same = rng.below(4) == 0;
        let vars: Vec<Node> = (0..nv).map(|i| { let n = if same { "x".to_string() } else { format!("x{}", i) }; if ints[i] { VariableScalar::new_integer(&n) } else { VariableScalar::new_continuous(&n) } }).collect();
        let zero = vec![0.; nv];
        let mut m = Model::new();
        let f = sum(terms(&vars, &c, &zero, c0, &mut rng), &mut rng);
        if c.iter().all(|x| *x == 0.) && rng.below(2) == 0 { if rng.below(2) == 0 { m.set_objective(Objective::empty()); } }
        else { m.set_objective(if max { Objective::maximize(&f) } else { Objective::minimize(&f) }); }
        let mut cons: Vec<Constraint> = Vec::new();
        for i in 0..nv {
            let mut one = zero.clone();
            let s = [1., 1., 2., -1.][rng.below(4) as usize];
            one[i] = s;
            cons.push(relate(if s > 0. { "ge" } else { "le" }, terms(&vars, &one, &zero, 0., &mut rng), s * lo[i], &mut rng));
            cons.push(relate(if s > 0. { "le" } else { "ge" }, terms(&vars, &one, &zero, 0., &mut rng), s * hi[i], &mut rng));
        }
        for r in q["rows"].as_array().unwrap() { let k = rng.below(5) as f64 - 2.; cons.push(relate(r[0].as_str().unwrap(), terms(&vars, &nums(&r[1]), &zero, k, &mut rng), r[2].as_f64().unwrap() + k, &mut rng)); }
        for i in (1..cons.len()).rev() { let j = rng.below(i as u64 + 1) as usize; cons.swap(i, j); }
        for k in cons.iter() { m.add_constraint(k); }
        start(&mut m, &vars, &mut rng);
        let r = catch(|| m.solve(&*solver(name)).map_err(|e| e.to_string()));
        let text = || format!("{}", m).replace('\n', "; ");
        match &r { Ok(Ok(())) => (), e => { ctx.fail(format!("{}: {:?} for {}", name, e, text())); return; } }
        ctx.count(&format!("{}_{}", name, if feasible { "solved" } else { "infeasible" }));
        let status = m.solver_status();
        let want = if feasible { SolverStatus::Solved } else { SolverStatus::Infeasible };
        // an infeasible linear model is an error or infeasible to Clp alike: never solved
        if status != Some(&want) { if feasible || any_int || name == "cbc" || status == Some(&SolverStatus::Solved) { ctx.fail(format!("{}: status {:?} where {} is the truth for {}", name, status, want, text())); return; } }
        if !feasible { continue; }
        let pr = m.final_primals();
        let tol = if name == "ipopt" { 1e-5 } else { 1e-6 };
        let x: Vec<f64> = vars.iter().enumerate().map(|(i, v)| pr.get(v).cloned().unwrap_or_else(|| if cons.is_empty() { lo[i] } else { f64::NAN })).collect();
        for i in 0..nv {
            if !(x[i] >= lo[i] - tol && x[i] <= hi[i] + tol) || (ints[i] && (x[i] - x[i].round()).abs() > tol) { ctx.fail(format!("{}: variable {} is {} for {}", name, i + 1, x[i], text())); return; }
        }
        for r in q["rows"].as_array().unwrap() {
            let s: f64 = nums(&r[1]).iter().zip(&x).map(|(a, x)| a * x).sum::<f64>() - r[2].as_f64().unwrap();
            let bad = match r[0].as_str().unwrap() { "le" => s > 10. * tol, "ge" => s < -10. * tol, _ => s.abs() > 10. * tol };
            if bad { ctx.fail(format!("{}: {:?} does not satisfy {} in {}", name, x, r, text())); return; }
        }
        let v: f64 = c.iter().zip(&x).map(|(a, x)| a * x).sum::<f64>() + c0;
        if !((v - best).abs() <= 100. * tol) { ctx.fail(format!("{}: objective {} at {:?} where the best is {} for {}", name, v, x, best, text())); return; }
    }
    ctx.nontrivial += 1;
}

/// A convex model with its only primal and dual solution.
pub fn kkt(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    let mut rng = Rng(seed(case));
    let (xs, w, g) = (nums(&case["x"]), nums(&case["w"]), nums(&case["g"]));
    let nv = xs.len();
    let max = case["dir"] == "max";
    let cs = case["cs"].as_array().unwrap();
    let lp = w.iter().all(|w| *w == 0.);
    let eqs = cs.iter().filter(|c| c["op"] == "eq").count();
    let mut solvers = if lp { vec!["cbc", "clp"] } else { vec![] };
    if eqs < nv { solvers.push("ipopt"); }
    for name in solvers {
        let same = rng.below(4) == 0;
        let vars: Vec<Node> = (0..nv).map(|i| VariableScalar::new_continuous(&if same { "x".to_string() } else { format!("x{}", i) })).collect();
        // sum w (x - xs)^2 + g x, with its sign
        let s = if max { -1. } else { 1. };
        let mut parts = Vec::new();
        let mut lin = vec![0.; nv];
        let mut quad = vec![0.; nv];
        for i in 0..nv {
            lin[i] += s * g[i];
            if w[i] != 0. {
                if rng.below(2) == 0 { let d = &vars[i] - xs[i]; parts.push(if rng.below(2) == 0 { (s * w[i]) * (&d * &d) } else { &d * &d * (s * w[i]) }); }
                else { quad[i] += s * w[i]; lin[i] -= s * 2. * w[i] * xs[i]; }
            }
        }
        parts.extend(terms(&vars, &lin, &quad, 0., &mut rng));
        let f = sum(parts, &mut rng);
        let mut m = Model::new();
        m.set_objective(if max { Objective::maximize(&f) } else { Objective::minimize(&f) });
        let mut cons: Vec<(Constraint, f64, &Value)> = Vec::new();
        for c in cs {
            let op = c["op"].as_str().unwrap();
            let k = [1., 1., 1., 2., -1., 0.5][rng.below(6) as usize];
            let sg = if op == "ge" { -1. } else { 1. };
            let a: Vec<f64> = nums(&c["a"]).iter().map(|x| k * x).collect();
            let d: Vec<f64> = nums(&c["d"]).iter().map(|x| k * sg * x).collect();
            let op2 = if k < 0. { match op { "le" => "ge", "ge" => "le", x => x } } else { op };
            let mult = c["m"].as_f64().unwrap() / if op == "eq" { k } else { k.abs() };
            cons.push((relate(op2, terms(&vars, &a, &d, 0., &mut rng), k * c["b"].as_f64().unwrap(), &mut rng), mult, c));
        }
        for i in (1..cons.len()).rev() { let j = rng.below(i as u64 + 1) as usize; cons.swap(i, j); }
        for k in cons.iter() { m.add_constraint(&k.0); }
        start(&mut m, &vars, &mut rng);
        let r = catch(|| m.solve(&*solver(name)).map_err(|e| e.to_string()));
        let text = || format!("{}", m).replace('\n', "; ");
        match &r { Ok(Ok(())) => (), e => { ctx.fail(format!("{}: {:?} for {}", name, e, text())); return; } }
        if m.solver_status() != Some(&SolverStatus::Solved) { ctx.count(&format!("{}_unsolved", name)); ctx.fail(format!("{}: status {:?} for {}", name, m.solver_status(), text())); return; }
        ctx.count(&format!("{}_solved", name));
        let (pr, du) = (m.final_primals(), m.final_duals());
        for i in 0..nv { match pr.get(&vars[i]) {
            Some(v) => if !((v - xs[i]).abs() <= 1e-3) { ctx.fail(format!("{}: variable {} is {} where the optimum has {} for {}", name, i + 1, v, xs[i], text())); return; },
            // a variable that occurs nowhere has no value
            None => if g[i] != 0. || w[i] != 0. || cs.iter().any(|c| nums(&c["a"])[i] != 0. || nums(&c["d"])[i] != 0.) { ctx.fail(format!("{}: variable {} has no value for {}", name, i + 1, text())); return; } } }
        for (c, mult, def) in cons.iter() {
            // a constraint without variables limits nothing
            if nums(&def["a"]).iter().chain(nums(&def["d"]).iter()).all(|x| *x == 0.) { continue; }
            let got = du.get(c).cloned();
            match got {
                Some(v) => if !((v - mult).abs() <= 1e-3 * (1. + mult.abs())) { ctx.fail(format!("{}: {} has dual {} where it is {} for {}", name, c, v, mult, text())); return; },
                // dominated limits carry no dual
                None => if *mult != 0. { ctx.fail(format!("{}: {} has no dual where it is {} for {}", name, c, mult, text())); return; },
            }
            ctx.count("duals");
        }
    }
    ctx.nontrivial += 1;
}
