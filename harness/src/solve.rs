//! Histories of a model's life (spec/Solve.tla) replayed with mock solvers. C11, C12.
use crate::model::{dense, minlp};
use crate::run::{catch, hash_str, Ctx, Rng};
use numopt::model::node_cmp::NodeCmp;
use numopt::model::{Constraint, Model, Node, Objective, VariableScalar};
use numopt::problem::base::{Problem, ProblemSol};
use numopt::solver::base::{Solver, SolverParam, SolverStatus};
use serde_json::{json, Value};
use simple_error::SimpleError;
use std::cell::RefCell;
use std::collections::HashMap;

/// The expressions and constraints of spec/Solve.tla.
const EXPRS: [([i64; 3], [usize; 2]); 12] = [
    ([1, 0, 0], [0, 0]), ([1, 2, 0], [0, 0]), ([0, 1, 0], [1, 2]), ([0, 1, 0], [0, 0]), ([0, 0, 1], [0, 0]), ([2, 0, 0], [0, 0]),
    ([-1, 0, 0], [0, 0]), ([3, -1, 2], [0, 0]), ([0, 0, -2], [1, 1]), ([1, 1, 1], [3, 2]), ([0, 0, 0], [2, 2]), ([0, -3, 1], [0, 0])];
const CONS: [(&str, usize, i64); 32] = [
    ("le", 1, 4), ("le", 1, 3), ("ge", 2, 1), ("eq", 2, 5), ("le", 3, 6), ("ge", 1, -2), ("ge", 1, 0), ("le", 4, 7), ("ge", 4, 7), ("eq", 3, 2), ("eq", 1, 2),
    ("le", 5, 9), ("ge", 5, -9), ("le", 6, 5), ("ge", 6, -5), ("le", 7, 2), ("ge", 7, -8), ("le", 8, 11), ("ge", 8, -11), ("eq", 8, 1), ("ge", 9, 3), ("le", 9, 30),
    ("eq", 9, 4), ("le", 10, 12), ("ge", 10, -12), ("ge", 11, 1), ("le", 12, 13), ("ge", 12, -13), ("le", 1, 3), ("ge", 4, 2), ("le", 4, 5), ("eq", 5, 3)];

const TAG: f64 = 1000.;

/// What a mock solver saw and answered.
#[derive(Default)]
struct Seen { x0: Vec<f64>, x: Vec<f64>, col: Vec<Option<usize>>, rows: Vec<(Vec<f64>, f64, f64)>, g: Vec<f64>, l: Vec<(f64, f64)>, u: Vec<(f64, f64)>, nx: usize }

/// `scale`: of the multipliers and of the values it returns (powers of two).
struct Mock { nv: usize, scale: (f64, f64), outcome: String, k: i64, seed: u64, seen: RefCell<Option<Seen>>, params: HashMap<String, SolverParam> }

impl Solver for Mock {
    fn get_params(&self) -> &HashMap<String, SolverParam> { &self.params }
    fn get_params_mut(&mut self) -> &mut HashMap<String, SolverParam> { &mut self.params }
    fn solve(&self, p: &mut Problem) -> Result<(SolverStatus, ProblemSol), SimpleError> {
        match self.outcome.as_str() { "fail" => return Err(SimpleError::new("no")), "panic" => panic!("mock solver"), _ => {} }
        let status = match self.outcome.as_str() { "solved" => SolverStatus::Solved, "infeasible" => SolverStatus::Infeasible, "unknown" => SolverStatus::Unknown, _ => SolverStatus::Error };
        let m = minlp(p);
        let (nx, na, nf) = (m.nx(), m.na(), m.nf());
        let x0 = m.x0().map(|x| x.to_vec()).unwrap_or(vec![0.; nx]);
        let mut s = Seen { nx, x0: x0.clone(), col: vec![None; self.nv], ..Default::default() };
        let mut x = vec![0.; nx];
        for j in 0..nx { // columns of variables with an initial value are known by it
            let v = x0[j] - TAG; if v >= 0. && v < self.nv as f64 && v.fract() == 0. { let v = v as usize; { s.col[v] = Some(j); x[j] = (100 * self.k + v as i64 + 1) as f64; } }
        }
        let mut known = vec![false; nx];
        for c in s.col.iter().flatten() { known[*c] = true; }
        m.evaluate(&x);
        let (a, j) = (dense(m.a()).unwrap(), dense(m.j()).unwrap());
        let (b, f) = (m.b().to_vec(), m.f().to_vec());
        s.g = m.gphi().to_vec();
        let mut sol = ProblemSol::new(nx, na, nf);
        // distinct multipliers
        let mut pool: Vec<f64> = (1..(2 * nx + na + nf + 20) as i64).map(|i| i as f64).collect();
        let mut rng = Rng(self.seed);
        for i in (1..pool.len()).rev() { pool.swap(i, rng.below(i as u64 + 1) as usize); }
        for c in 0..nx {
            sol.mu[c] = if m.u()[c] < 1e8 { pool.pop().unwrap() } else { 0. };
            sol.pi[c] = if m.l()[c] > -1e8 { pool.pop().unwrap() } else { 0. };
            s.u.push((m.u()[c], sol.mu[c]));
            s.l.push((m.l()[c], sol.pi[c]));
        }
        for i in 0..na + nf {
            let row = if i < na { a[i].clone() } else { j[i - na].clone() };
            let aux: Vec<usize> = (0..nx).filter(|c| row[*c] != 0. && !known[*c]).collect();
            let lam = if aux.len() == 1 { (sol.mu[aux[0]] - sol.pi[aux[0]] + s.g[aux[0]]) / row[aux[0]] } else { let m = pool.pop().unwrap(); if rng.below(2) == 0 { m } else { -m } };
            let val = if i < na { row.iter().zip(x.iter()).map(|(a, x)| a * x).sum::<f64>() - b[i] } else { f[i - na] };
            if i < na { sol.lam[i] = lam } else { sol.nu[i - na] = lam }
            s.rows.push((row, val, lam));
        }
        for c in 0..nx { if !known[c] { x[c] = -((100 * self.k) as f64) - c as f64; } }
        s.x = x.clone();
        sol.x = x.iter().map(|x| x * self.scale.1).collect();
        for m in sol.mu.iter_mut().chain(sol.pi.iter_mut()).chain(sol.lam.iter_mut()).chain(sol.nu.iter_mut()) { *m *= self.scale.0; }
        *self.seen.borrow_mut() = Some(s);
        Ok((status, sol))
    }
}

fn expr(vars: &[Node], e: usize, style: u64) -> Node {
    let (l, q) = EXPRS[e - 1];
    let mut n: Option<Node> = None;
    for v in 0..3 { if l[v] != 0 {
        let t = if l[v] == 1 { vars[v].clone() } else if l[v] == -1 && style % 2 == 0 { -&vars[v] } else { &vars[v] * l[v] as f64 };
        n = Some(match n { None => t, Some(n) => n + t });
    } }
    if q[0] != 0 { let t = &vars[q[0] - 1] * &vars[q[1] - 1]; n = Some(match n { None => t, Some(n) => if style % 3 == 0 { t + n } else { n + t } }); }
    n.unwrap()
}

/// The constraint, and -1 if it is an equality written the other way round (its gradient is then the opposite).
fn con(vars: &[Node], c: usize, style: u64) -> (Constraint, f64) {
    let s = if CONS[c - 1].0 == "eq" && style % 4 == 0 { -1. } else { 1. };
    (con1(vars, c, style), s)
}
fn con1(vars: &[Node], c: usize, style: u64) -> Constraint {
    let (op, e, r) = CONS[c - 1];
    let (n, r) = (expr(vars, e, style), r as f64);
    match (op, style % 4) {
        ("eq", 0) => r.equal(&n), ("le", 0) => r.geq(&n), ("ge", 0) => r.leq(&n),
        ("eq", 1) => n.equal_and_tag(r, "t"), ("le", 1) => n.leq_and_tag(r, "t"), ("ge", 1) => n.geq_and_tag(r, "t"),
        ("eq", 2) => (&n - r).equal(0.), ("le", 2) => (&n + 1.).leq(r + 1.), ("ge", 2) => n.geq(r),
        ("eq", _) => n.equal(r), ("le", _) => n.leq(r), _ => n.geq(r),
    }
}

fn int(x: f64) -> Option<Value> { if x.fract() == 0. && x.abs() < 1e9 { Some(json!(x as i64)) } else { None } }
fn ints(x: &[f64]) -> Option<Vec<Value>> { x.iter().map(|x| int(*x)).collect() }

pub fn check(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    let alike = case["d"].as_i64() == Some(1);
    let nv = case["n"].as_u64().unwrap() as usize;
    let vars: Vec<Node> = (0..nv).map(|v| { let n = if alike { "x".to_string() } else { format!("v{}", v) };
        if v % 3 == 2 { VariableScalar::new_integer(&n) } else { VariableScalar::new_continuous(&n) } }).collect();
    let mut m = Model::new();
    let mut cons: Vec<(usize, Constraint, f64)> = Vec::new();
    let mut obj = ("none".to_string(), 1usize);
    let mut at_solve: Vec<Constraint> = Vec::new();
    let mut duals: Vec<(Constraint, f64)> = Vec::new();
    let mut k = 0;
    let mut size_of_x = 1.;
    let seed = hash_str(&case["h"].to_string());
    let mut rng = Rng(seed);
    let steps = case["h"].as_array().unwrap();
    for (n, st) in steps.iter().enumerate() {
        let (what, arg, num) = (st["s"][0].as_str().unwrap(), st["s"][1].as_str().unwrap(), st["s"][2].as_i64().unwrap() as usize);
        let group = st["s"][3].as_i64().unwrap() as usize;
        let vs = if group == 0 { &vars[..] } else { &vars[3 * group - 3..3 * group] };
        match what {
            "obj" => {
                obj = (arg.to_string(), num);
                m.set_objective(match arg { "min" => Objective::minimize(&expr(vs, num, seed)), "max" => Objective::maximize(&expr(vs, num, seed)), _ => Objective::empty() });
            }
            "con" => { let (c, sign) = con(vs, num, rng.next()); if rng.below(2) == 0 { m.add_constraint(&c) } else { m.add_constraints(&[&c]) } cons.push((num, c, sign)); }
            "init" => { let h: HashMap<&Node, f64> = (0..nv).filter(|v| num >> v & 1 == 1).map(|v| (&vars[v], TAG + v as f64)).collect(); m.set_init_primals(&h); }
            "solve" => {
                k += 1;
                let mut pick = || 2f64.powi([0, 0, -20, -50, 30][rng.below(5) as usize]);
                let mut scale = (pick(), pick());
                if rng.below(6) == 0 { scale.1 = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN][rng.below(3) as usize]; }
                size_of_x = scale.1;
                let s = Mock { nv, scale, outcome: arg.to_string(), k, seed: rng.next(), seen: RefCell::new(None), params: HashMap::new() };
                let r = catch(|| m.solve(&s).is_ok());
                at_solve = cons.iter().map(|c| c.1.clone()).collect();
                match (&r, arg) {
                    (Ok(true), "fail") | (Ok(true), "panic") | (Ok(false), "panic") => { ctx.fail(format!("step {}: solve succeeds although the solver fails", n + 1)); return; }
                    (Ok(false), a) if a != "fail" => { ctx.fail(format!("step {}: solve fails although the solver returned {}", n + 1, a)); return; }
                    (Err(e), a) if a != "panic" => { ctx.fail(format!("step {}: solve panicked: {}", n + 1, e)); return; }
                    _ => {}
                }
                ctx.count(&format!("solve_{}", arg));
                if ctx.is("C09") { // the start point: the values given, and zeros
                    if let Some(seen) = &*s.seen.borrow() {
                        let mut want: Vec<f64> = (0..nv).filter(|v| st["r"][1][*v].as_i64().unwrap() > 0).map(|v| TAG + v as f64).collect();
                        let mut got: Vec<f64> = seen.x0.iter().cloned().filter(|x| *x != 0.).collect();
                        want.sort_by(|a, b| a.partial_cmp(b).unwrap()); got.sort_by(|a, b| a.partial_cmp(b).unwrap());
                        ctx.count("starts_compared");
                        if want != got { ctx.fail(format!("step {}: the problem starts with values {:?}, but the model with {:?}", n + 1, got, want)); return; }
                    }
                    continue;
                }
                duals = m.final_duals().into_iter().map(|(c, d)| (c.clone(), d)).collect();
                if arg == "fail" || arg == "panic" { at_solve.clear(); }
                else if ctx.is("C12") && nv == 3 { c12(ctx, &m, &s, &cons, &obj, &st["r"]); }
            }
            x => panic!("harness: step {}", x),
        }
        if ctx.is("C09") { continue; }
        // the results are those of the last successful solve
        let r = &st["r"];
        let status = match m.solver_status() { None => "none", Some(SolverStatus::Solved) => "solved", Some(SolverStatus::Infeasible) => "infeasible", Some(SolverStatus::Unknown) => "unknown", Some(SolverStatus::Error) => "error" };
        if status != r[0].as_str().unwrap() { ctx.fail(format!("step {}: status {} where {} is expected", n + 1, status, r[0])); return; }
        let got = m.final_primals();
        let mut size = 0;
        for v in 0..nv {
            let want = r[1][v].as_i64().unwrap();
            match (want, got.get(&vars[v])) {
                (0, None) => {}
                (0, Some(x)) => { ctx.fail(format!("step {}: variable {} has value {} although it is not solved for", n + 1, v + 1, x)); return; }
                (_, None) => { ctx.fail(format!("step {}: variable {} has no value", n + 1, v + 1)); return; }
                (-1, Some(_)) => size += 1,
                (w, Some(x)) => { size += 1; ctx.count("values_compared"); let want = w as f64 * size_of_x; if *x != want && !(x.is_nan() && want.is_nan()) { ctx.fail(format!("step {}: variable {} has value {}, the solver gave it {}", n + 1, v + 1, x, w)); return; } }
            }
        }
        // auxiliary variables may not be results
        if got.len() != size && r[0] == "none" { ctx.fail(format!("step {}: values of {} variables where there is no result", n + 1, got.len())); return; }
        let d = m.final_duals();
        if r[0] == "none" && !d.is_empty() { ctx.fail(format!("step {}: {} duals where there is no result", n + 1, d.len())); return; }
        if d.keys().any(|c| !at_solve.contains(c)) { ctx.fail(format!("step {}: a constraint that was not solved for has a dual", n + 1)); return; }
        if d.len() != duals.len() || duals.iter().any(|(c, v)| d.get(c) != Some(v)) { ctx.fail(format!("step {}: the duals changed without a solve", n + 1)); return; }
    }
    if k > 0 { ctx.nontrivial += 1; }
    if seed % 150 == 0 && !ctx.is("C09") && ctx.violations.is_empty() { side(ctx, seed, alike); }
}

/// Models over three variables each, side by side: solved as one, the results of every one of
/// them must be those of its own variables and constraints (TLC judges each by itself).
fn side(ctx: &mut Ctx, seed: u64, alike: bool) {
    let mut rng = Rng(seed ^ 0x51de);
    let parts = [10, 50, 100, 200, 400][rng.below(5) as usize];
    let nv = 3 * parts;
    let vars: Vec<Node> = (0..nv).map(|v| { let n = if alike { "x".to_string() } else { format!("v{}", v) };
        if v % 3 == 2 { VariableScalar::new_integer(&n) } else { VariableScalar::new_continuous(&n) } }).collect();
    let dir = ["min", "max", "none"][rng.below(3) as usize];
    let linear = rng.below(2) == 0; // (of the objective)
    let (mut objs, mut cons, mut sum): (Vec<usize>, Vec<Vec<(usize, Constraint, f64)>>, Option<Node>) = (vec![], vec![], None);
    for g in 0..parts {
        let vs = &vars[3 * g..3 * g + 3];
        let mut e = if dir == "none" { 0 } else { rng.below(13) as usize };
        if linear && e > 0 && EXPRS[e - 1].1[0] != 0 { e = 1; }
        if e > 0 { let t = expr(vs, e, rng.next()); sum = Some(match sum { None => t, Some(s) => s + t }); }
        objs.push(e);
        cons.push((0..rng.below(5)).map(|_| { let num = 1 + rng.below(32) as usize; let (c, sign) = con(vs, num, rng.next()); (num, c, sign) }).collect());
    }
    let mut m = Model::new();
    if let Some(s) = sum { m.set_objective(if dir == "min" { Objective::minimize(&s) } else { Objective::maximize(&s) }); }
    let mut all: Vec<&Constraint> = cons.iter().flatten().map(|c| &c.1).collect();
    for i in (1..all.len()).rev() { all.swap(i, rng.below(i as u64 + 1) as usize); }
    m.add_constraints(&all);
    m.set_init_primals(&(0..nv).map(|v| (&vars[v], TAG + v as f64)).collect());
    let s = Mock { nv, scale: (1., 1.), outcome: "solved".to_string(), k: 1, seed: rng.next(), seen: RefCell::new(None), params: HashMap::new() };
    match catch(|| m.solve(&s).is_ok()) { Ok(true) => {}, r => { ctx.fail(format!("solve of {} models side by side: {:?}", parts, r)); return; } }
    ctx.count("solved_side_by_side");
    let seen = s.seen.borrow();
    let seen = seen.as_ref().unwrap();
    let values = m.final_primals();
    for v in 0..nv {
        let (got, want) = (values.get(&vars[v]).cloned(), seen.col[v].map(|c| seen.x[c]));
        if got != want { ctx.fail(format!("{} models side by side: variable {} of {} has value {:?}, the solver gave it {:?}", parts, v + 1, nv, got, want)); return; }
    }
    ctx.count("values_compared");
    if !ctx.is("C12") { return; }
    let mut owner = vec![parts; seen.nx];
    for v in 0..nv { if let Some(c) = seen.col[v] { owner[c] = v / 3; } }
    let mut rows: Vec<Vec<usize>> = vec![vec![]; parts];
    for (i, (a, _, _)) in seen.rows.iter().enumerate() {
        let own: Vec<usize> = (0..seen.nx).filter(|c| a[*c] != 0. && owner[*c] < parts).map(|c| owner[c]).collect();
        if own.iter().any(|g| *g != own[0]) { ctx.fail(format!("{} models side by side: a row has variables of two of them", parts)); return; }
        if own.is_empty() { ctx.count("row_without_variables"); return; }
        rows[own[0]].push(i);
    }
    let duals = m.final_duals();
    for g in 0..parts {
        let mut cols: Vec<usize> = (0..3).filter_map(|v| seen.col[3 * g + v]).collect();
        for i in &rows[g] { for c in 0..seen.nx { if seen.rows[*i].0[c] != 0. && !cols.contains(&c) { cols.push(c); } } }
        let mut cs = Vec::new();
        for (i, c, sign) in &cons[g] {
            match duals.get(c) {
                None => cs.push(json!([i, 0, 0])),
                Some(x) => match int(sign * *x) { Some(x) => cs.push(json!([i, 1, x])), None => { ctx.fail(format!("dual {} of constraint {} is no multiplier the solver returned", x, c)); return; } },
            }
        }
        let rec = (|| {
            let rows: Option<Vec<Value>> = rows[g].iter().map(|i| { let (a, v, l) = &seen.rows[*i];
                Some(json!({"a": ints(&cols.iter().map(|c| a[*c]).collect::<Vec<_>>())?, "v": int(*v)?, "m": int(*l)?})) }).collect();
            let lim = |x: &Vec<(f64, f64)>| -> Option<Vec<Value>> { cols.iter().map(|c| { let (v, m) = x[*c]; Some(json!([if v.abs() >= 1e8 { json!(0) } else { int(v)? }, (v.abs() < 1e8) as i64, int(m)?])) }).collect() };
            Some(json!({"obj": [if objs[g] == 0 { "none" } else { dir }, objs[g].max(1)], "cons": cs, "nx": cols.len(),
                "col": (0..3).map(|v| seen.col[3 * g + v].map(|c| 1 + cols.iter().position(|k| *k == c).unwrap()).unwrap_or(0)).collect::<Vec<_>>(),
                "x": (0..3).map(|v| seen.col[3 * g + v].map(|c| seen.x[c]).unwrap_or(0.) as i64).collect::<Vec<_>>(),
                "rows": rows?, "g": ints(&cols.iter().map(|c| seen.g[*c]).collect::<Vec<_>>())?, "l": lim(&seen.l)?, "u": lim(&seen.u)?}))
        })();
        match rec { Some(v) => { ctx.count("recorded_parts"); ctx.records.push(v) }, None => ctx.count("not_recorded") }
    }
}

/// What the solver saw and answered, and the duals that came of it, for spec/SolveCheck.tla.
fn c12(ctx: &mut Ctx, m: &Model, s: &Mock, cons: &[(usize, Constraint, f64)], obj: &(String, usize), r: &Value) {
    let seen = s.seen.borrow();
    let seen = seen.as_ref().unwrap();
    // every variable solved for must be told apart
    if (0..3).any(|v| r[1][v].as_i64() == Some(-1)) { ctx.count("unidentified"); return; }
    if (0..3).any(|v| (r[1][v].as_i64() != Some(0)) != seen.col[v].is_some()) { ctx.fail("a variable has no column or a column that belongs to no variable".to_string()); return; }
    let d = m.final_duals();
    let mut cs = Vec::new();
    for (i, c, sign) in cons {
        match d.get(c) {
            None => cs.push(json!([i, 0, 0])),
            Some(x) => match int(sign * *x / s.scale.0) { Some(x) => cs.push(json!([i, 1, x])), None => { ctx.fail(format!("dual {} of constraint {} is no multiplier the solver returned", x, c)); return; } },
        }
    }
    let rec = (|| {
        let rows: Option<Vec<Value>> = seen.rows.iter().map(|(a, v, l)| Some(json!({"a": ints(a)?, "v": int(*v)?, "m": int(*l)?}))).collect();
        let lim = |x: &Vec<(f64, f64)>| -> Option<Vec<Value>> { x.iter().map(|(v, m)| Some(json!([if v.abs() >= 1e8 { json!(0) } else { int(*v)? }, (v.abs() < 1e8) as i64, int(*m)?]))).collect() };
        Some(json!({"obj": [obj.0, obj.1], "cons": cs, "nx": seen.nx, "col": seen.col.iter().map(|c| c.map(|c| c + 1).unwrap_or(0)).collect::<Vec<_>>(),
            "x": seen.col.iter().map(|c| c.map(|c| seen.x[c]).unwrap_or(0.) as i64).collect::<Vec<_>>(),
            "rows": rows?, "g": ints(&seen.g)?, "l": lim(&seen.l)?, "u": lim(&seen.u)?}))
    })();
    match rec { Some(v) => { ctx.count("recorded_solves"); ctx.records.push(v) }, None => ctx.count("not_recorded") }
}
