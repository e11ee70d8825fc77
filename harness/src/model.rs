//! Models (spec/ModelGen.tla): text, standard problem, evaluation. C05 to C10.
use crate::expr::{assign, hash_of};
use crate::jet::{close, Jet, Space};
use crate::prog::{self, Run};
use crate::run::{catch, hash_str, Ctx, Rng};
use numopt::matrix::coo::CooMat;
use numopt::model::model_std::{ModelStd, ModelStdProb};
use numopt::model::node_cmp::NodeCmp;
use numopt::model::node_std::NodeStd;
use numopt::model::{Constraint, Model, Node, Objective};
use numopt::problem::base::Problem;
use numopt::problem::minlp::ProblemMinlp;
use serde_json::Value;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Side { Reg(usize), Num(f64) }
#[derive(Clone, Debug)]
pub struct Con { pub op: String, pub form: String, pub l: Side, pub r: Side, pub label: String }

pub struct Built {
    pub run: Run,
    pub kinds: Vec<bool>,
    pub con: Vec<Con>,
    pub cons: Vec<Constraint>,
    pub dir: String,
    pub oreg: usize,
    pub model: Model,
    pub init: Vec<Option<f64>>,
    pub pts: Vec<Vec<f64>>,
    pub verdict: Vec<i64>,
    pub oval: Vec<Option<f64>>,
    pub refs: Vec<Vec<Jet>>,
    pub seed: u64,
}

fn q(v: &Value) -> f64 { v[0].as_f64().unwrap() / v[1].as_f64().unwrap() }

/// Makes the constraint in the operand form the case asks for.
pub fn make_con(c: &Con, regs: &[Node]) -> Constraint {
    let lab = c.label.as_str();
    macro_rules! go { ($x:expr, $y:expr) => { match (c.op.as_str(), lab) {
        ("eq", "") => $x.equal($y), ("le", "") => $x.leq($y), ("ge", "") => $x.geq($y),
        ("eq", t) => $x.equal_and_tag($y, t), ("le", t) => $x.leq_and_tag($y, t), ("ge", t) => $x.geq_and_tag($y, t),
        x => panic!("harness: {:?}", x) } } }
    match (&c.l, &c.r, c.form.as_str()) {
        (Side::Reg(a), Side::Reg(b), "rr") => go!(regs[*a], &regs[*b]),
        (Side::Reg(a), Side::Reg(b), _) => go!(regs[*a], regs[*b].clone()),
        (Side::Reg(a), Side::Num(s), _) => go!(regs[*a], *s),
        (Side::Num(s), Side::Reg(a), "so") => go!(*s, regs[*a].clone()),
        (Side::Num(s), Side::Reg(a), _) => go!(*s, &regs[*a]),
        x => panic!("harness: {:?}", x),
    }
}

pub fn parse_con(c: &Value) -> Con {
    let a = (c[2].as_i64().unwrap() - 1).max(0) as usize;
    let b = (c[3].as_i64().unwrap() - 1).max(0) as usize;
    let s = c[4].as_f64().unwrap() / c[5].as_f64().unwrap();
    let form = c[1].as_str().unwrap().to_string();
    let (l, r) = match form.as_str() {
        "rr" | "ro" => (Side::Reg(a), Side::Reg(b)), "rs" => (Side::Reg(a), Side::Num(s)), _ => (Side::Num(s), Side::Reg(a)) };
    Con { op: c[0].as_str().unwrap().to_string(), form, l, r, label: c[6].as_str().unwrap().to_string() }
}

/// Builds the case's model in the real code; None if the program itself stops (it
/// divides by a constant zero), which the expression checks judge.
pub fn build(ctx: &mut Ctx, case: &Value, dup: bool, order: usize) -> Option<Built> {
    let names: Vec<String> = case["n"].as_array().unwrap().iter().map(|n| if dup { "x".to_string() } else { n.as_str().unwrap().to_string() }).collect();
    let kinds: Vec<bool> = case["k"].as_array().unwrap().iter().map(|k| k.as_i64() == Some(1)).collect();
    let mut run = prog::run_real(&names, &kinds, prog::parse(&case["i"]), 1e9);
    if run.panic.is_some() { ctx.count("program_stops"); return None; }
    run.order = order;
    let con: Vec<Con> = case["c"].as_array().unwrap().iter().map(parse_con).collect();
    let cons: Vec<Constraint> = con.iter().map(|c| make_con(c, &run.regs)).collect();
    let dir = case["o"][0].as_str().unwrap().to_string();
    let oreg = case["o"][1].as_i64().unwrap() as usize - 1;
    let mut model = Model::new();
    match dir.as_str() {
        "min" => model.set_objective(Objective::minimize(&run.regs[oreg])),
        "max" => model.set_objective(Objective::maximize(&run.regs[oreg])),
        _ => {}
    }
    let seed = hash_str(&case["c"].to_string()) ^ hash_str(&case["i"].to_string());
    let (one, many) = cons.split_at(if cons.is_empty() { 0 } else { seed as usize % (cons.len() + 1) });
    for c in one { model.add_constraint(c); }
    model.add_constraints(&many.iter().collect::<Vec<_>>());
    let mut init = vec![None; names.len()];
    if let Some(s) = case["s"].as_array() { for (k, v) in s.iter().enumerate() { if v[1].as_i64() != Some(0) { init[k] = Some(q(v)); } } }
    // (a start may be of any size)
    for (k, v) in init.iter_mut().enumerate() { if let Some(v) = v {
        let e = [0, 0, 0, 0, 40, -40, 300, -1000][(seed >> 8).wrapping_add(k as u64 * 7) as usize % 8];
        *v *= 2f64.powi(e); if *v == 0. && e == 300 { *v = f64::MAX } } }
    let m: HashMap<&Node, f64> = init.iter().enumerate().filter_map(|(k, v)| v.map(|v| (&run.vars[k], v))).collect();
    model.set_init_primals(&m);
    let g: Vec<&Value> = case["g"].as_array().unwrap().iter().collect();
    let pts: Vec<Vec<f64>> = g.iter().map(|p| p[0].as_array().unwrap().iter().map(q).collect()).collect();
    let verdict = g.iter().map(|p| p[1].as_i64().unwrap()).collect();
    let oval = g.iter().map(|p| if p[2][1].as_i64() == Some(0) { None } else { Some(q(&p[2])) }).collect();
    let n = run.regs.len();
    let refs = pts.iter().map(|p| run.reference(p, n)).collect();
    Some(Built { run, kinds, con, cons, dir, oreg, model, init, pts, verdict, oval, refs, seed })
}

impl Built {
    pub fn nv(&self) -> usize { self.run.nv() }
    pub fn side(&self, s: &Side, r: &[Jet]) -> Jet {
        match s { Side::Reg(a) => r[*a].clone(), Side::Num(x) => Jet::konst(&Space::get(self.nv(), self.run.order), *x) }
    }
    pub fn sides(&self, i: usize, r: &[Jet]) -> (Jet, Jet) { (self.side(&self.con[i].l, r), self.side(&self.con[i].r, r)) }
    /// The constraint as lhs - rhs.
    pub fn residual(&self, i: usize, r: &[Jet]) -> Jet { let (a, b) = self.sides(i, r); a.sub(&b) }
    /// How far a constraint is from holding, relative to the size of its sides: None undefined.
    fn excess(&self, i: usize, r: &[Jet]) -> Option<(f64, f64)> {
        let e = self.residual(i, r);
        if !e.usable(0) { return None; }
        let d = e.c[0];
        let v = match self.con[i].op.as_str() { "eq" => d.abs(), "le" => d.max(0.), _ => (-d).max(0.) };
        Some((v, e.m[0]))
    }
    /// Does the point satisfy the model (1, 0), or is it undecided (-1: undefined, or too
    /// close to a boundary)? `ignore` marks integer variables whose restriction does not count.
    pub fn holds(&self, pt: &[f64], r: &[Jet], ignore: &[bool]) -> i64 {
        let mut worst = 1;
        for i in 0..self.con.len() {
            match self.excess(i, r) {
                None => return -1,
                Some((v, m)) => if v > 1e-7 * m + 1e-300 { worst = worst.min(0) } else if v > 1e-12 * m { return -1; } }
        }
        for k in 0..pt.len() { if self.kinds[k] && !ignore[k] && pt[k].fract() != 0. { worst = worst.min(0); } }
        worst
    }
    /// The model's objective in the minimization direction.
    pub fn objective(&self, r: &[Jet]) -> Jet {
        match self.dir.as_str() { "min" => r[self.oreg].clone(), "max" => r[self.oreg].neg(),
            _ => Jet::konst(&Space::get(self.nv(), self.run.order), 0.) }
    }
    fn obj_uses(&self) -> u128 { if self.dir == "none" { 0 } else { self.run.uses[self.oreg] } }
    pub fn con_uses(&self, i: usize) -> u128 {
        let u = |s: &Side| match s { Side::Reg(a) => self.run.uses[*a], _ => 0 };
        u(&self.con[i].l) | u(&self.con[i].r)
    }
    /// Variables that the program text mentions in the objective or a constraint.
    pub fn mentioned(&self) -> u128 { (0..self.con.len()).fold(self.obj_uses(), |a, i| a | self.con_uses(i)) }
    /// Variables on which the objective or a constraint depends at one of the points.
    pub fn matters(&self) -> Vec<bool> {
        let mut out = vec![false; self.nv()];
        for r in self.refs.iter() {
            let mut js: Vec<Jet> = (0..self.con.len()).map(|i| self.residual(i, r)).collect();
            js.push(self.objective(r));
            for j in js { if j.usable(1) { for v in 0..self.nv() { let g = j.g(v); if g.0.abs() > 1e-6 * g.1 { out[v] = true; } } } }
        }
        out
    }
}

pub fn minlp(p: &mut Problem) -> &mut ProblemMinlp {
    match p { Problem::Lp(x) => x.as_mut_minlp(), Problem::Milp(x) => x.as_mut_minlp(), Problem::Nlp(x) => x.as_mut_minlp(), Problem::Minlp(x) => x }
}

/// A standard problem with the columns of the model's variables found.
pub struct Std {
    pub sp: ModelStdProb,
    pub class: &'static str,
    pub nx: usize, pub na: usize, pub nf: usize,
    pub col: Vec<Option<usize>>,      // of the model's variables
    pub aux: Vec<usize>,
    pub a: Vec<HashMap<usize, f64>>,  // rows, repeated entries summed
    pub b: Vec<f64>, pub l: Vec<f64>, pub u: Vec<f64>, pub p: Vec<bool>, pub c: Option<Vec<f64>>, pub x0: Option<Vec<f64>>,
}

pub fn dense(m: &CooMat<f64>) -> Result<Vec<Vec<f64>>, String> {
    let mut d = vec![vec![0.; m.cols()]; m.rows()];
    for (r, c, v) in m.iter() {
        if *r >= m.rows() || *c >= m.cols() { return Err(format!("entry ({}, {}) outside a {} by {} matrix", r, c, m.rows(), m.cols())); }
        d[*r][*c] += *v;
    }
    Ok(d)
}

pub fn standard(model: &Model, vars: &[Node]) -> Result<Std, String> {
    let mut sp = catch(|| model.std_problem()).map_err(|e| format!("std_problem panicked: {}", e))?;
    let class = match sp.prob { Problem::Lp(_) => "lp", Problem::Milp(_) => "milp", Problem::Nlp(_) => "nlp", Problem::Minlp(_) => "minlp" };
    let c = match &sp.prob { Problem::Lp(x) => Some(x.c().to_vec()), Problem::Milp(x) => Some(x.c().to_vec()), _ => None };
    // each class shows its data through its own accessors and through its base
    let (a2, b2, l2, u2, x02, nx2, na2) = match &sp.prob {
        Problem::Lp(x) => (x.a().clone(), x.b().to_vec(), x.l().to_vec(), x.u().to_vec(), x.x0().map(|x| x.to_vec()), x.nx(), x.na()),
        Problem::Milp(x) => (x.a().clone(), x.b().to_vec(), x.l().to_vec(), x.u().to_vec(), x.x0().map(|x| x.to_vec()), x.nx(), x.na()),
        Problem::Nlp(x) => (x.a().clone(), x.b().to_vec(), x.l().to_vec(), x.u().to_vec(), x.x0().map(|x| x.to_vec()), x.nx(), x.na()),
        Problem::Minlp(x) => (x.a().clone(), x.b().to_vec(), x.l().to_vec(), x.u().to_vec(), x.x0().map(|x| x.to_vec()), x.nx(), x.na()),
    };
    let m = minlp(&mut sp.prob);
    let (nx, na, nf) = (m.nx(), m.na(), m.nf());
    let ad = dense(m.a())?;
    if ad != dense(&a2)? || m.b() != &b2[..] || m.l() != &l2[..] || m.u() != &u2[..] || m.x0().map(|x| x.to_vec()) != x02 || nx != nx2 || na != na2 {
        return Err("the problem's data differs from that of its base problem".to_string());
    }
    let (bb, l, u, p, x0) = (m.b().to_vec(), m.l().to_vec(), m.u().to_vec(), m.p().to_vec(), m.x0().map(|x| x.to_vec()));
    if bb.len() != na || l.len() != nx || u.len() != nx || p.len() != nx || ad.len() != na { return Err("sizes of the standard problem do not agree".to_string()); }
    if x0.as_ref().map_or(false, |x| x.len() != nx) || c.as_ref().map_or(false, |x| x.len() != nx) { return Err("sizes of the standard problem do not agree".to_string()); }
    let mut seen = vec![false; nx];
    for (_, i) in sp.var2index.iter() { if *i >= nx || seen[*i] { return Err("variables do not have distinct columns".to_string()); } seen[*i] = true; }
    if seen.iter().any(|s| !s) { return Err("a column belongs to no variable".to_string()); }
    let col: Vec<Option<usize>> = vars.iter().map(|v| sp.var2index.get(v).cloned()).collect();
    let aux: Vec<usize> = (0..nx).filter(|i| !col.contains(&Some(*i))).collect();
    let a = ad.iter().map(|r| r.iter().enumerate().filter(|(_, v)| **v != 0.).map(|(i, v)| (i, *v)).collect()).collect();
    Ok(Std { sp, class, nx, na, nf, col, aux, a, b: bb, l, u, p, c, x0 })
}

impl Std {
    pub fn base(&mut self) -> &mut ProblemMinlp { minlp(&mut self.sp.prob) }
    pub fn extend(&self, pt: &[f64]) -> Vec<f64> {
        let mut x = vec![0.; self.nx];
        for (k, c) in self.col.iter().enumerate() { if let Some(c) = c { x[*c] = pt[k]; } }
        x
    }
    /// Solves the rows for the auxiliary variables: the point, or None if they are not
    /// determined one at a time.
    pub fn complete(&mut self, pt: &[f64], rows: &[f64]) -> Option<(Vec<f64>, Vec<f64>)> {
        let mut x = self.extend(pt);
        let mut mag: Vec<f64> = x.iter().map(|v| v.abs()).collect();
        let mut unknown: Vec<usize> = self.aux.clone();
        let mut progress = true;
        while progress && !unknown.is_empty() {
            progress = false;
            for i in 0..self.na {
                let un: Vec<usize> = unknown.iter().cloned().filter(|k| self.a[i].contains_key(k)).collect();
                if un.len() == 1 {
                    let k = un[0];
                    let rest: f64 = self.a[i].iter().filter(|(j, _)| **j != k).map(|(j, v)| v * x[*j]).sum();
                    x[k] = (self.b[i] - rest) / self.a[i][&k];
                    mag[k] = (self.b[i].abs() + self.a[i].iter().filter(|(j, _)| **j != k).map(|(j, v)| (v * x[*j]).abs()).sum::<f64>()) / self.a[i][&k].abs();
                    unknown.retain(|j| *j != k); progress = true;
                }
            }
            if self.nf > 0 {
                let nf = self.nf;
                let base = self.base();
                base.evaluate(&x);
                let j = dense(base.j()).ok()?;
                let f = base.f().to_vec();
                for i in 0..nf {
                    let un: Vec<usize> = unknown.iter().cloned().filter(|k| j[i][*k] != 0.).collect();
                    if un.len() == 1 {
                        let k = un[0];
                        x[k] = -f[i] / j[i][k];
                        mag[k] = rows[i] / j[i][k].abs();
                        unknown.retain(|j| *j != k); progress = true;
                    }
                }
            }
        }
        for k in unknown { // free of any row: anything between its limits will do
            if self.a.iter().any(|r| r.contains_key(&k)) { return None; }
            x[k] = 0f64.max(self.l[k]).min(self.u[k]);
        }
        Some((x, mag))
    }
    /// Is the extended point feasible for the standard problem: 1, 0 or -1 (too close to call)?
    pub fn feasible(&mut self, x: &[f64], mag: &[f64], scale: f64, rows: &[f64]) -> i64 {
        let mut worst = 1;
        let see = |v: f64, m: f64| {
            if v.is_nan() || v > 1e-8 * m + 1e-12 * scale { 0 } else if v > 1e-11 * m { -1 } else { 1 } };
        let mut take = |r: i64| if r == 0 { worst = 0 } else if r == -1 && worst == 1 { worst = -1 };
        for i in 0..self.na {
            let s: f64 = self.a[i].iter().map(|(j, v)| v * x[*j]).sum();
            let m: f64 = self.a[i].iter().map(|(j, v)| (v * x[*j]).abs()).sum::<f64>() + self.b[i].abs();
            take(see((s - self.b[i]).abs(), m));
        }
        for k in 0..self.nx {
            take(see(x[k] - self.u[k], mag[k] + self.u[k].abs()));
            take(see(self.l[k] - x[k], mag[k] + self.l[k].abs()));
            if self.p[k] { take(see((x[k] - x[k].round()).abs(), 1.)); }
        }
        if self.nf > 0 {
            let base = self.base();
            base.evaluate(x);
            let f = base.f().to_vec();
            for (v, m) in f.iter().zip(rows) { take(see(v.abs(), *m)); }
        }
        worst
    }
}

/// A float as a small rational [n, d], if it is one exactly.
pub fn ratio(x: f64) -> Option<Value> {
    let mut d = 1f64;
    while d <= 16384. { if (x * d).fract() == 0. { return if (x * d).abs() <= 30000. { Some(serde_json::json!([(x * d) as i64, d as i64])) } else { None }; } d *= 2.; }
    None
}

/// A change of units: the constants of a model are multiplied by `t` and variable k is
/// replaced by the variable y with x = s[k] y. All powers of two or sums of two of them, so
/// that nothing is rounded in models of small dyadic numbers.
struct Units { t: f64, s: Vec<f64>, exact: bool }

impl Units {
    fn none(n: usize) -> Units { Units { t: 1., s: vec![1.; n], exact: true } }
    fn pick(kinds: &[bool], seed: u64) -> Units {
        let p = |e: i32| 2f64.powi(e);
        let (t, s) = match seed % 6 {
            0 => (p(-40), 1.), 1 => (1., 1. + p(-30)), 2 => (p(-40), p(-40)), 3 => (p(-30), p(-30) * (1. + p(-29))), 4 => (1., 1. - p(-30)), _ => (p(-20), p(-12)) };
        Units { t, s: kinds.iter().map(|k| if *k { t } else { s }).collect(), exact: false }
    }
    /// A number of the model in its own units. What was rounded to the last digits only is
    /// told apart from what is a different number.
    fn ratio(&self, x: f64) -> Option<Value> {
        if self.exact { return ratio(x); }
        let y = (x * 16384.).round() / 16384.;
        if (x - y).abs() <= 1e-13 * x.abs() { ratio(y) } else { None }
    }
}

/// The standard problem of a linear model, for validation by spec/StdCheck.tla.
fn record(cons: &[Constraint], s: &Std, case: &Value, un: &Units) -> Option<Value> {
    let c = s.c.as_ref()?;
    let owner = |k: Option<&Constraint>| k.and_then(|k| cons.iter().position(|x| x == k)).map(|i| i as i64 + 1).unwrap_or(0);
    let mut unit = vec![1.; s.nx];
    for (k, c) in s.col.iter().enumerate() { if let Some(c) = c { unit[*c] = un.s[k]; } }
    let limit = |j: usize, x: f64, o: i64| -> Option<Value> {
        if x.abs() >= 1e8 { return Some(serde_json::json!([0, 0, 0])); }
        let mut q = un.ratio(x * unit[j] / un.t)?; q.as_array_mut().unwrap().push(o.into()); Some(q) };
    let mut rows = Vec::new();
    for i in 0..s.na {
        let a: Option<Vec<Value>> = (0..s.nx).map(|j| un.ratio(*s.a[i].get(&j).unwrap_or(&0.) / unit[j])).collect();
        rows.push(serde_json::json!({"a": a?, "b": un.ratio(s.b[i] / un.t)?, "o": owner(s.sp.aindex2constr.get(&i))}));
    }
    let l: Option<Vec<Value>> = (0..s.nx).map(|j| limit(j, s.l[j], owner(s.sp.lindex2constr.get(&j)))).collect();
    let u: Option<Vec<Value>> = (0..s.nx).map(|j| limit(j, s.u[j], owner(s.sp.uindex2constr.get(&j)))).collect();
    let o: Option<Vec<Value>> = c.iter().enumerate().map(|(j, x)| un.ratio(*x / unit[j])).collect();
    let mut r = case.clone();
    let m = r.as_object_mut().unwrap();
    m.insert("col".into(), s.col.iter().map(|c| c.map(|c| c + 1).unwrap_or(0)).collect::<Vec<_>>().into());
    m.insert("nx".into(), s.nx.into());
    m.insert("rows".into(), rows.into());
    m.insert("l".into(), l?.into());
    m.insert("u".into(), u?.into());
    m.insert("p".into(), s.p.iter().map(|x| *x as i64).collect::<Vec<_>>().into());
    m.insert("obj".into(), o?.into());
    Some(r)
}

/// The model of a case in other units, where the program is linear in its registers: what its
/// standard problem is in the units of the case. None: no such program, or a number that is
/// not the model's; the second is told by Err.
fn other_units(b: &Built, case: &Value) -> Result<Option<Value>, String> {
    let two = |n: i64| n != 0 && n.unsigned_abs().is_power_of_two();
    let fits = b.run.ins.iter().all(|i| match i.op.as_str() {
        "k" | "neg" | "cl" | "add" | "sub" => two(i.d),
        "mul" => two(i.d) && i.f.contains('s'), "div" => two(i.n) && two(i.d) && (i.f == "rs" || i.f == "os"), _ => false })
        && case["c"].as_array().unwrap().iter().all(|c| !c[1].as_str().unwrap().contains('s') || two(c[5].as_i64().unwrap()));
    if !fits { return Ok(None); }
    let un = Units::pick(&b.kinds, b.seed >> 8);
    let vars = prog::run_real(&b.run.names, &b.kinds, vec![], 1e9).vars;
    let mut regs: Vec<Node> = vars.iter().zip(&un.s).map(|(v, s)| if *s == 1. { v.clone() } else { v * *s }).collect();
    for i in &b.run.ins {
        let mut i = i.clone();
        if !matches!(i.op.as_str(), "mul" | "div") { i.scale = un.t; }
        let n = prog::exec(&i, &regs); regs.push(n);
    }
    let cons: Vec<Constraint> = b.con.iter().map(|c| { let mut c = c.clone();
        for s in [&mut c.l, &mut c.r] { if let Side::Num(x) = s { *x *= un.t; } }
        make_con(&c, &regs) }).collect();
    let mut model = Model::new();
    match b.dir.as_str() { "min" => model.set_objective(Objective::minimize(&regs[b.oreg])), "max" => model.set_objective(Objective::maximize(&regs[b.oreg])), _ => {} }
    for c in &cons { model.add_constraint(c); }
    let std = standard(&model, &vars)?;
    if std.c.is_none() { return Err("a linear model in other units is not linear".to_string()); }
    match record(&cons, &std, case, &un) { Some(r) => Ok(Some(r)),
        None => Err(format!("with constants in units of {:e} and variables in units of {:e}, the standard problem is not that of the model: a {:?} b {:?} l {:?} u {:?} c {:?}", un.t, un.s[0], std.a, std.b, std.l, std.u, std.c)) }
}

pub fn check(ctx: &mut Ctx, case: &Value) {
    if let Some(cases) = case["side"].as_array() { crate::side::judge(ctx, cases); return; }
    ctx.evaluations += 1;
    let dup = ctx.is("C05");
    let order = match ctx.prop.as_str() { "C10" => 2, "C08" | "C09" | "C05" => 1, _ => 0 };
    let b = match build(ctx, case, dup, order) { Some(b) => b, None => return };
    // TLC's exact verdicts and values against the reference
    for (k, r) in b.refs.iter().enumerate() {
        let h = b.holds(&b.pts[k], r, &vec![false; b.nv()]);
        if b.verdict[k] >= 0 && h >= 0 { ctx.count("verdicts_confirmed_by_tlc");
            if h != b.verdict[k] { ctx.count("reference_disagrees"); eprintln!("verdict {} at {:?} but TLC says {}: {}", h, b.pts[k], b.verdict[k], case); } }
        if let (Some(o), true) = (b.oval[k], b.dir != "none") { let j = &r[b.oreg]; if j.usable(0) && !close(o, j.v()) { ctx.count("reference_disagrees"); eprintln!("objective {} but TLC says {}: {}", j.c[0], o, case); } }
    }
    if matches!(ctx.prop.as_str(), "C08" | "C09" | "C12") {
        if let Ok(st) = standard(&b.model, &b.run.vars) { if let Some(r) = record(&b.cons, &st, case, &Units::none(b.nv())) {
            ctx.records.push(r);
            match other_units(&b, case) { Err(e) => { ctx.fail(e); return; }, Ok(Some(r)) => { ctx.count("other_units"); ctx.records.push(r); }, Ok(None) => {} }
        } }
    }
    match ctx.prop.clone().as_str() {
        "C12" => {}
        "C05" => { c08(ctx, &b); c09(ctx, &b); c10(ctx, &b); }
        "C06" => c06(ctx, &b),
        "C07" => c07(ctx, &b),
        "C08" => c08(ctx, &b),
        "C09" => c09(ctx, &b),
        "C10" => c10(ctx, &b),
        p => panic!("harness: no model check for {}", p),
    }
    if matches!(ctx.prop.as_str(), "C05" | "C08" | "C09" | "C10") {
        let affine = (b.dir == "none" || b.run.regs[b.oreg].std_properties().affine) && b.cons.iter().all(|c| (c.lhs() - c.rhs()).std_properties().affine);
        crate::side::offer(ctx, &b, case, affine);
    }
}

fn c06(ctx: &mut Ctx, b: &Built) {
    let names = &b.run.names;
    let set: std::collections::HashSet<&String> = names.iter().collect();
    if set.len() != names.len() { ctx.count("ambiguous_names_skipped"); return; }
    let text = format!("{}", b.model);
    let lines: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    let mut it = lines.iter();
    let head = it.next().cloned().unwrap_or("").to_lowercase();
    let word = match b.dir.as_str() { "min" => "minimize", "max" => "maximize", _ => "find" };
    if !head.contains(word) || (word != "minimize" && head.contains("minimize")) { ctx.fail(format!("text of a model to {} starts {:?}", word, head)); return; }
    let mut ok = true;
    if b.dir != "none" {
        let l = it.next().cloned().unwrap_or("");
        ok &= means(ctx, b, l, &|r| r[b.oreg].clone(), "objective");
    }
    if !b.con.is_empty() { let l = it.next().cloned().unwrap_or(""); if !l.to_lowercase().contains("subject to") { ctx.fail(format!("{:?} where \"Subject to\" is expected in {:?}", l, text)); return; } }
    for i in 0..b.con.len() {
        let l = match it.next() { Some(l) => *l, None => { ctx.fail(format!("text of the model has no line for constraint {}: {:?}", i + 1, text)); return; } };
        let (body, label) = match l.rsplit_once(" : ") { Some((x, y)) => (x, y), None => (l, "") };
        if label != b.con[i].label { ctx.fail(format!("constraint {} with label {:?} is printed as {:?}", i + 1, b.con[i].label, l)); return; }
        ok &= con_text(ctx, b, i, body);
        ok &= con_text(ctx, b, i, &format!("{}", b.cons[i]));
        if !ok { return; }
    }
    if let Some(l) = it.next() { ctx.fail(format!("text of the model has an extra line {:?}", l)); return; }
    if ok && !b.con.is_empty() { ctx.nontrivial += 1; }
}

fn means(ctx: &mut Ctx, b: &Built, text: &str, f: &dyn Fn(&[Jet]) -> Jet, what: &str) -> bool {
    for (k, pt) in b.pts.iter().enumerate() {
        let want = f(&b.refs[k]);
        if !want.usable(0) { continue; }
        let env: HashMap<&str, f64> = b.run.names.iter().map(|s| s.as_str()).zip(pt.iter().cloned()).collect();
        match crate::text::eval(text, &env) {
            Err(e) => { ctx.fail(format!("{}: text {:?} is not an expression: {}", what, text, e)); return false; }
            Ok(got) => if !close(got, want.v()) { ctx.fail(format!("{}: text {:?} means {} at {:?}, not {}", what, text, got, pt, want.c[0])); return false; }
        }
        ctx.count("texts_evaluated");
    }
    true
}

fn con_text(ctx: &mut Ctx, b: &Built, i: usize, body: &str) -> bool {
    let (sym, op) = if body.contains("==") { ("==", "eq") } else if body.contains("<=") { ("<=", "le") } else if body.contains(">=") { (">=", "ge") } else {
        ctx.fail(format!("constraint {} is printed without a relation: {:?}", i + 1, body)); return false; };
    let (l, r) = body.split_once(sym).unwrap();
    if op == b.con[i].op {
        means(ctx, b, l, &|x| b.sides(i, x).0, "left side") && means(ctx, b, r, &|x| b.sides(i, x).1, "right side")
    } else if op != "eq" && b.con[i].op != "eq" { // read from the other side
        means(ctx, b, r, &|x| b.sides(i, x).0, "left side") && means(ctx, b, l, &|x| b.sides(i, x).1, "right side")
    } else { ctx.fail(format!("constraint {} of kind {} is printed {:?}", i + 1, b.con[i].op, body)); false }
}

fn c07(ctx: &mut Ctx, b: &Built) {
    for (k, pt) in b.pts.iter().enumerate() {
        let m = assign(&b.run.vars, pt);
        for i in 0..b.con.len() {
            let got = b.cons[i].violation(&m);
            if got < 0. { ctx.fail(format!("violation of {} is {}", b.cons[i], got)); return; }
            if let Some((v, mag)) = b.excess(i, &b.refs[k]) {
                if !((got - v).abs() <= 1e-10 * mag + 1e-280) { ctx.fail(format!("violation of {} at {:?} is {}, not {}", b.cons[i], pt, got, v)); return; }
                ctx.count(if v > 0. { "violated" } else { "satisfied" });
                ctx.nontrivial += 1;
            }
            for v in 0..b.nv() { // a missing value the constraint depends on
                let e = b.residual(i, &b.refs[k]);
                let mut other = pt.clone(); other[v] += 0.375;
                let e2 = { let r = b.run.reference(&other, b.run.regs.len()); b.residual(i, &r) };
                if e.usable(0) && e2.usable(0) && (e.c[0] - e2.c[0]).abs() > 1e-6 * (e.m[0] + e2.m[0]) {
                    let mut m2 = m.clone(); m2.remove(&b.run.vars[v]);
                    let got = b.cons[i].violation(&m2);
                    if !got.is_nan() { ctx.fail(format!("violation of {} without the value of variable {} is {}", b.cons[i], v + 1, got)); return; }
                    ctx.count("missing_value");
                }
            }
        }
    }
}

fn c08(ctx: &mut Ctx, b: &Built) {
    let mut s = match standard(&b.model, &b.run.vars) { Ok(s) => s, Err(e) => { ctx.fail(e); return; } };
    let matters = b.matters();
    for v in 0..b.nv() { if matters[v] && s.col[v].is_none() { ctx.fail(format!("variable {} matters but has no column", v + 1)); return; } }
    let ignore: Vec<bool> = s.col.iter().map(|c| c.is_none()).collect();
    let (mut yes, mut no) = (0, 0);
    for (k, pt) in b.pts.iter().enumerate() {
        let want = b.holds(pt, &b.refs[k], &ignore);
        if want < 0 { ctx.count("undecided"); continue; }
        if (0..b.con.len()).any(|i| { let e = b.residual(i, &b.refs[k]); e.c[0].abs() >= 9e7 }) { ctx.count("beyond_1e8"); continue; }
        let scale = 1. + (0..b.con.len()).map(|i| b.residual(i, &b.refs[k]).m[0]).filter(|m| m.is_finite()).fold(0., f64::max);
        let rows: Vec<f64> = (0..s.nf).map(|i| s.sp.jindex2constr.get(&i).and_then(|c| b.cons.iter().position(|k| k == c))
            .map(|i| b.residual(i, &b.refs[k]).m[0]).filter(|m| m.is_finite()).unwrap_or(scale)).collect();
        let (x, mag) = match s.complete(pt, &rows) { Some(x) => x, None => { ctx.count("auxiliary_not_determined"); continue; } };
        let got = s.feasible(&x, &mag, scale, &rows);
        if got < 0 { ctx.count("undecided"); continue; }
        if got != want {
            ctx.fail(format!("point {:?} is {} for the model but {} for the standard problem (extended point {:?}, limits {:?} {:?})", pt,
                if want == 1 { "feasible" } else { "infeasible" }, if got == 1 { "feasible" } else { "infeasible" }, x, s.l, s.u));
            return;
        }
        if want == 1 { yes += 1; ctx.count("feasible_points"); } else { no += 1; ctx.count("infeasible_points"); }
        ctx.count(&format!("class_{}", s.class));
    }
    if yes > 0 && no > 0 { ctx.nontrivial += 1; }
}

fn c09(ctx: &mut Ctx, b: &Built) {
    let mut s = match standard(&b.model, &b.run.vars) { Ok(s) => s, Err(e) => { ctx.fail(e); return; } };
    let mut rng = Rng(b.seed);
    // class
    let obj_affine = b.dir == "none" || b.run.regs[b.oreg].std_properties().affine;
    let affine = obj_affine && b.cons.iter().all(|c| (c.lhs() - c.rhs()).std_properties().affine);
    let int = b.kinds.iter().enumerate().any(|(k, i)| *i && s.col[k].is_some());
    let want = match (affine, int) { (true, false) => "lp", (true, true) => "milp", (false, false) => "nlp", _ => "minlp" };
    if s.class != want { ctx.fail(format!("class is {} instead of {}", s.class, want)); return; }
    ctx.count(&format!("class_{}", s.class));
    // columns: every variable that matters, none that is not mentioned
    let matters = b.matters();
    let mentioned = b.mentioned();
    for v in 0..b.nv() {
        if matters[v] && s.col[v].is_none() { ctx.fail(format!("variable {} matters but has no column", v + 1)); return; }
        if mentioned >> v & 1 == 0 && s.col[v].is_some() { ctx.fail(format!("variable {} has a column but does not occur", v + 1)); return; }
    }
    // integrality and start point
    for v in 0..b.nv() { if let Some(c) = s.col[v] {
        if s.p[c] != b.kinds[v] { ctx.fail(format!("variable {} with integer mark {} has mark {}", v + 1, b.kinds[v], s.p[c])); return; }
        let x0 = s.x0.as_ref().map(|x| x[c]).unwrap_or(0.);
        if x0 != b.init[v].unwrap_or(0.) { ctx.fail(format!("variable {} starts at {} instead of {:?}", v + 1, x0, b.init[v])); return; }
    } }
    for k in s.aux.clone() {
        if s.p[k] { ctx.fail("an auxiliary variable is marked integer".to_string()); return; }
        if s.x0.as_ref().map(|x| x[k]).unwrap_or(0.) != 0. { ctx.fail("an auxiliary variable does not start at zero".to_string()); return; }
    }
    // objective, whatever the auxiliary variables are
    let mut base: Option<(f64, f64)> = None;
    let mut used = 0;
    for (k, pt) in b.pts.iter().enumerate() {
        let want = b.objective(&b.refs[k]);
        if !want.usable(0) { continue; }
        let mut x = s.extend(pt);
        for a in s.aux.clone() { x[a] = rng.sym(3.); }
        let (got, mag) = match &s.c {
            Some(c) => (c.iter().zip(&x).map(|(a, b)| a * b).sum::<f64>(), c.iter().zip(&x).map(|(a, b)| (a * b).abs()).sum::<f64>()),
            None => { s.base().evaluate(&x); (s.base().phi(), 0.) } };
        let diff = got - want.c[0];
        let m = mag + want.m[0];
        if s.c.is_none() {
            if !(diff.abs() <= 1e-10 * m + 1e-280) { ctx.fail(format!("objective of the standard problem is {} at {:?}, not {}", got, pt, want.c[0])); return; }
        } else { match base {
            None => base = Some((diff, m)),
            Some((d0, m0)) => if !((diff - d0).abs() <= 1e-10 * (m + m0) + 1e-280) { ctx.fail(format!("linear objective differs from the model's by {} at one point and {} at another", d0, diff)); return; } } }
        used += 1;
        ctx.count("objective_points");
    }
    if used > 0 { ctx.nontrivial += 1; }
}

fn lower(m: &CooMat<f64>) -> Option<String> {
    m.iter().find(|(r, c, _)| r < c).map(|(r, c, _)| format!("entry ({}, {}) is above the diagonal", r, c))
}
fn hess_ok(d: &[Vec<f64>], s: &Std, j: &Jet, what: &str) -> Result<(), String> {
    let nv = j.s.nv;
    let sym = |a: usize, b: usize| d[a.max(b)][a.min(b)];
    for v in 0..nv { for w in v..nv {
        let got = match (s.col[v], s.col[w]) { (Some(a), Some(b)) => sym(a, b), _ => 0. };
        if !close(got, j.h(v, w)) { return Err(format!("Hessian of {} by variables {} {} is {}, not {}", what, v + 1, w + 1, got, j.h(v, w).0)); }
    } }
    for a in s.aux.iter() { for b in 0..s.nx { if sym(*a, b) != 0. { return Err(format!("Hessian of {} has an entry for an auxiliary variable", what)); } } }
    Ok(())
}
fn grad_ok(g: &[f64], s: &Std, j: &Jet, what: &str) -> Result<(), String> {
    for v in 0..j.s.nv {
        let got = s.col[v].map(|c| g[c]).unwrap_or(0.);
        if !close(got, j.g(v)) { return Err(format!("gradient of {} by variable {} is {}, not {}", what, v + 1, got, j.g(v).0)); }
    }
    Ok(())
}

fn c10(ctx: &mut Ctx, b: &Built) {
    let mut s = match standard(&b.model, &b.run.vars) { Ok(s) => s, Err(e) => { ctx.fail(e); return; } };
    let order = b.run.order as i32;
    let mut rng = Rng(b.seed ^ 77);
    let mut used = 0;
    // which constraint each nonlinear row stands for
    let mut row_con = Vec::new();
    for i in 0..s.nf {
        let c = match s.sp.jindex2constr.get(&i) { Some(c) => c.clone(), None => { ctx.fail(format!("nonlinear row {} belongs to no constraint", i)); return; } };
        match b.cons.iter().position(|k| *k == c) { Some(k) => row_con.push(k), None => { ctx.fail("a nonlinear row belongs to an unknown constraint".to_string()); return; } }
    }
    // every point, some twice, in a scrambled order, with undefined points in between
    let n = b.pts.len();
    let mut seq: Vec<usize> = (0..n.min(12)).collect();
    for _ in 0..4 { seq.push(rng.below(n as u64) as usize); }
    for i in (1..seq.len()).rev() { let j = rng.below(i as u64 + 1) as usize; seq.swap(i, j); }
    for (step, k) in seq.iter().enumerate() {
        let pt = &b.pts[*k];
        let r = &b.refs[*k];
        if step % 2 == 1 { if let Err(e) = same_again(&mut s, b, &mut rng) { ctx.fail(e); return; } ctx.count("evaluated_again"); }
        if step % 4 == 1 { let nx = s.nx; let bad = vec![if step % 8 == 1 { 0. } else { f64::NAN }; nx]; s.base().evaluate(&bad); }
        let mut x = s.extend(pt);
        for a in s.aux.clone() { x[a] = rng.sym(3.); }
        let size = [0, 0, -30, -200, 40][rng.below(5) as usize];
        let mult: Vec<f64> = (0..s.nf).map(|i| if (step + i) % 5 == 4 { 0. } else { rng.sym(2.) * 2f64.powi(if rng.below(8) == 0 { -25 } else { size }) }).collect();
        let old = s.sp_nlp(&x);
        s.base().evaluate(&x);
        if let Err(e) = catch(|| s.base().combine_h(&mult)) { ctx.fail(format!("combine_h panicked: {}", e)); return; }
        if let Err(e) = judge(ctx, b, &mut s, r, &x, &row_con, &mult, order, old) { ctx.fail(format!("at {:?} (step {}): {}", pt, step, e)); return; }
        used += 1;
    }
    if used > 0 && (s.class == "nlp" || s.class == "minlp") { ctx.nontrivial += 1; }
    if used > 0 { ctx.count(&format!("class_{}", s.class)); }
}

impl Std {
    /// For a linear problem, what its view as a nonlinear problem evaluates to.
    fn sp_nlp(&mut self, x: &[f64]) -> Option<(f64, Vec<f64>)> {
        match &mut self.sp.prob { Problem::Lp(p) => { let q = p.as_mut_nlp(); q.evaluate(x); Some((q.phi(), q.gphi().to_vec())) } _ => None }
    }
}

/// All the numbers a problem shows.
fn shown(m: &ProblemMinlp) -> Vec<f64> {
    let mut v = vec![m.phi()];
    v.extend(m.gphi()); v.extend(m.hphi().data()); v.extend(m.f()); v.extend(m.j().data()); v.extend(m.hcomb().data());
    for h in m.h() { v.extend(h.data()); }
    v
}
/// What an evaluation shows depends on the point only, not on the one before (also where things are undefined).
fn same_again(s: &mut Std, b: &Built, rng: &mut Rng) -> Result<(), String> {
    let n = b.pts.len() as u64;
    let mut pick = |s: &Std| -> Vec<f64> { let mut x = s.extend(&b.pts[rng.below(n) as usize]); for a in s.aux.iter() { x[*a] = rng.sym(3.); } x };
    let (p, q, mut x) = (pick(s), pick(s), pick(s));
    let special = [f64::NAN, 0., f64::INFINITY, 1e200, f64::NAN];
    match rng.below(4) { 0 => {}, 1 => { let w = special[rng.below(5) as usize]; x.iter_mut().for_each(|v| *v = w); }
        _ => if !x.is_empty() { let k = rng.below(x.len() as u64) as usize; x[k] = special[rng.below(5) as usize]; } }
    let mult: Vec<f64> = (0..s.nf).map(|_| rng.sym(2.)).collect();
    // from two points, from one that differs in one value, and from one that hardly differs
    let (mut one, mut near, mut other) = (x.clone(), x.clone(), mult.clone());
    let base = s.base(); // (a value that matters)
    let mut live: Vec<usize> = base.j().col_inds().iter().chain(base.hphi().col_inds()).cloned().collect();
    if let Err(e) = catch(|| base.evaluate(&p)) { return Err(format!("evaluation panicked: {}", e)); }
    live.extend((0..x.len()).filter(|k| base.gphi()[*k] != 0.));
    if !live.is_empty() { let k = live[rng.below(live.len() as u64) as usize]; one[k] = if x[k].is_finite() { x[k] + [1., -0.25, 1e-3][rng.below(3) as usize] } else { 0.5 }; }
    for v in near.iter_mut() { *v *= 1. + 1e-10; }
    if !other.is_empty() { let k = rng.below(other.len() as u64) as usize; other[k] += 0.5; }
    let mut see = |before: &Vec<f64>, mb: &Vec<f64>, at: &Vec<f64>, ma: &Vec<f64>| -> Result<Vec<f64>, String> {
        let m = s.base();
        catch(|| { m.evaluate(&q); m.evaluate(before); m.combine_h(mb); m.evaluate(at); m.combine_h(ma); shown(m) }).map_err(|e| format!("evaluation panicked: {}", e))
    };
    for (at, ma, befores) in [(&x, &mult, vec![(&p, &mult), (&q, &mult), (&one, &mult), (&near, &other)]),
                              (&one, &mult, vec![(&p, &mult), (&x, &mult)]), (&near, &other, vec![(&p, &mult), (&x, &mult)])] {
        let first = see(befores[0].0, befores[0].1, at, ma)?;
        for (before, mb) in &befores[1..] {
            let o = see(before, mb, at, ma)?;
            if first.len() != o.len() || first.iter().zip(&o).any(|(a, b)| a != b && !(a.is_nan() && b.is_nan())) {
                return Err(format!("evaluation at {:?} shows {:?} after {:?} but {:?} after {:?}", at, first, befores[0].0, o, before)); }
        }
    }
    Ok(())
}

fn judge(ctx: &mut Ctx, b: &Built, s: &mut Std, r: &[Jet], x: &[f64], row_con: &[usize], mult: &[f64], order: i32, nlp: Option<(f64, Vec<f64>)>) -> Result<(), String> {
    let (phi, gphi) = { let m = s.base(); (m.phi(), m.gphi().to_vec()) };
    if gphi.len() != s.nx { return Err("gradient has a wrong size".to_string()); }
    if let Some(c) = s.c.clone() {
        let want: f64 = c.iter().zip(x).map(|(a, b)| a * b).sum();
        let mag: f64 = c.iter().zip(x).map(|(a, b)| (a * b).abs()).sum();
        let mut views = vec![(phi, gphi.clone())];
        views.extend(nlp);
        for (f, g) in views {
            if !((f - want).abs() <= 1e-10 * mag + 1e-280) { return Err(format!("linear objective evaluates to {}, not {}", f, want)); }
            if g != c { return Err(format!("gradient of the linear objective is {:?}, not {:?}", g, c)); }
        }
        let m = s.base();
        if m.hphi().nnz() != 0 && m.hphi().data().iter().any(|v| *v != 0.) { return Err("linear objective has a Hessian".to_string()); }
        if m.nf() != 0 || m.j().rows() != 0 || !m.h().is_empty() { return Err("linear problem has nonlinear rows".to_string()); }
        ctx.count("linear_points");
        return Ok(());
    }
    let o = b.objective(r);
    let (hphi, f, j, h, hcomb) = { let m = s.base();
        for (w, k) in [("objective Hessian", m.hphi()), ("combined Hessian", m.hcomb())] { if let Some(e) = lower(k) { return Err(format!("{}: {}", w, e)); } }
        for k in m.h().iter() { if let Some(e) = lower(k) { return Err(format!("constraint Hessian: {}", e)); } }
        let h: Result<Vec<_>, String> = m.h().iter().map(dense).collect();
        (dense(m.hphi())?, m.f().to_vec(), dense(m.j())?, h?, dense(m.hcomb())?) };
    if o.usable(0) && !close(phi, o.v()) { return Err(format!("objective is {}, not {}", phi, o.c[0])); }
    if o.usable(1) && order >= 1 { grad_ok(&gphi, s, &o, "the objective")?;
        for a in s.aux.iter() { if gphi[*a] != 0. { return Err("objective gradient has an entry for an auxiliary variable".to_string()); } } }
    if o.usable(2) && order >= 2 { hess_ok(&hphi, s, &o, "the objective")?; ctx.count("objective_hessians"); }
    if f.len() != s.nf || j.len() != s.nf || h.len() != s.nf { return Err("nonlinear rows have inconsistent sizes".to_string()); }
    let mut sum = vec![vec![(0., 0.); s.nx]; s.nx];
    let mut all = true;
    for i in 0..s.nf {
        let e = b.residual(row_con[i], r);
        let eq = b.con[row_con[i]].op == "eq";
        let mine: Vec<(usize, f64)> = s.aux.iter().filter(|a| j[i][**a] != 0.).map(|a| (*a, j[i][*a])).collect();
        if eq != mine.is_empty() || mine.len() > 1 { return Err(format!("nonlinear row {} of a constraint of kind {} has {} auxiliary variables", i, b.con[row_con[i]].op, mine.len())); }
        let extra: f64 = mine.iter().map(|(a, v)| v * x[*a]).sum();
        if e.usable(0) && !close(f[i] - extra, (e.c[0], e.m[0] + extra.abs() + f[i].abs())) { return Err(format!("nonlinear row {} is {} with auxiliary part {}, not {}", i, f[i], extra, e.c[0])); }
        if e.usable(1) && order >= 1 { grad_ok(&j[i], s, &e, &format!("nonlinear row {}", i))?; }
        if e.usable(2) && order >= 2 { hess_ok(&h[i], s, &e, &format!("nonlinear row {}", i))?; ctx.count("constraint_hessians"); } else { all = false; }
        for p in 0..s.nx { for q in 0..s.nx { sum[p][q].0 += mult[i] * h[i][p][q]; sum[p][q].1 += (mult[i] * h[i][p][q]).abs(); } }
    }
    if all && s.nf > 0 {
        ctx.count("combinations");
        for p in 0..s.nx { for q in 0..s.nx {
            if !((hcomb[p][q] - sum[p][q].0).abs() <= 1e-10 * sum[p][q].1 + 1e-280) { return Err(format!("combined Hessian ({}, {}) is {}, not {} with multipliers {:?}", p, q, hcomb[p][q], sum[p][q].0, mult)); }
        } }
    }
    Ok(())
}

#[allow(dead_code)]
pub fn same_hash(a: &Constraint, b: &Constraint) -> bool { hash_of(a) == hash_of(b) }
