//! Models side by side: many copies of generated models, each over variables of its own,
//! stated as one model. Its meaning follows from theirs (spec/ModelGen.tla, `Beside`): a
//! point satisfies it if and only if each part satisfies its copy, the objective is the
//! weighted sum. C05, C08, C09, C10.
use crate::jet::close;
use crate::model::{build, make_con, standard, Built, Std};
use crate::prog;
use crate::run::{catch, Ctx, Rng};
use numopt::matrix::coo::CooMat;
use numopt::model::node_base::NodeBase;
use numopt::model::node_cmp::NodeCmp;
use numopt::model::node_diff::NodeDiff;
use numopt::model::node_std::NodeStd;
use numopt::model::{Constraint, Model, Node, Objective};
use serde_json::{json, Value};
use std::collections::HashMap;

const POOL: usize = 10;

/// Takes a case for a model of many; the model is judged when enough cases are there.
pub fn offer(ctx: &mut Ctx, b: &Built, case: &Value, affine: bool) {
    if b.nv() > 14 || b.con.len() > 14 { return; }
    let one = vec![false; b.nv()];
    let good = b.pts.iter().zip(&b.refs).filter(|(p, r)| usable(b, r) && b.holds(p, r, &one) == 1).count();
    if good == 0 { return; }
    let p = &mut ctx.pool[affine as usize];
    p.push(case.clone());
    if p.len() == POOL {
        let cases = std::mem::take(p);
        let old = std::mem::replace(&mut ctx.case, json!({ "side": cases }));
        judge(ctx, &cases);
        ctx.case = old;
    }
}

fn usable(b: &Built, r: &[crate::jet::Jet]) -> bool {
    (b.dir == "none" || r[b.oreg].usable(1)) && (0..b.con.len()).all(|i| { let e = b.residual(i, r); e.usable(1) && e.c[0].abs() < 9e7 })
}

struct Part { b: usize, off: usize, w: f64, regs: Vec<Node>, cons: Vec<Constraint> }

fn sparse(m: &CooMat<f64>) -> Result<HashMap<(usize, usize), f64>, String> {
    let mut d = HashMap::new();
    for (r, c, v) in m.iter() {
        if *r >= m.rows() || *c >= m.cols() { return Err(format!("entry ({}, {}) outside a {} by {} matrix", r, c, m.rows(), m.cols())); }
        if *v != 0. || !d.contains_key(&(*r, *c)) { *d.entry((*r, *c)).or_insert(0.) += *v; }
    }
    d.retain(|_, v| *v != 0.);
    Ok(d)
}

pub fn judge(ctx: &mut Ctx, cases: &[Value]) {
    let dup = ctx.is("C05");
    let order = if ctx.is("C10") { 2 } else { 1 };
    let mut bs: Vec<Built> = Vec::new();
    for c in cases { if let Some(b) = build(ctx, c, dup, order) { bs.push(b); } }
    let seed = bs.iter().fold(7u64, |a, b| a.rotate_left(5) ^ b.seed);
    let mut rng = Rng(seed);
    let quadratic = bs.iter().any(|b| b.dir != "none" && !b.run.regs[b.oreg].std_properties().affine);
    let (most, size) = if quadratic { (600, [20, 60, 150, 300][rng.below(4) as usize]) } else { ([1100, 1100, 1700][rng.below(3) as usize], [20, 150, 300, 600, 1200][rng.below(5) as usize]) };
    let real = rng.below(3) == 0; // all variables continuous
    let dir = if rng.below(2) == 0 { "min" } else { "max" };
    let alike = dup || rng.below(3) == 0;
    let (mut vars, mut parts, mut nc): (Vec<Node>, Vec<Part>, usize) = (Vec::new(), Vec::new(), 0);
    let mut init: HashMap<usize, f64> = HashMap::new();
    while parts.len() < size {
        let k = rng.below(bs.len() as u64) as usize;
        let b = &bs[k];
        if vars.len() + b.nv() > most || nc + b.con.len() > most { break; }
        let off = vars.len();
        let names: Vec<String> = b.run.names.iter().map(|n| if dup { "x".to_string() } else if alike { n.clone() } else { format!("{}_{}", n, off) }).collect();
        let kinds: Vec<bool> = b.kinds.iter().map(|k| *k && !real).collect();
        let run = prog::run_real(&names, &kinds, b.run.ins.clone(), 1e9);
        let cons: Vec<Constraint> = b.con.iter().map(|c| make_con(c, &run.regs)).collect();
        nc += cons.len();
        for v in 0..b.nv() { if let Some(x) = b.init[v] { init.insert(off + v, x + off as f64); } }
        vars.extend(run.vars);
        parts.push(Part { b: k, off, w: [1., 1., 2., 0.5][rng.below(4) as usize], regs: run.regs, cons });
    }
    // one model of them all
    let mut sum: Option<Node> = None;
    for p in &parts {
        let b = &bs[p.b];
        if b.dir == "none" { continue; }
        let w = if b.dir == dir { p.w } else { -p.w };
        let t = &p.regs[b.oreg] * w;
        sum = Some(match sum { None => t, Some(s) => s + t });
    }
    let affine_obj = sum.as_ref().map_or(true, |s| s.std_properties().affine);
    let affine = affine_obj && parts.iter().all(|p| p.cons.iter().all(|c| (c.lhs() - c.rhs()).std_properties().affine));
    let mut model = Model::new();
    if let Some(s) = &sum { model.set_objective(if dir == "min" { Objective::minimize(s) } else { Objective::maximize(s) }); }
    let mut all: Vec<&Constraint> = parts.iter().flat_map(|p| p.cons.iter()).collect();
    for i in (1..all.len()).rev() { let j = rng.below(i as u64 + 1) as usize; all.swap(i, j); }
    model.add_constraints(&all);
    model.set_init_primals(&init.iter().map(|(k, v)| (&vars[*k], *v)).collect());
    let mut s = match standard(&model, &vars) { Ok(s) => s, Err(e) => { ctx.fail(format!("{} models side by side: {}", parts.len(), e)); return; } };
    ctx.count("side_by_side");
    if vars.len() > 256 { ctx.count("more_than_256_variables"); }
    let r = look(ctx, &bs, &parts, &mut s, &init, affine, real, &mut rng);
    if let Err(e) = r { ctx.fail(format!("{} models side by side ({} variables, {} constraints): {}", parts.len(), vars.len(), nc, e)); return; }
    ctx.nontrivial += 1;
}

fn look(ctx: &mut Ctx, bs: &[Built], parts: &[Part], s: &mut Std, init: &HashMap<usize, f64>, affine: bool, real: bool, rng: &mut Rng) -> Result<(), String> {
    let matters: Vec<Vec<bool>> = bs.iter().map(|b| b.matters()).collect();
    let ignore: Vec<Vec<bool>> = parts.iter().map(|p| (0..bs[p.b].nv()).map(|v| real || s.col[p.off + v].is_none()).collect()).collect();
    let mut owner: Vec<Option<(usize, usize)>> = vec![None; s.nx]; // of each column: part, variable
    let mut int = false;
    for (n, p) in parts.iter().enumerate() {
        let b = &bs[p.b];
        for v in 0..b.nv() {
            let c = s.col[p.off + v];
            if matters[p.b][v] && c.is_none() { return Err(format!("variable {} matters but has no column", p.off + v + 1)); }
            if b.mentioned() >> v & 1 == 0 && c.is_some() { return Err(format!("variable {} has a column but does not occur", p.off + v + 1)); }
            if let Some(c) = c {
                owner[c] = Some((n, v));
                let kind = b.kinds[v] && !real;
                int |= kind;
                if s.p[c] != kind { return Err(format!("variable {} with integer mark {} has mark {}", p.off + v + 1, kind, s.p[c])); }
                let (x0, want) = (s.x0.as_ref().map(|x| x[c]).unwrap_or(0.), init.get(&(p.off + v)).cloned().unwrap_or(0.));
                if x0 != want { return Err(format!("variable {} starts at {} instead of {}", p.off + v + 1, x0, want)); }
            }
        }
    }
    for k in s.aux.iter() { if s.p[*k] || s.x0.as_ref().map(|x| x[*k]).unwrap_or(0.) != 0. { return Err("an auxiliary variable is integer or does not start at zero".to_string()); } }
    let want = match (affine, int) { (true, false) => "lp", (true, true) => "milp", (false, false) => "nlp", _ => "minlp" };
    if s.class != want { return Err(format!("class is {} instead of {}", s.class, want)); }
    ctx.count(&format!("side_{}", s.class));
    // what stands for each constraint
    let mut who: HashMap<&Constraint, (usize, usize)> = HashMap::new();
    for (n, p) in parts.iter().enumerate() { for (i, c) in p.cons.iter().enumerate() { who.insert(c, (n, i)); } }
    let mut row = Vec::new();
    for i in 0..s.nf { match s.sp.jindex2constr.get(&i).and_then(|c| who.get(c)) { Some(x) => row.push(*x), None => return Err(format!("nonlinear row {} belongs to no constraint", i)) } }
    let good: Vec<Vec<usize>> = bs.iter().map(|b| { let one = vec![real; b.nv()]; (0..b.pts.len()).filter(|k| usable(b, &b.refs[*k]) && b.holds(&b.pts[*k], &b.refs[*k], &one) == 1).collect() }).collect();
    let whole = |pick: &[usize]| -> Vec<f64> { parts.iter().zip(pick).flat_map(|(p, k)| bs[p.b].pts[*k].clone()).collect() };
    let mut base: Option<(f64, f64)> = None;
    for step in 0..6 {
        // a point where every copy is satisfied, or all but one
        let mut pick: Vec<usize> = parts.iter().map(|p| good[p.b][rng.below(good[p.b].len() as u64) as usize]).collect();
        if step % 2 == 1 {
            let n = if rng.below(2) == 0 { parts.len() - 1 - rng.below(parts.len().min(40) as u64) as usize } else { rng.below(parts.len() as u64) as usize };
            let b = &bs[parts[n].b];
            let bad: Vec<usize> = (0..b.pts.len()).filter(|k| usable(b, &b.refs[*k]) && b.holds(&b.pts[*k], &b.refs[*k], &ignore[n]) == 0).collect();
            if !bad.is_empty() { pick[n] = bad[rng.below(bad.len() as u64) as usize]; }
        }
        let pt = whole(&pick);
        let jets = |n: usize| -> &Vec<crate::jet::Jet> { &bs[parts[n].b].refs[pick[n]] };
        if !ctx.is("C09") && !ctx.is("C10") {
            let each: Vec<i64> = (0..parts.len()).map(|n| bs[parts[n].b].holds(&bs[parts[n].b].pts[pick[n]], jets(n), &ignore[n])).collect();
            let want = *each.iter().min().unwrap();
            if want >= 0 {
                let want = each.iter().all(|x| *x == 1) as i64;
                let m = |n: usize, i: usize| bs[parts[n].b].residual(i, jets(n)).m[0];
                let scale = 1. + (0..parts.len()).flat_map(|n| (0..parts[n].cons.len()).map(move |i| (n, i))).map(|(n, i)| m(n, i)).filter(|m| m.is_finite()).fold(0., f64::max);
                let rows: Vec<f64> = row.iter().map(|(n, i)| m(*n, *i)).collect();
                if let Some((x, mag)) = s.complete(&pt, &rows) {
                    let got = s.feasible(&x, &mag, scale, &rows);
                    if got >= 0 && got != want { return Err(format!("a point with the parts {:?} is {} for the model but {} for the standard problem", pick,
                        if want == 1 { "feasible" } else { "infeasible" }, if got == 1 { "feasible" } else { "infeasible" })); }
                    ctx.count(if want == 1 { "side_feasible" } else { "side_infeasible" });
                } else {
                    // what each of the models determines by itself is determined in all of them
                    let alone = bs.iter().enumerate().all(|(k, b)| !parts.iter().any(|p| p.b == k) || standard(&b.model, &b.run.vars).map_or(false, |mut t| {
                        let rows = vec![1.; t.nf];
                        b.pts.iter().any(|p| t.complete(p, &rows).is_some()) }));
                    if alone { return Err("the rows of the models side by side do not determine the auxiliary variables, although those of each one do".to_string()); }
                    ctx.count("side_not_determined");
                }
            }
        }
        // the objective and its derivatives
        let mut x = s.extend(&pt);
        for a in s.aux.clone() { x[a] = rng.sym(3.); }
        let mult: Vec<f64> = (0..s.nf).map(|i| if (step + i) % 5 == 4 { 0. } else { rng.sym(2.) }).collect();
        let m = s.base();
        catch(|| { m.evaluate(&x); m.combine_h(&mult); }).map_err(|e| format!("evaluation panicked: {}", e))?;
        let (phi, gphi) = (m.phi(), m.gphi().to_vec());
        let (hphi, j, hcomb, f) = (sparse(m.hphi())?, sparse(m.j())?, sparse(m.hcomb())?, m.f().to_vec());
        let h: Result<Vec<_>, String> = m.h().iter().map(sparse).collect();
        let h = h?;
        let (mut want, mut mag) = (0., 0.);
        for (n, p) in parts.iter().enumerate() {
            let b = &bs[p.b];
            let o = b.objective(jets(n));
            want += p.w * o.c[0]; mag += p.w * o.m[0];
            for v in 0..b.nv() {
                let got = s.col[p.off + v].map(|c| gphi[c]).unwrap_or(0.);
                let g = o.g(v);
                if b.dir != "none" && !close(got, (p.w * g.0, p.w * g.1)) { return Err(format!("gradient of the objective by variable {} is {}, not {}", p.off + v + 1, got, p.w * g.0)); }
                if b.dir == "none" && got != 0. { return Err(format!("gradient of the objective by variable {} is {}, not 0", p.off + v + 1, got)); }
                if let (Some(c), Some(k)) = (&s.c, s.col[p.off + v]) { if c[k] != gphi[k] { return Err(format!("coefficient of variable {} is {} but its derivative {}", p.off + v + 1, c[k], gphi[k])); } }
            }
        }
        for a in &s.aux { if gphi[*a] != 0. { return Err("the objective depends on an auxiliary variable".to_string()); } }
        if s.c.is_some() {
            match base { None => base = Some((phi - want, mag)),
                Some((d, m0)) => if !((phi - want - d).abs() <= 1e-10 * (mag + m0) + 1e-280) { return Err(format!("linear objective differs from the model's by {} at one point and {} at another", d, phi - want)); } }
        } else if !((phi - want).abs() <= 1e-10 * mag + 1e-280) { return Err(format!("objective is {}, not {}", phi, want)); }
        ctx.count("side_points");
        if !ctx.is("C10") { continue; }
        // second derivatives of the objective
        let inside = |d: &HashMap<(usize, usize), f64>, what: &str| -> Result<(), String> { // no entry but within one copy
            for (r, c) in d.keys() { match (owner[*r], owner[*c]) { (Some((a, _)), Some((b, _))) if a == b && r >= c => {}, _ => return Err(format!("{} has an entry ({}, {})", what, r, c)) } } Ok(()) };
        inside(&hphi, "Hessian of the objective")?;
        inside(&hcomb, "combined Hessian")?;
        let at = |d: &HashMap<(usize, usize), f64>, off: usize, v: usize, w: usize| match (s.col[off + v], s.col[off + w]) { (Some(a), Some(b)) => d.get(&(a.max(b), a.min(b))).cloned().unwrap_or(0.), _ => 0. };
        for (n, p) in parts.iter().enumerate() {
            let b = &bs[p.b];
            let o = b.objective(jets(n));
            if b.dir != "none" && !o.usable(2) { continue; }
            for v in 0..b.nv() { for w in v..b.nv() {
                let t = if b.dir == "none" { (0., 0.) } else { o.h(v, w) };
                let got = at(&hphi, p.off, v, w);
                if !close(got, (p.w * t.0, p.w * t.1)) { return Err(format!("Hessian of the objective by variables {} {} is {}, not {}", p.off + v + 1, p.off + w + 1, got, p.w * t.0)); }
            } }
        }
        // nonlinear rows
        if f.len() != s.nf || h.len() != s.nf { return Err("nonlinear rows have inconsistent sizes".to_string()); }
        let mut jr: Vec<HashMap<usize, f64>> = vec![HashMap::new(); s.nf];
        for ((r, c), v) in &j { jr[*r].insert(*c, *v); }
        let mut sum: HashMap<(usize, usize), (f64, f64)> = HashMap::new();
        for (i, (n, k)) in row.iter().enumerate() {
            let (p, b) = (&parts[*n], &bs[parts[*n].b]);
            let e = b.residual(*k, jets(*n));
            let mut extra = 0.;
            let mut mine = 0;
            for (c, v) in &jr[i] { match owner[*c] { None => { extra += v * x[*c]; mine += 1; }, Some((o, _)) => if o != *n { return Err(format!("nonlinear row {} depends on variable {} of another model", i, c)); } } }
            if mine != if b.con[*k].op == "eq" { 0 } else { 1 } { return Err(format!("nonlinear row {} has {} auxiliary variables", i, mine)); }
            if !close(f[i] - extra, (e.c[0], e.m[0] + extra.abs() + f[i].abs())) { return Err(format!("nonlinear row {} is {} with auxiliary part {}, not {}", i, f[i], extra, e.c[0])); }
            for v in 0..b.nv() {
                let got = s.col[p.off + v].and_then(|c| jr[i].get(&c).cloned()).unwrap_or(0.);
                if !close(got, e.g(v)) { return Err(format!("derivative of nonlinear row {} by variable {} is {}, not {}", i, p.off + v + 1, got, e.g(v).0)); }
                for w in v..b.nv() { if e.usable(2) {
                    let got = at(&h[i], p.off, v, w);
                    if !close(got, e.h(v, w)) { return Err(format!("Hessian of nonlinear row {} by variables {} {} is {}, not {}", i, p.off + v + 1, p.off + w + 1, got, e.h(v, w).0)); }
                } }
            }
            inside(&h[i], "Hessian of a nonlinear row")?;
            for (rc, v) in &h[i] { let t = sum.entry(*rc).or_insert((0., 0.)); t.0 += mult[i] * v; t.1 += (mult[i] * v).abs(); }
            ctx.count("side_rows");
        }
        for rc in hcomb.keys() { sum.entry(*rc).or_insert((0., 0.)); }
        for (rc, t) in &sum { let got = hcomb.get(rc).cloned().unwrap_or(0.);
            if !((got - t.0).abs() <= 1e-10 * t.1 + 1e-280) { return Err(format!("combined Hessian {:?} is {}, not {}", rc, got, t.0)); } }
    }
    Ok(())
}

/// Takes a program for a sum of many expressions over variables of their own.
pub fn offer_expr(ctx: &mut Ctx, p: &crate::expr::Prep, case: &Value) {
    let t = p.run.regs.len().wrapping_sub(1);
    let nv = p.run.nv();
    if nv < 3 || nv > 6 || p.run.panic.is_some() || t < nv || p.run.size[t] > 12. || p.seed % 2 != 0 { return; }
    if p.run.regs.len() != nv + p.run.ins.len() || !p.refs.iter().all(|r| r[t].usable(2)) { return; }
    let affine = p.deg.get(t).map_or(false, |d| *d <= 1);
    let pool = &mut ctx.pool[affine as usize];
    pool.push(case.clone());
    if pool.len() == POOL {
        let cases = std::mem::take(pool);
        let old = std::mem::replace(&mut ctx.case, json!({ "side": cases }));
        if let Err(e) = exprs(ctx, &cases) { ctx.fail(format!("sum of many expressions: {}", e)); }
        ctx.case = old;
    }
}

pub fn exprs(ctx: &mut Ctx, cases: &[Value]) -> Result<(), String> {
    let ps: Vec<crate::expr::Prep> = cases.iter().map(|c| crate::expr::prepare(ctx, c, 2, 2)).collect();
    let mut rng = Rng(ps.iter().fold(3u64, |a, p| a.rotate_left(5) ^ p.seed));
    let parts = [15, 40, 80, 140][rng.below(4) as usize];
    let (mut vars, mut off, mut sum, mut terms): (Vec<Node>, Vec<usize>, Option<Node>, Vec<(usize, f64)>) = (vec![], vec![], None, vec![]);
    let mut names: Vec<String> = vec![];
    for j in 0..parts {
        let k = rng.below(ps.len() as u64) as usize;
        let p = &ps[k].run;
        let own: Vec<String> = (0..p.nv()).map(|v| format!("x{}_{}", v, j)).collect();
        let run = prog::run_real(&own, &vec![false; p.nv()], p.ins.clone(), 1e9);
        let w = [1., 1., 2., 0.5, -1.][rng.below(5) as usize];
        let e = run.regs.last().unwrap();
        let t = if w == 1. { e.clone() } else if rng.below(2) == 0 { e * w } else { w * e };
        sum = Some(match sum { None => t, Some(s) => if rng.below(2) == 0 { s + t } else { &s + &t } });
        off.push(vars.len()); terms.push((k, w)); vars.extend(run.vars); names.extend(own);
    }
    let e = sum.unwrap();
    let n = vars.len();
    let index: HashMap<&Node, usize> = vars.iter().enumerate().map(|(k, v)| (v, k)).collect();
    let all: Vec<&Node> = vars.iter().collect();
    ctx.count("sums_side_by_side");
    let last = |p: &crate::expr::Prep, q: usize| -> crate::jet::Jet { p.refs[q][p.run.regs.len() - 1].clone() };
    // what depends on nothing else: built once
    let derivs = if ctx.is("C02") { Some(catch(|| e.derivatives(&all)).map_err(|e| format!("derivatives panicked: {}", e))?) } else { None };
    let comp = if ctx.is("C03") { Some(catch(|| e.std_components()).map_err(|e| format!("std_components panicked: {}", e))?) } else { None };
    let prop = if ctx.is("C04") { Some(catch(|| e.std_properties()).map_err(|e| format!("std_properties panicked: {}", e))?) } else { None };
    let text = if ctx.is("C06") { format!("{}", e) } else { String::new() };
    let mut h: Vec<(usize, usize, &Node)> = vec![];
    if let Some(c) = &comp {
        let mut seen = std::collections::HashSet::new();
        for (v, w, d) in &c.hphi { match (index.get(v), index.get(w)) {
            (Some(a), Some(b)) => { let k = (*a.min(b), *a.max(b)); if !seen.insert(k) { return Err(format!("two Hessian entries for variables {:?}", k)); } h.push((k.0, k.1, d)); }
            _ => return Err("Hessian entry for a variable that is not there".to_string()) } }
    }
    if let Some(c) = &prop { if !c.affine && terms.iter().all(|(k, _)| { let p = &ps[*k]; p.deg.get(p.run.regs.len() - 1).map_or(false, |d| *d <= 1) }) {
        return Err("a linear combination of variables is not reported affine".to_string()); } }
    for _ in 0..2 {
        let pick: Vec<usize> = terms.iter().map(|(k, _)| rng.below(ps[*k].pts.len() as u64) as usize).collect();
        let pt: Vec<f64> = terms.iter().zip(&pick).flat_map(|((k, _), q)| ps[*k].pts[*q].clone()).collect();
        let jets: Vec<crate::jet::Jet> = terms.iter().zip(&pick).map(|((k, _), q)| last(&ps[*k], *q)).collect();
        let m = crate::expr::assign(&vars, &pt);
        let (mut want, mut mag) = (0., 0.);
        for (j, (_, w)) in jets.iter().zip(&terms) { want += w * j.c[0]; mag += w.abs() * j.m[0]; }
        let mut grad = vec![(0., 0.); n];
        for (j, x) in jets.iter().enumerate() { let w = terms[j].1; for v in 0..x.s.nv { let g = x.g(v); grad[off[j] + v] = (w * g.0, w.abs() * g.1); } }
        match ctx.prop.as_str() {
            "C01" => { let got = e.evaluate(&m); if !close(got, (want, mag)) { return Err(format!("evaluates to {}, but means {}", got, want)); } }
            "C06" => { let env: HashMap<&str, f64> = names.iter().map(|s| s.as_str()).zip(pt.iter().cloned()).collect();
                match crate::text::eval(&text, &env) { Err(x) => return Err(format!("its text is not an expression: {}", x)),
                    Ok(got) => if !close(got, (want, mag)) { return Err(format!("its text means {}, not {}", got, want)); } } }
            "C02" => { let d = derivs.as_ref().unwrap();
                for v in 0..n { match d.get(&vars[v]) { None => return Err(format!("no derivative by variable {}", v + 1)),
                    Some(x) => { let got = x.evaluate(&m); if !close(got, grad[v]) { return Err(format!("derivative by variable {} of {} is {}, not {}", v + 1, n, got, grad[v].0)); } } } }
                let v = n - 1 - rng.below(n as u64) as usize;
                let got = e.derivative(&vars[v]).evaluate(&m);
                if !close(got, grad[v]) { return Err(format!("derivative by variable {} alone is {}, not {}", v + 1, got, grad[v].0)); } }
            "C03" => { let c = comp.as_ref().unwrap();
                let mut g = vec![None; n];
                for (v, d) in &c.gphi { match index.get(v) { None => return Err("gradient entry for a variable that is not there".to_string()),
                    Some(k) => if g[*k].replace(d.evaluate(&m)).is_some() { return Err(format!("two gradient entries for variable {}", k + 1)); } } }
                for v in 0..n { let got = g[v].unwrap_or(0.); if !close(got, grad[v]) { return Err(format!("gradient by variable {} of {} is {}, not {}", v + 1, n, got, grad[v].0)); } }
                let hv: HashMap<(usize, usize), f64> = h.iter().map(|(a, b, d)| ((*a, *b), d.evaluate(&m))).collect();
                let mut used = 0;
                for (j, x) in jets.iter().enumerate() { let w = terms[j].1; for a in 0..x.s.nv { for b in a..x.s.nv {
                    let k = (off[j] + a, off[j] + b);
                    let got = hv.get(&k).cloned(); used += got.is_some() as usize;
                    let t = x.h(a, b);
                    if !close(got.unwrap_or(0.), (w * t.0, w.abs() * t.1)) { return Err(format!("Hessian by variables {:?} of {} is {:?}, not {}", k, n, got, w * t.0)); } } } }
                if used != hv.len() && hv.iter().any(|((a, b), v)| *v != 0. && off.iter().filter(|o| **o <= *a).count() != off.iter().filter(|o| **o <= *b).count()) { return Err("Hessian entry for variables of two terms".to_string()); } }
            "C04" => { let c = prop.as_ref().unwrap();
                for v in 0..n { let got = c.a.get(&vars[v]);
                    if got.is_none() && grad[v].0.abs() > 1e-6 * grad[v].1 { return Err(format!("depends on variable {} of {}, which is not among its variables", v + 1, n)); }
                    if c.affine && !close(got.cloned().unwrap_or(0.), grad[v]) { return Err(format!("coefficient of variable {} is {:?}, not {}", v + 1, got, grad[v].0)); } }
                if c.a.keys().any(|k| !index.contains_key(k)) { return Err("its variables include one that is not there".to_string()); }
                if c.affine { let got = c.b + (0..n).map(|v| c.a.get(&vars[v]).cloned().unwrap_or(0.) * pt[v]).sum::<f64>();
                    if !close(got, (want, mag)) { return Err(format!("is reported affine with value {}, not {}", got, want)); } } }
            _ => {}
        }
    }
    ctx.nontrivial += 1;
    Ok(())
}
