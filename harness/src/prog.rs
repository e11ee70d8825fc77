//! Programs (spec/Prog.tla): run in the real code, and in the reference semantics.
use crate::jet::{Jet, Space};
use crate::run::catch;
use numopt::model::function::{add::FunctionAdd, cos::FunctionCos, div::FunctionDiv, mul::FunctionMul, sin::FunctionSin};
use numopt::model::node_func::NodeFunc;
use numopt::model::node_diff::NodeDiff;
use numopt::model::{ConstantScalar, Node, VariableScalar};
use serde_json::Value;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Ins { pub op: String, pub f: String, pub a: usize, pub b: usize, pub n: i64, pub d: i64, pub scale: f64 }

impl Ins {
    pub fn scalar(&self) -> f64 { self.n as f64 / self.d as f64 * self.scale }
}

pub fn parse(v: &Value) -> Vec<Ins> {
    v.as_array().unwrap().iter().map(|i| Ins {
        op: i[0].as_str().unwrap().to_string(), f: i[1].as_str().unwrap().to_string(),
        a: (i[2].as_i64().unwrap() - 1).max(0) as usize, b: (i[3].as_i64().unwrap() - 1).max(0) as usize,
        n: i[4].as_i64().unwrap(), d: i[5].as_i64().unwrap(), scale: 1. }).collect()
}

macro_rules! bin { ($op:tt, $f:expr, $a:expr, $b:expr, $s:expr) => { match $f {
    "rr" => $a $op $b, "ro" => $a $op $b.clone(), "or" => $a.clone() $op $b, "oo" => $a.clone() $op $b.clone(),
    "rs" => $a $op $s, "os" => $a.clone() $op $s, "sr" => $s $op $a, "so" => $s $op $a.clone(),
    x => panic!("harness: form {}", x) } } }

/// Executes one instruction in the real code.
pub fn exec(i: &Ins, r: &[Node]) -> Node {
    let a = &r[i.a]; let b = &r[i.b]; let s = i.scalar();
    match i.op.as_str() {
        "k" => ConstantScalar::new(s),
        "add" => bin!(+, i.f.as_str(), a, b, s),
        "sub" => bin!(-, i.f.as_str(), a, b, s),
        "mul" => bin!(*, i.f.as_str(), a, b, s),
        "div" => bin!(/, i.f.as_str(), a, b, s),
        "neg" => if i.f == "r" { -a } else { -(a.clone()) },
        "cos" => a.cos(), "sin" => a.sin(), "cl" => a.clone(),
        "Fadd" => FunctionAdd::new(if i.n > 0 { vec![a.clone(), b.clone(), r[i.n as usize - 1].clone()] } else { vec![a.clone(), b.clone()] }),
        "Fmul" => FunctionMul::new(a.clone(), b.clone()),
        "Fdiv" => FunctionDiv::new(a.clone(), b.clone()),
        "Fcos" => FunctionCos::new(a.clone()), "Fsin" => FunctionSin::new(a.clone()),
        "der" => a.derivative(&r[i.b]),
        x => panic!("harness: op {}", x),
    }
}

/// The reference meaning of one instruction (Prog!Den1).
pub fn den(i: &Ins, r: &[Jet], s: &Rc<Space>) -> Jet {
    let a = &r[i.a]; let b = &r[i.b];
    let k = Jet::konst(s, i.scalar());
    let (x, y) = match i.f.as_str() { "rs" | "os" => (a, &k), "sr" | "so" => (&k, a), _ => (a, b) };
    match i.op.as_str() {
        "k" => k.clone(),
        "add" => x.add(y), "sub" => x.sub(y), "mul" | "Fmul" => x.mul(y), "div" | "Fdiv" => x.div(y),
        "neg" => a.neg(), "cos" | "Fcos" => a.cos(), "sin" | "Fsin" => a.sin(), "cl" => a.clone(),
        "Fadd" => { let t = a.add(b); if i.n > 0 { t.add(&r[i.n as usize - 1]) } else { t } }
        "der" => a.der(i.b),
        x => panic!("harness: op {}", x),
    }
}

/// Upper estimate of the number of leaves of the expression, which bounds the work
/// of path enumeration; and the depth of nested derivatives.
pub fn size(i: &Ins, z: &[f64]) -> f64 {
    let a = z[i.a]; let b = z[i.b];
    match i.op.as_str() {
        "k" => 1.,
        "add" | "sub" | "mul" | "div" => match i.f.as_str() { "rs" | "os" | "sr" | "so" => a + 1., _ => a + b },
        "Fmul" | "Fdiv" => a + b,
        "Fadd" => a + b + if i.n > 0 { z[i.n as usize - 1] } else { 0. },
        "der" => 4. * a * a + 2.,
        _ => a,
    }
}
pub fn der_depth(i: &Ins, z: &[usize]) -> usize {
    let a = z[i.a]; let b = z[i.b];
    match i.op.as_str() {
        "k" => 0, "der" => a + 1,
        "Fadd" => a.max(b).max(if i.n > 0 { z[i.n as usize - 1] } else { 0 }),
        "Fmul" | "Fdiv" => a.max(b),
        _ => if i.f.len() == 2 && !i.f.contains('s') { a.max(b) } else { a },
    }
}
/// Which variables the program text mentions, as a bit set.
pub fn uses(i: &Ins, z: &[u128]) -> u128 {
    let a = z[i.a]; let b = z[i.b];
    match i.op.as_str() {
        "k" => 0,
        "Fadd" => a | b | if i.n > 0 { z[i.n as usize - 1] } else { 0 },
        "Fmul" | "Fdiv" => a | b,
        _ => if i.f.len() == 2 && !i.f.contains('s') { a | b } else { a },
    }
}

pub struct Run {
    pub names: Vec<String>,
    pub ins: Vec<Ins>,
    pub vars: Vec<Node>,
    pub regs: Vec<Node>,          // registers actually built (may stop early)
    pub panic: Option<String>,    // message of the panic that stopped the program
    pub size: Vec<f64>,
    pub uses: Vec<u128>,
    pub order: usize,             // order of jets needed for Hessians of every register
}

/// The sizes of all registers.
pub fn sizes(nv: usize, ins: &[Ins]) -> Vec<f64> {
    let mut z = vec![1.; nv];
    for i in ins { let s = size(i, &z); z.push(s); }
    z
}

pub fn run_real(names: &[String], kinds: &[bool], ins: Vec<Ins>, limit: f64) -> Run {
    let vars: Vec<Node> = names.iter().zip(kinds).map(|(n, k)| if *k { VariableScalar::new_integer(n) } else { VariableScalar::new_continuous(n) }).collect();
    let mut regs = vars.clone();
    let mut size_: Vec<f64> = vec![1.; vars.len()];
    let mut dd = vec![0; vars.len()];
    let mut us: Vec<u128> = (0..vars.len()).map(|k| 1 << k).collect();
    let mut panic = None;
    for i in &ins {
        let z = size(i, &size_);
        if z > limit || regs.len() <= i.a || regs.len() <= i.b { break; }
        match catch(|| exec(i, &regs)) {
            Ok(n) => regs.push(n),
            Err(e) => { panic = Some(e); break; }
        }
        size_.push(z); dd.push(der_depth(i, &dd)); us.push(uses(i, &us));
    }
    let order = 2 + dd.iter().max().unwrap();
    Run { names: names.to_vec(), ins, vars, regs, panic, size: size_, uses: us, order }
}

impl Run {
    pub fn nv(&self) -> usize { self.vars.len() }
    /// Reference meaning of every instruction (also those after a stop), at a point.
    pub fn reference(&self, pt: &[f64], upto: usize) -> Vec<Jet> {
        let s = Space::get(self.nv(), self.order.min(5));
        let mut r: Vec<Jet> = pt.iter().enumerate().map(|(k, v)| Jet::var(&s, k, *v)).collect();
        for i in self.ins.iter().take(upto.saturating_sub(self.nv())) { let j = den(i, &r, &s); r.push(j); }
        r
    }
}
