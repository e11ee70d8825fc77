//! Constraint violations (spec/Viol.tla). C07.
use crate::model::{make_con, Con, Side};
use crate::run::{catch, Ctx};
use numopt::model::variable::VariableScalar;
use numopt::model::Node;
use serde_json::Value;
use std::collections::HashMap;

/// None: missing.
fn value(v: &Value) -> Option<f64> {
    match v[0].as_i64().unwrap() { 1 => return Some(f64::INFINITY), 2 => return Some(f64::NEG_INFINITY), 3 => return Some(f64::NAN), 4 => return None, _ => {} }
    Some(v[1].as_f64().unwrap() + v[2].as_f64().unwrap() * (-50f64).exp2())
}

pub fn check(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    let form = case["form"].as_str().unwrap();
    let (x, y, z) = (VariableScalar::new_continuous("x"), VariableScalar::new_integer("y"), VariableScalar::new_continuous("z"));
    let f = |v: &Node| v + &z;                     // z is zero
    let regs = vec![x.clone(), y.clone(), f(&x), f(&y)];
    let s = value(&case["s"]).unwrap();
    let (l, r, how) = match form {
        "rr" => (Side::Reg(0), Side::Reg(1), "rr"),
        "ro" => (Side::Reg(0), Side::Reg(1), "ro"),
        "fr" => (Side::Reg(2), Side::Reg(1), "rr"),
        "ff" => (Side::Reg(2), Side::Reg(3), "ro"),
        "rs" => (Side::Reg(0), Side::Num(s), "rs"),
        "fs" => (Side::Reg(2), Side::Num(s), "rs"),
        "sr" => (Side::Num(s), Side::Reg(0), "sr"),
        "so" => (Side::Num(s), Side::Reg(0), "so"),
        _ => (Side::Num(s), Side::Reg(2), "sr"),
    };
    let con = Con { op: case["op"].as_str().unwrap().into(), form: how.into(), l, r, label: case["tag"].as_str().unwrap().into() };
    let c = match catch(|| make_con(&con, &regs)) { Ok(c) => c, Err(e) => { ctx.fail(format!("building the constraint panicked: {}", e)); return; } };
    let copy = c.clone();
    for h in case["h"].as_array().unwrap() {
        let mut m: HashMap<&Node, f64> = HashMap::new();
        m.insert(&z, 0.);
        if let Some(v) = value(&h[0][0]) { m.insert(&x, v); }
        if let Some(v) = value(&h[0][1]) { m.insert(&y, v); }
        let want = value(&h[1]).unwrap();
        for k in [&c, &copy] {
            let got = match catch(|| k.violation(&m)) { Ok(v) => v, Err(e) => { ctx.fail(format!("violation panicked: {}", e)); return; } };
            if !(got == want || (got.is_nan() && want.is_nan())) {
                ctx.fail(format!("violation of {} at x = {}, y = {} is {:e}, not {:e}", c, h[0][0], h[0][1], got, want)); return;
            }
        }
        ctx.count(if want.is_nan() { "not_evaluable" } else if want == 0. { "exact_satisfied" } else { "exact_violated" });
        ctx.nontrivial += 1;
    }
}
