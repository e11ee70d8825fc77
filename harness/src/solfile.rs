//! Solution files (spec/SolFile.tla) read by the real code. C15.
use crate::run::{catch, hash_str, Ctx};
use numopt::matrix::coo::CooMat;
use numopt::problem::milp::ProblemMilp;
use numopt::solver::base::SolverStatus;
use numopt::solver::SolverCbcCmd;
use serde_json::Value;

const NUMS: [&str; 15] = ["0", "1.5", "-2", "3e2", "-0", "2.5e-1", "-1e+3", "+7", "0.0625", "1e-17", "-3e-14", "4.9e-324", "-123456789.125", "1e300", "0.1000000000000000055"];

fn line(l: &Value, n: usize, pad: (usize, usize)) -> Vec<u8> {
    let g = |i: usize| l[i].as_i64().unwrap() as usize;
    let (kind, name) = (l[0].as_str().unwrap(), l[2].as_str().unwrap());
    let (m, i, v, d) = (g(1), g(3), NUMS[g(4) - 1], NUMS[g(5) - 1]);
    let i = if name == "x" { i + pad.0 } else if name == "c" { i + pad.1 } else { i };
    let mark = if m == 1 { "** " } else { "" };
    match kind {
        "ok" => format!("{}{:7} {}_{:<8} {:>15} {:>22}", mark, n, name, i, v, d).into_bytes(),
        "novalue" => format!("{} {}_{}", n, name, i).into_bytes(),
        "nomult" => format!("{} {}_{} 1", n, name, i).into_bytes(),
        "badvalue" => format!("{} {}_{} abc 0", n, name, i).into_bytes(),
        "badmult" => format!("{} {}_{} 1 -", n, name, i).into_bytes(),
        "noindex" => format!("{} {} 1 0", n, name).into_bytes(),
        "badindex" => format!("{} {}_a 1 0", n, name).into_bytes(),
        "othername" => format!("{} {}_{} 1 0", n, name, i).into_bytes(),
        "number" => format!("{}", n).into_bytes(),
        "marker" => b"**".to_vec(),
        "bytes" => { let mut b = format!("{} {}_{}", n, name, i).into_bytes(); b.push(0xff); b.extend(b" 1 0"); b }
        "twoindex" => format!("{} {}_{}_1 {} {}", n, name, i, v, d).into_bytes(),
        "glued" => format!("{} {}_{}{} 1 0", n, name, i, name).into_bytes(),
        "upper" => format!("{} {}_{} 1 0", n, name.to_uppercase(), i).into_bytes(),
        "half" => format!("{}{} {}_", mark, n, name).into_bytes(),
        "hugeindex" => format!("{} {}_99999999999999999999999 1 0", n, name).into_bytes(),
        "negindex" => format!("{} {}_-1 1 0", n, name).into_bytes(),
        "empty" => Vec::new(),
        "nan" => format!("{} {}_{} nan 0", n, name, i).into_bytes(),
        x => panic!("harness: line {}", x),
    }
}

pub fn check(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    let (nx, na) = (case["s"][0].as_i64().unwrap() as usize, case["s"][1].as_i64().unwrap() as usize);
    let head: Vec<&str> = case["h"].as_array().unwrap().iter().map(|h| h.as_str().unwrap()).collect();
    let body = case["b"].as_array().unwrap();
    let eol: &[u8] = if case["e"].as_i64() == Some(2) { b"\r\n" } else { b"\n" };
    let mut all: Vec<Vec<u8>> = head.iter().map(|h| h.as_bytes().to_vec()).collect();
    // lines of further variables and rows (Pad of the specification), before or after
    let z = |k: usize| case["pad"][k].as_u64().unwrap_or(0) as usize;
    let (px, pc) = (z(0), z(1));
    let (wide, before) = (px + pc > 0, hash_str(&case.to_string()) % 3 > 0);
    let (padx, padd) = (|i: usize| (i % 97) as f64 - 48., |i: usize| (i % 5) as f64 - 2.);
    let more = |all: &mut Vec<Vec<u8>>| {
        for i in 0..pc { all.push(format!("{:7} c_{} {} {}", i, i, 1, padd(i)).into_bytes()); }
        for i in (0..px).rev() { all.push(format!("{}{:7} x_{} {} {}", if i % 1000 == 7 { "** " } else { "" }, i, i, padx(i), padd(i)).into_bytes()); }
    };
    if wide && before && !head.is_empty() { more(&mut all); }
    for (n, l) in body.iter().enumerate() { all.push(line(l, n, (px, pc))); }
    if wide && !(before && !head.is_empty()) { more(&mut all); }
    if wide { ctx.count("wide"); }
    let mut bytes = all.join(eol);
    if case["e"].as_i64() != Some(1) && !all.is_empty() { bytes.extend(eol); }
    let dir = format!("sol/{:?}", std::thread::current().id());
    std::fs::create_dir_all(&dir).unwrap();
    let file = match head.first() {
        Some(&"<missing>") => format!("{}/missing.sol", dir),
        Some(&"<directory>") => dir.clone(),
        _ => { let f = format!("{}/s.sol", dir); std::fs::write(&f, &bytes).unwrap(); f }
    };
    let (nx, na) = (nx + px, na + pc);
    let p = ProblemMilp::new(vec![1.; nx], CooMat::new((na, nx), (0..na).collect(), (0..na).map(|i| i % nx).collect(), vec![1.; na]),
                             vec![1.; na], vec![-1.; nx], vec![1.; nx], vec![hash_str(&case.to_string()) % 2 == 0; nx], None);
    let r = match catch(|| SolverCbcCmd::read_sol_file(&file, &p, case["f"] == "cbc")) {
        Ok(r) => r,
        Err(e) => { ctx.fail(format!("reading panicked: {} on {:?}", e, String::from_utf8_lossy(&bytes))); return; }
    };
    let kind = case["r"]["k"].as_str().unwrap();
    ctx.count(kind);
    let status = match &r { Err(_) => "err", Ok((SolverStatus::Error, _)) => "error", Ok((SolverStatus::Solved, _)) => "solved", Ok((SolverStatus::Infeasible, _)) => "infeasible", Ok((SolverStatus::Unknown, _)) => "unknown" };
    let ok = match kind { "bad" | "error" => status == "err" || status == "error", "free" => true, k => status == k };
    if !ok { ctx.fail(format!("result is {} where {} is expected for {:?}", status, kind, String::from_utf8_lossy(&bytes[..bytes.len().min(5000)]))); return; }
    if kind == "solved" {
        let (_, s) = r.unwrap();
        ctx.nontrivial += 1;
        if s.x.len() != nx || s.pi.len() != nx || s.mu.len() != nx || s.lam.len() != na || !s.nu.is_empty() { ctx.fail("the solution has the wrong size".to_string()); return; }
        let num = |v: &Value| NUMS[v.as_i64().unwrap() as usize - 1].parse::<f64>().unwrap();
        for i in 0..nx {
            let (x, d) = if i < px { (padx(i), padd(i)) } else { (num(&case["r"]["x"][i - px]), num(&case["r"]["d"][i - px])) };
            if s.x[i] != x || s.pi[i] != d.max(0.) || s.mu[i] != (-d).max(0.) {
                ctx.fail(format!("variable {}: value {} multipliers {} {} where the file has {} {}", i, s.x[i], s.pi[i], s.mu[i], x, d)); return; }
        }
        for i in 0..na { let d = if i < pc { padd(i) } else { num(&case["r"]["lam"][i - pc]) }; if s.lam[i] != d { ctx.fail(format!("row {}: multiplier {} where the file has {}", i, s.lam[i], d)); return; } }
    }
}
