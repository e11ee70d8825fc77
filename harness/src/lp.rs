//! LP files (spec/LpGen.tla, LpText.tla, LpRead.tla). C14.
use crate::run::{catch, hash_str, Ctx};
use numopt::matrix::coo::CooMat;
use numopt::problem::lp::ProblemLp;
use numopt::problem::milp::{ProblemMilp, ProblemMilpIO};
use serde_json::{json, Value};

/// <<sign, hi, lo, exp>> with twelve digits.
pub fn digits(v: f64) -> Value {
    if v == 0. { return json!([0, 0, 0, 0]); }
    let s = if v < 0. { -1 } else { 1 };
    if v.is_infinite() { return json!([s, 0, 0, 99999]); }
    if v.is_nan() { return json!([s, 0, 0, 88888]); }
    let t = format!("{:.11e}", v.abs());
    let (m, e) = t.split_once('e').unwrap();
    let m: String = m.chars().filter(|c| *c != '.').collect();
    json!([s, m[..6].parse::<i64>().unwrap(), m[6..].parse::<i64>().unwrap(), e.parse::<i64>().unwrap() + 1])
}

fn tok(k: &str, s: &str) -> Value { json!({"k": k, "s": s, "v": [0, 0, 0, 0]}) }

fn keyword(line: &str) -> Option<(&'static str, usize)> {
    let low = line.to_ascii_lowercase();
    let all: [(&str, &'static str); 22] = [("minimize", "min"), ("minimum", "min"), ("min", "min"), ("maximize", "max"), ("maximum", "max"), ("max", "max"),
        ("subject to", "rows"), ("such that", "rows"), ("s.t.", "rows"), ("st.", "rows"), ("st", "rows"), ("bounds", "bounds"), ("bound", "bounds"),
        ("generals", "ints"), ("general", "ints"), ("gen", "ints"), ("integers", "ints"), ("integer", "ints"), ("int", "ints"), ("end", "end"), ("infinity", ""), ("", "")];
    let norm: Vec<&str> = low.split_whitespace().collect();
    if norm.first().map_or(true, |w| !w.starts_with(|c| "msbgie".contains(c))) { return None; }
    for (w, k) in all.iter() {
        if k.is_empty() { break; }
        let n = w.split_whitespace().count();
        if norm.len() >= n && norm[..n].join(" ") == *w { return Some((k, n)); }
    }
    None
}

/// The tokens of an LP file.
pub fn tokens(text: &str) -> Vec<Value> {
    let mut out = Vec::new();
    for line in text.lines() {
        let line = line.split('\\').next().unwrap();
        let mut rest: String = line.to_string();
        if let Some((k, n)) = keyword(line) {
            out.push(tok("kw", k));
            rest = line.split_whitespace().skip(n).collect::<Vec<_>>().join(" ");
        }
        let ch: Vec<char> = rest.chars().collect();
        let mut i = 0;
        while i < ch.len() {
            let c = ch[i];
            if c.is_whitespace() { i += 1; continue; }
            if c == '+' || c == '-' || c == ':' { out.push(tok(&c.to_string(), "")); i += 1; continue; }
            if c == '<' || c == '>' || c == '=' {
                let mut s = String::new();
                while i < ch.len() && "<>=".contains(ch[i]) { s.push(ch[i]); i += 1; }
                let o = match s.as_str() { "<" | "<=" | "=<" => "<=", ">" | ">=" | "=>" => ">=", "=" | "==" => "=", _ => "?" };
                out.push(tok("op", o)); continue;
            }
            let mut s = String::new();
            if c.is_ascii_digit() || c == '.' {
                while i < ch.len() && (ch[i].is_ascii_digit() || ch[i] == '.' || ch[i] == 'e' || ch[i] == 'E' || ((ch[i] == '+' || ch[i] == '-') && matches!(ch[i - 1], 'e' | 'E'))) { s.push(ch[i]); i += 1; }
                let mut t = tok("num", "");
                t["v"] = digits(s.parse::<f64>().unwrap_or(f64::NAN));
                out.push(t); continue;
            }
            while i < ch.len() && !ch[i].is_whitespace() && !"+-:<>=".contains(ch[i]) { s.push(ch[i]); i += 1; }
            if ["inf", "infinity", "infin"].contains(&s.to_ascii_lowercase().as_str()) { let mut t = tok("num", ""); t["v"] = digits(f64::INFINITY); out.push(t); }
            else { out.push(tok("name", &s)); }
        }
        out.push(tok("nl", ""));
    }
    out
}

/// The tokens of each section of a file, without line ends, starting with the section's keyword.
fn sections(text: &str) -> Vec<Vec<(String, String, String)>> {
    let mut out: Vec<Vec<(String, String, String)>> = vec![vec![]];
    for t in tokens(text) {
        let (k, s) = (t["k"].as_str().unwrap().to_string(), t["s"].as_str().unwrap().to_string());
        if k == "nl" { continue; }
        if k == "kw" { out.push(vec![]); }
        out.last_mut().unwrap().push((k, s, t["v"].to_string()));
    }
    out
}
/// The file of many copies of a problem side by side is its file with many copies in each section.
/// With shared rows, the columns are copied and each row holds all copies of its terms.
fn copied(small: &str, wide: &str, nx: usize, na: usize, copies: usize, shared: bool) -> Result<bool, String> {
    let (a, b) = (sections(small), sections(wide));
    if a.len() != b.len() { return Ok(false); }
    let rename = |one: &(String, String, String), t: usize, na: usize| {
        let mut name = one.1.clone();
        if one.0 == "name" {
            if let Some(i) = one.1.strip_prefix("x_").and_then(|i| i.parse::<usize>().ok()) { name = format!("x_{}", i + t * nx); }
            if let Some(i) = one.1.strip_prefix("c_").and_then(|i| i.parse::<usize>().ok()) { name = format!("c_{}", i + t * na); }
        }
        (one.0.clone(), name, one.2.clone())
    };
    for (s, w) in a.iter().zip(&b) {
        if shared && s.iter().any(|t| t.0 == "op" && t.1 == "=") {
            let mut want = Vec::new();
            let starts: Vec<usize> = (1..s.len()).filter(|k| s[*k].0 == ":").map(|k| k - 1).collect();
            want.extend(s[..starts[0]].to_vec());
            for (r, from) in starts.iter().enumerate() {
                let to = starts.get(r + 1).cloned().unwrap_or(s.len());
                let op = match (*from..to).find(|k| s[*k].0 == "op") { Some(k) => k, None => return Ok(false) };
                want.extend(s[*from..from + 2].to_vec());
                for t in 0..copies { for one in &s[from + 2..op] { want.push(rename(one, t, 0)); } }
                want.extend(s[op..to].to_vec());
            }
            if want != *w { let k = (0..want.len().min(w.len())).find(|k| want[*k] != w[*k]); return Err(format!("rows of {} times as many terms: {:?} where it should be {:?}", copies, k.map(|k| &w[k]), k.map(|k| &want[k]))); }
            continue;
        }
        let mut h = s.iter().take_while(|t| t.0 == "kw").count(); // keyword and, for the objective, its name
        if s.len() >= h + 2 && s[h].0 == "name" && s[h + 1].0 == ":" && !s[h].1.starts_with("c_") { h += 2; }
        if w.len() < h || w[..h] != s[..h] { return Ok(false); }
        let body = &s[h..];
        if w.len() != h + body.len() * copies { return Err(format!("section {:?} of {} copies has {} items where one copy has {}", s.first().map(|t| &t.1), copies, w.len() - h, body.len())); }
        for t in 0..copies { for (k, one) in body.iter().enumerate() {
            let got = &w[h + t * body.len() + k];
            let one = rename(one, t, na);
            if *got != one { return Err(format!("copy {} of {}: {:?} where one copy has {:?}", t, copies, got, one)); }
        } }
    }
    Ok(true)
}

fn nums(v: &Value) -> Vec<f64> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect() }

pub fn check(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    let (nx, na) = (case["nx"].as_u64().unwrap() as usize, case["na"].as_u64().unwrap() as usize);
    let (c, b, l, u) = (nums(&case["c"]), nums(&case["b"]), nums(&case["l"]), nums(&case["u"]));
    let p: Vec<bool> = case["p"].as_array().unwrap().iter().map(|x| x.as_i64() == Some(1)).collect();
    let (mut ar, mut ac, mut av) = (Vec::new(), Vec::new(), Vec::new());
    let mut dense = vec![vec![0f64; nx]; na];
    for e in case["a"].as_array().unwrap() {
        let (i, j, v) = (e[0].as_u64().unwrap() as usize - 1, e[1].as_u64().unwrap() as usize - 1, e[2].as_str().unwrap().parse::<f64>().unwrap());
        ar.push(i); ac.push(j); av.push(v); dense[i][j] += v;
    }
    let dup = { let mut s: Vec<(usize, usize)> = ar.iter().cloned().zip(ac.iter().cloned()).collect(); let n = s.len(); s.sort(); s.dedup(); s.len() < n };
    let a = CooMat::new((na, nx), ar, ac, av);
    // the file of the previous case is still there and may be longer
    let path = std::path::Path::new("lp").join(format!("{:?}.lp", std::thread::current().id()));
    std::fs::create_dir_all("lp").expect("scratch directory");
    let name = path.to_str().unwrap().to_string();
    let mut texts = Vec::new();
    let m = ProblemMilp::new(c.clone(), a.clone(), b.clone(), l.clone(), u.clone(), p.clone(), None);
    let write = |m: &ProblemMilp, texts: &mut Vec<String>| -> Result<(), String> {
        match catch(|| m.write_to_lp_file(&name)) {
            Ok(Ok(())) => { texts.push(std::fs::read_to_string(&name).map_err(|e| format!("no file: {}", e))?); Ok(()) }
            Ok(Err(e)) => Err(format!("writing failed: {}", e)), Err(e) => Err(format!("writing panicked: {}", e)) } };
    if let Err(e) = write(&m, &mut texts) { ctx.fail(e); return; }
    if !p.contains(&true) {
        let mut q = ProblemLp::new(c.clone(), a, b.clone(), l.clone(), u.clone(), None);
        if let Err(e) = write(q.as_mut_milp(), &mut texts) { ctx.fail(e); return; }
        ctx.count("linear_class");
    }
    let h = hash_str(&case.to_string());
    // (odd sizes: no index of a copy has the data of the index 256 or 65536 before)
    if h % 7 == 0 && nx <= 14 && nx % 2 == 1 && nx >= 3 && na % 2 == 1 && na >= 3 && c.iter().any(|v| *v != 0.) {
        for shared in [false, true] {
            let copies = if h / 7 % 12 == 0 { 70000 / na.min(nx) + 1 } else { [30, 300, 1100][h as usize / 28 % 3] };
            let nr = if shared { 1 } else { copies };
            let times = |v: &[f64], n: usize| (0..n).flat_map(|_| v.to_vec()).collect::<Vec<f64>>();
            let e: Vec<(usize, usize, f64)> = m.a().iter().map(|(i, j, v)| (*i, *j, *v)).collect();
            let at = |f: &dyn Fn(&(usize, usize, f64), usize) -> usize| (0..copies).flat_map(|t| e.iter().map(move |e| (e, t))).map(|(e, t)| f(e, t)).collect::<Vec<usize>>();
            let a = CooMat::new((na * nr, nx * copies), at(&|e, t| e.0 + (t % nr) * na), at(&|e, t| e.1 + t * nx), (0..copies).flat_map(|_| e.iter().map(|e| e.2)).collect());
            let w = ProblemMilp::new(times(&c, copies), a, times(&b, nr), times(&l, copies), times(&u, copies), (0..copies).flat_map(|_| p.clone()).collect(), None);
            let one = texts[0].clone();
            if let Err(e) = write(&w, &mut texts) { ctx.fail(format!("{} copies: {}", copies, e)); return; }
            let wide = texts.pop().unwrap();
            match copied(&one, &wide, nx, na, copies, shared) { Err(e) => { ctx.fail(e); return; } Ok(r) => ctx.count(if r { "copies" } else { "copies_unreadable" }) }
        }
    }
    texts.dedup();
    let d = |v: &[f64]| v.iter().map(|x| digits(*x)).collect::<Vec<_>>();
    for t in texts {
        ctx.records.push(json!({"nx": nx, "na": na, "c": d(&c), "rows": dense.iter().map(|r| d(r)).collect::<Vec<_>>(), "b": d(&b), "l": d(&l), "u": d(&u),
            "p": case["p"], "t": tokens(&t), "text": t }));
    }
    if dup { ctx.count("repeated_entries"); }
    if nx >= 10 { ctx.count("ten_or_more_variables"); }
    if na > 0 { ctx.nontrivial += 1; }
}
