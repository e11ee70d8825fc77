//! Sparse matrices (spec/Sparse.tla). C13.
use crate::run::{catch, Ctx};
use numopt::matrix::coo::CooMat;
use numopt::matrix::csr::CsrMat;
use serde_json::Value;

struct Case { nr: usize, nc: usize, r: Vec<usize>, c: Vec<usize>, v: Vec<f64>, x: Vec<f64>, rows: Vec<Vec<usize>>, dense: Vec<Vec<f64>> }

fn ints(v: &Value) -> Vec<i64> { v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default() }

fn parse(case: &Value) -> Case {
    let (nr, nc) = (case["r"].as_u64().unwrap() as usize, case["c"].as_u64().unwrap() as usize);
    let e: Vec<Vec<i64>> = case["e"].as_array().unwrap().iter().map(ints).collect();
    let v: Vec<f64> = e.iter().enumerate().map(|(k, e)| e[2] as f64 * (k as f64).exp2()).collect();
    let rows = case["rows"].as_array().unwrap().iter().map(|r| ints(r).iter().map(|i| *i as usize - 1).collect()).collect();
    let dense = case["sums"].as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|s| ints(s).iter().map(|i| v[*i as usize - 1]).sum::<f64>()).collect()).collect();
    Case { nr, nc, r: e.iter().map(|e| e[0] as usize).collect(), c: e.iter().map(|e| e[1] as usize).collect(), v,
           x: ints(&case["x"]).iter().map(|x| *x as f64).collect(), rows, dense }
}

fn csr_dense(m: &CsrMat<f64>) -> Result<Vec<Vec<f64>>, String> {
    let p = m.indptr();
    if p.len() != m.rows() + 1 || p[0] != 0 || p[m.rows()] != m.nnz() || m.data().len() != m.nnz() || p.windows(2).any(|w| w[0] > w[1]) { return Err(format!("row pointers {:?} for {} entries", p, m.nnz())); }
    let mut d = vec![vec![0.; m.cols()]; m.rows()];
    for i in 0..m.rows() { for k in p[i]..p[i + 1] {
        if m.indices()[k] >= m.cols() { return Err("column out of range".to_string()); }
        d[i][m.indices()[k]] += m.data()[k]; } }
    Ok(d)
}

fn judge(k: &Case, m: &CooMat<f64>) -> Result<(), String> {
    if m.rows() != k.nr || m.cols() != k.nc || m.nnz() != k.v.len() || m.row_inds() != &k.r[..] || m.col_inds() != &k.c[..] || m.data() != &k.v[..] { return Err("the coordinate matrix does not hold its entries".to_string()); }
    let it: Vec<(usize, usize, f64)> = m.iter().map(|(r, c, v)| (*r, *c, *v)).collect();
    if it.len() != k.v.len() || it.iter().enumerate().any(|(i, e)| *e != (k.r[i], k.c[i], k.v[i])) { return Err(format!("iterating gives {:?}", it)); }
    let want: Vec<f64> = k.dense.iter().map(|r| r.iter().zip(&k.x).map(|(a, b)| a * b).sum()).collect();
    let y = catch(|| m * k.x.clone()).map_err(|e| format!("product panicked: {}", e))?;
    if y != want { return Err(format!("product with {:?} is {:?}, not {:?}", k.x, y, want)); }
    let mut s = catch(|| m.to_csr()).map_err(|e| format!("to_csr panicked: {}", e))?;
    if (s.rows(), s.cols()) != (k.nr, k.nc) { return Err("row format has another shape".to_string()); }
    if csr_dense(&s)? != k.dense { return Err(format!("row format {:?} is another matrix than {:?}", s, k.dense)); }
    for i in 0..k.nr {
        let got: Vec<(usize, f64)> = (s.indptr()[i]..s.indptr()[i + 1]).map(|p| (s.indices()[p], s.data()[p])).collect();
        let want: Vec<(usize, f64)> = k.rows[i].iter().map(|e| (k.c[*e], k.v[*e])).collect();
        if got != want { return Err(format!("row {} holds {:?}, not {:?}", i, got, want)); }
    }
    let keep = s.clone();
    for round in 1..4 {
        catch(|| s.sum_duplicates()).map_err(|e| format!("sum_duplicates panicked: {}", e))?;
        if (s.rows(), s.cols()) != (k.nr, k.nc) { return Err("summing duplicates changed the shape".to_string()); }
        if csr_dense(&s)? != k.dense { return Err(format!("after summing duplicates {} times {:?} is another matrix than {:?}", round, s, k.dense)); }
        for i in 0..k.nr {
            let mut c: Vec<usize> = s.indices()[s.indptr()[i]..s.indptr()[i + 1]].to_vec();
            let n = c.len();
            c.sort(); c.dedup();
            if c.len() != n { return Err(format!("after summing duplicates row {} has a column twice: {:?}", i, s)); }
        }
    }
    if csr_dense(&keep)? != k.dense { return Err("summing duplicates changed another matrix".to_string()); }
    if m.data() != &k.v[..] { return Err("conversion changed the coordinate matrix".to_string()); }
    Ok(())
}

/// The case with its rows and columns moved apart by increasing maps: row i at i * sr + off, column j
/// at j * sc + off; the rest of the larger matrix is empty.
fn judge_lifted(k: &Case, sr: usize, sc: usize, off: usize) -> Result<(), String> {
    let row = |i: usize| i * sr + off.min(sr - 1);
    let col = |j: usize| j * sc + off.min(sc - 1);
    let (nr, nc) = (k.nr * sr + 1, k.nc * sc + 1);
    let m = CooMat::new((nr, nc), k.r.iter().map(|i| row(*i)).collect(), k.c.iter().map(|j| col(*j)).collect(), k.v.clone());
    let mut x = vec![1e15; nc];
    for j in 0..k.nc { x[col(j)] = k.x[j]; }
    let mut want = vec![0.; nr];
    for i in 0..k.nr { want[row(i)] = k.dense[i].iter().zip(&k.x).map(|(a, b)| a * b).sum(); }
    let y = catch(|| &m * x.clone()).map_err(|e| format!("product panicked: {}", e))?;
    if y != want { return Err("the product is wrong".to_string()); }
    let mut s = catch(|| m.to_csr()).map_err(|e| format!("to_csr panicked: {}", e))?;
    for round in 0..3 {
        if (s.rows(), s.cols()) != (nr, nc) || s.indptr().len() != nr + 1 || s.indptr()[0] != 0 || s.indptr()[nr] != s.nnz() { return Err(format!("the row format is malformed (round {})", round)); }
        let mut next = 0;
        for i in 0..nr {
            let got: Vec<(usize, f64)> = (s.indptr()[i]..s.indptr()[i + 1]).map(|p| (s.indices()[p], s.data()[p])).collect();
            if next < k.nr && row(next) == i {
                if round == 0 {
                    let want: Vec<(usize, f64)> = k.rows[next].iter().map(|e| (col(k.c[*e]), k.v[*e])).collect();
                    if got != want { return Err(format!("row {} holds {:?}, not {:?}", i, got, want)); }
                } else {
                    let mut d = vec![0.; k.nc];
                    let mut seen = vec![false; k.nc];
                    for (c, v) in &got {
                        let j = match (0..k.nc).find(|j| col(*j) == *c) { Some(j) => j, None => return Err(format!("row {} holds column {}", i, c)) };
                        if seen[j] { return Err(format!("after summing duplicates row {} has column {} twice: {:?}", i, c, got)); }
                        seen[j] = true;
                        d[j] += v;
                    }
                    if d != k.dense[next] { return Err(format!("after summing duplicates row {} holds {:?}, not {:?}", i, got, k.dense[next])); }
                }
                next += 1;
            } else if !got.is_empty() { return Err(format!("the empty row {} holds {:?}", i, got)); }
        }
        catch(|| s.sum_duplicates()).map_err(|e| format!("sum_duplicates panicked: {}", e))?;
    }
    Ok(())
}

/// The case with its columns repeated `copies` times side by side: rows with many entries.
fn judge_copies(k: &Case, copies: usize) -> Result<(), String> {
    let (nr, nc, n) = (k.nr, k.nc * copies, k.v.len());
    let (mut r, mut c, mut v) = (Vec::new(), Vec::new(), Vec::new());
    for t in 0..copies { for e in 0..n { r.push(k.r[e]); c.push(k.c[e] + t * k.nc); v.push(k.v[e]); } }
    let m = CooMat::new((nr, nc), r, c, v);
    let x: Vec<f64> = (0..nc).map(|j| k.x[j % k.nc] * ((j / k.nc) % 3) as f64).collect();
    let times: f64 = (0..copies).map(|t| (t % 3) as f64).sum();
    let want: Vec<f64> = k.dense.iter().map(|r| r.iter().zip(&k.x).map(|(a, b)| a * b * times).sum()).collect();
    let y = catch(|| &m * x.clone()).map_err(|e| format!("product panicked: {}", e))?;
    if y != want { return Err(format!("the product is {:?}, not {:?}", y, want)); }
    let mut s = catch(|| m.to_csr()).map_err(|e| format!("to_csr panicked: {}", e))?;
    for round in 0..3 {
        if (s.rows(), s.cols()) != (nr, nc) || s.indptr().len() != nr + 1 || s.indptr()[0] != 0 || s.indptr()[nr] != s.nnz() { return Err(format!("the row format is malformed (round {})", round)); }
        for i in 0..nr {
            let (from, to) = (s.indptr()[i], s.indptr()[i + 1]);
            if round == 0 {
                let own = k.rows[i].len();
                if to - from != own * copies { return Err(format!("row {} holds {} entries, not {}", i, to - from, own * copies)); }
                for q in 0..to - from {
                    let e = k.rows[i][q % own];
                    if (s.indices()[from + q], s.data()[from + q]) != (k.c[e] + (q / own) * k.nc, k.v[e]) { return Err(format!("entry {} of row {} is ({}, {})", q, i, s.indices()[from + q], s.data()[from + q])); }
                }
            } else {
                let mut d = vec![None; nc];
                for q in from..to {
                    let j = s.indices()[q];
                    if j >= nc || d[j].is_some() { return Err(format!("after summing duplicates row {} has column {} twice or out of range", i, j)); }
                    d[j] = Some(s.data()[q]);
                }
                if let Some(j) = (0..nc).find(|j| d[*j].unwrap_or(0.) != k.dense[i][j % k.nc]) { return Err(format!("after summing duplicates ({}, {}) is {:?}, not {}", i, j, d[j], k.dense[i][j % k.nc])); }
            }
        }
        catch(|| s.sum_duplicates()).map_err(|e| format!("sum_duplicates panicked: {}", e))?;
    }
    Ok(())
}

pub fn check(ctx: &mut Ctx, case: &Value) {
    ctx.evaluations += 1;
    let k = parse(case);
    let n = k.v.len();
    // built at once, from a pattern, and piece by piece
    let a = CooMat::new((k.nr, k.nc), k.r.clone(), k.c.clone(), k.v.clone());
    let mut b = CooMat::from_pattern((k.nr, k.nc), k.r.clone(), k.c.clone());
    b.data_mut().copy_from_slice(&k.v);
    let mut c = CooMat::from_nnz((k.nr, k.nc), n);
    for i in (0..n).rev() { c.set_row_ind(i, k.r[i]); c.set_col_ind(i, k.c[i]); c.data_mut()[i] = k.v[i]; }
    for m in [&a, &b, &c, &a.clone()] {
        if let Err(e) = judge(&k, m) { ctx.fail(e); return; }
    }
    let h = crate::run::hash_str(&case.to_string()) as usize;
    for (sr, sc) in [(256, 1), (1, 256), (256, 256), (128, 3)] {
        if let Err(e) = judge_lifted(&k, sr, sc, h % 200) { ctx.fail(format!("rows {} and columns {} apart: {}", sr, sc, e)); return; }
    }
    ctx.count("lifted");
    if n > 0 && h % 101 < 2 && k.nr * k.nc > 1 {
        for (sr, sc) in [(65536, 1), (1, 65536)] {
            if let Err(e) = judge_lifted(&k, sr, sc, h % 60000) { ctx.fail(format!("rows {} and columns {} apart: {}", sr, sc, e)); return; }
        }
        ctx.count("lifted_far");
    }
    if n > 0 && (h / 101) % 61 == 0 {
        let copies = if (h / 6161) % 3 == 0 { 70000 } else { [300, 4200][(h / 18483) % 2] };
        if let Err(e) = judge_copies(&k, copies) { ctx.fail(format!("{} copies side by side: {}", copies, e)); return; }
        ctx.count("copies");
    }
    let mut pos: Vec<(usize, usize)> = k.r.iter().cloned().zip(k.c.iter().cloned()).collect();
    pos.sort(); pos.dedup();
    ctx.count(if pos.len() < n { "with_duplicates" } else { "without_duplicates" });
    if n > 0 { ctx.nontrivial += 1; }
}
