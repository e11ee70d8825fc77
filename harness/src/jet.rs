//! The reference semantics of spec/Jet.tla in floating point, to any order: truncated
//! multivariate Taylor series, with a running magnitude for rounding-error bounds.
//! Checked against the exact numbers computed by TLC on every run.
use std::rc::Rc;

pub struct Space {
    pub nv: usize,
    pub ord: usize,
    pub mons: Vec<Vec<usize>>,             // monomials, as sorted lists of variables, by degree
    pub prod: Vec<Vec<(usize, usize)>>,    // for each monomial: (other, product)
    pub parts: Vec<Vec<(usize, usize)>>,   // for each monomial: the pairs it is a product of
    idx: std::collections::HashMap<Vec<usize>, usize>,
}

thread_local! { static SPACES: std::cell::RefCell<std::collections::HashMap<(usize, usize), Rc<Space>>> = Default::default(); }

impl Space {
    pub fn get(nv: usize, ord: usize) -> Rc<Space> {
        SPACES.with(|m| m.borrow_mut().entry((nv, ord)).or_insert_with(|| Space::new(nv, ord)).clone())
    }
    pub fn new(nv: usize, ord: usize) -> Rc<Space> {
        let mut mons: Vec<Vec<usize>> = vec![vec![]];
        let mut from = 0;
        for _ in 0..ord {
            let to = mons.len();
            for i in from..to { for v in mons[i].last().cloned().unwrap_or(0)..nv { let mut m = mons[i].clone(); m.push(v); mons.push(m); } }
            from = to;
        }
        let idx: std::collections::HashMap<Vec<usize>, usize> = mons.iter().cloned().enumerate().map(|(i, e)| (e, i)).collect();
        let mut parts = vec![vec![]; mons.len()];
        let prod = (0..mons.len()).map(|i| {
            let mut l = Vec::new();
            for j in 0..mons.len() {
                if mons[i].len() + mons[j].len() > ord { break; }
                let mut s = mons[i].clone(); s.extend(&mons[j]); s.sort();
                let k = idx[&s];
                l.push((j, k)); parts[k].push((i, j));
            }
            l
        }).collect();
        Rc::new(Space { nv, ord, mons, prod, parts, idx })
    }
    pub fn unit(&self, v: usize) -> usize { 1 + v }
    pub fn pair(&self, v: usize, w: usize) -> usize { self.idx[&vec![v.min(w), v.max(w)]] }
}

#[derive(Clone)]
pub struct Jet {
    pub s: Rc<Space>,
    pub c: Vec<f64>, // Taylor coefficients
    pub m: Vec<f64>, // magnitudes: rounding error of c is a small multiple of eps*m
    pub ord: i32,    // coefficients are valid up to this degree
    pub ok: bool,    // smooth and well conditioned here
}

impl Jet {
    pub fn konst(s: &Rc<Space>, v: f64) -> Jet {
        let n = s.mons.len();
        let mut c = vec![0.; n]; let mut m = vec![0.; n];
        c[0] = v; m[0] = v.abs();
        Jet { s: s.clone(), c, m, ord: s.ord as i32, ok: v.is_finite() }
    }
    pub fn var(s: &Rc<Space>, k: usize, v: f64) -> Jet {
        let mut j = Jet::konst(s, v);
        if s.ord >= 1 { let u = s.unit(k); j.c[u] = 1.; j.m[u] = 1.; }
        j
    }
    fn zip(&self, o: &Jet) -> (i32, bool) { (self.ord.min(o.ord), self.ok && o.ok) }
    fn fin(mut self) -> Jet {
        if self.c.iter().chain(self.m.iter()).any(|x| !x.is_finite()) { self.ok = false; }
        self
    }
    pub fn add(&self, o: &Jet) -> Jet {
        let (ord, ok) = self.zip(o);
        Jet { s: self.s.clone(), c: self.c.iter().zip(&o.c).map(|(a, b)| a + b).collect(),
              m: self.m.iter().zip(&o.m).map(|(a, b)| a + b).collect(), ord, ok }.fin()
    }
    pub fn neg(&self) -> Jet { let mut j = self.clone(); for x in j.c.iter_mut() { *x = -*x; } j }
    pub fn sub(&self, o: &Jet) -> Jet { self.add(&o.neg()) }
    pub fn mul(&self, o: &Jet) -> Jet {
        let (ord, mut ok) = self.zip(o);
        let n = self.c.len();
        let mut c = vec![0.; n]; let mut m = vec![0.; n];
        for i in 0..n { if self.m[i] == 0. { continue; } for (j, k) in self.s.prod[i].iter().cloned() {
            c[k] += self.c[i] * o.c[j]; m[k] += self.m[i] * o.m[j];
            // underflow: the order of multiplications would matter
            if o.m[j] != 0. && self.m[i] * o.m[j] < 1e-270 { ok = false; }
        } }
        Jet { s: self.s.clone(), c, m, ord, ok }.fin()
    }
    pub fn recip(&self) -> Jet {
        let n = self.c.len();
        let mut r = Jet::konst(&self.s, 0.);
        r.ord = self.ord; r.ok = self.ok;
        let b0 = self.c[0];
        if b0 == 0. || b0.abs() < 1e-3 * self.m[0] || b0.abs() < 1e-250 || b0.abs() > 1e250 { r.ok = false; r.c[0] = f64::NAN; return r; }
        let inv = 1. / b0;
        r.c[0] = inv; r.m[0] = inv.abs() * (self.m[0] / b0.abs());
        let amp = r.m[0];
        for k in 1..n {
            let mut t = 0.; let mut tm = 0.;
            for (j, i) in self.s.parts[k].iter().cloned() {
                if j > 0 && self.m[j] != 0. { t += self.c[j] * r.c[i]; tm += self.m[j] * r.m[i]; }
            }
            r.c[k] = -inv * t; r.m[k] = amp * tm;
        }
        r.fin()
    }
    pub fn div(&self, o: &Jet) -> Jet { self.mul(&o.recip()) }
    fn trig(&self, shift: usize) -> Jet {
        // shift 0: cos, 1: sin; derivatives of cos cycle cos, -sin, -cos, sin
        let a = self.c[0];
        let d = |k: usize| match (k + if shift == 0 { 0 } else { 3 }) % 4 {
            0 => a.cos(), 1 => -a.sin(), 2 => -a.cos(), _ => a.sin() };
        let mut delta = self.clone(); delta.c[0] = 0.; delta.m[0] = 0.;
        let mut r = Jet::konst(&self.s, d(0));
        r.ord = self.ord; r.ok = self.ok && self.m[0] < 1e6;
        let amp = 1. + self.m[0];
        r.m[0] = amp;
        let mut pw = Jet::konst(&self.s, 1.); let mut fact = 1.;
        for k in 1..=self.s.ord {
            pw = pw.mul(&delta); fact *= k as f64;
            let f = d(k) / fact;
            for i in 0..r.c.len() { r.c[i] += f * pw.c[i]; r.m[i] += amp / fact * pw.m[i]; }
        }
        r.fin()
    }
    pub fn cos(&self) -> Jet { self.trig(0) }
    pub fn sin(&self) -> Jet { self.trig(1) }
    pub fn der(&self, v: usize) -> Jet {
        let mut r = Jet::konst(&self.s, 0.);
        r.ord = self.ord - 1; r.ok = self.ok && r.ord >= 0;
        let u = self.s.unit(v);
        for (i, k) in self.s.prod[u].iter().cloned() {
            let f = self.s.mons[k].iter().filter(|w| **w == v).count() as f64;
            r.c[i] = f * self.c[k]; r.m[i] = f * self.m[k];
        }
        r
    }
    pub fn v(&self) -> (f64, f64) { (self.c[0], self.m[0]) }
    pub fn g(&self, v: usize) -> (f64, f64) { let u = self.s.unit(v); (self.c[u], self.m[u]) }
    pub fn h(&self, v: usize, w: usize) -> (f64, f64) {
        let k = self.s.pair(v, w);
        let f = if v == w { 2. } else { 1. };
        (f * self.c[k], f * self.m[k])
    }
    pub fn usable(&self, order: i32) -> bool { self.ok && self.ord >= order }
}

/// Is `got` the reference value (value, magnitude), up to rounding?
pub fn close(got: f64, r: (f64, f64)) -> bool {
    got.is_finite() && (got - r.0).abs() <= 2e-12 * r.1 + 1e-280
}
/// Exact comparison with a rational computed by TLC.
pub fn close_q(got: f64, q: &serde_json::Value, mag: f64) -> bool {
    let n = q[0].as_f64().unwrap(); let d = q[1].as_f64().unwrap();
    (got - n / d).abs() <= 1e-10 * mag.max((n / d).abs()) + 1e-280
}
