//! Reads the text of an expression with the usual precedence and left associativity.
use std::collections::HashMap;

struct P<'a> { s: &'a [u8], i: usize, env: &'a HashMap<&'a str, f64> }

pub fn eval(text: &str, env: &HashMap<&str, f64>) -> Result<f64, String> {
    let mut p = P { s: text.as_bytes(), i: 0, env };
    let v = p.sum()?;
    p.ws();
    if p.i < p.s.len() { return Err(format!("unexpected text at {}", p.i)); }
    Ok(v)
}

impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i] == b' ' { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn sum(&mut self) -> Result<f64, String> {
        let mut v = self.prod()?;
        loop { match self.peek() {
            b'+' => { self.i += 1; v += self.prod()?; }
            b'-' => { self.i += 1; v -= self.prod()?; }
            _ => return Ok(v) } }
    }
    fn prod(&mut self) -> Result<f64, String> {
        let mut v = self.unary()?;
        loop { match self.peek() {
            b'*' => { self.i += 1; v *= self.unary()?; }
            b'/' => { self.i += 1; v /= self.unary()?; }
            _ => return Ok(v) } }
    }
    fn unary(&mut self) -> Result<f64, String> {
        if self.peek() == b'-' { self.i += 1; return Ok(-self.unary()?); }
        self.atom()
    }
    fn atom(&mut self) -> Result<f64, String> {
        let c = self.peek();
        if c == b'(' {
            self.i += 1;
            let v = self.sum()?;
            if self.peek() != b')' { return Err(format!("missing ) at {}", self.i)); }
            self.i += 1;
            return Ok(v);
        }
        let st = self.i;
        if c.is_ascii_digit() || c == b'.' {
            while self.i < self.s.len() && (self.s[self.i].is_ascii_digit() || self.s[self.i] == b'.') { self.i += 1; }
            if self.i < self.s.len() && (self.s[self.i] | 32) == b'e' {
                self.i += 1;
                if self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i] == b'+') { self.i += 1; }
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
            }
            return std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().map_err(|e| format!("{}", e));
        }
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') { self.i += 1; }
        let name = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        if name.is_empty() { return Err(format!("nothing at {}", st)); }
        if (name == "cos" || name == "sin") && self.peek() == b'(' {
            self.i += 1;
            let v = self.sum()?;
            if self.peek() != b')' { return Err("missing )".to_string()); }
            self.i += 1;
            return Ok(if name == "cos" { v.cos() } else { v.sin() });
        }
        if name == "NaN" { return Ok(f64::NAN); }
        if name == "inf" { return Ok(f64::INFINITY); }
        self.env.get(name).cloned().ok_or(format!("unknown name {}", name))
    }
}
