From c15329f6a3a2fdaca699b63d5c6d6bc80a3b1d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 01/17] fix: sums whose constants cancel to a single term
 return that term instead of panicking

---
 src/model/node.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/model/node.rs b/src/model/node.rs
index 01d0a99..f3507b9 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -172,6 +172,9 @@ macro_rules! impl_node_add_node {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }        
@@ -214,6 +217,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
@@ -251,6 +257,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
-- 
2.43.0


From 02350c5489cdee9f1d2419943392fd36d4914393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 02/17] fix: partial of a quotient whose numerator and
 denominator are the same node is zero

---
 src/model/function/div.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 691c445..8bc1257 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -33,7 +33,10 @@ impl NodeBase for FunctionDiv {
     }
 
     fn partial(&self, arg: &Node) -> Node { 
-        if self.args.0 == *arg {
+        if self.args.0 == *arg && self.args.1 == *arg {
+            return ConstantScalar::new(0.);
+        }
+        else if self.args.0 == *arg {
             return 1./&self.args.1;
         }
         else if self.args.1 == *arg {
-- 
2.43.0


From 6d4cfcd03222b5a074dfdf4dc9e3e1066fbcf7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 03/17] fix: violation of an inequality that cannot be
 evaluated is not zero

---
 src/model/constraint.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model/constraint.rs b/src/model/constraint.rs
index 10ee986..2a7c995 100644
--- a/src/model/constraint.rs
+++ b/src/model/constraint.rs
@@ -64,10 +64,12 @@ impl Constraint {
                 (self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values)).abs()
             },
             ConstraintKind::LessEqual => { 
-                0_f64.max(self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values))
+                let d = self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values);
+                if d.is_nan() { d } else { 0_f64.max(d) }
             },
             ConstraintKind::GreaterEqual => {
-                0_f64.max(self.0.rhs.evaluate(var_values)-self.0.lhs.evaluate(var_values))
+                let d = self.0.rhs.evaluate(var_values)-self.0.lhs.evaluate(var_values);
+                if d.is_nan() { d } else { 0_f64.max(d) }
             },
         }
     }
-- 
2.43.0


From 4575bc9495323167d3a8526e2cd6b93327ee7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 04/17] fix: products and quotients with a non-affine constant
 factor are not classified as affine

---
 src/model/function/div.rs | 2 +-
 src/model/function/mul.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 8bc1257..6345b7b 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -58,7 +58,7 @@ impl NodeStd for FunctionDiv {
         
         let p0 = self.args.0.std_properties();
         let p1 = self.args.1.std_properties();
-        let affine = p0.affine && p1.a.is_empty();
+        let affine = p0.affine && p1.affine && p1.a.is_empty();
         let b = p0.b/p1.b;
         let mut a: HashMap<Node, f64> = HashMap::new();
         for (key, val) in p0.a.iter() {
diff --git a/src/model/function/mul.rs b/src/model/function/mul.rs
index 29d4c37..b0e7ef1 100644
--- a/src/model/function/mul.rs
+++ b/src/model/function/mul.rs
@@ -55,8 +55,7 @@ impl NodeStd for FunctionMul {
         
         let p0 = self.args.0.std_properties();
         let p1 = self.args.1.std_properties();
-        let affine = (p0.affine && p1.a.is_empty()) || 
-                     (p1.affine && p0.a.is_empty());
+        let affine = p0.affine && p1.affine && (p0.a.is_empty() || p1.a.is_empty());
         let b = p0.b*p1.b;
         let mut a: HashMap<Node, f64> = HashMap::new();
         for (key, val) in p0.a.iter() {
-- 
2.43.0


From 8036063a65b7bc9763805a9692e2711f37c1e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 05/17] fix: read the solution header written by recent
 versions of Clp

---
 src/solver/cbc_cmd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 9f7d8f8..c43cba7 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -66,10 +66,10 @@ impl SolverCbcCmd {
         r.read_line(&mut line)?;
         match line.split_ascii_whitespace().next() {
             Some(s) => {
-                if !cbc && s == "optimal" {
+                if !cbc && s.eq_ignore_ascii_case("optimal") {
                     status = SolverStatus::Solved;
                 }
-                else if !cbc && s == "infeasible" {
+                else if !cbc && s.eq_ignore_ascii_case("infeasible") {
                     status = SolverStatus::Infeasible;
                 }
                 else if cbc && s == "Optimal" {
@@ -89,8 +89,8 @@ impl SolverCbcCmd {
             return Ok((status, solution))
         }
 
-        // Objective value
-        if !cbc {
+        // Objective value (on the status line in recent versions of Clp)
+        if !cbc && !line.contains("objective value") {
             r.read_line(&mut line)?;
         }
 
-- 
2.43.0


From 5bbc8ca44d28759ed3daaa530b76d0b0a5d00128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 06/17] fix: a Cbc solution header of "Integer infeasible"
 means infeasible

---
 src/solver/cbc_cmd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index c43cba7..8a35b8e 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -75,7 +75,7 @@ impl SolverCbcCmd {
                 else if cbc && s == "Optimal" {
                     status = SolverStatus::Solved;
                 }
-                else if cbc && s == "Infeasible" {
+                else if cbc && (s == "Infeasible" || line.starts_with("Integer infeasible")) {
                     status = SolverStatus::Infeasible;
                 }
             },
-- 
2.43.0


From dac5f54376cce3ff534a8cf29c41a3b92d468bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 07/17] fix: read solution file lines that carry a limit
 violation marker

---
 src/solver/cbc_cmd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 8a35b8e..3c9b1fe 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -98,7 +98,9 @@ impl SolverCbcCmd {
         for l in r.lines() {
             line = l?;
             let mut iter = line.split_ascii_whitespace();
-            iter.next();
+            if iter.next() == Some("**") { // row or column outside its limits
+                iter.next();
+            }
             name = match iter.next() {
                 Some(s) => s.to_string(),
                 None => return Err(e)
-- 
2.43.0


From 93efa39ed7f37afb9586beb7b1a24614b7d37344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 08/17] fix: out-of-range indices in a solution file are an
 error and not a panic

---
 src/solver/cbc_cmd.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 3c9b1fe..6d3b945 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -125,6 +125,9 @@ impl SolverCbcCmd {
 
             // Variable
              if dtype == "x" {
+                if index >= solution.x.len() {
+                    return Err(e);
+                }
                 solution.x[index] = value;
                 if mul > 0. {
                     solution.pi[index] = mul;
@@ -136,6 +139,9 @@ impl SolverCbcCmd {
 
             // Constraint
             else if dtype == "c" {
+                if index >= solution.lam.len() {
+                    return Err(e);
+                }
                 solution.lam[index] = mul;
             }
             else {
-- 
2.43.0


From f111cc7bdb30a3aa884afd9ba740b058f12a5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 09/17] fix: command-line solvers do not leave the lp file
 behind when a parameter is missing

---
 src/solver/cbc_cmd.rs | 12 ++++++------
 src/solver/clp_cmd.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 6d3b945..34c052f 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -167,6 +167,12 @@ impl Solver for SolverCbcCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("cbc")
@@ -197,12 +203,6 @@ impl Solver for SolverCbcCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Cbc command
         match Command::new("cbc")
                       .args(&[&input_filename,
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index 0d4b58e..c3f361f 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -52,6 +52,12 @@ impl Solver for SolverClpCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("clp")
@@ -82,12 +88,6 @@ impl Solver for SolverClpCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Clp command
         match Command::new("clp")
                       .stdout(if *log_level == 0 { Stdio::null() } else { Stdio::inherit() })
-- 
2.43.0


From 626109ddc6bb01da8b42a7dd2c3df694bb8b02d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 10/17] fix: a command-line solver that fails is an error
 whatever solution file it left

---
 src/solver/cbc_cmd.rs | 7 ++++++-
 src/solver/clp_cmd.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 34c052f..fa230a3 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -215,7 +215,12 @@ impl Solver for SolverCbcCmd {
                               &output_filename])
                       .spawn()
                       .and_then(|mut cmd| cmd.wait()) {
-            Ok(_s) => (),
+            Ok(s) if s.success() => (),
+            Ok(_s) => {
+                remove_file(&input_filename).ok();
+                remove_file(&output_filename).ok();
+                return Ok((SolverStatus::Error, ProblemSol::new(p.nx(), p.na(), 0)));
+            },
             Err(_e) => {
                 remove_file(&input_filename).ok();
                 remove_file(&output_filename).ok();
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index c3f361f..203b945 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -101,7 +101,12 @@ impl Solver for SolverClpCmd {
                               &output_filename])
                       .spawn()
                       .and_then(|mut cmd| cmd.wait()) {
-            Ok(_s) => (),
+            Ok(s) if s.success() => (),
+            Ok(_s) => {
+                remove_file(&input_filename).ok();
+                remove_file(&output_filename).ok();
+                return Ok((SolverStatus::Error, ProblemSol::new(p.nx(), p.na(), 0)));
+            },
             Err(_e) => {
                 remove_file(&input_filename).ok();
                 remove_file(&output_filename).ok();
-- 
2.43.0


From 97a62835d349726f4c2741e2c26ccd8eabfd11c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 11/17] fix: Ipopt Jacobian rows of nonlinear constraints come
 after those of linear constraints

---
 src/solver/ipopt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 328ee71..0fa192f 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -266,7 +266,7 @@ extern fn eval_jac_g_cb(n: c_int,
                 k += 1;
             }
             for (row, col, _val) in p.j().iter() {
-                *irow.add(k) = row.to_i32().unwrap();
+                *irow.add(k) = (p.na()+row).to_i32().unwrap();
                 *jcol.add(k) = col.to_i32().unwrap();
                 k += 1;
             }
-- 
2.43.0


From a18f3b801d93abe3cbd51ee793ee7d287382f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 12/17] fix: Ipopt Hessian callback always combines and writes
 the values for the multipliers it is given

---
 src/solver/ipopt.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 0fa192f..a7521da 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -298,7 +298,7 @@ extern fn eval_h_cb(n: c_int,
                     obj_factor: c_double, 
                     m: c_int,
                     lambda: *const c_double,
-                    new_lambda: c_int,
+                    _new_lambda: c_int,
                     nele_hess: c_int,
                     irow: *mut c_int,
                     jcol: *mut c_int,
@@ -344,23 +344,21 @@ extern fn eval_h_cb(n: c_int,
                 }
                 p.evaluate(slice::from_raw_parts(x, p.nx()));
             }
-            if new_lambda == cipopt::TRUE {
+            if p.nf() > 0 {
                 if lambda.is_null() {
                     return cipopt::FALSE;
                 }
                 p.combine_h(slice::from_raw_parts(lambda.add(p.na()), p.nf()));
             }
-            if new_x == cipopt::TRUE || new_lambda == cipopt::TRUE {
-                let mut k: usize = 0;
-                for (_row, _col, val) in p.hphi().iter() {
-                    *values.add(k) = obj_factor*(*val); 
-                    k += 1;
-                }
-                for (_row, _col, val) in p.hcomb().iter() {
-                    *values.add(k) = *val; 
-                    k += 1;
-                }
-            }   
+            let mut k: usize = 0;
+            for (_row, _col, val) in p.hphi().iter() {
+                *values.add(k) = obj_factor*(*val); 
+                k += 1;
+            }
+            for (_row, _col, val) in p.hcomb().iter() {
+                *values.add(k) = *val; 
+                k += 1;
+            }
         }
     };
     cipopt::TRUE
-- 
2.43.0


From 776b01f74216b770f688b9500577b4f3eb79489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 13/17] fix: release the Ipopt problem when an option is
 rejected

---
 src/solver/ipopt.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index a7521da..c8e8e7e 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -60,6 +60,18 @@ impl Solver for SolverIpopt {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameter print_level
+        let print_level: &i32 = match self.get_param("print_level") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+        };
+
+        // Parameter sb
+        let sb: &str = match self.get_param("sb") {
+            Some(SolverParam::StrParam(s)) => s.as_ref(),
+            _ => return Err(SimpleError::new("unable to get parameter sb"))
+        };
+
         // Init
         let n: c_int = p.nx().to_i32().unwrap();
         let m: c_int = (p.na() + p.nf()).to_i32().unwrap();
@@ -88,19 +100,15 @@ impl Solver for SolverIpopt {
             return Err(SimpleError::new("failed to create ipopt problem"))
         }
 
-        // Parameter print_level
-        let print_level: &i32 = match self.get_param("print_level") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+        // Options
+        let options = unsafe {
+            add_int_option(cprob, "print_level", *print_level)
+                .and_then(|_| add_str_option(cprob, "sb", sb))
         };
-        unsafe { add_int_option(cprob, "print_level", *print_level)? };
-
-        // Parameter sb
-        let sb: &str = match self.get_param("sb") {
-            Some(SolverParam::StrParam(s)) => s.as_ref(),
-            _ => return Err(SimpleError::new("unable to get parameter sb"))
-        };
-        unsafe { add_str_option(cprob, "sb", sb)? };
+        if let Err(e) = options {
+            unsafe { cipopt::FreeIpoptProblem(cprob) };
+            return Err(e);
+        }
         
         // Buffers
         let mut x: Vec<f64> = vec![0.;p.nx()];
-- 
2.43.0


From b404d3457f902d34c3b76d20b4a3f0ad07413ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 14/17] fix: an Ipopt string parameter with a nul byte is an
 error and not a panic

---
 src/solver/ipopt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index c8e8e7e..90fc37d 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -390,7 +390,10 @@ unsafe fn add_str_option(cprob: cipopt::IpoptProblem,
                          val: &str) 
                          -> Result<(), SimpleError> {
     let ckey = CString::new(key).unwrap();
-    let cval = CString::new(val).unwrap();
+    let cval = match CString::new(val) {
+        Ok(v) => v,
+        Err(_e) => return Err(SimpleError::new(format!("unable to set parameter {}", key)))
+    };
     match cipopt::AddIpoptStrOption(cprob, 
                                     ckey.as_ptr() as *const c_char, 
                                     cval.as_ptr() as *const c_char) {
-- 
2.43.0


From 5f8aebec7f29fc46bca44d9b11fa0688ef826b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 15/17] fix: a solution file that does not list every variable
 and row is an error

---
 src/solver/cbc_cmd.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index fa230a3..3a9d1ed 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -95,6 +95,8 @@ impl SolverCbcCmd {
         }
 
         // Results
+        let mut missing_x = vec![true; p.nx()];
+        let mut missing_lam = vec![true; p.na()];
         for l in r.lines() {
             line = l?;
             let mut iter = line.split_ascii_whitespace();
@@ -128,6 +130,7 @@ impl SolverCbcCmd {
                 if index >= solution.x.len() {
                     return Err(e);
                 }
+                missing_x[index] = false;
                 solution.x[index] = value;
                 if mul > 0. {
                     solution.pi[index] = mul;
@@ -142,6 +145,7 @@ impl SolverCbcCmd {
                 if index >= solution.lam.len() {
                     return Err(e);
                 }
+                missing_lam[index] = false;
                 solution.lam[index] = mul;
             }
             else {
@@ -149,6 +153,11 @@ impl SolverCbcCmd {
             }
         }
 
+        // Incomplete
+        if missing_x.contains(&true) || missing_lam.contains(&true) {
+            return Err(e);
+        }
+
         Ok((status, solution))
     }
 }
-- 
2.43.0


From 32e974cfba545f42269e5b9bb804edb8d4f3d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:09 +0000
Subject: [PATCH 16/17] fix: a MILP whose objective has another length than its
 variables is refused

---
 src/problem/milp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/problem/milp.rs b/src/problem/milp.rs
index 0bf57e8..76fbdb8 100644
--- a/src/problem/milp.rs
+++ b/src/problem/milp.rs
@@ -54,6 +54,7 @@ impl ProblemMilp {
             gphi.copy_from_slice(&c);
         });
         let nx = a.cols();
+        assert_eq!(cc.len(), nx);
         let base = ProblemMinlp::new(CooMat::from_nnz((nx, nx), 0), // Hphi
                                      a, 
                                      b,
-- 
2.43.0


From 69929723cdc1e23ca7549f71810048678360b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:04 +0000
Subject: [PATCH 17/17] fix: solution line whose name has more than one index
 was accepted

---
 src/solver/cbc_cmd.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 3a9d1ed..848c02b 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -124,6 +124,9 @@ impl SolverCbcCmd {
                 Some(s) => match s.parse() { Ok(n) => n, Err(_e) => return Err(e) },
                 None => return Err(e)
             };
+            if name_iter.next().is_some() { // not the name of a row or column
+                return Err(e);
+            }
 
             // Variable
              if dtype == "x" {
-- 
2.43.0

