From cb939dc2468ba37661c0151548ea8711f4c7e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 01/16] fix: report an index that is out of range in a solution
 file as an error

---
 src/solver/cbc_cmd.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 9f7d8f8..81efa60 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -123,6 +123,9 @@ impl SolverCbcCmd {
 
             // Variable
              if dtype == "x" {
+                if index >= solution.x.len() {
+                    return Err(e);
+                }
                 solution.x[index] = value;
                 if mul > 0. {
                     solution.pi[index] = mul;
@@ -134,6 +137,9 @@ impl SolverCbcCmd {
 
             // Constraint
             else if dtype == "c" {
+                if index >= solution.lam.len() {
+                    return Err(e);
+                }
                 solution.lam[index] = mul;
             }
             else {
-- 
2.43.0


From adebac369590110fc4e87c173a9c310f7ff3218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 02/16] fix: do not report an incomplete solution file as
 solved

---
 src/solver/cbc_cmd.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 81efa60..208f40d 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -95,8 +95,16 @@ impl SolverCbcCmd {
         }
 
         // Results
-        for l in r.lines() {
-            line = l?;
+        let mut seen_x = vec![false; solution.x.len()];
+        let mut seen_c = vec![false; solution.lam.len()];
+        loop {
+            line.clear();
+            if r.read_line(&mut line)? == 0 {
+                break;
+            }
+            if !line.ends_with('\n') {
+                return Err(e);
+            }
             let mut iter = line.split_ascii_whitespace();
             iter.next();
             name = match iter.next() {
@@ -126,6 +134,7 @@ impl SolverCbcCmd {
                 if index >= solution.x.len() {
                     return Err(e);
                 }
+                seen_x[index] = true;
                 solution.x[index] = value;
                 if mul > 0. {
                     solution.pi[index] = mul;
@@ -140,6 +149,7 @@ impl SolverCbcCmd {
                 if index >= solution.lam.len() {
                     return Err(e);
                 }
+                seen_c[index] = true;
                 solution.lam[index] = mul;
             }
             else {
@@ -147,6 +157,11 @@ impl SolverCbcCmd {
             }
         }
 
+        // Incomplete file
+        if seen_x.contains(&false) || seen_c.contains(&false) {
+            return Err(e);
+        }
+
         Ok((status, solution))
     }
 }
-- 
2.43.0


From 43d237dd8bf1e2d61e12409d35b6d5ba6157cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 03/16] fix: read solution files of clp 1.17

---
 src/solver/cbc_cmd.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 208f40d..32200b0 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -72,10 +72,10 @@ impl SolverCbcCmd {
                 else if !cbc && s == "infeasible" {
                     status = SolverStatus::Infeasible;
                 }
-                else if cbc && s == "Optimal" {
+                else if s == "Optimal" {
                     status = SolverStatus::Solved;
                 }
-                else if cbc && s == "Infeasible" {
+                else if s == "Infeasible" {
                     status = SolverStatus::Infeasible;
                 }
             },
@@ -89,8 +89,8 @@ impl SolverCbcCmd {
             return Ok((status, solution))
         }
 
-        // Objective value
-        if !cbc {
+        // Objective value (on the first line since clp 1.17)
+        if !cbc && line.starts_with("optimal") {
             r.read_line(&mut line)?;
         }
 
-- 
2.43.0


From f63105a48a4c88fd5c81c86ad8962b66e0c2dbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 04/16] fix: report integer infeasible problems as infeasible

---
 src/solver/cbc_cmd.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 32200b0..668adf8 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -78,6 +78,9 @@ impl SolverCbcCmd {
                 else if s == "Infeasible" {
                     status = SolverStatus::Infeasible;
                 }
+                else if cbc && line.starts_with("Integer infeasible") {
+                    status = SolverStatus::Infeasible;
+                }
             },
             None => {
                 status = SolverStatus::Error;
-- 
2.43.0


From 425131d75459df5d754ddfcca5bca638e765b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:54 +0000
Subject: [PATCH 05/16] fix: read solution file lines that are marked as
 infeasible

---
 src/solver/cbc_cmd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 668adf8..0a51c27 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -109,7 +109,9 @@ impl SolverCbcCmd {
                 return Err(e);
             }
             let mut iter = line.split_ascii_whitespace();
-            iter.next();
+            if iter.next() == Some("**") {
+                iter.next();
+            }
             name = match iter.next() {
                 Some(s) => s.to_string(),
                 None => return Err(e)
-- 
2.43.0


From 209b8e9b7497259b5eb4be6d4b38f77971a31f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 06/16] fix: reserve the temporary files of command-line solves
 where they are used

Their names were reserved in the system temporary directory, released at
once and then used in the working directory, where they could overwrite or
remove files of others. They are now created in the working directory and
belong to the solve until it returns, on every path.
---
 src/solver/cbc_cmd.rs | 24 ++++++++++--------------
 src/solver/clp_cmd.rs | 24 ++++++++++--------------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 0a51c27..55c628c 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -4,7 +4,6 @@ use std::fs::File;
 use std::ffi::OsStr;
 use tempfile::Builder;
 use std::io::prelude::*;
-use std::fs::remove_file;
 use std::process::Command;
 use simple_error::SimpleError;
 use std::io::{self, BufReader};
@@ -189,9 +188,10 @@ impl Solver for SolverCbcCmd {
         let input_file = Builder::new()
             .prefix("cbc")
             .suffix(".lp")
-            .tempfile();
-        let input_filename = match input_file {
-            Ok(f) => f.path().file_name().and_then(OsStr::to_str).unwrap().to_string(),
+            .tempfile_in(".")
+            .map(|f| f.into_temp_path());
+        let input_filename = match &input_file {
+            Ok(f) => f.file_name().and_then(OsStr::to_str).unwrap().to_string(),
             Err(_e) => return Err(SimpleError::new("failed to create input filename")),
         };
 
@@ -199,9 +199,10 @@ impl Solver for SolverCbcCmd {
         let output_file = Builder::new()
             .prefix("cbc")
             .suffix(".sol")
-            .tempfile();
-        let output_filename = match output_file {
-            Ok(f) => f.path().file_name().and_then(OsStr::to_str).unwrap().to_string(),
+            .tempfile_in(".")
+            .map(|f| f.into_temp_path());
+        let output_filename = match &output_file {
+            Ok(f) => f.file_name().and_then(OsStr::to_str).unwrap().to_string(),
             Err(_e) => return Err(SimpleError::new("failed to create output filename")),
         };
 
@@ -209,8 +210,6 @@ impl Solver for SolverCbcCmd {
         match p.write_to_lp_file(&input_filename) {
             Ok(()) => (),
             Err(_e) => {
-                remove_file(&input_filename).ok();
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed to write lp file"));
             }
         };
@@ -235,26 +234,23 @@ impl Solver for SolverCbcCmd {
                       .and_then(|mut cmd| cmd.wait()) {
             Ok(_s) => (),
             Err(_e) => {
-                remove_file(&input_filename).ok();
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed executing cbc command"));
             }
         }
         
         // Clean up input file
-        remove_file(&input_filename).ok();
+        drop(input_file);
 
         // Read output file
         let (status, solution) = match Self::read_sol_file(&output_filename, &p, true) {
             Ok((s, sol)) => (s, sol),
             Err(_e) => {
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed to read cbc solution file"))
             }
         };
 
         // Clean up output file
-        remove_file(&output_filename).ok();
+        drop(output_file);
         
         // All good
         Ok((status, solution))
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index 0d4b58e..9b4ae20 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -2,7 +2,6 @@
 
 use std::ffi::OsStr;
 use tempfile::Builder;
-use std::fs::remove_file;
 use std::process::{Command, Stdio};
 use simple_error::SimpleError;
 use std::collections::HashMap;
@@ -56,9 +55,10 @@ impl Solver for SolverClpCmd {
         let input_file = Builder::new()
             .prefix("clp")
             .suffix(".lp")
-            .tempfile();
-        let input_filename = match input_file {
-            Ok(f) => f.path().file_name().and_then(OsStr::to_str).unwrap().to_string(),
+            .tempfile_in(".")
+            .map(|f| f.into_temp_path());
+        let input_filename = match &input_file {
+            Ok(f) => f.file_name().and_then(OsStr::to_str).unwrap().to_string(),
             Err(_e) => return Err(SimpleError::new("failed to create input filename")),
         };
 
@@ -66,9 +66,10 @@ impl Solver for SolverClpCmd {
         let output_file = Builder::new()
             .prefix("clp")
             .suffix(".sol")
-            .tempfile();
-        let output_filename = match output_file {
-            Ok(f) => f.path().file_name().and_then(OsStr::to_str).unwrap().to_string(),
+            .tempfile_in(".")
+            .map(|f| f.into_temp_path());
+        let output_filename = match &output_file {
+            Ok(f) => f.file_name().and_then(OsStr::to_str).unwrap().to_string(),
             Err(_e) => return Err(SimpleError::new("failed to create output filename")),
         };
 
@@ -76,8 +77,6 @@ impl Solver for SolverClpCmd {
         match p.as_mut_milp().write_to_lp_file(&input_filename) {
             Ok(()) => (),
             Err(_e) => {
-                remove_file(&input_filename).ok();
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed to write lp file"));
             }
         };
@@ -103,14 +102,12 @@ impl Solver for SolverClpCmd {
                       .and_then(|mut cmd| cmd.wait()) {
             Ok(_s) => (),
             Err(_e) => {
-                remove_file(&input_filename).ok();
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed executing clp command"));
             }
         }
         
         // Clean up input file
-        remove_file(&input_filename).ok();
+        drop(input_file);
 
         // Read output file
         let (status, solution) = match SolverCbcCmd::read_sol_file(&output_filename, 
@@ -118,13 +115,12 @@ impl Solver for SolverClpCmd {
                                                                    false) {
             Ok((s, sol)) => (s, sol),
             Err(_e) => {
-                remove_file(&output_filename).ok();
                 return Err(SimpleError::new("failed to read clp solution file"))
             }
         };
 
         // Clean up output file
-        remove_file(&output_filename).ok();
+        drop(output_file);
         
         // All good
         Ok((status, solution))
-- 
2.43.0


From 6b882c46024fa354580ed2e79eb1f4b0e2d8830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 07/16] fix: place nonlinear rows after linear ones in the
 Ipopt Jacobian structure

The constraint values and multipliers have the linear rows first; the
structure announced the nonlinear entries at the rows of the linear ones.
---
 src/solver/ipopt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 328ee71..0fa192f 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -266,7 +266,7 @@ extern fn eval_jac_g_cb(n: c_int,
                 k += 1;
             }
             for (row, col, _val) in p.j().iter() {
-                *irow.add(k) = row.to_i32().unwrap();
+                *irow.add(k) = (p.na()+row).to_i32().unwrap();
                 *jcol.add(k) = col.to_i32().unwrap();
                 k += 1;
             }
-- 
2.43.0


From 19022217718a6b2db8da545c5a9c2c5b4edcd3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 08/16] fix: answer Ipopt Hessian requests for the point and
 multipliers given

Values were only written when the point or the multipliers were flagged
as new, although the objective factor may have changed, and a new point
with old multipliers was answered with the combination of the old point.
---
 src/solver/ipopt.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 0fa192f..fc90da2 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -344,23 +344,23 @@ extern fn eval_h_cb(n: c_int,
                 }
                 p.evaluate(slice::from_raw_parts(x, p.nx()));
             }
-            if new_lambda == cipopt::TRUE {
-                if lambda.is_null() {
-                    return cipopt::FALSE;
-                }
+            if lambda.is_null() && (new_lambda == cipopt::TRUE || p.nf() > 0) {
+                return cipopt::FALSE;
+            }
+            // The combination depends on the point as well, and other
+            // callbacks may have moved it since lambda was last new.
+            if p.nf() > 0 {
                 p.combine_h(slice::from_raw_parts(lambda.add(p.na()), p.nf()));
             }
-            if new_x == cipopt::TRUE || new_lambda == cipopt::TRUE {
-                let mut k: usize = 0;
-                for (_row, _col, val) in p.hphi().iter() {
-                    *values.add(k) = obj_factor*(*val); 
-                    k += 1;
-                }
-                for (_row, _col, val) in p.hcomb().iter() {
-                    *values.add(k) = *val; 
-                    k += 1;
-                }
-            }   
+            let mut k: usize = 0;
+            for (_row, _col, val) in p.hphi().iter() {
+                *values.add(k) = obj_factor*(*val); 
+                k += 1;
+            }
+            for (_row, _col, val) in p.hcomb().iter() {
+                *values.add(k) = *val; 
+                k += 1;
+            }
         }
     };
     cipopt::TRUE
-- 
2.43.0


From 329a92ae8a3046634736931b4434cb0c424e0b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 09/16] fix: release the Ipopt problem when a parameter or
 option is refused

Parameters are read before the native problem is created, a refused option
releases it, and a string that has no C form is an error, not a panic.
---
 src/solver/ipopt.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index fc90da2..30f2b71 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -60,6 +60,18 @@ impl Solver for SolverIpopt {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameter print_level
+        let print_level: &i32 = match self.get_param("print_level") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+        };
+
+        // Parameter sb
+        let sb: &str = match self.get_param("sb") {
+            Some(SolverParam::StrParam(s)) => s.as_ref(),
+            _ => return Err(SimpleError::new("unable to get parameter sb"))
+        };
+
         // Init
         let n: c_int = p.nx().to_i32().unwrap();
         let m: c_int = (p.na() + p.nf()).to_i32().unwrap();
@@ -88,20 +100,16 @@ impl Solver for SolverIpopt {
             return Err(SimpleError::new("failed to create ipopt problem"))
         }
 
-        // Parameter print_level
-        let print_level: &i32 = match self.get_param("print_level") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+        // Options
+        let options = unsafe {
+            add_int_option(cprob, "print_level", *print_level)
+                .and_then(|_| add_str_option(cprob, "sb", sb))
         };
-        unsafe { add_int_option(cprob, "print_level", *print_level)? };
+        if let Err(e) = options {
+            unsafe { cipopt::FreeIpoptProblem(cprob) };
+            return Err(e);
+        }
 
-        // Parameter sb
-        let sb: &str = match self.get_param("sb") {
-            Some(SolverParam::StrParam(s)) => s.as_ref(),
-            _ => return Err(SimpleError::new("unable to get parameter sb"))
-        };
-        unsafe { add_str_option(cprob, "sb", sb)? };
-        
         // Buffers
         let mut x: Vec<f64> = vec![0.;p.nx()];
         let mut lamnu: Vec<f64> = vec![0.;p.na()+p.nf()];        
@@ -384,7 +392,10 @@ unsafe fn add_str_option(cprob: cipopt::IpoptProblem,
                          val: &str) 
                          -> Result<(), SimpleError> {
     let ckey = CString::new(key).unwrap();
-    let cval = CString::new(val).unwrap();
+    let cval = match CString::new(val) {
+        Ok(v) => v,
+        Err(_) => return Err(SimpleError::new(format!("unable to set parameter {}", key)))
+    };
     match cipopt::AddIpoptStrOption(cprob, 
                                     ckey.as_ptr() as *const c_char, 
                                     cval.as_ptr() as *const c_char) {
-- 
2.43.0


From 526e510076569cbdf956e927fe282a685e6908ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:31 +0000
Subject: [PATCH 10/16] fix: a sum whose constants cancel to one term is that
 term, not a panic

---
 src/model/node.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/model/node.rs b/src/model/node.rs
index 01d0a99..f3507b9 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -172,6 +172,9 @@ macro_rules! impl_node_add_node {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }        
@@ -214,6 +217,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
@@ -251,6 +257,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
-- 
2.43.0


From b5c8eaaf5180ef5ef128df84cfd7869baf41e0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 11/16] fix: the derivative of an expression divided by itself
 is zero

---
 src/model/function/div.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 691c445..8bc1257 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -33,7 +33,10 @@ impl NodeBase for FunctionDiv {
     }
 
     fn partial(&self, arg: &Node) -> Node { 
-        if self.args.0 == *arg {
+        if self.args.0 == *arg && self.args.1 == *arg {
+            return ConstantScalar::new(0.);
+        }
+        else if self.args.0 == *arg {
             return 1./&self.args.1;
         }
         else if self.args.1 == *arg {
-- 
2.43.0


From fbfdce22f70302e01388c87f450ee367340af9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 12/16] fix: publish the results of a model solve only once all
 of them are known

---
 src/model/model.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/model/model.rs b/src/model/model.rs
index 7332057..041d073 100644
--- a/src/model/model.rs
+++ b/src/model/model.rs
@@ -131,28 +131,32 @@ impl Model {
         // Solve
         let (status, solution) = solver.solve(&mut std_prob.prob)?;
        
-        // Status
-        self.solver_status = Some(status);
-
         // Final var values
+        let mut final_primals = HashMap::new();
         for (var, index) in std_prob.var2index.iter() {
-            self.final_primals.insert(var.clone(), solution.x[*index]);
+            final_primals.insert(var.clone(), solution.x[*index]);
         }
 
         // Final constr duals
+        let mut final_duals = HashMap::new();
         for (index, constr) in std_prob.aindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.lam[*index]);
+            final_duals.insert(constr.clone(), solution.lam[*index]);
         }
         for (index, constr) in std_prob.jindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.nu[*index]);
+            final_duals.insert(constr.clone(), solution.nu[*index]);
         }
         for (index, constr) in std_prob.uindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.mu[*index]);
+            final_duals.insert(constr.clone(), solution.mu[*index]);
         }
         for (index, constr) in std_prob.lindex2constr.iter() {
-            self.final_duals.insert(constr.clone(), solution.pi[*index]);
+            final_duals.insert(constr.clone(), solution.pi[*index]);
         }
 
+        // Results
+        self.solver_status = Some(status);
+        self.final_primals = final_primals;
+        self.final_duals = final_duals;
+
         // Done
         Ok(())
     }
-- 
2.43.0


From 105485560f6a73ab469de4af3b7e847f2506d0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:26 +0000
Subject: [PATCH 13/16] fix: a Hessian request refused for its multipliers
 leaves the evaluated point alone

---
 src/solver/ipopt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 30f2b71..8734038 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -346,15 +346,15 @@ extern fn eval_h_cb(n: c_int,
             }
         }
         else {
+            if lambda.is_null() && (new_lambda == cipopt::TRUE || p.nf() > 0) {
+                return cipopt::FALSE;
+            }
             if new_x == cipopt::TRUE {
                 if x.is_null() {
                     return cipopt::FALSE;
                 }
                 p.evaluate(slice::from_raw_parts(x, p.nx()));
             }
-            if lambda.is_null() && (new_lambda == cipopt::TRUE || p.nf() > 0) {
-                return cipopt::FALSE;
-            }
             // The combination depends on the point as well, and other
             // callbacks may have moved it since lambda was last new.
             if p.nf() > 0 {
-- 
2.43.0


From 2d44013ba6bd4c4e1f47001befad92bee12cea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:47 +0000
Subject: [PATCH 14/16] fix: variable bounds beyond 1e8 are honoured and keep
 their multipliers

---
 src/model/model_std.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/model/model_std.rs b/src/model/model_std.rs
index e3885d6..18b1731 100644
--- a/src/model/model_std.rs
+++ b/src/model/model_std.rs
@@ -225,18 +225,26 @@ impl ModelStd for Model {
         let mut l_data = vec![-INF; num_vars];
         for (var, val, constr) in comp.constr.u.into_iter() {
             let index = *var2index.get(&var).unwrap();
-            if val <= u_data[index] {
+            if val <= u_data[index] || !uindex2constr.contains_key(&index) {
                 u_data[index] = val;
                 uindex2constr.insert(index, constr);
             }
         }
         for (var, val, constr) in comp.constr.l.into_iter() {
             let index = *var2index.get(&var).unwrap();
-            if val >= l_data[index] {
+            if val >= l_data[index] || !lindex2constr.contains_key(&index) {
                 l_data[index] = val;
                 lindex2constr.insert(index, constr);
             }
         }
+        for index in 0..num_vars { // the missing bound must not contradict the given one
+            if l_data[index] >= INF && !uindex2constr.contains_key(&index) {
+                u_data[index] = f64::INFINITY;
+            }
+            if u_data[index] <= -INF && !lindex2constr.contains_key(&index) {
+                l_data[index] = f64::NEG_INFINITY;
+            }
+        }
 
         // Integer restrictions
         let mut num_int: usize = 0;
-- 
2.43.0


From b2056f9bf577afe774986eb0423630161cd17ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 15/16] fix: the multiplier of a constraint added twice does
 not depend on hash seeds

---
 src/model/model.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/model/model.rs b/src/model/model.rs
index 041d073..ae6221f 100644
--- a/src/model/model.rs
+++ b/src/model/model.rs
@@ -139,18 +139,10 @@ impl Model {
 
         // Final constr duals
         let mut final_duals = HashMap::new();
-        for (index, constr) in std_prob.aindex2constr.iter() {
-            final_duals.insert(constr.clone(), solution.lam[*index]);
-        }
-        for (index, constr) in std_prob.jindex2constr.iter() {
-            final_duals.insert(constr.clone(), solution.nu[*index]);
-        }
-        for (index, constr) in std_prob.uindex2constr.iter() {
-            final_duals.insert(constr.clone(), solution.mu[*index]);
-        }
-        for (index, constr) in std_prob.lindex2constr.iter() {
-            final_duals.insert(constr.clone(), solution.pi[*index]);
-        }
+        insert_duals(&mut final_duals, &std_prob.aindex2constr, &solution.lam);
+        insert_duals(&mut final_duals, &std_prob.jindex2constr, &solution.nu);
+        insert_duals(&mut final_duals, &std_prob.uindex2constr, &solution.mu);
+        insert_duals(&mut final_duals, &std_prob.lindex2constr, &solution.pi);
 
         // Results
         self.solver_status = Some(status);
@@ -170,6 +162,18 @@ impl Model {
     }
 }
 
+/// Inserts constraint duals in order of index, so that the outcome is the same
+/// in every process even for a constraint that was added more than once.
+fn insert_duals(duals: &mut HashMap<Constraint, f64>, 
+                index2constr: &HashMap<usize, Constraint>,
+                values: &[f64]) -> () {
+    let mut indices: Vec<usize> = index2constr.keys().copied().collect();
+    indices.sort();
+    for index in indices {
+        duals.insert(index2constr[&index].clone(), values[index]);
+    }
+}
+
 impl<'a> fmt::Display for Model {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match &self.objective {
-- 
2.43.0


From eb4bcd0bb39badbef8bb8dea95788bea593e167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 16/16] fix: a variable named like a slack variable does not
 make the column order depend on hash seeds

---
 src/model/constraint_std.rs | 9 +++++++++
 src/model/model_std.rs      | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/model/constraint_std.rs b/src/model/constraint_std.rs
index 4d6bc8d..7f32738 100644
--- a/src/model/constraint_std.rs
+++ b/src/model/constraint_std.rs
@@ -41,6 +41,9 @@ pub struct ConstraintStdComp {
 
     /// Standard properties of constraint expressions.
     pub prop: Vec<NodeStdProp>,
+
+    /// Slack variables introduced for the constraints.
+    pub slacks: Vec<Node>,
 }
 
 /// Trait for transforming constraints to standard form.
@@ -65,6 +68,7 @@ impl ConstraintStdComp {
             u: Vec::new(),
             l: Vec::new(),
             prop: Vec::new(),
+            slacks: Vec::new(),
         }
     }
 }
@@ -81,6 +85,7 @@ impl AddAssign for ConstraintStdComp {
         self.u.extend(other.u);
         self.l.extend(other.l);
         self.prop.extend(other.prop);
+        self.slacks.extend(other.slacks);
     }
 }
 
@@ -97,6 +102,7 @@ impl ConstraintStd for Constraint {
         let mut h: Vec<Vec<(Node, Node, Node)>> = Vec::new();
         let mut u: Vec<(Node, f64, Constraint)> = Vec::new();
         let mut l: Vec<(Node, f64, Constraint)> = Vec::new();
+        let mut slacks: Vec<Node> = Vec::new();
     
         let exp = self.lhs()-self.rhs();
         let comp = exp.std_components();
@@ -154,6 +160,7 @@ impl ConstraintStd for Constraint {
                     _ => panic!("unexpected constraint type"),
                 }
                 prop.a.insert(s.clone(), -1.);
+                slacks.push(s);
                 *arow += 1;
             }
         }
@@ -197,6 +204,7 @@ impl ConstraintStd for Constraint {
                     _ => panic!("unexpected constraint type"),
                 }
                 prop.a.insert(s.clone(), -1.);
+                slacks.push(s);
                 *jrow += 1;
             }
         }
@@ -213,6 +221,7 @@ impl ConstraintStd for Constraint {
             u: u,
             l: l,
             prop: vec![prop],
+            slacks: slacks,
         }
     }
 }
diff --git a/src/model/model_std.rs b/src/model/model_std.rs
index 18b1731..ad752cd 100644
--- a/src/model/model_std.rs
+++ b/src/model/model_std.rs
@@ -102,6 +102,8 @@ impl ModelStd for Model {
         }
         let num_vars: usize = varset.len();
         let mut vars: Vec<Node> = varset.into_iter().collect();
+        let slacks: HashSet<Node> = comp.constr.slacks.into_iter().collect();
+        vars.sort_by_key(|x| slacks.contains(x)); // for variables named like a slack
         vars.sort_by(|x,y| x.name().partial_cmp(y.name()).unwrap());
         let var2index: HashMap<Node, usize> = vars.into_iter()
                                                   .enumerate()
-- 
2.43.0

