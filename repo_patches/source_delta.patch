From f14331c4e694505432b74fe893c8cf9a21d57e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 01/11] fix: measuring the depth of an empty list no longer
 panics

---
 src/enumo/sexp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enumo/sexp.rs b/src/enumo/sexp.rs
index 597e618..c0b80b3 100644
--- a/src/enumo/sexp.rs
+++ b/src/enumo/sexp.rs
@@ -109,7 +109,7 @@ impl Sexp {
             Sexp::List(s) => match metric {
                 Metric::Atoms => s.iter().map(|x| x.measure(metric)).sum::<usize>(),
                 Metric::Lists => s.iter().map(|x| x.measure(metric)).sum::<usize>() + 1,
-                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap() + 1,
+                Metric::Depth => s.iter().map(|x| x.measure(metric)).max().unwrap_or(0) + 1,
             },
         }
     }
-- 
2.43.0


From 2e0fb01dbcdf7912f166e1993bc9ca85f305a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 02/11] fix: plugging an empty workload matches the plugged
 name literally

---
 src/enumo/workload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enumo/workload.rs b/src/enumo/workload.rs
index 913d333..7289943 100644
--- a/src/enumo/workload.rs
+++ b/src/enumo/workload.rs
@@ -127,7 +127,7 @@ impl Workload {
         match workload {
             // Empty plug is the same as filter excludes
             Workload::Set(xs) if xs.is_empty() => {
-                self.filter(Filter::Excludes(name.into().parse().unwrap()))
+                self.filter(Filter::Excludes(Pattern::Lit(name.into())))
             }
             _ => Workload::Plug(Box::new(self), name.into(), Box::new(workload.clone())),
         }
-- 
2.43.0


From be03dfe9331e72ab2dbd46d390c0ea3062eea996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 03/11] fix: plugging keeps empty lists in the workload

---
 src/enumo/sexp.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/enumo/sexp.rs b/src/enumo/sexp.rs
index c0b80b3..d765896 100644
--- a/src/enumo/sexp.rs
+++ b/src/enumo/sexp.rs
@@ -91,6 +91,8 @@ impl Sexp {
         match self {
             Sexp::Atom(s) if s == name => pegs.to_vec(),
             Sexp::Atom(_) => vec![self.clone()],
+            // The cartesian product of zero lists is empty in itertools
+            Sexp::List(sexps) if sexps.is_empty() => vec![self.clone()],
             Sexp::List(sexps) => sexps
                 .iter()
                 .map(|x| x.plug(name, pegs))
-- 
2.43.0


From 72d3fdd64e530135734fd9d8151a151ab53bee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 04/11] fix: bitvector workloads without variables no longer
 panic

---
 src/bv.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 99323e9..52139cd 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -231,7 +231,8 @@ macro_rules! impl_bv {
 
                 let mut cvecs = self_product(&consts, vars.len());
 
-                egraph.analysis.cvec_len = cvecs[0].len();
+                // With no variables there is one (empty) assignment
+                egraph.analysis.cvec_len = cvecs.first().map_or(1, |cvec| cvec.len());
 
                 for (i, v) in vars.iter().enumerate() {
                     let id = egraph.add(Bv::Var(Symbol::from(v.clone())));
-- 
2.43.0


From 4726601219581fbda39622f4f99fca1e50fa37e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 05/11] fix: cvec matching requires a sample on which both
 sides are defined

---
 src/enumo/ruleset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index ac0130e..c3f78bb 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -280,13 +280,15 @@ impl<L: SynthLanguage> Ruleset<L> {
             .collect();
 
         let compare = |cvec1: &CVec<L>, cvec2: &CVec<L>| -> bool {
+            let mut both_defined = false;
             for tup in cvec1.iter().zip(cvec2) {
                 match tup {
                     (Some(a), Some(b)) if a != b => return false,
+                    (Some(_), Some(_)) => both_defined = true,
                     _ => (),
                 }
             }
-            true
+            both_defined
         };
         let mut candidates = Ruleset::default();
         let extract = Extractor::new(egraph, AstSize);
-- 
2.43.0


From 60ef4b08272115f25bf3d018544b1c3134430b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 06/11] fix: minimize reports only candidates that failed
 validation as invalid

---
 src/enumo/ruleset.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/enumo/ruleset.rs b/src/enumo/ruleset.rs
index c3f78bb..7ff1a12 100644
--- a/src/enumo/ruleset.rs
+++ b/src/enumo/ruleset.rs
@@ -376,10 +376,12 @@ impl<L: SynthLanguage> Ruleset<L> {
                 // If reverse direction is also in candidates, add it at the same time
                 let reverse = Rule::new(&rule.rhs, &rule.lhs);
                 if let Some(reverse) = reverse {
-                    if self.contains(&reverse) && reverse.is_valid() {
-                        selected.add(reverse);
-                    } else {
-                        invalid.add(reverse);
+                    if self.contains(&reverse) {
+                        if reverse.is_valid() {
+                            selected.add(reverse);
+                        } else {
+                            invalid.add(reverse);
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 81c924a5788c3468d71187d5044a4c3854038908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 07/11] fix: bitvector validation no longer truncates literals
 to 64 bits

---
 src/bv.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bv.rs b/src/bv.rs
index 52139cd..0924bdd 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -251,7 +251,12 @@ macro_rules! impl_bv {
                     for node in expr.as_ref().iter() {
                         match node {
                             Bv::Var(v) => buf.push(z3::ast::BV::new_const(&ctx, v.to_string(), $n)),
-                            Bv::Lit(c) => buf.push(z3::ast::BV::from_u64(&ctx, c.0 as u64, $n)),
+                            Bv::Lit(c) => {
+                                // Literals can be wider than 64 bits
+                                let hi = z3::ast::BV::from_u64(&ctx, (c.0 >> 64) as u64, 64);
+                                let lo = z3::ast::BV::from_u64(&ctx, c.0 as u64, 64);
+                                buf.push(hi.concat(&lo).extract($n - 1, 0))
+                            }
                             Bv::Add([a, b]) => buf.push(buf[usize::from(*a)].bvadd(&buf[usize::from(*b)])),
                             Bv::Sub([a, b]) => buf.push(buf[usize::from(*a)].bvsub(&buf[usize::from(*b)])),
                             Bv::Mul([a, b]) => buf.push(buf[usize::from(*a)].bvmul(&buf[usize::from(*b)])),
-- 
2.43.0


From ec0e1e552d49c4205af692171d13f4d4656e4cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 08/11] fix: recursive_rules uses as many operator arities as
 the language has

---
 src/recipe_utils.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/recipe_utils.rs b/src/recipe_utils.rs
index af9771f..4446654 100644
--- a/src/recipe_utils.rs
+++ b/src/recipe_utils.rs
@@ -173,11 +173,7 @@ pub fn recursive_rules<L: SynthLanguage>(
         Ruleset::default()
     } else {
         let mut rec = recursive_rules(metric, n - 1, lang.clone(), prior.clone());
-        let base_lang = if lang.ops.len() == 2 {
-            base_lang(2)
-        } else {
-            base_lang(3)
-        };
+        let base_lang = base_lang(lang.ops.len());
         let mut wkld = iter_metric(base_lang, "EXPR", metric, n)
             .filter(Filter::Contains("VAR".parse().unwrap()))
             .plug("VAR", &Workload::new(lang.vars))
-- 
2.43.0


From 6f341bb71ab72e60192428a085c82a1f59ae0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 09/11] fix: nightly log rows survive crashes and concurrent
 appends

---
 src/logger.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/logger.rs b/src/logger.rs
index 02ca7b2..9f3e072 100644
--- a/src/logger.rs
+++ b/src/logger.rs
@@ -1,5 +1,6 @@
 use std::{
     fs::{self, OpenOptions},
+    sync::Mutex,
     time::{Duration, Instant},
 };
 
@@ -14,6 +15,10 @@ use crate::{count_lines, enumo::Ruleset, DeriveType, Limits, Phase, SynthLanguag
  * the array, and writes it back to the file
  */
 fn add_json_to_file(json: Value) {
+    // Rows can be added from several threads
+    static LOCK: Mutex<()> = Mutex::new(());
+    let _guard = LOCK.lock().unwrap_or_else(|e| e.into_inner());
+
     let path = "nightly/data/output.json";
     std::fs::create_dir_all("nightly/data").unwrap_or_else(|e| panic!("Error creating dir: {}", e));
 
@@ -34,8 +39,11 @@ fn add_json_to_file(json: Value) {
 
     contents.push(json);
 
-    std::fs::write(path, serde_json::to_string_pretty(&contents).unwrap())
+    // Replace the file in one step, so that a crash does not lose earlier rows
+    let tmp = "nightly/data/output.json.tmp";
+    std::fs::write(tmp, serde_json::to_string_pretty(&contents).unwrap())
         .expect("Unable to write to json file");
+    std::fs::rename(tmp, path).expect("Unable to write to json file");
 }
 
 /**
-- 
2.43.0


From c30ff090e9eaf26f681851b5316c07a08ea046c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 10/11] fix: malformed #b bitvector literals are an error
 instead of a panic

---
 src/bv.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bv.rs b/src/bv.rs
index 0924bdd..ce9b98b 100644
--- a/src/bv.rs
+++ b/src/bv.rs
@@ -113,8 +113,7 @@ impl<const N: Inner> std::str::FromStr for BV<N> {
     type Err = std::num::ParseIntError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = s.strip_prefix("#b") {
-            let i = Inner::from_str_radix(stripped, 2).unwrap();
-            return Ok(Self::new(i));
+            return Inner::from_str_radix(stripped, 2).map(Self::new);
         }
         s.parse::<Inner>().map(Self::new)
     }
-- 
2.43.0


From fb79a378f1f53b0d5ecea0daaa6c877ec1fd5a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 11/11] fix: malformed S-expression and pattern texts are an
 error instead of a panic

---
 src/enumo/pattern.rs | 2 +-
 src/enumo/sexp.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/enumo/pattern.rs b/src/enumo/pattern.rs
index 4cf1800..47b08c1 100644
--- a/src/enumo/pattern.rs
+++ b/src/enumo/pattern.rs
@@ -16,7 +16,7 @@ impl FromStr for Pattern {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use symbolic_expressions::parser::parse_str;
-        let sexp = parse_str(s).unwrap();
+        let sexp = parse_str(s).map_err(|e| e.to_string())?;
         Ok(Self::from_symbolic_expr(sexp))
     }
 }
diff --git a/src/enumo/sexp.rs b/src/enumo/sexp.rs
index d765896..4206af0 100644
--- a/src/enumo/sexp.rs
+++ b/src/enumo/sexp.rs
@@ -14,7 +14,7 @@ impl FromStr for Sexp {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use symbolic_expressions::parser::parse_str;
-        let sexp = parse_str(s).unwrap();
+        let sexp = parse_str(s).map_err(|e| e.to_string())?;
         Ok(Self::from_symbolic_expr(sexp))
     }
 }
-- 
2.43.0

