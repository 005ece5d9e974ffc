From ae7a3038bf83557ef8333327dd89906b329cdb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 01/23] fix: include variables created after solving in the
 model

model() indexed the global assignment with variables that became visible
after the model was found, which panicked, or left them out of the model
returned by a repeated solve. They are unconstrained, so give them a value.
---
 varisat/src/solver.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/varisat/src/solver.rs b/varisat/src/solver.rs
index b46bcf8..2b35bbc 100644
--- a/varisat/src/solver.rs
+++ b/varisat/src/solver.rs
@@ -190,14 +190,21 @@ impl<'a> Solver<'a> {
             Some(
                 ctx.part(VariablesP)
                     .user_var_iter()
-                    .flat_map(|user_var| {
+                    .map(|user_var| {
                         let global_var = ctx
                             .part(VariablesP)
                             .global_from_user()
                             .get(user_var)
                             .expect("no existing global var for user var");
-                        ctx.part(ModelP).assignment()[global_var.index()]
-                            .map(|value| user_var.lit(value))
+                        // Variables that became visible after the model was found are not part of
+                        // it. They are unconstrained, so any value will do.
+                        let value = ctx
+                            .part(ModelP)
+                            .assignment()
+                            .get(global_var.index())
+                            .and_then(|&value| value)
+                            .unwrap_or(false);
+                        user_var.lit(value)
                     })
                     .collect(),
             )
-- 
2.43.0


From 96641059c6a8188a15ece19b29fdc50eeeb8b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 02/23] fix: reset the assumed flag of implied assumptions

enqueue_assumption drops assumptions that are implied by the other ones. Their
assumed flag stayed set after the assumptions were replaced, so changing their
sampling mode kept panicking.
---
 varisat/src/assumptions.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/varisat/src/assumptions.rs b/varisat/src/assumptions.rs
index c21d8cb..fe89d88 100644
--- a/varisat/src/assumptions.rs
+++ b/varisat/src/assumptions.rs
@@ -17,6 +17,8 @@ use crate::{
 #[derive(Default)]
 pub struct Assumptions {
     assumptions: Vec<Lit>,
+    /// Assumptions that were dropped from `assumptions` as they are implied by the other ones.
+    implied_assumptions: Vec<Lit>,
     failed_core: Vec<Lit>,
     user_failed_core: Vec<Lit>,
     assumption_levels: usize,
@@ -89,7 +91,8 @@ pub fn set_assumptions<'a>(
 
     let (assumptions, mut ctx_2) = ctx.split_part_mut(AssumptionsP);
 
-    for lit in assumptions.assumptions.iter() {
+    let implied_assumptions = assumptions.implied_assumptions.drain(..);
+    for lit in assumptions.assumptions.drain(..).chain(implied_assumptions) {
         ctx_2
             .part_mut(VariablesP)
             .var_data_solver_mut(lit.var())
@@ -151,7 +154,8 @@ pub fn enqueue_assumption<'a>(
                 // The next assumption is already implied by other assumptions so we can remove it.
                 let level = ctx.part(TrailP).current_level();
                 let assumptions = ctx.part_mut(AssumptionsP);
-                assumptions.assumptions.swap_remove(level);
+                let implied = assumptions.assumptions.swap_remove(level);
+                assumptions.implied_assumptions.push(implied);
             }
             None => {
                 ctx.part_mut(TrailP).new_decision_level();
-- 
2.43.0


From b7dfd4d880c3fb425731a6029d34f6f8dbadbcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 03/23] fix: do not leave stale flags behind when analyzing
 failed assumptions

The flags of removed units were never reset as those literals are not on the
trail anymore. When the solver variable got reused, the following analyses
skipped it and returned failed cores that are too small.
---
 varisat/src/assumptions.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/varisat/src/assumptions.rs b/varisat/src/assumptions.rs
index fe89d88..0d401aa 100644
--- a/varisat/src/assumptions.rs
+++ b/varisat/src/assumptions.rs
@@ -199,8 +199,13 @@ fn analyze_assumption_conflict<'a>(
 
     assumptions.failed_propagation_hashes.clear();
 
-    flags[assumption.index()] = true;
-    let mut flag_count = 1;
+    // Units removed from the trail need no further justification. As they are not visited below,
+    // their flag would never be reset.
+    let mut flag_count = 0;
+    if !impl_graph.is_removed_unit(assumption.var()) {
+        flags[assumption.index()] = true;
+        flag_count += 1;
+    }
 
     for &lit in trail.trail().iter().rev() {
         if flags[lit.index()] {
@@ -223,7 +228,9 @@ fn analyze_assumption_conflict<'a>(
                     }
 
                     for &reason_lit in reason_lits {
-                        if !flags[reason_lit.index()] {
+                        if !flags[reason_lit.index()]
+                            && !impl_graph.is_removed_unit(reason_lit.var())
+                        {
                             flags[reason_lit.index()] = true;
                             flag_count += 1;
                         }
-- 
2.43.0


From cbb173f15d09cfcdee7e1451e60b456022bff1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 04/23] fix: process each conflict of input unit clauses only
 once

Every solve call repeated the derivation of the empty clause, reusing the same
clause id, so processors and LRAT proofs saw the same clause added repeatedly.
---
 varisat-checker/src/state.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 7f3e747..501ca10 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -623,20 +623,23 @@ pub fn check_proof<'a>(
 }
 
 /// Process unit conflicts detected during clause loading.
+///
+/// Each conflict is processed only once, even when this is called repeatedly.
 pub fn process_unit_conflicts<'a>(
-    mut ctx: partial!(Context<'a>, mut ProcessingP<'a>, ClausesP, VariablesP),
+    mut ctx: partial!(Context<'a>, mut ClausesP, mut ProcessingP<'a>, VariablesP),
 ) -> Result<(), CheckerError> {
-    let (clauses, mut ctx) = ctx.split_part(ClausesP);
-    if let Some(ids) = &clauses.unit_conflict {
-        let clause = &[];
+    let clauses = ctx.part_mut(ClausesP);
+    if let Some(ids) = clauses.unit_conflict.take() {
+        let id = clauses.next_clause_id;
+        clauses.next_clause_id += 1;
 
         process_step(
             ctx.borrow(),
             &CheckedProofStep::AtClause {
-                id: clauses.next_clause_id,
+                id,
                 redundant: false,
-                clause,
-                propagations: ids,
+                clause: &[],
+                propagations: &ids,
             },
         )?;
     }
-- 
2.43.0


From 489f78e5a5c8f5154b92f0b6d81050ea042567c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:34 +0000
Subject: [PATCH 05/23] fix: only allow deleting hidden variables in proofs

A variable of the initial formula that was never given a user name could be
deleted while a unit clause constrained it, silently dropping that clause.
---
 varisat-checker/src/state.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 501ca10..8b06443 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -168,6 +168,13 @@ fn check_delete_var_step<'a>(
         ));
     }
 
+    if ctx.part(VariablesP).var_data[var.index()].sampling_mode != SamplingMode::Hide {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("deleted variable {:?} is not hidden", var),
+        ));
+    }
+
     for &polarity in &[false, true] {
         if ctx.part(VariablesP).lit_data[var.lit(polarity).code()].clause_count > 0 {
             return Err(CheckerError::check_failed(
-- 
2.43.0


From 37e2fb2767abbad2b2f33440a4854a2fa6afc9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 06/23] fix: do not accept models of a formula proven
 unsatisfiable

The empty clause and conflicting unit clauses are not part of the clause
storage, so they were ignored when checking a model.
---
 varisat-checker/src/state.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 8b06443..4b9acdc 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -482,6 +482,13 @@ fn check_model_step<'a>(
     mut ctx: partial!(Context<'a>, mut ProcessingP<'a>, CheckerStateP, ClausesP, VariablesP),
     model: &[Lit],
 ) -> Result<(), CheckerError> {
+    if ctx.part(CheckerStateP).unsat {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            "model for an unsatisfiable formula".to_string(),
+        ));
+    }
+
     let mut assignments = HashSet::default();
 
     for &lit in model.iter() {
-- 
2.43.0


From a80c78846dcf8a6a38fcf9103a9ac1db68863a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 07/23] fix: require models in proofs to satisfy the unit
 clauses

A partial model that does not assign a variable fixed by a unit clause was
accepted.
---
 varisat-checker/src/state.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 4b9acdc..950e07c 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -516,6 +516,18 @@ fn check_model_step<'a>(
         }
     }
 
+    for (index, unit_clause) in ctx.part(ClausesP).unit_clauses.iter().enumerate() {
+        if let Some(unit_clause) = unit_clause {
+            let lit = Var::from_index(index).lit(unit_clause.value);
+            if !assignments.contains(&lit) {
+                return Err(CheckerError::check_failed(
+                    ctx.part(CheckerStateP).step,
+                    format!("model does not satisfy unit clause {:?}", lit),
+                ));
+            }
+        }
+    }
+
     for (_, candidates) in ctx.part(ClausesP).clauses.iter() {
         for clause in candidates.iter() {
             let lits = clause.lits.slice(&ctx.part(ClausesP).literal_buffer);
-- 
2.43.0


From fa1de5398aa6635ce81a0a5f977b67c14c58d8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 08/23] fix: do not panic on proof steps mentioning unknown
 variables

---
 varisat-checker/src/state.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 950e07c..d389d0f 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -356,6 +356,9 @@ fn check_delete_clause_step<'a>(
     match proof {
         DeleteClauseProof::Redundant => (),
         DeleteClauseProof::Satisfied => {
+            for &lit in tmp.iter() {
+                ensure_var(ctx.borrow(), lit.var());
+            }
             let is_subsumed = tmp.iter().any(|&lit| {
                 if let Some((
                     true,
@@ -479,7 +482,13 @@ fn check_unit_clauses_step<'a>(
 
 /// Check a Model step
 fn check_model_step<'a>(
-    mut ctx: partial!(Context<'a>, mut ProcessingP<'a>, CheckerStateP, ClausesP, VariablesP),
+    mut ctx: partial!(
+        Context<'a>,
+        mut ClausesP,
+        mut ProcessingP<'a>,
+        mut VariablesP,
+        CheckerStateP,
+    ),
     model: &[Lit],
 ) -> Result<(), CheckerError> {
     if ctx.part(CheckerStateP).unsat {
@@ -492,6 +501,7 @@ fn check_model_step<'a>(
     let mut assignments = HashSet::default();
 
     for &lit in model.iter() {
+        ensure_var(ctx.borrow(), lit.var());
         if let Some((false, _)) = ctx.part(ClausesP).lit_value(lit) {
             return Err(CheckerError::check_failed(
                 ctx.part(CheckerStateP).step,
-- 
2.43.0


From d1fd03f063d82bfe633cc1f31ee4b2d9e0173e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 09/23] fix: reject out of range values when parsing proofs

Variables and literals that are too large were truncated, or panicked in debug
builds, and the length of a slice was used to reserve memory unchecked.
---
 varisat-internal-proof/src/binary_format.rs | 60 +++++++++++++++------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/varisat-internal-proof/src/binary_format.rs b/varisat-internal-proof/src/binary_format.rs
index e296468..d3d483c 100644
--- a/varisat-internal-proof/src/binary_format.rs
+++ b/varisat-internal-proof/src/binary_format.rs
@@ -1,5 +1,8 @@
 //! Binary format for varisat proofs.
-use std::io::{self, BufRead, Write};
+use std::{
+    convert::TryFrom,
+    io::{self, BufRead, Write},
+};
 
 use anyhow::Error;
 
@@ -168,32 +171,32 @@ impl Parser {
         let code = read_u64(&mut *source)?;
         match code {
             CODE_SOLVER_VAR_NAME_UPDATE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
-                let solver = Some(Var::from_index(read_u64(&mut *source)? as usize));
+                let global = read_var(&mut *source)?;
+                let solver = Some(read_var(&mut *source)?);
                 Ok(ProofStep::SolverVarName { global, solver })
             }
             CODE_SOLVER_VAR_NAME_REMOVE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
+                let global = read_var(&mut *source)?;
                 Ok(ProofStep::SolverVarName {
                     global,
                     solver: None,
                 })
             }
             CODE_USER_VAR_NAME_UPDATE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
-                let user = Some(Var::from_index(read_u64(&mut *source)? as usize));
+                let global = read_var(&mut *source)?;
+                let user = Some(read_var(&mut *source)?);
                 Ok(ProofStep::UserVarName { global, user })
             }
             CODE_USER_VAR_NAME_REMOVE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
+                let global = read_var(&mut *source)?;
                 Ok(ProofStep::UserVarName { global, user: None })
             }
             CODE_DELETE_VAR => {
-                let var = Var::from_index(read_u64(&mut *source)? as usize);
+                let var = read_var(&mut *source)?;
                 Ok(ProofStep::DeleteVar { var })
             }
             CODE_CHANGE_SAMPLING_MODE_SAMPLE | CODE_CHANGE_SAMPLING_MODE_WITNESS => {
-                let var = Var::from_index(read_u64(&mut *source)? as usize);
+                let var = read_var(&mut *source)?;
                 Ok(ProofStep::ChangeSamplingMode {
                     var,
                     sample: code == CODE_CHANGE_SAMPLING_MODE_SAMPLE,
@@ -236,7 +239,7 @@ impl Parser {
                 })
             }
             CODE_CHANGE_HASH_BITS => {
-                let bits = read_u64(&mut *source)? as u32;
+                let bits = u32::try_from(read_u64(&mut *source)?)?;
                 Ok(ProofStep::ChangeHashBits { bits })
             }
             CODE_MODEL => {
@@ -265,6 +268,29 @@ impl Parser {
     }
 }
 
+/// Limits the memory reserved for a slice before any of its items was read.
+///
+/// The length in a corrupted proof can be arbitrarily large.
+const MAX_RESERVE: usize = 1 << 16;
+
+/// Read a variable from a varisat proof
+fn read_var(source: &mut impl BufRead) -> Result<Var, Error> {
+    let index = read_u64(&mut *source)?;
+    if index > Var::max_var().index() as u64 {
+        anyhow::bail!("variable index {} is too large", index);
+    }
+    Ok(Var::from_index(index as usize))
+}
+
+/// Read a literal from a varisat proof
+fn read_lit(source: &mut impl BufRead) -> Result<Lit, Error> {
+    let code = read_u64(&mut *source)?;
+    if code / 2 > Var::max_var().index() as u64 {
+        anyhow::bail!("literal code {} is too large", code);
+    }
+    Ok(Lit::from_code(code as usize))
+}
+
 /// Writes a slice of literals for a varisat proof
 fn write_literals(target: &mut impl Write, literals: &[Lit]) -> io::Result<()> {
     write_u64(&mut *target, literals.len() as u64)?;
@@ -275,12 +301,12 @@ fn write_literals(target: &mut impl Write, literals: &[Lit]) -> io::Result<()> {
 }
 
 /// Read a slice of literals from a varisat proof
-fn read_literals(source: &mut impl BufRead, literals: &mut Vec<Lit>) -> Result<(), io::Error> {
+fn read_literals(source: &mut impl BufRead, literals: &mut Vec<Lit>) -> Result<(), Error> {
     literals.clear();
     let len = read_u64(&mut *source)? as usize;
-    literals.reserve(len);
+    literals.reserve(len.min(MAX_RESERVE));
     for _ in 0..len {
-        literals.push(Lit::from_code(read_u64(&mut *source)? as usize));
+        literals.push(read_lit(&mut *source)?);
     }
     Ok(())
 }
@@ -298,7 +324,7 @@ fn write_hashes(target: &mut impl Write, hashes: &[ClauseHash]) -> io::Result<()
 fn read_hashes(source: &mut impl BufRead, hashes: &mut Vec<ClauseHash>) -> Result<(), io::Error> {
     hashes.clear();
     let len = read_u64(&mut *source)? as usize;
-    hashes.reserve(len);
+    hashes.reserve(len.min(MAX_RESERVE));
     for _ in 0..len {
         hashes.push(read_u64(&mut *source)? as ClauseHash);
     }
@@ -319,12 +345,12 @@ fn write_unit_clauses(target: &mut impl Write, units: &[(Lit, ClauseHash)]) -> i
 fn read_unit_clauses(
     source: &mut impl BufRead,
     units: &mut Vec<(Lit, ClauseHash)>,
-) -> Result<(), io::Error> {
+) -> Result<(), Error> {
     units.clear();
     let len = read_u64(&mut *source)? as usize;
-    units.reserve(len);
+    units.reserve(len.min(MAX_RESERVE));
     for _ in 0..len {
-        let lit = Lit::from_code(read_u64(&mut *source)? as usize);
+        let lit = read_lit(&mut *source)?;
         let hash = read_u64(&mut *source)? as ClauseHash;
         units.push((lit, hash));
     }
-- 
2.43.0


From 68ee4b2dc906a710da46356c95b6ad3bdf0fcd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 10/23] fix: reject an invalid number of hash bits in proofs

Computing a clause hash with it overflowed.
---
 varisat-checker/src/state.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index d389d0f..ebf0910 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -106,6 +106,12 @@ pub fn check_step<'a>(
         }
         ProofStep::UnitClauses { units } => check_unit_clauses_step(ctx.borrow(), units),
         ProofStep::ChangeHashBits { bits } => {
+            if bits == 0 || bits > ClauseHash::max_value().count_ones() {
+                return Err(CheckerError::check_failed(
+                    ctx.part(CheckerStateP).step,
+                    format!("cannot use {} bits for clause hashes", bits),
+                ));
+            }
             ctx.part_mut(ClauseHasherP).hash_bits = bits;
             rehash(ctx.borrow());
             Ok(())
-- 
2.43.0


From 70529a8c59d613e40fb23bb49ebcb29e5a5a732f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 11/23] fix: check the variables of tautological clauses in the
 checker

They were not introduced, so generating a transcript panicked, and could be
hidden or witness variables.
---
 varisat-checker/src/clauses.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index 06f99f4..1bfc6b3 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -160,7 +160,13 @@ pub fn add_clause<'a>(
 
     let (tmp_data, mut ctx) = ctx.split_part_mut(TmpDataP);
 
-    if copy_canonical(&mut tmp_data.tmp, clause) {
+    let is_tautology = copy_canonical(&mut tmp_data.tmp, clause);
+
+    for &lit in tmp_data.tmp.iter() {
+        ensure_sampling_var(ctx.borrow(), lit.var())?;
+    }
+
+    if is_tautology {
         let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
         process_step(
             ctx.borrow(),
@@ -173,10 +179,6 @@ pub fn add_clause<'a>(
         return Ok(());
     }
 
-    for &lit in tmp_data.tmp.iter() {
-        ensure_sampling_var(ctx.borrow(), lit.var())?;
-    }
-
     let (id, added) = store_clause(ctx.borrow(), &tmp_data.tmp, false);
 
     let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
-- 
2.43.0


From 331f30fe26d515e80d7bf559225adf40d95fb8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 12/23] fix: reject hiding an assumed variable in the checker

The solver never does this and a failed assumption naming the hidden variable
panicked when generating a transcript.
---
 varisat-checker/src/state.rs     |  2 +-
 varisat-checker/src/variables.rs | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index ebf0910..2f5b399 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -43,7 +43,7 @@ pub struct CheckerState {
     /// Last added irredundant clause literals.
     previous_irred_clause_lits: Vec<Lit>,
     /// Current assumptions, used to check FailedAssumptions and Model
-    assumptions: Vec<Lit>,
+    pub assumptions: Vec<Lit>,
 }
 
 impl CheckerState {
diff --git a/varisat-checker/src/variables.rs b/varisat-checker/src/variables.rs
index 51adb1b..1352ac0 100644
--- a/varisat-checker/src/variables.rs
+++ b/varisat-checker/src/variables.rs
@@ -160,6 +160,18 @@ pub fn remove_user_mapping<'a>(
 ) -> Result<(), CheckerError> {
     ensure_var(ctx.borrow(), global_var);
 
+    if ctx
+        .part(CheckerStateP)
+        .assumptions
+        .iter()
+        .any(|lit| lit.var() == global_var)
+    {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("cannot hide assumed variable {:?}", global_var),
+        ));
+    }
+
     let variables = ctx.part_mut(VariablesP);
 
     let var_data = &variables.var_data[global_var.index()];
-- 
2.43.0


From 0a94a372485b34975331ce173bfe7c13585da217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 13/23] fix: reject colliding implicit user variable names in
 the checker

---
 varisat-checker/src/processing.rs | 18 +----------
 varisat-checker/src/variables.rs  | 52 ++++++++++++++++++++++++++++++-
 2 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/varisat-checker/src/processing.rs b/varisat-checker/src/processing.rs
index 038406c..48de932 100644
--- a/varisat-checker/src/processing.rs
+++ b/varisat-checker/src/processing.rs
@@ -7,7 +7,6 @@ use varisat_formula::{Lit, Var};
 use crate::{
     context::{parts::*, Context},
     transcript::{self, ProofTranscriptProcessor},
-    variables::SamplingMode,
     CheckerError,
 };
 
@@ -118,22 +117,7 @@ impl<'a, 'b> CheckerData<'a, 'b> {
     ///
     /// Returns `None` if the proof variable is an internal or hidden variable.
     pub fn user_from_proof_var(self, proof_var: Var) -> Option<Var> {
-        let variables = self.0.part(VariablesP);
-        variables
-            .var_data
-            .get(proof_var.index())
-            .and_then(|var_data| {
-                var_data.user_var.or_else(|| {
-                    // This is needed as yet another workaround to enable independently loading the
-                    // initial formula and proof.
-                    // TODO can this be solved in a better way?
-                    if var_data.sampling_mode == SamplingMode::Sample {
-                        Some(proof_var)
-                    } else {
-                        None
-                    }
-                })
-            })
+        self.0.part(VariablesP).user_from_proof_var(proof_var)
     }
 }
 
diff --git a/varisat-checker/src/variables.rs b/varisat-checker/src/variables.rs
index 1352ac0..6529710 100644
--- a/varisat-checker/src/variables.rs
+++ b/varisat-checker/src/variables.rs
@@ -51,6 +51,29 @@ pub struct Variables {
     used_user_vars: HashSet<Var>,
 }
 
+impl Variables {
+    /// User variable corresponding to a proof variable.
+    ///
+    /// A sampling variable without a user name is known to the user under its own name, unless that
+    /// name belongs to a different variable.
+    pub fn user_from_proof_var(&self, proof_var: Var) -> Option<Var> {
+        self.var_data.get(proof_var.index()).and_then(|var_data| {
+            var_data.user_var.or_else(|| {
+                // This is needed as yet another workaround to enable independently loading the
+                // initial formula and proof.
+                // TODO can this be solved in a better way?
+                if var_data.sampling_mode == SamplingMode::Sample
+                    && !self.used_user_vars.contains(&proof_var)
+                {
+                    Some(proof_var)
+                } else {
+                    None
+                }
+            })
+        })
+    }
+}
+
 /// Check that var is a sampling user var and create new variables as necessary.
 pub fn ensure_sampling_var(
     mut ctx: partial!(Context, mut ClausesP, mut VariablesP, CheckerStateP),
@@ -66,6 +89,13 @@ pub fn ensure_sampling_var(
             format!("variable {:?} is not a sampling variable", var),
         ));
     }
+
+    if variables.user_from_proof_var(var).is_none() {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("user name {:?} used for two different variables", var),
+        ));
+    }
     Ok(())
 }
 
@@ -86,6 +116,19 @@ pub fn ensure_var(mut ctx: partial!(Context, mut ClausesP, mut VariablesP), var:
     }
 }
 
+/// Whether a variable is part of a clause or the current assumptions.
+fn var_in_use(ctx: partial!(Context, ClausesP, VariablesP, CheckerStateP), var: Var) -> bool {
+    [false, true]
+        .iter()
+        .any(|&polarity| ctx.part(VariablesP).lit_data[var.lit(polarity).code()].clause_count > 0)
+        || ctx.part(ClausesP).unit_clauses[var.index()].is_some()
+        || ctx
+            .part(CheckerStateP)
+            .assumptions
+            .iter()
+            .any(|lit| lit.var() == var)
+}
+
 /// Add a user/global var mapping.
 pub fn add_user_mapping<'a>(
     mut ctx: partial!(Context<'a>, mut ClausesP, mut ProcessingP<'a>, mut VariablesP, CheckerStateP),
@@ -94,12 +137,19 @@ pub fn add_user_mapping<'a>(
 ) -> Result<(), CheckerError> {
     ensure_var(ctx.borrow(), global_var);
 
+    // A variable that is used without having a user name is known to the user under its own name.
+    let implicitly_used = user_var != global_var
+        && ctx.part(VariablesP).user_from_proof_var(user_var) == Some(user_var)
+        && var_in_use(ctx.borrow(), user_var);
+
     let mut ctx_in = ctx;
     let (variables, ctx) = ctx_in.split_part_mut(VariablesP);
 
     // TODO will the first check cause problems when observing solver added variables?
     // That check is required for the workaround in CheckerData's user from proof method
-    if user_var.index() >= variables.var_data.len() || variables.used_user_vars.contains(&user_var)
+    if user_var.index() >= variables.var_data.len()
+        || variables.used_user_vars.contains(&user_var)
+        || implicitly_used
     {
         return Err(CheckerError::check_failed(
             ctx.part(CheckerStateP).step,
-- 
2.43.0


From 63b32774a26cd1f8a6efa44b9301c0403d4ddc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 14/23] fix: process unit conflicts before deleting their
 variable in the checker

---
 varisat-checker/src/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 2f5b399..86d3c6c 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -190,6 +190,9 @@ fn check_delete_var_step<'a>(
         }
     }
 
+    // A pending conflict of unit clauses might refer to the clause deleted below.
+    process_unit_conflicts(ctx.borrow())?;
+
     if let Some(unit_clause) = ctx.part(ClausesP).unit_clauses[var.index()] {
         let clause = [var.lit(unit_clause.value)];
 
-- 
2.43.0


From edc800eb6b9ce1cd88b502724aff48aa0091a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 15/23] fix: reject changing the sampling mode of an assumed
 variable in the checker

---
 varisat-checker/src/state.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 86d3c6c..146dc57 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -232,6 +232,17 @@ fn check_change_sampling_mode<'a>(
     sample: bool,
 ) -> Result<(), CheckerError> {
     ensure_var(ctx.borrow(), var);
+    if ctx
+        .part(CheckerStateP)
+        .assumptions
+        .iter()
+        .any(|lit| lit.var() == var)
+    {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("cannot change sampling mode of assumed variable {:?}", var),
+        ));
+    }
     let mut ctx_in = ctx;
     let (variables, ctx) = ctx_in.split_part_mut(VariablesP);
     let var_data = &mut variables.var_data[var.index()];
-- 
2.43.0


From 825e56f3a1e3d7000e3588a50a5f662ece930d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 16/23] fix: refuse to start proofs once variables are in use

Assumptions, mode changes and hidden variables from before a proof or
self checking was requested never reached the proof: self checking
panicked on a permitted session and native proofs were rejected.
---
 varisat/src/variables.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varisat/src/variables.rs b/varisat/src/variables.rs
index ec99743..2fd4c98 100644
--- a/varisat/src/variables.rs
+++ b/varisat/src/variables.rs
@@ -255,6 +255,9 @@ pub fn global_from_user<'a>(
             variables.global_freelist.remove(&global);
             variables.user_freelist.remove(&user);
 
+            // A proof started from here on would miss this variable and everything done with it.
+            ctx.part_mut(SolverStateP).formula_is_empty = false;
+
             proof::add_step(
                 ctx.borrow(),
                 false,
-- 
2.43.0


From 1abbd467088677ddf64dc47501f8a1cb70e61921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 17/23] fix: keep clause ids in input order after a conflict

---
 varisat-checker/src/clauses.rs  |  2 ++
 varisat-checker/src/internal.rs |  7 +++++++
 varisat/src/load.rs             |  5 ++++-
 varisat/src/proof.rs            | 11 +++++++++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index 1bfc6b3..6e06f75 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -155,6 +155,8 @@ pub fn add_clause<'a>(
     clause: &[Lit],
 ) -> Result<(), CheckerError> {
     if ctx.part(CheckerStateP).unsat {
+        // The clause is not needed anymore, but the clause ids still have to match the input order.
+        ctx.part_mut(ClausesP).next_clause_id += 1;
         return Ok(());
     }
 
diff --git a/varisat-checker/src/internal.rs b/varisat-checker/src/internal.rs
index 5c13f0a..8b6d9cc 100644
--- a/varisat-checker/src/internal.rs
+++ b/varisat-checker/src/internal.rs
@@ -17,6 +17,9 @@ pub trait SelfChecker {
     fn self_check_step(&mut self, step: ProofStep) -> Result<(), CheckerError>;
 
     fn self_check_delayed_steps(&mut self) -> Result<(), CheckerError>;
+
+    /// Skip the clause id of an input clause that is ignored by the solver.
+    fn skip_clause_id(&mut self);
 }
 
 impl<'a> SelfChecker for Checker<'a> {
@@ -30,4 +33,8 @@ impl<'a> SelfChecker for Checker<'a> {
         let mut ctx = self.ctx.into_partial_ref_mut();
         process_unit_conflicts(ctx.borrow())
     }
+
+    fn skip_clause_id(&mut self) {
+        self.ctx.clauses.next_clause_id += 1;
+    }
 }
diff --git a/varisat/src/load.rs b/varisat/src/load.rs
index 43415db..4b09df6 100644
--- a/varisat/src/load.rs
+++ b/varisat/src/load.rs
@@ -44,7 +44,10 @@ pub fn load_clause<'a>(
     user_lits: &[Lit],
 ) {
     match ctx.part(SolverStateP).sat_state {
-        SatState::Unsat => return,
+        SatState::Unsat => {
+            proof::skip_clause(ctx.borrow());
+            return;
+        }
         SatState::Sat => {
             ctx.part_mut(SolverStateP).sat_state = SatState::Unknown;
         }
diff --git a/varisat/src/proof.rs b/varisat/src/proof.rs
index 65aeb56..67a5f8f 100644
--- a/varisat/src/proof.rs
+++ b/varisat/src/proof.rs
@@ -155,6 +155,17 @@ pub fn add_clause<'a>(
     }
 }
 
+/// Call when ignoring an external clause as the formula is already known to be unsatisfiable.
+///
+/// This keeps the clause ids of the on the fly checker in sync with the input order.
+pub fn skip_clause<'a>(mut ctx: partial!(Context<'a>, mut ProofP<'a>, SolverStateP)) {
+    if !ctx.part(SolverStateP).solver_invoked {
+        if let Some(checker) = &mut ctx.part_mut(ProofP).checker {
+            checker.skip_clause_id();
+        }
+    }
+}
+
 /// Add a step to the proof.
 ///
 /// Ignored when proof generation is disabled.
-- 
2.43.0


From 4c6d317f8c9c2cd8911c04ea257c580cfc9d472f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 18/23] fix: reject DIMACS input that ends after a minus sign

---
 varisat-dimacs/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/varisat-dimacs/src/lib.rs b/varisat-dimacs/src/lib.rs
index dc56230..c852694 100644
--- a/varisat-dimacs/src/lib.rs
+++ b/varisat-dimacs/src/lib.rs
@@ -242,9 +242,12 @@ impl DimacsParser {
             self.parse_header_line()?;
         }
 
+        // A minus sign without a number starts a literal that never ends
+        let incomplete_literal = self.negate_next_lit && !self.in_lit;
+
         self.finish_literal();
 
-        if !self.partial_clause.is_empty() {
+        if !self.partial_clause.is_empty() || incomplete_literal {
             return Err(ParserError::UnterminatedClause {
                 line: self.line_number,
             });
-- 
2.43.0


From dfe670ee9c7a25326b34a02108b367eaedb05311 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 19/23] fix: name the right line in errors found at the end of
 a line of DIMACS input

---
 varisat-dimacs/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/varisat-dimacs/src/lib.rs b/varisat-dimacs/src/lib.rs
index c852694..0011e9f 100644
--- a/varisat-dimacs/src/lib.rs
+++ b/varisat-dimacs/src/lib.rs
@@ -158,9 +158,6 @@ impl DimacsParser {
             return Err(ParserError::PreviousError);
         }
         for &byte in chunk.iter() {
-            if byte == b'\n' {
-                self.line_number += 1;
-            }
             match byte {
                 b'\n' | b'\r' if self.in_comment_or_header => {
                     if self.in_header {
@@ -228,6 +225,10 @@ impl DimacsParser {
                     });
                 }
             }
+            // Only now, as errors found at the end of a line are about that line
+            if byte == b'\n' {
+                self.line_number += 1;
+            }
         }
 
         Ok(())
-- 
2.43.0


From 9805ade3abbbbc6d83d75ec8baaf64173adadce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 20/23] fix: do not answer when the proof asked for could not
 be written

---
 varisat-cli/src/main.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/varisat-cli/src/main.rs b/varisat-cli/src/main.rs
index 8791121..d235aff 100644
--- a/varisat-cli/src/main.rs
+++ b/varisat-cli/src/main.rs
@@ -119,7 +119,7 @@ fn main_with_err() -> Result<i32, Error> {
         config_update.merge(toml::from_str(&config_option)?);
     }
 
-    let mut lrat_processor;
+    let mut lrat_processor = None;
 
     let mut solver = Solver::new();
 
@@ -154,9 +154,11 @@ fn main_with_err() -> Result<i32, Error> {
             "binary-drat" => Some(ProofFormat::BinaryDrat),
             "varisat" => Some(ProofFormat::Varisat),
             "lrat" | "clrat" => {
-                lrat_processor =
-                    WriteLrat::new(fs::File::create(path)?, proof_format_str == "clrat");
-                solver.add_proof_processor(&mut lrat_processor);
+                let processor = lrat_processor.get_or_insert(WriteLrat::new(
+                    fs::File::create(path)?,
+                    proof_format_str == "clrat",
+                ));
+                solver.add_proof_processor(processor);
                 None
             }
             _ => unreachable!(),
@@ -175,11 +177,31 @@ fn main_with_err() -> Result<i32, Error> {
 
     solver.add_dimacs_cnf(file)?;
 
-    match solver.solve() {
+    let mut result = solver.solve().map_err(Error::from);
+    let model = solver.model();
+
+    // Finish writing the proof before giving an answer, so that a proof that cannot be written is
+    // noticed
+    if result.is_ok() {
+        if let Err(err) = solver.close_proof() {
+            result = Err(err.into());
+        }
+    }
+    drop(solver);
+
+    if result.is_ok() {
+        if let Some(mut processor) = lrat_processor {
+            if let Err(err) = processor.flush() {
+                result = Err(err);
+            }
+        }
+    }
+
+    match result {
         Ok(true) => {
             println!("s SATISFIABLE");
             print!("v");
-            for l in solver.model().unwrap() {
+            for l in model.unwrap() {
                 print!(" {}", l);
             }
             println!(" 0");
-- 
2.43.0


From 46a66cd0d03e19f0f1f231be3c9c5c9850038980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 21/23] fix: do not report a proof as verified when LRAT output
 could not be written

---
 varisat-cli/src/check.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/varisat-cli/src/check.rs b/varisat-cli/src/check.rs
index ce5a45e..9dd59cc 100644
--- a/varisat-cli/src/check.rs
+++ b/varisat-cli/src/check.rs
@@ -48,18 +48,20 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
 
     checker.add_transcript(&mut transcript);
 
-    let mut lrat_processor;
+    let mut lrat_processor = None;
 
     if let Some(lrat_path) = matches.value_of("lrat-file") {
-        lrat_processor = WriteLrat::new(fs::File::create(lrat_path)?, false);
-        checker.add_processor(&mut lrat_processor);
+        lrat_processor = Some(WriteLrat::new(fs::File::create(lrat_path)?, false));
     }
 
-    let mut clrat_processor;
+    let mut clrat_processor = None;
 
     if let Some(clrat_path) = matches.value_of("clrat-file") {
-        clrat_processor = WriteLrat::new(fs::File::create(clrat_path)?, true);
-        checker.add_processor(&mut clrat_processor);
+        clrat_processor = Some(WriteLrat::new(fs::File::create(clrat_path)?, true));
+    }
+
+    for processor in lrat_processor.iter_mut().chain(clrat_processor.iter_mut()) {
+        checker.add_processor(processor);
     }
 
     checker.add_dimacs_cnf(file)?;
@@ -69,7 +71,13 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
     log::info!("Checking proof file '{}'", path);
 
     match checker.check_proof(fs::File::open(path)?) {
-        Ok(()) => println!("s VERIFIED"),
+        Ok(()) => {
+            // Only report success when everything requested was written
+            for processor in lrat_processor.iter_mut().chain(clrat_processor.iter_mut()) {
+                processor.flush()?;
+            }
+            println!("s VERIFIED")
+        }
         Err(err) => {
             log::error!("{}", err);
             if let CheckerError::CheckFailed { debug_step, .. } = err {
-- 
2.43.0


From 4033eb076634ede1a93225663f0d9093dc4d5191 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 22/23] fix: do not underflow when counting the remaining
 variables for progress output

---
 varisat/src/prop/assignment.rs | 12 ------------
 varisat/src/schedule.rs        | 21 +++++++++++++++++++--
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/varisat/src/prop/assignment.rs b/varisat/src/prop/assignment.rs
index a87f604..ebf36e4 100644
--- a/varisat/src/prop/assignment.rs
+++ b/varisat/src/prop/assignment.rs
@@ -87,8 +87,6 @@ pub struct Trail {
     queue_head_pos: usize,
     /// Decision levels as trail indices.
     decisions: Vec<LitIdx>,
-    /// Number of unit clauses removed from the trail.
-    units_removed: usize,
 }
 
 impl Trail {
@@ -122,7 +120,6 @@ impl Trail {
     /// no active decisions.
     pub fn clear(&mut self) {
         assert!(self.decisions.is_empty());
-        self.units_removed += self.trail.len();
         self.trail.clear();
         self.queue_head_pos = 0;
     }
@@ -139,15 +136,6 @@ impl Trail {
         self.decisions.len()
     }
 
-    /// The number of assignments at level 0.
-    pub fn top_level_assignment_count(&self) -> usize {
-        self.decisions
-            .get(0)
-            .map(|&len| len as usize)
-            .unwrap_or(self.trail.len())
-            + self.units_removed
-    }
-
     /// Whether all assignments are processed.
     pub fn fully_propagated(&self) -> bool {
         self.queue_head_pos == self.trail.len()
diff --git a/varisat/src/schedule.rs b/varisat/src/schedule.rs
index 1e1b04e..5d891e2 100644
--- a/varisat/src/schedule.rs
+++ b/varisat/src/schedule.rs
@@ -5,6 +5,8 @@ use log::info;
 
 use partial_ref::{partial, PartialRef};
 
+use varisat_formula::Var;
+
 use crate::{
     cdcl::conflict_step,
     clause::{
@@ -65,12 +67,27 @@ pub fn schedule_step<'a>(
     } else {
         if schedule.conflicts > 0 && schedule.conflicts % 5000 == 0 {
             let db = ctx.part(ClauseDbP);
-            let units = ctx.part(TrailP).top_level_assignment_count();
+            let impl_graph = ctx.part(ImplGraphP);
+            let variables = ctx.part(VariablesP);
+            // Solver variables are recycled, so this cannot be computed from the number of units
+            // found so far.
+            let vars = ctx
+                .part(AssignmentP)
+                .assignment()
+                .iter()
+                .enumerate()
+                .map(|(index, value)| (Var::from_index(index), value))
+                .filter(|&(var, value)| {
+                    variables.solver_var_present(var)
+                        && (value.is_none()
+                            || impl_graph.level(var) > 0 && !impl_graph.is_removed_unit(var))
+                })
+                .count();
             info!(
                 "confl: {}k rest: {} vars: {} bin: {} irred: {} core: {} mid: {} local: {}",
                 schedule.conflicts / 1000,
                 schedule.restarts,
-                ctx.part(AssignmentP).assignment().len() - units,
+                vars,
                 ctx.part(BinaryClausesP).count(),
                 db.count_by_tier(Tier::Irred),
                 db.count_by_tier(Tier::Core),
-- 
2.43.0


From 3a68a80261fee13cbc1cabd8425ede7c9c079aac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:56:14 +0000
Subject: [PATCH 23/23] fix: do not let a proof take away the name of a
 variable the user knows by its number

---
 varisat-checker/src/state.rs     | 10 ++++++++--
 varisat-checker/src/variables.rs | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 146dc57..4dee60f 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -21,8 +21,8 @@ use crate::{
     rup::check_clause_with_hashes,
     sorted_lits::{copy_canonical, is_subset},
     variables::{
-        add_user_mapping, ensure_sampling_var, ensure_var, remove_user_mapping, SamplingMode,
-        VarData,
+        add_user_mapping, ensure_sampling_var, ensure_var, implicitly_named, remove_user_mapping,
+        SamplingMode, VarData,
     },
     CheckerError,
 };
@@ -243,6 +243,12 @@ fn check_change_sampling_mode<'a>(
             format!("cannot change sampling mode of assumed variable {:?}", var),
         ));
     }
+    if !sample && implicitly_named(ctx.borrow(), var) {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("cannot change sampling mode of unnamed variable {:?}", var),
+        ));
+    }
     let mut ctx_in = ctx;
     let (variables, ctx) = ctx_in.split_part_mut(VariablesP);
     let var_data = &mut variables.var_data[var.index()];
diff --git a/varisat-checker/src/variables.rs b/varisat-checker/src/variables.rs
index 6529710..51b9efe 100644
--- a/varisat-checker/src/variables.rs
+++ b/varisat-checker/src/variables.rs
@@ -129,6 +129,19 @@ fn var_in_use(ctx: partial!(Context, ClausesP, VariablesP, CheckerStateP), var:
             .any(|lit| lit.var() == var)
 }
 
+/// Whether a variable without a user name is known to the user under its own name.
+///
+/// That is the case as soon as it is part of a clause or assumption.
+pub fn implicitly_named(
+    ctx: partial!(Context, ClausesP, VariablesP, CheckerStateP),
+    var: Var,
+) -> bool {
+    let variables = ctx.part(VariablesP);
+    variables.user_from_proof_var(var) == Some(var)
+        && variables.var_data[var.index()].user_var.is_none()
+        && var_in_use(ctx, var)
+}
+
 /// Add a user/global var mapping.
 pub fn add_user_mapping<'a>(
     mut ctx: partial!(Context<'a>, mut ClausesP, mut ProcessingP<'a>, mut VariablesP, CheckerStateP),
@@ -138,9 +151,8 @@ pub fn add_user_mapping<'a>(
     ensure_var(ctx.borrow(), global_var);
 
     // A variable that is used without having a user name is known to the user under its own name.
-    let implicitly_used = user_var != global_var
-        && ctx.part(VariablesP).user_from_proof_var(user_var) == Some(user_var)
-        && var_in_use(ctx.borrow(), user_var);
+    let implicitly_used = user_var != global_var && implicitly_named(ctx.borrow(), user_var);
+    let renamed = user_var != global_var && implicitly_named(ctx.borrow(), global_var);
 
     let mut ctx_in = ctx;
     let (variables, ctx) = ctx_in.split_part_mut(VariablesP);
@@ -171,7 +183,7 @@ pub fn add_user_mapping<'a>(
         ));
     }
 
-    if var_data.user_var.is_some() {
+    if var_data.user_var.is_some() || renamed {
         return Err(CheckerError::check_failed(
             ctx.part(CheckerStateP).step,
             format!("change of user name for in use varible {:?}", global_var),
-- 
2.43.0

