From c2e50a33c56419bbed88577afbb06a24adcbce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:49 +0000
Subject: [PATCH 01/13] fix: make rule-based optimization independent of hash
 map iteration order

Rules fire in the order in which the rule engine iterates its hash tables. That
order decides the IDs of the expressions and variables they create, so in a
block with several comparisons the columns of the resulting machine could be
numbered differently from run to run. Feed the engine sorted facts and give it
a hasher with fixed keys.
---
 .../src/rule_based_optimizer/driver.rs            | 15 +++++++++++----
 .../src/rule_based_optimizer/environment.rs       |  6 +++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/constraint-solver/src/rule_based_optimizer/driver.rs b/constraint-solver/src/rule_based_optimizer/driver.rs
index ef2975e..4b50cc7 100644
--- a/constraint-solver/src/rule_based_optimizer/driver.rs
+++ b/constraint-solver/src/rule_based_optimizer/driver.rs
@@ -1,6 +1,7 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::hash_map::DefaultHasher;
+use std::collections::{BTreeSet, HashMap, HashSet};
 use std::fmt::Display;
-use std::hash::Hash;
+use std::hash::{BuildHasherDefault, Hash};
 
 use itertools::Itertools;
 use powdr_number::FieldElement;
@@ -82,7 +83,7 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
             .collect::<HashSet<_>>()
             .difference(&duplicate_vars)
             .copied()
-            .collect::<HashSet<_>>();
+            .collect::<BTreeSet<_>>();
 
         // Create the "environment" singleton that can be used by the rules
         // to query information from the outside world.
@@ -128,11 +129,13 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
                 .into_grouping_map()
                 .reduce(|rc1, _, rc2| rc1.conjunction(&rc2))
                 .into_iter()
+                .sorted_by_key(|(e, _)| *e)
                 .map(|(e, rc)| rules::InitialRangeConstraintOnExpression(e, rc)),
         );
         rt.extend(
             range_constraints_on_vars
                 .iter()
+                .sorted_by_key(|(var, _)| **var)
                 .map(|(var, rc)| rules::RangeConstraintOnVar(*var, *rc)),
         );
         rt.extend(
@@ -147,7 +150,11 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
         // rules.
         // let ((actions, large_actions), profile) = rt.run_with_profiling();
         // profile.report();
-        let (actions, large_actions) = rt.run();
+        // The order in which the rules fire determines the IDs of the expressions they
+        // create and thus the order of the actions below. We use sorted inputs and a hasher
+        // with fixed keys so that it is the same on every run.
+        let (actions, large_actions) =
+            rt.run_with_hasher::<BuildHasherDefault<DefaultHasher>>();
         let (expr_db_, new_var_generator) = env.terminate();
 
         let mut progress = false;
diff --git a/constraint-solver/src/rule_based_optimizer/environment.rs b/constraint-solver/src/rule_based_optimizer/environment.rs
index 660cb78..6fe6492 100644
--- a/constraint-solver/src/rule_based_optimizer/environment.rs
+++ b/constraint-solver/src/rule_based_optimizer/environment.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::{BTreeSet, HashMap},
     hash::Hash,
 };
 
@@ -29,7 +29,7 @@ pub struct Environment<T: FieldElement> {
 
     /// Variables that only occurr once in the system
     /// (also only once in the constraint they occur in).
-    single_occurrence_variables: HashSet<Var>,
+    single_occurrence_variables: BTreeSet<Var>,
     new_var_generator: RefCell<NewVarGenerator<T>>,
 }
 
@@ -67,7 +67,7 @@ impl<T: FieldElement> Environment<T> {
     pub fn new(
         expressions: ItemDB<GroupedExpression<T, Var>, Expr>,
         var_to_string: HashMap<Var, String>,
-        single_occurrence_variables: HashSet<Var>,
+        single_occurrence_variables: BTreeSet<Var>,
         new_var_generator: NewVarGenerator<T>,
     ) -> Self {
         Self {
-- 
2.43.0


From 76260bee6609c7124c5fd05ab407dd0470ca7c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:46 +0000
Subject: [PATCH 02/13] fix: rank blocks by instruction PGO value without
 32-bit overflow

---
 autoprecompiles/src/pgo/instruction.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/autoprecompiles/src/pgo/instruction.rs b/autoprecompiles/src/pgo/instruction.rs
index 2923c38..b86a3ad 100644
--- a/autoprecompiles/src/pgo/instruction.rs
+++ b/autoprecompiles/src/pgo/instruction.rs
@@ -48,14 +48,17 @@ impl<A: Adapter> PgoAdapter for InstructionPgo<A> {
             .into_iter()
             // sort by frequency * number of instructions in the block, descending
             .sorted_by_key(|block_and_stats| {
-                Reverse(block_and_stats.count * block_and_stats.block.instructions().count() as u32)
+                Reverse(
+                    block_and_stats.count as u64
+                        * block_and_stats.block.instructions().count() as u64,
+                )
             })
             .map(|block_and_stats| {
                 let block = block_and_stats.block;
                 assert!(block.is_basic_block(), "Instruction PGO does not support superblocks");
                 let frequency = block_and_stats.count;
                 let number_of_instructions = block.instructions().count();
-                let value = frequency * number_of_instructions as u32;
+                let value = frequency as u64 * number_of_instructions as u64;
 
                 tracing::debug!(
                     "Basic block start_pc: {}, value: {}, frequency: {}, number_of_instructions: {}",
-- 
2.43.0


From d37474d50a7423e64e3249b5ca4977c9ab6ad691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:27 +0000
Subject: [PATCH 03/13] fix: keep column indices when empirical constraints are
 filtered repeatedly

---
 autoprecompiles/src/empirical_constraints.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/autoprecompiles/src/empirical_constraints.rs b/autoprecompiles/src/empirical_constraints.rs
index 7fc8d54..8526a03 100644
--- a/autoprecompiles/src/empirical_constraints.rs
+++ b/autoprecompiles/src/empirical_constraints.rs
@@ -183,13 +183,11 @@ impl BlockEmpiricalConstraints {
                     .collect_vec();
                 let ranges = ranges
                     .into_iter()
-                    .enumerate()
-                    .filter_map(|(col_idx, range)| {
+                    .filter(|(col_idx, _)| {
                         // check that the predicate holds in all matching instructions
                         pc_instruction_indices
                             .iter()
-                            .all(|idx| predicate(&BlockCell::new(*idx, col_idx)))
-                            .then_some(range)
+                            .all(|idx| predicate(&BlockCell::new(*idx, *col_idx)))
                     })
                     .collect();
                 (pc, ranges)
-- 
2.43.0


From b8361ef974213de88f5538e80331eb78034a71dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:40 +0000
Subject: [PATCH 04/13] fix: do not panic when an export level is set without
 an export path

---
 autoprecompiles/src/export.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/autoprecompiles/src/export.rs b/autoprecompiles/src/export.rs
index 775e576..32b1697 100644
--- a/autoprecompiles/src/export.rs
+++ b/autoprecompiles/src/export.rs
@@ -112,7 +112,9 @@ impl ExportOptions {
 
     pub fn export_optimizer_outer(&mut self, data: &impl serde::Serialize, suffix: &str) {
         match self.level {
-            ExportLevel::APCAndOptimizerLoop | ExportLevel::APCAndOptimizerSteps => {
+            ExportLevel::APCAndOptimizerLoop | ExportLevel::APCAndOptimizerSteps
+                if self.export_requested() =>
+            {
                 self.write_to_next_file(data, Some(suffix));
             }
             _ => {}
@@ -125,7 +127,9 @@ impl ExportOptions {
         suffix: &str,
     ) {
         match self.level {
-            ExportLevel::APCAndOptimizerLoop | ExportLevel::APCAndOptimizerSteps => {
+            ExportLevel::APCAndOptimizerLoop | ExportLevel::APCAndOptimizerSteps
+                if self.export_requested() =>
+            {
                 let machine = constraint_system_to_symbolic_machine(constraint_system.clone());
                 self.write_to_next_file(&machine, Some(suffix));
             }
@@ -134,8 +138,11 @@ impl ExportOptions {
     }
 
     pub fn export_optimizer_inner(&mut self, data: &impl serde::Serialize, suffix: &str) {
-        if let ExportLevel::APCAndOptimizerSteps = self.level {
-            self.write_to_next_file(data, Some(suffix));
+        match self.level {
+            ExportLevel::APCAndOptimizerSteps if self.export_requested() => {
+                self.write_to_next_file(data, Some(suffix));
+            }
+            _ => {}
         }
     }
 
@@ -147,8 +154,11 @@ impl ExportOptions {
         T: FieldElement,
         V: Ord + Clone + serde::Serialize,
     {
-        if let ExportLevel::APCAndOptimizerSteps = self.level {
-            self.write_to_next_file(&constraint_system, Some(suffix));
+        match self.level {
+            ExportLevel::APCAndOptimizerSteps if self.export_requested() => {
+                self.write_to_next_file(&constraint_system, Some(suffix));
+            }
+            _ => {}
         }
     }
 
-- 
2.43.0


From d914b45f04235a930e9a2229c3f38219306548bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:08 +0000
Subject: [PATCH 05/13] fix: report a failed write of the APC candidates file

---
 autoprecompiles/src/pgo/cell/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/autoprecompiles/src/pgo/cell/mod.rs b/autoprecompiles/src/pgo/cell/mod.rs
index 4a0f9d7..e04b234 100644
--- a/autoprecompiles/src/pgo/cell/mod.rs
+++ b/autoprecompiles/src/pgo/cell/mod.rs
@@ -1,4 +1,7 @@
-use std::{collections::BTreeMap, io::BufWriter};
+use std::{
+    collections::BTreeMap,
+    io::{BufWriter, Write},
+};
 
 use itertools::Itertools;
 use rayon::iter::{IntoParallelIterator, ParallelIterator};
@@ -153,7 +156,11 @@ impl<A: Adapter + Send + Sync, C: ApcCandidate<A> + Send + Sync> PgoAdapter for
             let json_path = apc_candidates_dir_path.join("apc_candidates.json");
             let file = std::fs::File::create(&json_path)
                 .expect("Failed to create file for APC candidates JSON");
-            serde_json::to_writer(BufWriter::new(file), &json)
+            let mut writer = BufWriter::new(file);
+            serde_json::to_writer(&mut writer, &json)
+                .expect("Failed to write APC candidates JSON to file");
+            writer
+                .flush()
                 .expect("Failed to write APC candidates JSON to file");
         }
 
-- 
2.43.0


From 9ae631f5fe8fd45d0f3539fd10ec8010ac543304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:11 +0000
Subject: [PATCH 06/13] fix: do not merge product constraints based on ranges
 that only follow from the merged constraints

---
 .../src/rule_based_optimizer/driver.rs        | 39 ++++++++++++++++++-
 .../src/rule_based_optimizer/rules.rs         | 26 ++++++++++++-
 2 files changed, 62 insertions(+), 3 deletions(-)

diff --git a/constraint-solver/src/rule_based_optimizer/driver.rs b/constraint-solver/src/rule_based_optimizer/driver.rs
index 4b50cc7..2a114de 100644
--- a/constraint-solver/src/rule_based_optimizer/driver.rs
+++ b/constraint-solver/src/rule_based_optimizer/driver.rs
@@ -6,6 +6,7 @@ use std::hash::{BuildHasherDefault, Hash};
 use itertools::Itertools;
 use powdr_number::FieldElement;
 
+use crate::effect::Effect;
 use crate::range_constraint::RangeConstraint;
 use crate::rule_based_optimizer::new_var_generator::NewVarRequest;
 use crate::{
@@ -13,7 +14,7 @@ use crate::{
     constraint_system::{
         BusInteraction, BusInteractionHandler, ComputationMethod, ConstraintSystem, DerivedVariable,
     },
-    grouped_expression::{GroupedExpression, RangeConstraintProvider},
+    grouped_expression::{GroupedExpression, NoRangeConstraints, RangeConstraintProvider},
     indexed_constraint_system::IndexedConstraintSystem,
     inliner::DegreeBound,
     rule_based_optimizer::{
@@ -138,6 +139,13 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
                 .sorted_by_key(|(var, _)| **var)
                 .map(|(var, rc)| rules::RangeConstraintOnVar(*var, *rc)),
         );
+        rt.extend(
+            independent_range_constraints(&system, &bus_interaction_handler)
+                .into_iter()
+                .map(|(v, rc)| (var_mapper.id(&v), rc))
+                .sorted_by_key(|(var, _)| *var)
+                .map(|(var, rc)| rules::IndependentRangeConstraintOnVar(var, rc)),
+        );
         rt.extend(
             algebraic_constraints
                 .iter()
@@ -255,6 +263,35 @@ pub fn rule_based_optimization<T: FieldElement, V: Hash + Eq + Ord + Clone + Dis
     (system, assignments)
 }
 
+/// Computes range constraints on variables that follow from the bus interactions or from algebraic
+/// constraints with just a single variable. In contrast to the range constraints determined
+/// by the solver, they still hold if other algebraic constraints are removed from the system.
+fn independent_range_constraints<T: FieldElement, V: Hash + Eq + Ord + Clone + Display>(
+    system: &IndexedConstraintSystem<T, V>,
+    bus_interaction_handler: &impl BusInteractionHandler<T>,
+) -> HashMap<V, RangeConstraint<T>> {
+    let from_bus_interactions = system
+        .bus_interactions()
+        .iter()
+        .filter_map(|b| b.solve(bus_interaction_handler, &NoRangeConstraints).ok())
+        .flatten();
+    let from_algebraic_constraints = system
+        .algebraic_constraints()
+        .iter()
+        .filter(|c| c.referenced_unknown_variables().all_equal())
+        .filter_map(|c| c.as_ref().solve(&NoRangeConstraints).ok())
+        .flat_map(|result| result.effects);
+    from_bus_interactions
+        .chain(from_algebraic_constraints)
+        .filter_map(|effect| match effect {
+            Effect::RangeConstraint(v, rc) => Some((v, rc)),
+            Effect::Assignment(v, value) => Some((v, RangeConstraint::from_value(value))),
+            _ => None,
+        })
+        .into_grouping_map()
+        .reduce(|rc1, _, rc2| rc1.conjunction(&rc2))
+}
+
 /// Mainly transforms a `GroupedExpression<T, Var>` back into a `GroupedExpression<T, V>`, but also re-creates
 /// any variables that were newly generated inside the expression and adds potential computation methods
 /// to the constraint system.
diff --git a/constraint-solver/src/rule_based_optimizer/rules.rs b/constraint-solver/src/rule_based_optimizer/rules.rs
index b4a0752..5b0e22d 100644
--- a/constraint-solver/src/rule_based_optimizer/rules.rs
+++ b/constraint-solver/src/rule_based_optimizer/rules.rs
@@ -58,6 +58,11 @@ crepe! {
     @input
     pub struct RangeConstraintOnVar<T: FieldElement>(pub Var, pub RangeConstraint<T>);
 
+    // IndependentRangeConstraintOnVar(v, rc) => rc follows from bus interactions or from
+    // algebraic constraints that contain no variable but v.
+    @input
+    pub struct IndependentRangeConstraintOnVar<T: FieldElement>(pub Var, pub RangeConstraint<T>);
+
     struct AlgebraicConstraint(Expr);
     AlgebraicConstraint(e) <- InitialAlgebraicConstraint(e);
 
@@ -538,18 +543,35 @@ crepe! {
 
     //////////////// COMBINE CONSTRAINTS WITH NON-NEGATIVE FACTORS /////////////////////
 
+    // IndependentRangeConstraintOnExpression(e, rc) => rc follows from bus interactions or
+    // from algebraic constraints that contain only a single variable.
+    struct IndependentRangeConstraintOnExpression<T: FieldElement>(Expr, RangeConstraint<T>);
+    IndependentRangeConstraintOnExpression(e, v_rc.multiple(coeff)) <-
+      LinearExpression(e, v, coeff),
+      IndependentRangeConstraintOnVar(v, v_rc);
+    IndependentRangeConstraintOnExpression(e, head_rc.combine_sum(&tail_rc)) <-
+      ExpressionSumHeadTail(e, head, tail),
+      IndependentRangeConstraintOnExpression(head, head_rc),
+      IndependentRangeConstraintOnExpression(tail, tail_rc);
+    IndependentRangeConstraintOnExpression(e, RangeConstraint::from_value(value)) <-
+      Constant(e, value);
+
     // If we have `x * a = 0` and `x * b = 0` and `a` and `b` are
     // both non-negative and their sum is constrained, then we can replace
     // both constraints by `x * (a + b) = 0`.
+    // Since both constraints are removed, the range constraints on `a` and `b` must not
+    // depend on them. Because of that, we only use independent range constraints and do
+    // not replace constraints that contain only a single variable.
     ReplaceAlgebraicConstraintsBy(extend_by_none([e1, e2]), replacement) <-
       Env(env),
       ProductConstraint(e1, x, a),
       ProductConstraint(e2, x, b),
       (e1 < e2),
-      RangeConstraintOnExpression(a, rc_a),
-      RangeConstraintOnExpression(b, rc_b),
+      IndependentRangeConstraintOnExpression(a, rc_a),
+      IndependentRangeConstraintOnExpression(b, rc_b),
       (rc_a.range().0 == T::zero()
         && rc_b.range().0 == T::zero() && !rc_a.combine_sum(&rc_b).is_unconstrained()),
+      ({[e1, e2].into_iter().all(|e| env.on_expr(e, (), |e, _| e.referenced_unknown_variables().unique().count() > 1))}),
       let replacement = extend_by_none([env.insert_owned(env.extract(x) * (env.extract(a) + env.extract(b)))]);
 
     //////////////////////// AFFINE SOLVING //////////////////////////
-- 
2.43.0


From 950dace395ca3bba3ce46b9b70b33c180b83819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:34 +0000
Subject: [PATCH 07/13] fix: bitwise lookup handler does not panic on operands
 that are not bytes

---
 .../src/bitwise_lookup.rs                       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/openvm-bus-interaction-handler/src/bitwise_lookup.rs b/openvm-bus-interaction-handler/src/bitwise_lookup.rs
index f957f63..3020c83 100644
--- a/openvm-bus-interaction-handler/src/bitwise_lookup.rs
+++ b/openvm-bus-interaction-handler/src/bitwise_lookup.rs
@@ -30,11 +30,15 @@ pub fn handle_bitwise_lookup<T: FieldElement>(
         ],
         // z = x ^ y
         Some(1) => {
-            if let (Some(x), Some(y)) = (x.try_to_single_value(), y.try_to_single_value()) {
+            // The values might be outside of the byte range for an unsatisfiable interaction.
+            let as_byte = |rc: &RangeConstraint<T>| {
+                rc.try_to_single_value()
+                    .map(|v| v.to_integer().try_into_u64().unwrap())
+                    .filter(|v| *v <= 0xff)
+            };
+            if let (Some(x), Some(y)) = (as_byte(x), as_byte(y)) {
                 // Both inputs are known, can compute result concretely
-                let z = T::from(
-                    x.to_integer().try_into_u64().unwrap() ^ y.to_integer().try_into_u64().unwrap(),
-                );
+                let (x, y, z) = (T::from(x), T::from(y), T::from(x ^ y));
                 vec![
                     RangeConstraint::from_value(x),
                     RangeConstraint::from_value(y),
@@ -53,15 +57,14 @@ pub fn handle_bitwise_lookup<T: FieldElement>(
                 ]
             }
         }
-        // Operation is unknown, but we know that x, y, and z are bytes
+        // Operation is unknown (or invalid), but we know that x, y, and z are bytes
         // and that op is 0 or 1
-        None => vec![
+        _ => vec![
             byte_constraint(),
             byte_constraint(),
             byte_constraint(),
             RangeConstraint::from_mask(0x1u64),
         ],
-        _ => panic!("Invalid operation"),
     }
 }
 
-- 
2.43.0


From 9f89039aad57a20056d94f7564497ef8aae6e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:34 +0000
Subject: [PATCH 08/13] fix: inlining does not make a derived column depend on
 itself

---
 constraint-solver/src/inliner.rs | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/constraint-solver/src/inliner.rs b/constraint-solver/src/inliner.rs
index fb06dcc..ef92e92 100644
--- a/constraint-solver/src/inliner.rs
+++ b/constraint-solver/src/inliner.rs
@@ -38,7 +38,9 @@ pub fn replace_constrained_witness_columns<
             let constraint = &constraint_system.algebraic_constraints()[curr_idx];
 
             for (var, expr) in find_inlinable_variables(constraint) {
-                if should_inline(&var, &expr, &constraint_system) {
+                if should_inline(&var, &expr, &constraint_system)
+                    && !substitution_would_create_cyclic_derivation(&var, &expr, &constraint_system)
+                {
                     log::trace!("Substituting {var} = {expr}");
                     log::trace!("  (from identity {constraint})");
 
@@ -111,6 +113,36 @@ pub fn substitution_would_not_violate_degree_bound<T: FieldElement, V: Ord + Clo
         })
 }
 
+/// Returns true if substituting `var` by `expr` inside `constraint_system` would
+/// make the value of a derived variable depend on itself, i.e. if `expr` references
+/// a derived variable that is (potentially indirectly) computed from `var`.
+fn substitution_would_create_cyclic_derivation<T: FieldElement, V: Ord + Clone + Hash + Eq>(
+    var: &V,
+    expr: &GroupedExpression<T, V>,
+    constraint_system: &IndexedConstraintSystem<T, V>,
+) -> bool {
+    let derived_variables = &constraint_system.system().derived_variables;
+    if derived_variables.is_empty() {
+        return false;
+    }
+    let mut visited: HashSet<&V> = HashSet::new();
+    let mut to_visit = expr.referenced_unknown_variables().collect_vec();
+    while let Some(v) = to_visit.pop() {
+        if v == var {
+            return true;
+        }
+        if visited.insert(v) {
+            to_visit.extend(
+                derived_variables
+                    .iter()
+                    .filter(|d| &d.variable == v)
+                    .flat_map(|d| d.computation_method.referenced_unknown_variables()),
+            );
+        }
+    }
+    false
+}
+
 /// Returns substitutions of variables that appear linearly and do not depend on themselves.
 fn find_inlinable_variables<T: FieldElement, V: Ord + Clone + Hash + Eq + Display>(
     constraint: &AlgebraicConstraint<GroupedExpression<T, V>>,
-- 
2.43.0


From 5097815b004863095c28a2423d0a0e77c0022e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:38 +0000
Subject: [PATCH 09/13] fix: only remove a lookup with a free variable if the
 variable can always be solved for

---
 autoprecompiles/src/constraint_optimizer.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/autoprecompiles/src/constraint_optimizer.rs b/autoprecompiles/src/constraint_optimizer.rs
index 47347ad..824bf3d 100644
--- a/autoprecompiles/src/constraint_optimizer.rs
+++ b/autoprecompiles/src/constraint_optimizer.rs
@@ -288,7 +288,7 @@ fn try_replace_by_number<T: FieldElement, V: Clone + Ord + Hash + Display>(
 /// Motivation: Suppose there is a constraint `2 * foo = bar` and `foo` only appears in this constraint.
 /// Then, if we assume that all constraints are satisfiable, the prover would be able to satisfy it for
 /// any value of `bar` by solving for `foo`. Therefore, the constraint can be removed.
-/// The same would be true for a *stateless* bus interaction, e.g. `[foo * bar] in [BYTES]`.
+/// The same would be true for a *stateless* bus interaction, e.g. `[2 * foo + bar] in [BYTES]`.
 ///
 /// This function removes *some* constraints like this (see TODOs below).
 fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
@@ -334,14 +334,19 @@ fn remove_free_variables<T: FieldElement, V: Clone + Ord + Eq + Hash + Display>(
                     .filter(|field| field.try_to_number().is_none())
                     .count()
                     == 1;
-                // If the expression is linear in the free variable, the prover would be able to solve for it
-                // to satisfy the constraint. Otherwise, this is not necessarily the case.
-                // Note that if the above check is true, there will only be one field of degree > 0.
-                let all_degrees_at_most_one = bus_interaction
+                // The prover can choose the value of the unknown field if it is possible to solve for
+                // the free variable, regardless of the values of the other variables. If the variable
+                // only occurs in the multiplicity, the prover can choose a multiplicity of zero instead.
+                let choosable = bus_interaction
                     .payload
                     .iter()
-                    .all(|field| field.degree_of_variable(variable) <= 1);
-                is_stateless && has_one_unknown_field && all_degrees_at_most_one
+                    .find(|field| field.referenced_unknown_variables().contains(variable))
+                    .unwrap_or(&bus_interaction.multiplicity);
+                is_stateless
+                    && has_one_unknown_field
+                    && AlgebraicConstraint::assert_zero(choosable)
+                        .try_solve_for(variable)
+                        .is_some()
             }
         })
         .map(|(variable, _constraint)| variable.clone())
-- 
2.43.0


From 87f6915db67f4d934ad0b252371da56dedabab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:48 +0000
Subject: [PATCH 10/13] fix: compute derived columns in the order of their
 dependencies

---
 autoprecompiles/src/optimizer.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/autoprecompiles/src/optimizer.rs b/autoprecompiles/src/optimizer.rs
index 7e4471f..51f4447 100644
--- a/autoprecompiles/src/optimizer.rs
+++ b/autoprecompiles/src/optimizer.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 use std::hash::Hash;
 
 use itertools::Itertools;
-use powdr_constraint_solver::constraint_system::BusInteractionHandler;
+use powdr_constraint_solver::constraint_system::{BusInteractionHandler, ConstraintSystem};
 use powdr_constraint_solver::grouped_expression::GroupedExpression;
 use powdr_constraint_solver::indexed_constraint_system::IndexedConstraintSystem;
 use powdr_constraint_solver::inliner::{self, inline_everything_below_degree_bound};
@@ -155,6 +155,7 @@ where
     )
     .system()
     .clone();
+    let constraint_system = sort_derived_variables(constraint_system);
     export_options.export_optimizer_outer_constraint_system(&constraint_system, "trivial_simp");
 
     stats_logger.finalize(&constraint_system);
@@ -196,6 +197,30 @@ where
     ))
 }
 
+/// Sorts the derived variables such that each of them only depends on derived variables before it,
+/// because this is the order in which they are computed.
+/// Substitutions performed during optimization can break the order in which they were created.
+fn sort_derived_variables<T: FieldElement>(
+    mut constraint_system: ConstraintSystem<T, AlgebraicReference>,
+) -> ConstraintSystem<T, AlgebraicReference> {
+    let mut remaining = std::mem::take(&mut constraint_system.derived_variables);
+    while !remaining.is_empty() {
+        let next = remaining
+            .iter()
+            .position(|derived_variable| {
+                !derived_variable
+                    .computation_method
+                    .referenced_unknown_variables()
+                    .any(|v| remaining.iter().any(|other| &other.variable == v))
+            })
+            .expect("Cyclic dependency between derived variables.");
+        constraint_system
+            .derived_variables
+            .push(remaining.remove(next));
+    }
+    constraint_system
+}
+
 pub fn optimize_exec_bus<T: FieldElement>(
     mut machine: SymbolicMachine<T>,
     exec_bus_id: u64,
-- 
2.43.0


From 61127b06745e458ff2150f8f17a26d93da42b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:37 +0000
Subject: [PATCH 11/13] fix: guards keep multiplicities within the degree bound

---
 autoprecompiles/src/lib.rs | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/autoprecompiles/src/lib.rs b/autoprecompiles/src/lib.rs
index cad5fe2..4859748 100644
--- a/autoprecompiles/src/lib.rs
+++ b/autoprecompiles/src/lib.rs
@@ -363,7 +363,7 @@ pub fn build<A: Adapter>(
     )?;
 
     // add guards to constraints that are not satisfied by zeroes
-    let (machine, column_allocator) = add_guards(machine, column_allocator);
+    let (machine, column_allocator) = add_guards(machine, column_allocator, degree_bound);
 
     metrics::counter!("after_opt_cols", &labels)
         .absolute(machine.unique_references().count() as u64);
@@ -467,9 +467,11 @@ fn canonicalize<T: FieldElement>(expr: AlgebraicExpression<T>) -> AlgebraicExpre
 }
 
 /// Adds an `is_valid` guard to all constraints and bus interactions, if needed.
+/// Multiplicities that cannot be guarded within the degree bound are moved to a new column.
 fn add_guards<T: FieldElement>(
     mut machine: SymbolicMachine<T>,
     mut column_allocator: ColumnAllocator,
+    degree_bound: DegreeBound,
 ) -> (SymbolicMachine<T>, ColumnAllocator) {
     let pre_degree = machine.degree();
 
@@ -492,7 +494,32 @@ fn add_guards<T: FieldElement>(
 
     let mut is_valid_mults: Vec<SymbolicConstraint<T>> = Vec::new();
     for b in &mut machine.bus_interactions {
-        if !satisfies_zero_witness(&b.mult) {
+        let zero_on_zero_row = satisfies_zero_witness(&b.mult);
+        let max_degree = if zero_on_zero_row {
+            degree_bound.identities
+        } else {
+            degree_bound.bus_interactions
+        };
+        let guarded_degree = b.mult.degree() + 1;
+        if guarded_degree > 2 && guarded_degree > max_degree {
+            // The guard would exceed the degree bound, use a column that holds the multiplicity.
+            let id = column_allocator.issue_next_poly_id();
+            let mult_ref = AlgebraicReference {
+                name: Arc::new(format!("mult_{id}")),
+                id,
+            };
+            let mult_column = AlgebraicExpression::Reference(mult_ref.clone());
+            let mult = std::mem::replace(&mut b.mult, is_valid.clone() * mult_column.clone());
+            machine.derived_columns.push(DerivedVariable::new(
+                mult_ref,
+                ComputationMethod::QuotientOrZero(
+                    mult.clone(),
+                    AlgebraicExpression::Number(T::one()),
+                ),
+            ));
+            is_valid_mults
+                .push(canonicalize(add_guards_constraint(mult_column - mult, &is_valid)).into());
+        } else if !zero_on_zero_row {
             // guard the multiplicity by `is_valid`
             b.mult = canonicalize(is_valid.clone() * b.mult.clone());
             // TODO this would not have to be cloned if we had *=
@@ -508,10 +535,11 @@ fn add_guards<T: FieldElement>(
     machine.constraints.extend(is_valid_mults);
 
     // if pre_degree is 0, is_valid is added to the multiplicities of the bus interactions, thus the degree increases from 0 to 1
+    // and guarding a non-constant multiplicity may use what the degree bound allows.
+    let max_degree = degree_bound.identities.max(degree_bound.bus_interactions);
     if pre_degree != 0 && !machine.bus_interactions.is_empty() {
-        assert_eq!(
-            pre_degree,
-            machine.degree(),
+        assert!(
+            machine.degree() <= pre_degree.max(max_degree),
             "Degree should not change after adding guards"
         );
     }
-- 
2.43.0


From c55b9d82c7a04cac088dabbf1bc5c5a9521c3193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:21 +0000
Subject: [PATCH 12/13] fix: do not drop range checks on sent values because of
 a later receive of them

---
 .../src/range_constraint_optimizer.rs         | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/autoprecompiles/src/range_constraint_optimizer.rs b/autoprecompiles/src/range_constraint_optimizer.rs
index 02d4576..6c31b41 100644
--- a/autoprecompiles/src/range_constraint_optimizer.rs
+++ b/autoprecompiles/src/range_constraint_optimizer.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashSet};
 use std::fmt::Display;
 use std::hash::Hash;
 
@@ -89,7 +89,10 @@ pub fn optimize_range_constraints<T: FieldElement, V: Ord + Clone + Hash + Eq +
 
     // Filter range constraints that are already implied by existing constraints.
     // TODO: They could also be implied by each other.
-    let mut solver = new_solver(system.clone(), bus_interaction_handler.clone());
+    let mut solver = new_solver(
+        without_receives_of_sent_values(&system),
+        bus_interaction_handler.clone(),
+    );
     solver.solve().unwrap();
     let to_constrain = to_constrain
         .into_iter()
@@ -137,6 +140,31 @@ pub fn optimize_range_constraints<T: FieldElement, V: Ord + Clone + Hash + Eq +
     system
 }
 
+/// Returns the system without the stateful bus interactions that receive a value which the
+/// system itself might have sent before. Such a value is only known to be well-formed because
+/// of the range constraints on what is sent, so it cannot be used to remove those.
+fn without_receives_of_sent_values<T: FieldElement, V: Ord + Clone + Hash + Eq>(
+    system: &ConstraintSystem<T, V>,
+) -> ConstraintSystem<T, V> {
+    let mut system = system.clone();
+    let mut sent = HashSet::new();
+    system.bus_interactions.retain(|bus_int| {
+        let is_receive = bus_int.multiplicity.try_to_number() == Some(-T::one());
+        let mut values = bus_int
+            .payload
+            .iter()
+            .filter(|value| value.try_to_number().is_none())
+            .map(|value| (bus_int.bus_id.clone(), value.clone()));
+        if is_receive {
+            !values.any(|value| sent.contains(&value))
+        } else {
+            sent.extend(values);
+            true
+        }
+    });
+    system
+}
+
 /// Utility functions useful for implementing `batch_make_range_constraints`.
 pub mod utils {
     use itertools::Itertools;
-- 
2.43.0


From 9125f1552673f7bf305bcec849ca0d6ddee79277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 13/13] fix: print canonical value of plonky3 fields

Mersenne31 has two representations of zero, and the inner type prints the
non-canonical one as the modulus, which cannot be parsed back (for example
after storing columns as signed CSV).
---
 number/src/plonky3_macros.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/number/src/plonky3_macros.rs b/number/src/plonky3_macros.rs
index 0b0169f..57a70c0 100644
--- a/number/src/plonky3_macros.rs
+++ b/number/src/plonky3_macros.rs
@@ -35,6 +35,9 @@ macro_rules! powdr_field_plonky3 {
             Deserialize,
             derive_more::Display,
         )]
+        // Print the canonical value: the inner plonky3 type may print a non-canonical
+        // representation (Mersenne31 has two representations of zero).
+        #[display("{}", self.to_canonical_u32())]
         // Serialize/deserialize through canonical u32 so the on-disk format
         // does not depend on the inner plonky3 type's internal representation
         // (which is Montgomery form for BabyBear/KoalaBear).
-- 
2.43.0

