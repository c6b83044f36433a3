From 66f5f805ef9501ecbc9e071f0f91f64db8b17c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 01/34] fix: keep a component's place when its side of a
 quotient has no transitions

get_leaves panicked with an index out of bounds for Quotient([], [s]) and
dropped the second component for Quotient([t], []); both ids are produced by
the quotient rules.
---
 src/TransitionSystems/transition_id.rs | 28 +++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/TransitionSystems/transition_id.rs b/src/TransitionSystems/transition_id.rs
index eb8ad89..efc5d0a 100644
--- a/src/TransitionSystems/transition_id.rs
+++ b/src/TransitionSystems/transition_id.rs
@@ -41,15 +41,8 @@ impl TransitionID {
                 r.get_leaves_helper(current_leaves, index_left + 1) // return index right
             }
             TransitionID::Quotient(l, r) => {
-                let mut index_left = index;
-                for t in l {
-                    index_left = t.get_leaves_helper(current_leaves, index);
-                }
-                let mut index_right = index_left;
-                for s in r {
-                    index_right = s.get_leaves_helper(current_leaves, index_left + 1);
-                }
-                index_right
+                let index_left = Self::get_side_leaves(l, current_leaves, index);
+                Self::get_side_leaves(r, current_leaves, index_left + 1) // return index right
             }
             TransitionID::Simple(_) | TransitionID::None => {
                 if current_leaves.len() <= index {
@@ -61,6 +54,23 @@ impl TransitionID {
         }
     }
 
+    /// Collects the leaves of one side of a quotient, and returns the index of its last component.
+    /// A side that contributes no transitions still takes up the place of its component.
+    fn get_side_leaves(
+        side: &[TransitionID],
+        current_leaves: &mut Vec<Vec<TransitionID>>,
+        index: usize,
+    ) -> usize {
+        if side.is_empty() && current_leaves.len() <= index {
+            current_leaves.push(Vec::new());
+        }
+        let mut last_index = index;
+        for id in side {
+            last_index = id.get_leaves_helper(current_leaves, index);
+        }
+        last_index
+    }
+
     /// Takes a path of TransitionIDs, and splits them into seperate paths for each component
     /// For example
     /// ```
-- 
2.43.0


From df36e4f2dbae258c9f381d835fd05a7e8c675036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 02/34] fix: let time pass in a start state given by the query

---
 src/System/reachability.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/System/reachability.rs b/src/System/reachability.rs
index 7497f9b..8e314b0 100644
--- a/src/System/reachability.rs
+++ b/src/System/reachability.rs
@@ -100,9 +100,12 @@ fn reachability_search(
     end_state: &State,
     system: &TransitionSystemPtr,
 ) -> Result<Path, PathFailure> {
-    // Apply the invariant of the start state to the start state
+    // Apply the invariant of the start state to the start state, and let time pass in it as
+    // it does in every other state of the search (the start state may be given by the query)
     let mut start_state = start_state.clone();
     start_state.apply_invariants();
+    start_state.update_zone(|zone| zone.up());
+    start_state.apply_invariants();
 
     // hashmap linking every location to all its current zones
     let mut visited_states: HashMap<LocationID, Vec<OwnedFederation>> = HashMap::new();
-- 
2.43.0


From 8877764a17817f658552805054ef1f09bc9bc5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 03/34] fix: keep the rest of a guard or invariant when one of
 its clocks is reduced away

---
 .../Expressions/arith_expression.rs           | 20 +++++++++++++++
 .../Expressions/bool_expression.rs            | 25 +++++++++++++++++++
 src/ModelObjects/component.rs                 | 17 +++++++------
 3 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 242849c..00e0c2c 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -429,6 +429,26 @@ impl ArithExpression {
         }
     }
 
+    /// Replaces all occurrences of `ArithExpression::VarName(name)` with `value`
+    pub fn fix_varname(&mut self, name: &String, value: i32) {
+        match self {
+            ArithExpression::Difference(a1, a2)
+            | ArithExpression::Addition(a1, a2)
+            | ArithExpression::Multiplication(a1, a2)
+            | ArithExpression::Division(a1, a2)
+            | ArithExpression::Modulo(a1, a2) => {
+                a1.fix_varname(name, value);
+                a2.fix_varname(name, value);
+            }
+            ArithExpression::Clock(_) | ArithExpression::Int(_) => (),
+            ArithExpression::VarName(n) => {
+                if n == name {
+                    *self = ArithExpression::Int(value);
+                }
+            }
+        }
+    }
+
     pub fn clock_var_count(&self) -> u32 {
         match self {
             ArithExpression::Clock(_) => 1,
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index d02e9ea..2a15318 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -434,6 +434,31 @@ impl BoolExpression {
         }
     }
 
+    /// Gives the variable `name` the value `value`, deciding every comparison that has no
+    /// variables left
+    pub fn fix_varname(&mut self, name: &String, value: i32) {
+        let constant = match self {
+            BoolExpression::AndOp(e1, e2) | BoolExpression::OrOp(e1, e2) => {
+                e1.fix_varname(name, value);
+                e2.fix_varname(name, value);
+                false
+            }
+            BoolExpression::LessEQ(e1, e2)
+            | BoolExpression::GreatEQ(e1, e2)
+            | BoolExpression::LessT(e1, e2)
+            | BoolExpression::GreatT(e1, e2)
+            | BoolExpression::EQ(e1, e2) => {
+                e1.fix_varname(name, value);
+                e2.fix_varname(name, value);
+                e1.clock_var_count() + e2.clock_var_count() == 0
+            }
+            BoolExpression::Bool(_) => false,
+        };
+        if constant {
+            self.simplify();
+        }
+    }
+
     pub fn BLessEQ(left: ArithExpression, right: ArithExpression) -> BoolExpression {
         BoolExpression::LessEQ(Box::new(left), Box::new(right))
     }
diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 2b8759a..30359da 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -124,11 +124,12 @@ impl Component {
             .iter_mut()
             .filter(|e| e.update.is_some() || e.guard.is_some())
             .for_each(|e| {
-                // The guard is overwritten to `false`. This can be done since we assume
-                // that all edges with guards involving the given clock is not reachable
-                // in some composite system.
+                // The clock is given a fixed value. This can be done since all edges with
+                // guards involving the given clock are either not reachable in some
+                // composite system, or have a guard that does not depend on the clock
+                // (e.g. `x>=0 && y<3`).
                 if let Some(guard) = e.guard.as_mut().filter(|g| g.has_varname(&name)) {
-                    *guard = BoolExpression::Bool(false);
+                    guard.fix_varname(&name, 0);
                 }
                 if let Some(inv) = e.update.as_mut() {
                     inv.retain(|u| u.variable != name);
@@ -136,14 +137,14 @@ impl Component {
             });
 
         // Removes from from location invariants
-        // The invariants containing the clock are overwritten to `false`.
-        // This can be done since we assume that all locations with invariants involving
-        // the given clock is not reachable in some composite system.
+        // The clock is given a fixed value in the invariants containing it.
+        // This can be done since all locations with invariants involving the given clock are
+        // either not reachable in some composite system, or do not depend on the clock.
         self.locations
             .iter_mut()
             .filter_map(|l| l.invariant.as_mut())
             .filter(|i| i.has_varname(&name))
-            .for_each(|i| *i = BoolExpression::Bool(false));
+            .for_each(|i| i.fix_varname(&name, 0));
 
         info!(
             "Removed Clock '{name}' (index {index}) has been removed from component {}",
-- 
2.43.0


From 331facc1fe2995412f8e04c264852c8fb4016ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 04/34] fix: keep an edge that breaks its target's invariant
 dead when the clock is reduced away

---
 src/ModelObjects/component.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 30359da..6698599 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -3,7 +3,7 @@ use crate::DataReader::serialization::{decode_declarations, DummyComponent};
 use edbm::util::bounds::Bounds;
 use edbm::util::constraints::ClockIndex;
 
-use crate::ModelObjects::Expressions::BoolExpression;
+use crate::ModelObjects::Expressions::{ArithExpression, BoolExpression};
 use crate::ModelObjects::{Edge, Location, SyncType};
 use itertools::Itertools;
 use log::info;
@@ -119,6 +119,27 @@ impl Component {
             .to_owned();
         self.declarations.clocks.remove(&name);
 
+        // An edge that breaks the invariant of its target by giving the clock a value can
+        // never be taken, and must stay so when neither the update nor the invariant is left
+        for edge in self.edges.iter_mut() {
+            let updates = edge.update.as_deref().unwrap_or_default();
+            let target = self.locations.iter().find(|l| l.id == edge.target_location);
+            if let Some(mut invariant) = target.and_then(|l| l.invariant.clone()) {
+                if !updates.iter().any(|u| u.variable == name) {
+                    continue;
+                }
+                for update in updates {
+                    if let Ok(ArithExpression::Int(value)) = update.expression.simplify() {
+                        invariant.fix_varname(&update.variable, value);
+                    }
+                }
+                invariant.simplify();
+                if invariant == BoolExpression::Bool(false) {
+                    edge.guard = Some(invariant);
+                }
+            }
+        }
+
         // Removes from from updates and guards
         self.edges
             .iter_mut()
-- 
2.43.0


From fe44ce2c0cf3a874c2de6623f1f2fa3c59866d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 05/34] fix: compare the delays of the initial pair in a
 refinement

---
 src/System/refine.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index 5258000..abf5fc2 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -143,9 +143,16 @@ pub fn check_refinement(sys1: TransitionSystemPtr, sys2: TransitionSystemPtr) ->
         initial_locations_2.clone(),
     );
 
+    let left_zone = initial_locations_1.apply_invariants(initial_pair.clone_zone());
+
     if !prepare_init_state(&mut initial_pair, initial_locations_1, initial_locations_2) {
         return RefinementFailure::empty_initial(sys1.as_ref(), sys2.as_ref());
     }
+
+    // No action leads to the initial pair, but its delays can be cut like those of any other
+    if !left_zone.subset_eq(&initial_pair.clone_zone().down()) {
+        return RefinementFailure::cuts_delays(sys1.as_ref(), sys2.as_ref(), "", &initial_pair);
+    }
     initial_pair.extrapolate_max_bounds(context.sys1, context.sys2);
 
     debug!("Initial {}", initial_pair);
-- 
2.43.0


From ee6df87a785fec1a869c3c9a280471153c4b5ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 06/34] fix: judge the consistency of a conjunction as a whole

---
 src/TransitionSystems/common.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/TransitionSystems/common.rs b/src/TransitionSystems/common.rs
index fc6d8ae..0b15426 100644
--- a/src/TransitionSystems/common.rs
+++ b/src/TransitionSystems/common.rs
@@ -109,9 +109,7 @@ impl<T: ComposedTransitionSystem> TransitionSystem for T {
     }
 
     fn check_local_consistency(&self) -> ConsistencyResult {
-        let (left, right) = self.get_children();
-        left.check_local_consistency()?;
-        right.check_local_consistency()
+        self.check_local_consistency()
     }
 
     fn get_initial_state(&self) -> Option<State> {
-- 
2.43.0


From f1eb252d15246764911bd5fb4ed766ec12205e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 07/34] fix: forget what was passed on the way to an
 inconsistent state

A state that was judged consistent on the assumption that a later refuted state is consistent
was taken for consistent when reached again. Refuted states are remembered instead.
---
 src/System/local_consistency.rs | 35 +++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 0cb42d7..54580a3 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -11,8 +11,9 @@ use super::query_failures::{ConsistencyResult, DeterminismResult};
 pub fn is_least_consistent(system: &dyn TransitionSystem) -> ConsistencyResult {
     if let Some(mut state) = system.get_initial_state() {
         let mut passed = vec![];
+        let mut failed = vec![];
         state.extrapolate_max_bounds(system);
-        consistency_least_helper(state, &mut passed, system)
+        consistency_least_helper(state, &mut passed, &mut failed, system)
     } else {
         warn!("Empty initial state");
         ConsistencyFailure::no_initial_state(system)
@@ -80,6 +81,7 @@ pub fn is_fully_consistent(system: &dyn TransitionSystem) -> ConsistencyResult {
 pub fn consistency_least_helper(
     state: State,
     passed_list: &mut Vec<State>,
+    failed_list: &mut Vec<(State, ConsistencyFailure)>,
     system: &dyn TransitionSystem,
 ) -> ConsistencyResult {
     if state.is_contained_in_list(passed_list) {
@@ -92,15 +94,38 @@ pub fn consistency_least_helper(
         return ConsistencyFailure::inconsistent(system, &state);
     }
 
+    let known_failure = failed_list
+        .iter()
+        .find(|(failed, _)| state.is_subset_of(failed) && failed.is_subset_of(&state));
+    if let Some((_, failure)) = known_failure {
+        return Err(failure.clone());
+    }
+
+    let passed = passed_list.len();
     passed_list.push(state.clone());
 
+    let result = consistency_least_moves(&state, passed_list, failed_list, system);
+    if let Err(failure) = &result {
+        // What was passed on the way to an inconsistency is not known to be consistent
+        passed_list.truncate(passed);
+        failed_list.push((state, failure.clone()));
+    }
+    result
+}
+
+fn consistency_least_moves(
+    state: &State,
+    passed_list: &mut Vec<State>,
+    failed_list: &mut Vec<(State, ConsistencyFailure)>,
+    system: &dyn TransitionSystem,
+) -> ConsistencyResult {
     for input in system.get_input_actions() {
         for transition in &system.next_inputs(&state.decorated_locations, &input) {
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
 
-                consistency_least_helper(new_state, passed_list, system)?;
+                consistency_least_helper(new_state, passed_list, failed_list, system)?;
             }
         }
     }
@@ -114,14 +139,16 @@ pub fn consistency_least_helper(
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
-                if let Ok(()) = consistency_least_helper(new_state, passed_list, system) {
+                if let Ok(()) =
+                    consistency_least_helper(new_state, passed_list, failed_list, system)
+                {
                     return Ok(());
                 }
             }
         }
     }
     warn!("No saving outputs from {}", state.decorated_locations.id);
-    ConsistencyFailure::inconsistent_from(system, &state)
+    ConsistencyFailure::inconsistent_from(system, state)
 }
 
 fn consistency_fully_helper(
-- 
2.43.0


From e206e2a2d0892125170aa83be0d26f7a3a906f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 08/34] fix: && binds tighter than || in guards and invariants

---
 src/DataReader/parse_edge.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index 168da37..8a661f4 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -19,12 +19,12 @@ pub struct EdgeParser;
 
 lazy_static! {
     static ref PRATT: PrattParser<Rule> = PrattParser::new()
+        .op(Op::infix(Rule::or, Assoc::Left))
+        .op(Op::infix(Rule::and, Assoc::Left))
         .op(Op::infix(Rule::add, Assoc::Left) | Op::infix(Rule::sub, Assoc::Left))
         .op(Op::infix(Rule::mul, Assoc::Left)
             | Op::infix(Rule::div, Assoc::Left)
-            | Op::infix(Rule::r#mod, Assoc::Left))
-        .op(Op::infix(Rule::and, Assoc::Left))
-        .op(Op::infix(Rule::or, Assoc::Left));
+            | Op::infix(Rule::r#mod, Assoc::Left));
 }
 
 #[derive(Debug, Clone, Deserialize)]
-- 
2.43.0


From 85a8f61b7e800c3c790fdcceed2b84c2bd7db3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 09/34] fix: a guard or update of nothing but white space is
 read as empty

---
 src/DataReader/parse_edge.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index 8a661f4..6946125 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -84,8 +84,8 @@ pub fn parse_guard(input: &str) -> Result<BoolExpression, String> {
 
     // Check if there are any constraints
     let result = match guard.into_inner().next() {
-        Some(bool_expr) => parse_bool_expr(bool_expr),
-        None => BoolExpression::Bool(true),
+        Some(bool_expr) if bool_expr.as_rule() == Rule::boolExpr => parse_bool_expr(bool_expr),
+        _ => BoolExpression::Bool(true),
     };
 
     Ok(result)
@@ -101,7 +101,10 @@ pub fn parse_updates(input: &str) -> Result<Vec<Update>, String> {
     let update = pairs.next().unwrap();
 
     // Check if there are any assignments
-    if let Some(assignments) = update.into_inner().next() {
+    if let Some(assignments) = update
+        .into_inner()
+        .find(|pair| pair.as_rule() == Rule::assignments)
+    {
         let mut updates = Vec::new();
         for assignment in assignments.into_inner() {
             match assignment.as_rule() {
-- 
2.43.0


From 68022f66dd3ad1c383f8236d2a1284dddce3062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 10/34] fix: the constants a clock is compared to are found in
 every comparison

---
 .../Expressions/arith_expression.rs           | 92 +++++++++++++------
 1 file changed, 66 insertions(+), 26 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 00e0c2c..26810a8 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -127,39 +127,79 @@ impl ArithExpression {
         }
     }
 
+    /// The constant that a comparison of `left` and `right` holds the clock against, or 0 if it
+    /// does not mention the clock
     pub fn get_constant(left: &Self, right: &Self, clock: ClockIndex, clock_name: &str) -> i32 {
-        match left {
-            ArithExpression::Clock(clock_id) => {
-                if *clock_id == clock {
-                    if let ArithExpression::Int(constant) = right {
-                        return *constant;
-                    }
+        let comparison =
+            ArithExpression::Difference(Box::new(left.clone()), Box::new(right.clone()));
+
+        match comparison.as_sum() {
+            Ok((terms, constant)) => {
+                let mentioned = terms.iter().any(|(term, count)| match term {
+                    ArithExpression::Clock(id) => *count != 0 && *id == clock,
+                    ArithExpression::VarName(name) => *count != 0 && name == clock_name,
+                    _ => false,
+                });
+
+                if mentioned {
+                    constant.saturating_abs()
+                } else {
+                    0
                 }
             }
-            ArithExpression::VarName(name) => {
-                if name.eq(clock_name) {
-                    if let ArithExpression::Int(constant) = right {
-                        return *constant;
+            Err(_) => 0,
+        }
+    }
+
+    /// The expression as a sum: how many times each clock or variable is counted, and the
+    /// constant that is left
+    pub fn as_sum(&self) -> Result<(Vec<(ArithExpression, i32)>, i32), String> {
+        let overflow = || "Arithmetic overflow".to_string();
+        let (is_mul, left, right) = match self {
+            ArithExpression::Int(value) => return Ok((vec![], *value)),
+            ArithExpression::Clock(_) | ArithExpression::VarName(_) => {
+                return Ok((vec![(self.clone(), 1)], 0))
+            }
+            ArithExpression::Addition(left, right) | ArithExpression::Difference(left, right) => {
+                let sign = if let ArithExpression::Addition(_, _) = self {
+                    1
+                } else {
+                    -1
+                };
+                let (mut terms, left_constant) = left.as_sum()?;
+                let (right_terms, right_constant) = right.as_sum()?;
+                for (term, count) in right_terms {
+                    let count = sign * count;
+                    match terms.iter_mut().find(|(t, _)| *t == term) {
+                        Some((_, c)) => *c = c.checked_add(count).ok_or_else(overflow)?,
+                        None => terms.push((term, count)),
                     }
                 }
+                let constant = right_constant
+                    .checked_mul(sign)
+                    .and_then(|c| left_constant.checked_add(c))
+                    .ok_or_else(overflow)?;
+                return Ok((terms, constant));
             }
-            ArithExpression::Int(constant) => match right {
-                ArithExpression::Clock(clock_id) => {
-                    if *clock_id == clock {
-                        return *constant;
-                    }
-                }
-                ArithExpression::VarName(name) => {
-                    if name.eq(clock_name) {
-                        return *constant;
-                    }
-                }
-                _ => {}
-            },
-            _ => {}
-        }
+            ArithExpression::Multiplication(left, right) => (true, left, right),
+            ArithExpression::Division(left, right) | ArithExpression::Modulo(left, right) => {
+                (false, left, right)
+            }
+        };
 
-        0
+        let (left_terms, left_constant) = left.as_sum()?;
+        let (right_terms, right_constant) = right.as_sum()?;
+        if left_terms.iter().chain(&right_terms).any(|(_, c)| *c != 0) {
+            return Err("Can't parse multiplication, division or modulo with clocks".to_string());
+        }
+        let constant = if is_mul {
+            left_constant.checked_mul(right_constant)
+        } else if let ArithExpression::Division(_, _) = self {
+            left_constant.checked_div(right_constant)
+        } else {
+            left_constant.checked_rem(right_constant)
+        };
+        Ok((vec![], constant.ok_or_else(overflow)?))
     }
 
     pub fn iterate_constraints<F>(&self, function: &mut F)
-- 
2.43.0


From 8c338c2f9541bebf60ec8f41e71cc8c99f43216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 11/34] fix: comparisons with arithmetic on both sides of a
 clock keep their meaning, also without clocks

---
 src/EdgeEval/constraint_applyer.rs | 77 ++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 26 deletions(-)

diff --git a/src/EdgeEval/constraint_applyer.rs b/src/EdgeEval/constraint_applyer.rs
index c7a294e..de517a0 100644
--- a/src/EdgeEval/constraint_applyer.rs
+++ b/src/EdgeEval/constraint_applyer.rs
@@ -20,7 +20,6 @@ fn apply_constraints_to_state_helper(
     if fed.is_empty() {
         return Ok(fed);
     }
-    use Inequality::*;
     match guard {
         BoolExpression::AndOp(left, right) => {
             let fed = apply_constraints_to_state_helper(left, decls, fed)?;
@@ -32,33 +31,14 @@ fn apply_constraints_to_state_helper(
             let fed2 = apply_constraints_to_state_helper(right, decls, clone)?;
             Ok(fed1 + fed2)
         }
-        BoolExpression::LessEQ(left, right) => {
-            let (i, j, c) = get_indices(left, right, decls)?;
-            // i-j<=c
-            Ok(fed.constrain(i, j, LE(c)))
-        }
-        BoolExpression::GreatEQ(left, right) => {
-            let (i, j, c) = get_indices(right, left, decls)?;
-            // j-i <= -c -> c <= i-j
-            Ok(fed.constrain(i, j, LE(c)))
-        }
+        BoolExpression::LessEQ(left, right) => constrain(fed, left, right, decls, false),
+        BoolExpression::GreatEQ(left, right) => constrain(fed, right, left, decls, false),
         BoolExpression::EQ(left, right) => {
-            let (i, j, c) = get_indices(left, right, decls)?;
-            // i-j <= c && j-i <= -c -> c <= i-j
-
-            // TODO: maybe use fed.constrain_many(...)
-            Ok(fed.constrain(i, j, LE(c)).constrain(j, i, LE(-c)))
-        }
-        BoolExpression::LessT(left, right) => {
-            let (i, j, c) = get_indices(left, right, decls)?;
-            // i-j < c
-            Ok(fed.constrain(i, j, LS(c)))
-        }
-        BoolExpression::GreatT(left, right) => {
-            let (i, j, c) = get_indices(right, left, decls)?;
-            // j-i < -c -> c < i-j
-            Ok(fed.constrain(i, j, LS(c)))
+            let fed = constrain(fed, left, right, decls, false)?;
+            constrain(fed, right, left, decls, false)
         }
+        BoolExpression::LessT(left, right) => constrain(fed, left, right, decls, true),
+        BoolExpression::GreatT(left, right) => constrain(fed, right, left, decls, true),
         BoolExpression::Bool(val) => {
             if !*val {
                 return Ok(fed.set_empty());
@@ -68,6 +48,51 @@ fn apply_constraints_to_state_helper(
     }
 }
 
+/// Constrains the state to `left <= right`, or `left < right` if the constraint is strict
+fn constrain(
+    fed: OwnedFederation,
+    left: &ArithExpression,
+    right: &ArithExpression,
+    decls: &Declarations,
+    strict: bool,
+) -> Result<OwnedFederation, String> {
+    let difference = ArithExpression::Difference(
+        Box::new(replace_vars(left, decls)?),
+        Box::new(replace_vars(right, decls)?),
+    );
+    let (mut terms, constant) = difference.as_sum()?;
+    terms.retain(|(_, count)| *count != 0);
+    let bound = constant.checked_neg().ok_or("Arithmetic overflow")?;
+
+    // The clocks alone on one side, and the constant on the other
+    let (left, right) = match terms.as_slice() {
+        [] => {
+            let holds = if strict { 0 < bound } else { 0 <= bound };
+            return Ok(if holds { fed } else { fed.set_empty() });
+        }
+        [(clock, 1)] => (clock.clone(), ArithExpression::Int(bound)),
+        [(clock, -1)] => (ArithExpression::Int(constant), clock.clone()),
+        [(plus, 1), (minus, -1)] | [(minus, -1), (plus, 1)] => (
+            ArithExpression::ADif(plus.clone(), minus.clone()),
+            ArithExpression::Int(bound),
+        ),
+        _ => {
+            return Err(String::from(
+                "Only a clock or the difference of two can be constrained",
+            ))
+        }
+    };
+
+    let (i, j, c) = get_indices(&left, &right, decls)?;
+    let inequality = if strict {
+        Inequality::LS(c)
+    } else {
+        Inequality::LE(c)
+    };
+    // i-j <= c
+    Ok(fed.constrain(i, j, inequality))
+}
+
 /// Assumes that the constraint is of the form left <?= right
 fn get_indices(
     left: &ArithExpression,
-- 
2.43.0


From adf589ae8d377134e9d4993378ba90dc8a02e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 12/34] fix: guards and updates are written so that they read
 back as themselves

---
 .../Expressions/arith_expression.rs           | 30 +++++++++++++++----
 .../Expressions/bool_expression.rs            | 24 +++++++++++++--
 2 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 26810a8..935edcf 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -58,19 +58,19 @@ impl ArithExpression {
     pub fn encode_expr(&self) -> String {
         match self {
             ArithExpression::Difference(left, right) => {
-                [left.encode_expr(), String::from("-"), right.encode_expr()].concat()
+                [left.encode_expr(), String::from("-"), right.encode_term()].concat()
             }
             ArithExpression::Addition(left, right) => {
-                [left.encode_expr(), String::from("+"), right.encode_expr()].concat()
+                [left.encode_expr(), String::from("+"), right.encode_term()].concat()
             }
             ArithExpression::Multiplication(left, right) => {
-                [left.encode_expr(), String::from("*"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("*"), right.encode_factor()].concat()
             }
             ArithExpression::Division(left, right) => {
-                [left.encode_expr(), String::from("/"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("/"), right.encode_factor()].concat()
             }
             ArithExpression::Modulo(left, right) => {
-                [left.encode_expr(), String::from("%"), right.encode_expr()].concat()
+                [left.encode_term(), String::from("%"), right.encode_factor()].concat()
             }
             ArithExpression::Clock(_) => [String::from("??")].concat(),
             ArithExpression::VarName(var) => var.clone(),
@@ -78,6 +78,26 @@ impl ArithExpression {
         }
     }
 
+    /// Encodes the expression in parentheses if it is a sum
+    fn encode_term(&self) -> String {
+        match self {
+            ArithExpression::Difference(_, _) | ArithExpression::Addition(_, _) => {
+                format!("({})", self.encode_expr())
+            }
+            _ => self.encode_expr(),
+        }
+    }
+
+    /// Encodes the expression in parentheses if it has any operators
+    fn encode_factor(&self) -> String {
+        match self {
+            ArithExpression::Clock(_) | ArithExpression::VarName(_) | ArithExpression::Int(_) => {
+                self.encode_expr()
+            }
+            _ => format!("({})", self.encode_expr()),
+        }
+    }
+
     pub fn get_max_constant(&self, clock: ClockIndex, clock_name: &str) -> i32 {
         let mut new_constraint = 0;
 
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index 2a15318..f048268 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -63,9 +63,9 @@ impl BoolExpression {
     pub fn encode_expr(&self) -> String {
         match self {
             BoolExpression::AndOp(left, right) => [
-                left.encode_expr(),
+                left.encode_operand(),
                 String::from(" && "),
-                right.encode_expr(),
+                right.encode_operand(),
             ]
             .concat(),
             BoolExpression::OrOp(left, right) => [
@@ -93,6 +93,14 @@ impl BoolExpression {
         }
     }
 
+    /// Encodes the expression in parentheses if it is a disjunction
+    fn encode_operand(&self) -> String {
+        match self {
+            BoolExpression::OrOp(_, _) => format!("({})", self.encode_expr()),
+            _ => self.encode_expr(),
+        }
+    }
+
     pub fn from_disjunction(
         disjunction: &Disjunction,
         naming: &HashMap<String, ClockIndex>,
@@ -198,6 +206,18 @@ impl BoolExpression {
                             var_from_naming(naming, j),
                         ),
                     }
+                } else if bound < 0 {
+                    // i-j<=-c -> j-i >= c, as negative numbers can not be written
+                    match is_strict {
+                        true => BoolExpression::GreatT(
+                            var_diff_from_naming(naming, j, i),
+                            arith_from_int(-bound),
+                        ),
+                        false => BoolExpression::GreatEQ(
+                            var_diff_from_naming(naming, j, i),
+                            arith_from_int(-bound),
+                        ),
+                    }
                 } else {
                     match is_strict {
                         true => BoolExpression::LessT(
-- 
2.43.0


From dd73698f4e2d2e42a7cc89ae0d1dabbee464e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 13/34] fix: declarations may be spaced, commented and put on
 one line as usual, and others are refused with an error

---
 src/DataReader/serialization.rs | 56 ++++++++++++++-------------------
 src/DataReader/xml_parser.rs    | 55 ++------------------------------
 2 files changed, 27 insertions(+), 84 deletions(-)

diff --git a/src/DataReader/serialization.rs b/src/DataReader/serialization.rs
index 9e2d3e0..4c80bae 100644
--- a/src/DataReader/serialization.rs
+++ b/src/DataReader/serialization.rs
@@ -181,44 +181,36 @@ where
     D: Deserializer<'de>,
 {
     let s = String::deserialize(deserializer)?;
-    //Split string into vector of strings
-    let decls: Vec<String> = s.split('\n').map(|s| s.into()).collect();
+    parse_declarations(&s).map_err(serde::de::Error::custom)
+}
+
+/// Reads the clocks and variables declared in `text`
+pub fn parse_declarations(text: &str) -> Result<Declarations, String> {
     let mut ints: HashMap<String, i32> = HashMap::new();
     let mut clocks: HashMap<String, ClockIndex> = HashMap::new();
-    let mut counter: ClockIndex = 1;
-    for string in decls {
+    for line in text.lines() {
         //skip comments
-        if string.starts_with("//") || string.is_empty() {
-            continue;
-        }
-        let sub_decls: Vec<String> = string.split(';').map(|s| s.into()).collect();
-
-        for sub_decl in sub_decls {
-            if !sub_decl.is_empty() {
-                let split_string: Vec<String> = sub_decl.split(' ').map(|s| s.into()).collect();
-                let variable_type = split_string[0].as_str();
+        let line = line.split("//").next().unwrap_or_default();
+
+        for sub_decl in line.split(';').map(str::trim).filter(|s| !s.is_empty()) {
+            let (variable_type, variables) = sub_decl
+                .split_once(char::is_whitespace)
+                .unwrap_or((sub_decl, ""));
+            if variable_type != "clock" && variable_type != "int" {
+                return Err(format!(
+                    "Not implemented read for type: \"{variable_type}\""
+                ));
+            }
+            let variables = variables
+                .split(|c: char| c.is_whitespace() || c == ',')
+                .filter(|v| !v.is_empty());
 
+            for var in variables {
                 if variable_type == "clock" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            if !var.is_empty() {
-                                clocks.insert(var, counter);
-                                counter += 1;
-                            }
-                        }
-                    }
-                } else if variable_type == "int" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            ints.insert(var, 0);
-                        }
-                    }
+                    let next_index = clocks.len() + 1;
+                    clocks.entry(var.to_string()).or_insert(next_index);
                 } else {
-                    panic!("Not implemented read for type: \"{}\"", variable_type);
+                    ints.insert(var.to_string(), 0);
                 }
             }
         }
diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index a668934..b3f081e 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -1,10 +1,10 @@
 use crate::DataReader::parse_edge;
 use crate::DataReader::parse_edge::Update;
+use crate::DataReader::serialization::parse_declarations;
 use crate::ModelObjects::{
     Component, Declarations, Edge, Location, LocationType, Query, SyncType, SystemDeclarations,
     SystemSpecification,
 };
-use edbm::util::constraints::ClockIndex;
 use elementtree::{Element, FindChildren};
 use std::collections::HashMap;
 use std::fs::File;
@@ -41,8 +41,8 @@ fn parse_xml<R: Read>(xml_data: R) -> (Vec<Component>, SystemDeclarations, Vec<Q
 
     for xml_comp in root.find_all("template") {
         let declarations = match xml_comp.find("declaration") {
-            Some(e) => parse_declarations(e.text()),
-            None => parse_declarations(""),
+            Some(e) => parse_declarations(e.text()).unwrap_or_else(|e| panic!("{}", e)),
+            None => Declarations::empty(),
         };
         let edges = collect_edges(xml_comp.find_all("transition"));
         let comp = Component {
@@ -146,55 +146,6 @@ fn collect_edges(xml_edges: FindChildren) -> Vec<Edge> {
     edges
 }
 
-fn parse_declarations(variables: &str) -> Declarations {
-    //Split string into vector of strings
-    let decls: Vec<String> = variables.split('\n').map(|s| s.into()).collect();
-    let mut ints: HashMap<String, i32> = HashMap::new();
-    let mut clocks: HashMap<String, ClockIndex> = HashMap::new();
-    let mut counter: ClockIndex = 1;
-    for string in decls {
-        //skip comments
-        if string.starts_with("//") || string.is_empty() {
-            continue;
-        }
-        let sub_decls: Vec<String> = string.split(';').map(|s| s.into()).collect();
-
-        for mut sub_decl in sub_decls {
-            sub_decl = sub_decl.replace('\r', "");
-
-            if !sub_decl.is_empty() {
-                let split_string: Vec<String> = sub_decl.split(' ').map(|s| s.into()).collect();
-                let variable_type = split_string[0].as_str();
-
-                if variable_type == "clock" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            if !var.is_empty() {
-                                clocks.insert(var, counter);
-                                counter += 1;
-                            }
-                        }
-                    }
-                } else if variable_type == "int" {
-                    for split_str in split_string.iter().skip(1) {
-                        let comma_split: Vec<String> =
-                            split_str.split(',').map(|s| s.into()).collect();
-                        for var in comma_split {
-                            ints.insert(var, 0);
-                        }
-                    }
-                } else {
-                    panic!("not implemented read for type: {}", variable_type);
-                }
-            }
-        }
-    }
-
-    Declarations { ints, clocks }
-}
-
 fn decode_sync_type(global_decl: &str) -> SystemSpecification {
     let mut first_run = true;
     let decls: Vec<String> = global_decl.split('\n').map(|s| s.into()).collect();
-- 
2.43.0


From 4fcadb112f6b6c7b16bf4392126cae063cf6c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 14/34] fix: malformed guards, invariants, updates and statuses
 are refused with an error

---
 src/DataReader/parse_edge.rs    | 63 +++++++++++++++++----------------
 src/DataReader/serialization.rs | 20 +++++++----
 2 files changed, 47 insertions(+), 36 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index 6946125..e86c9a7 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -83,12 +83,10 @@ pub fn parse_guard(input: &str) -> Result<BoolExpression, String> {
     let guard = pairs.next().unwrap();
 
     // Check if there are any constraints
-    let result = match guard.into_inner().next() {
+    match guard.into_inner().next() {
         Some(bool_expr) if bool_expr.as_rule() == Rule::boolExpr => parse_bool_expr(bool_expr),
-        _ => BoolExpression::Bool(true),
-    };
-
-    Ok(result)
+        _ => Ok(BoolExpression::Bool(true)),
+    }
 }
 
 /// Parses an update string `input` into a vector of Updates
@@ -108,7 +106,7 @@ pub fn parse_updates(input: &str) -> Result<Vec<Update>, String> {
         let mut updates = Vec::new();
         for assignment in assignments.into_inner() {
             match assignment.as_rule() {
-                Rule::assignment => updates.push(parse_update(assignment)),
+                Rule::assignment => updates.push(parse_update(assignment)?),
                 _ => unreachable!("Unable to match: {:?} as rule, updates", assignment),
             }
         }
@@ -118,74 +116,79 @@ pub fn parse_updates(input: &str) -> Result<Vec<Update>, String> {
     }
 }
 
-fn parse_update(pair: pest::iterators::Pair<Rule>) -> Update {
+fn parse_update(pair: pest::iterators::Pair<Rule>) -> Result<Update, String> {
     let mut inner_pairs = pair.into_inner();
     let variable = inner_pairs.next().unwrap().as_str().to_string();
-    let expression = parse_arith_expr(inner_pairs.next().unwrap())
-        .simplify()
-        .expect("Error simplifying update");
-
-    Update {
+    let expression = parse_arith_expr(inner_pairs.next().unwrap())?;
+    Ok(Update {
         variable,
-        expression,
-    }
+        expression: expression.simplify()?,
+    })
 }
 
-fn parse_bool_expr(pair: pest::iterators::Pair<Rule>) -> BoolExpression {
+fn parse_bool_expr(pair: pest::iterators::Pair<Rule>) -> Result<BoolExpression, String> {
     PRATT
         .map_primary(|pair| match pair.as_rule() {
             Rule::boolExpr => parse_bool_expr(pair),
-            Rule::bool_true => BoolExpression::Bool(true),
-            Rule::bool_false => BoolExpression::Bool(false),
+            Rule::bool_true => Ok(BoolExpression::Bool(true)),
+            Rule::bool_false => Ok(BoolExpression::Bool(false)),
             Rule::comparison => parse_comparison(pair),
             _ => unreachable!("Unable to match: {:?} as rule, bool_expr", pair),
         })
         .map_infix(|left, op, right| match op.as_rule() {
-            Rule::and => BoolExpression::AndOp(Box::new(left), Box::new(right)),
-            Rule::or => BoolExpression::OrOp(Box::new(left), Box::new(right)),
+            Rule::and => Ok(BoolExpression::AndOp(Box::new(left?), Box::new(right?))),
+            Rule::or => Ok(BoolExpression::OrOp(Box::new(left?), Box::new(right?))),
             _ => unreachable!("Unable to match operation: {:?}, bool_expr", op),
         })
         .parse(pair.into_inner())
 }
 
-fn parse_comparison(pair: pest::iterators::Pair<Rule>) -> BoolExpression {
+fn parse_comparison(pair: pest::iterators::Pair<Rule>) -> Result<BoolExpression, String> {
     let mut inner_pairs = pair.into_inner();
     let left_pair = inner_pairs.next().unwrap();
     let op = inner_pairs.next().unwrap();
     let right_pair = inner_pairs.next().unwrap();
 
-    let left = Box::new(parse_arith_expr(left_pair));
-    let right = Box::new(parse_arith_expr(right_pair));
+    let left = Box::new(parse_arith_expr(left_pair)?);
+    let right = Box::new(parse_arith_expr(right_pair)?);
 
-    match op.as_rule() {
+    Ok(match op.as_rule() {
         Rule::eq => BoolExpression::EQ(left, right),
         Rule::lt => BoolExpression::LessT(left, right),
         Rule::leq => BoolExpression::LessEQ(left, right),
         Rule::gt => BoolExpression::GreatT(left, right),
         Rule::geq => BoolExpression::GreatEQ(left, right),
         _ => unreachable!("Unable to match: {:?} as rule, comparison", op),
-    }
+    })
 }
 
-fn parse_arith_expr(pair: pest::iterators::Pair<Rule>) -> ArithExpression {
+fn parse_arith_expr(pair: pest::iterators::Pair<Rule>) -> Result<ArithExpression, String> {
     PRATT
         .map_primary(|pair| match pair.as_rule() {
             Rule::arithExpr => parse_arith_expr(pair),
-            Rule::int => ArithExpression::Int(pair.as_str().parse().unwrap()),
-            Rule::variable => ArithExpression::VarName(pair.as_str().to_string()),
+            Rule::int => match pair.as_str().parse() {
+                Ok(value) => Ok(ArithExpression::Int(value)),
+                Err(e) => Err(format!("Could not read {}: {}", pair.as_str(), e)),
+            },
+            Rule::variable => Ok(ArithExpression::VarName(pair.as_str().to_string())),
             _ => panic!("Unable to match: {:?} as rule, arith", pair),
         })
         .map_infix(|left, op, right| {
-            let left = Box::new(left);
-            let right = Box::new(right);
-            match op.as_rule() {
+            let left = Box::new(left?);
+            let right = Box::new(right?);
+            let expression = match op.as_rule() {
                 Rule::add => ArithExpression::Addition(left, right),
                 Rule::sub => ArithExpression::Difference(left, right),
                 Rule::mul => ArithExpression::Multiplication(left, right),
                 Rule::div => ArithExpression::Division(left, right),
                 Rule::r#mod => ArithExpression::Modulo(left, right),
                 _ => unreachable!("Unable to match: {:?} as rule, arith", op),
+            };
+            // Refuses divisions by zero and values that are out of range
+            if expression.clock_var_count() == 0 {
+                expression.as_sum()?;
             }
+            Ok(expression)
         })
         .parse(pair.into_inner())
 }
diff --git a/src/DataReader/serialization.rs b/src/DataReader/serialization.rs
index 4c80bae..17e0be4 100644
--- a/src/DataReader/serialization.rs
+++ b/src/DataReader/serialization.rs
@@ -261,10 +261,12 @@ where
     if s.is_empty() {
         return Ok(None);
     }
-    match parse_edge::parse_guard(&s) {
-        Ok(edgeAttribute) => Ok(Some(edgeAttribute)),
-        Err(e) => panic!("Could not parse invariant {} got error: {:?}", s, e),
-    }
+    parse_edge::parse_guard(&s).map(Some).map_err(|err| {
+        serde::de::Error::custom(format!(
+            "Could not parse invariant {} got error: {:?}",
+            s, err
+        ))
+    })
 }
 
 //Function used for deserializing sync types
@@ -276,7 +278,10 @@ where
     match s.as_str() {
         "INPUT" => Ok(SyncType::Input),
         "OUTPUT" => Ok(SyncType::Output),
-        _ => panic!("Unknown sync type in status {:?}", s),
+        _ => Err(serde::de::Error::custom(format!(
+            "Unknown sync type in status {:?}",
+            s
+        ))),
     }
 }
 
@@ -317,7 +322,10 @@ where
         "INITIAL" => Ok(LocationType::Initial),
         "UNIVERSAL" => Ok(LocationType::Universal),
         "INCONSISTENT" => Ok(LocationType::Inconsistent),
-        _ => panic!("Unknown sync type in status {:?}", s),
+        _ => Err(serde::de::Error::custom(format!(
+            "Unknown location type {:?}",
+            s
+        ))),
     }
 }
 
-- 
2.43.0


From 4329c4ffc3155f9b3e5c80d69d2fb7545e499bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 15/34] fix: states with || and ! and without spaces are read,
 other text after a system or too large numbers are refused

---
 src/DataReader/grammars/query_grammar.pest    |  16 ++-
 src/DataReader/parse_queries.rs               | 107 +++++++++---------
 .../Expressions/state_expression.rs           |   2 +-
 3 files changed, 67 insertions(+), 58 deletions(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index 2571891..965c04a 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -1,5 +1,9 @@
 queries = _{SOI ~ queryList ~ EOI}
 
+system = _{SOI ~ expr ~ EOI}
+
+wholeState = _{SOI ~ state ~ EOI}
+
 queryList = { query ~ (";" ~ query)*}
 
 query = {refinement | consistency | reachability | implementation | determinism | specification | getComponent | prune | bisim /*| logicFormulas*/}
@@ -48,11 +52,11 @@ potentially = {"A<>" ~ boolExpr} // TODO: Should include the system to be checke
 
 state = { boolExpr }
 
-boolExpr = _{andExpr}
+boolExpr = _{orExpr}
 
-andExpr = { orExpr ~ (("&&" | "and") ~ orExpr)* }
+orExpr = { andExpr ~ (("||" | "or") ~ andExpr)* }
 
-orExpr = { subExpr ~ (("||" | "or") ~ subExpr)* }
+andExpr = { subExpr ~ (("&&" | "and") ~ subExpr)* }
 
 subExpr = _{parenthesizedSubExp | notExpr | compExpr | locExpr | bool_true | bool_false}
 
@@ -60,7 +64,9 @@ locExpr = { variable }
 
 compExpr = {boolDiff ~ operator ~ boolDiff}
 
-notExpr = {("not" | "!") ~ boolExpr}
+notExpr = {(not_word | "!") ~ subExpr}
+
+not_word = @{ "not" ~ !(ASCII_ALPHANUMERIC | "_") }
 
 parenthesizedSubExp = _{ "(" ~ boolExpr ~ ")"}
 
@@ -79,7 +85,7 @@ bool_false = { "false" }
 sum_op = { "+" }
 sub_op = { "-" }
 
-variable_name = @{(ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_" )*) ~ !"-" }
+variable_name = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_" )* }
 
 identifier = @{(!"[" ~ !"]" ~ ANY )+}
 
diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index 1a1f889..65ac001 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -80,50 +80,48 @@ pub fn parse_operand(pair: pest::iterators::Pair<Rule>) -> OperandExpression {
 }
 
 fn parse_state(pair: pest::iterators::Pair<Rule>) -> StateExpression {
-    PRATT
-        .map_primary(|pair| match pair.as_rule() {
-            Rule::andExpr | Rule::orExpr => {
-                let rule = pair.as_rule();
+    match pair.as_rule() {
+        Rule::state => parse_state(pair.into_inner().next().unwrap()),
+        Rule::andExpr | Rule::orExpr => {
+            let rule = pair.as_rule();
 
-                let mut inner = pair.into_inner();
-                let len = inner.clone().count();
-                if len == 1 {
-                    return parse_state(inner.next().unwrap());
-                }
-                match rule {
-                    Rule::andExpr => StateExpression::AND(inner.map(parse_state).collect()),
-                    Rule::orExpr => StateExpression::OR(inner.map(parse_state).collect()),
-                    _ => unreachable!(),
-                }
+            let mut inner = pair.into_inner();
+            if inner.len() == 1 {
+                return parse_state(inner.next().unwrap());
             }
-            Rule::notExpr => {
-                StateExpression::NOT(Box::new(parse_state(pair.into_inner().next().unwrap())))
+            match rule {
+                Rule::andExpr => StateExpression::AND(inner.map(parse_state).collect()),
+                Rule::orExpr => StateExpression::OR(inner.map(parse_state).collect()),
+                _ => unreachable!(),
             }
-            Rule::compExpr => {
-                let mut pairs = pair.into_inner();
-                let first = pairs.next().unwrap();
-                let op = pairs.next().unwrap();
-                let second = pairs.next().unwrap();
-
-                let first = parse_operand(first);
-                let second = parse_operand(second);
-                match op.as_rule() {
-                    Rule::leq_op => StateExpression::LEQ(first, second),
-                    Rule::geq_op => StateExpression::GEQ(first, second),
-                    Rule::eq_op => StateExpression::EQ(first, second),
-                    Rule::lt_op => StateExpression::LT(first, second),
-                    Rule::gt_op => StateExpression::GT(first, second),
-                    _ => unreachable!(),
-                }
+        }
+        Rule::notExpr => {
+            StateExpression::NOT(Box::new(parse_state(pair.into_inner().last().unwrap())))
+        }
+        Rule::compExpr => {
+            let mut pairs = pair.into_inner();
+            let first = pairs.next().unwrap();
+            let op = pairs.next().unwrap();
+            let second = pairs.next().unwrap();
+
+            let first = parse_operand(first);
+            let second = parse_operand(second);
+            match op.as_rule() {
+                Rule::leq_op => StateExpression::LEQ(first, second),
+                Rule::geq_op => StateExpression::GEQ(first, second),
+                Rule::eq_op => StateExpression::EQ(first, second),
+                Rule::lt_op => StateExpression::LT(first, second),
+                Rule::gt_op => StateExpression::GT(first, second),
+                _ => unreachable!(),
             }
-            Rule::locExpr => StateExpression::Location(comp_var_from_variable_pair(
-                pair.into_inner().next().unwrap(),
-            )),
-            Rule::bool_true => StateExpression::Bool(true),
-            Rule::bool_false => StateExpression::Bool(false),
-            _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
-        })
-        .parse(pair.into_inner())
+        }
+        Rule::locExpr => StateExpression::Location(comp_var_from_variable_pair(
+            pair.into_inner().next().unwrap(),
+        )),
+        Rule::bool_true => StateExpression::Bool(true),
+        Rule::bool_false => StateExpression::Bool(false),
+        _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
+    }
 }
 
 fn comp_var_from_variable_pair(pair: pest::iterators::Pair<Rule>) -> ComponentVariable {
@@ -219,6 +217,20 @@ pub fn test_parse() {
     parse_to_expression_tree(input).unwrap();
 }
 
+fn parse_rule(rule: Rule, input: &str) -> Result<pest::iterators::Pairs<Rule>, String> {
+    let pairs = QueryParser::parse(rule, input)
+        .map_err(|e| format!("Could not parse as rule with error: {}", e))?;
+
+    match pairs
+        .clone()
+        .flatten()
+        .find(|pair| pair.as_rule() == Rule::int && pair.as_str().parse::<i32>().is_err())
+    {
+        Some(int) => Err(format!("The number {} is out of range", int.as_str())),
+        None => Ok(pairs),
+    }
+}
+
 pub fn parse_to_query(input: &str) -> Vec<Query> {
     parse_to_expression_tree(input)
         .expect("Parsing failed")
@@ -231,10 +243,7 @@ pub fn parse_to_query(input: &str) -> Vec<Query> {
 }
 
 pub fn parse_to_expression_tree(input: &str) -> Result<Vec<QueryExpression>, String> {
-    let mut pairs = match QueryParser::parse(Rule::queries, input) {
-        Ok(pairs) => pairs,
-        Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
-    };
+    let mut pairs = parse_rule(Rule::queries, input)?;
 
     let result = parse_queries(pairs.next().unwrap());
 
@@ -242,10 +251,7 @@ pub fn parse_to_expression_tree(input: &str) -> Result<Vec<QueryExpression>, Str
 }
 
 pub fn parse_to_system_expr(input: &str) -> Result<SystemExpression, String> {
-    let mut pairs = match QueryParser::parse(Rule::expr, input) {
-        Ok(pairs) => pairs,
-        Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
-    };
+    let mut pairs = parse_rule(Rule::system, input)?;
 
     let result = parse_system(pairs.next().unwrap());
 
@@ -253,10 +259,7 @@ pub fn parse_to_system_expr(input: &str) -> Result<SystemExpression, String> {
 }
 
 pub fn parse_to_state_expr(input: &str) -> Result<StateExpression, String> {
-    let mut pairs = match QueryParser::parse(Rule::state, input) {
-        Ok(pairs) => pairs,
-        Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
-    };
+    let mut pairs = parse_rule(Rule::wholeState, input)?;
 
     let result = parse_state(pairs.next().unwrap());
 
diff --git a/src/ModelObjects/Expressions/state_expression.rs b/src/ModelObjects/Expressions/state_expression.rs
index 4d3bbf4..298272a 100644
--- a/src/ModelObjects/Expressions/state_expression.rs
+++ b/src/ModelObjects/Expressions/state_expression.rs
@@ -142,7 +142,7 @@ impl StateExpression {
                 }))
             }
             StateExpression::NOT(_expr) => {
-                unimplemented!("NOT expressions are not supported yet")
+                Err("NOT expressions are not supported yet".to_string())
             }
             StateExpression::Location(_) => {
                 // Locations here should just be ignored
-- 
2.43.0


From f7671c085f2ea3d45a38f78095b5ebe2db2d0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 16/34] fix: show save-as after the system, where it is written

---
 src/ModelObjects/Expressions/query_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelObjects/Expressions/query_expression.rs b/src/ModelObjects/Expressions/query_expression.rs
index 78d78f2..0139954 100644
--- a/src/ModelObjects/Expressions/query_expression.rs
+++ b/src/ModelObjects/Expressions/query_expression.rs
@@ -61,7 +61,7 @@ impl Display for SystemExpression {
 impl Display for SaveExpression {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match &self.name {
-            Some(name) => write!(f, "{} save-as {}", name, self.system),
+            Some(name) => write!(f, "{} save-as {}", self.system, name),
             None => write!(f, "{}", self.system),
         }
     }
-- 
2.43.0


From f329c5c8c2204060e7216b31c7219764414490cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 17/34] fix: malformed queries are refused with an error
 instead of a panic

---
 src/ModelObjects/queries.rs                     | 14 ++++++++++----
 src/ProtobufServer/ecdar_requests/send_query.rs |  8 ++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ModelObjects/queries.rs b/src/ModelObjects/queries.rs
index 411fe75..47aa505 100644
--- a/src/ModelObjects/queries.rs
+++ b/src/ModelObjects/queries.rs
@@ -1,6 +1,6 @@
 use crate::DataReader::parse_queries;
 use crate::ModelObjects::Expressions;
-use serde::{Deserialize, Deserializer};
+use serde::{de, Deserialize, Deserializer};
 
 /// The struct containing a single query
 #[derive(Debug, Deserialize, Clone)]
@@ -28,11 +28,17 @@ where
         return Ok(None);
     }
 
-    let queries = parse_queries::parse_to_expression_tree(&s).unwrap();
+    let queries = parse_queries::parse_to_expression_tree(&s).map_err(de::Error::custom)?;
     if queries.len() > 1 {
-        panic!("Could not parse query {} contains multiple queries", s);
+        Err(de::Error::custom(format!(
+            "Could not parse query {} contains multiple queries",
+            s
+        )))
     } else if queries.is_empty() {
-        panic!("Could not parse query {} contains no queries", s);
+        Err(de::Error::custom(format!(
+            "Could not parse query {} contains no queries",
+            s
+        )))
     } else {
         Ok(queries.into_iter().next())
     }
diff --git a/src/ProtobufServer/ecdar_requests/send_query.rs b/src/ProtobufServer/ecdar_requests/send_query.rs
index ccf52a0..fa65443 100644
--- a/src/ProtobufServer/ecdar_requests/send_query.rs
+++ b/src/ProtobufServer/ecdar_requests/send_query.rs
@@ -74,14 +74,18 @@ impl ConcreteEcdarBackend {
 }
 
 fn parse_query(query_request: &QueryRequest) -> Result<Query, Status> {
-    let mut queries = parse_queries::parse_to_query(&query_request.query);
+    let mut queries = parse_queries::parse_to_expression_tree(&query_request.query)
+        .map_err(Status::invalid_argument)?;
 
     if queries.len() != 1 {
         Err(Status::invalid_argument(
             "This procedure takes in exactly 1 query",
         ))
     } else {
-        Ok(queries.remove(0))
+        Ok(Query {
+            query: queries.pop(),
+            comment: "".to_string(),
+        })
     }
 }
 
-- 
2.43.0


From 940fd59226741e2165031cfe01ba904f4bf34ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 18/34] fix: refuse states that name components the system does
 not have, or either of several locations

---
 src/System/extract_state.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index 3de219f..d33e3fb 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -22,8 +22,7 @@ pub fn get_state(
 
     if let Some((c1, c2)) = components
         .iter()
-        .cartesian_product(components.iter())
-        .filter(|(&c1, &c2)| c1 != c2)
+        .tuple_combinations()
         .find(|(c1, c2)| c1.name == c2.name && c1.special_id == c2.special_id)
     {
         return Err(format!(
@@ -50,6 +49,15 @@ pub fn get_state(
         ));
     }
 
+    // Check that the locations belong to the system
+    if let Some(loc) = locations.iter().find(|loc| {
+        !components
+            .iter()
+            .any(|c| c.name == loc.component && c.special_id == loc.special_id)
+    }) {
+        return Err(format!("Component of location {} not found", loc));
+    }
+
     let loc_tree = construct_location_tree(&locations, recipe, system)?;
 
     let zone =
@@ -70,17 +78,15 @@ fn get_locations(expr: &StateExpression) -> Result<Vec<ComponentVariable>, Strin
             Ok(res)
         }
         StateExpression::OR(exprs) => {
-            let mut res = Vec::new();
             for expr in exprs {
-                res.append(&mut get_locations(expr)?);
+                if !get_locations(expr)?.is_empty() {
+                    return Err(format!(
+                        "We do not support disjunctions of locations: {}",
+                        expr
+                    ));
+                }
             }
-            if res.len() != 1 {
-                return Err(format!(
-                    "We do not support disjunctions with more than one location: {:?}",
-                    expr
-                ));
-            }
-            Ok(res)
+            Ok(Vec::new())
         }
         StateExpression::Location(loc) => Ok(vec![loc.clone()]),
         StateExpression::NOT(expr) => {
-- 
2.43.0


From d34ae7d077eb32c968aabd5b15ec61841c57fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 19/34] fix: a clock given several values by one update keeps
 the last when undone

---
 src/ModelObjects/transition.rs | 5 ++---
 src/System/input_enabler.rs    | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index ddd14b0..5020a92 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -125,10 +125,9 @@ impl Transition {
     }
 
     pub fn inverse_apply_updates(&self, mut fed: OwnedFederation) -> OwnedFederation {
-        for update in &self.updates {
+        // Undone from the last to the first: of several values for one clock the last stays
+        for update in self.updates.iter().rev() {
             fed = update.apply_as_guard(fed);
-        }
-        for update in &self.updates {
             fed = update.apply_as_free(fed);
         }
 
diff --git a/src/System/input_enabler.rs b/src/System/input_enabler.rs
index c5ddd44..7a24351 100644
--- a/src/System/input_enabler.rs
+++ b/src/System/input_enabler.rs
@@ -49,8 +49,9 @@ pub fn make_input_enabled(component: &mut Component, inputs: &[String]) {
                     .unwrap();
                 }
 
+                // Undone from the last to the first: of several values for one clock the last stays
                 if let Some(updates) = &edge.update {
-                    for update in updates {
+                    for update in updates.iter().rev() {
                         let cu = update.compiled(component.get_declarations());
                         guard_zone = cu.apply_as_guard(guard_zone);
                         guard_zone = cu.apply_as_free(guard_zone);
-- 
2.43.0


From 9144493cc60b659380711f08582e924793af3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 20/34] fix: components made from systems name every clock once
 and number their clocks without gaps

---
 src/System/save_component.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 2817ac0..6483cc6 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -34,7 +34,7 @@ pub fn combine_components(
         name: "".to_string(),
         declarations: Declarations {
             ints: HashMap::new(),
-            clocks,
+            clocks: number_clocks(clocks),
         },
         locations,
         edges,
@@ -70,8 +70,10 @@ pub fn get_locations_from_trees(
         .collect()
 }
 
+/// Names every clock of the system once. Clocks of different components with the same name
+/// are told apart by the index of their component.
 pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex> {
-    let mut clocks = HashMap::new();
+    let mut clocks: HashMap<String, ClockIndex> = HashMap::new();
     let decls = sysrep.get_decls();
 
     if decls.len() == 1 {
@@ -79,17 +81,33 @@ pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex
     }
     for (comp_id, decl) in decls.into_iter().enumerate() {
         for (k, v) in &decl.clocks {
-            if clocks.contains_key(k) {
-                clocks.insert(format!("{}{}", k, comp_id), *v);
-            } else {
-                clocks.insert(k.clone(), *v);
+            // Components can share a clock
+            if clocks.values().any(|index| index == v) {
+                continue;
             }
+            let mut name = k.clone();
+            while clocks.contains_key(&name) {
+                name = format!("{}{}", name, comp_id);
+            }
+            clocks.insert(name, *v);
         }
     }
 
     clocks
 }
 
+/// The clocks of a component are numbered from one, without the gaps that clocks which are no
+/// longer in use leave in the system
+fn number_clocks(clocks: HashMap<String, ClockIndex>) -> HashMap<String, ClockIndex> {
+    let mut clocks: Vec<(String, ClockIndex)> = clocks.into_iter().collect();
+    clocks.sort_by_key(|(_, index)| *index);
+    clocks
+        .into_iter()
+        .enumerate()
+        .map(|(position, (name, _))| (name, position + 1))
+        .collect()
+}
+
 fn collect_all_edges_and_locations(
     representation: &TransitionSystemPtr,
     locations: &mut Vec<LocationTree>,
-- 
2.43.0


From 403c6f87254bed25137bfaa9858f1cafbcc21015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 21/34] fix: consistency answers do not change with the order
 of a hash set

---
 src/System/local_consistency.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 54580a3..74fb119 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -1,4 +1,5 @@
 use edbm::zones::OwnedFederation;
+use itertools::Itertools;
 use log::warn;
 
 use crate::ModelObjects::State;
@@ -119,7 +120,8 @@ fn consistency_least_moves(
     failed_list: &mut Vec<(State, ConsistencyFailure)>,
     system: &dyn TransitionSystem,
 ) -> ConsistencyResult {
-    for input in system.get_input_actions() {
+    // In a fixed order: what has been passed or has failed before can make a difference
+    for input in system.get_input_actions().into_iter().sorted() {
         for transition in &system.next_inputs(&state.decorated_locations, &input) {
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
@@ -134,7 +136,7 @@ fn consistency_least_moves(
         return Ok(());
     }
 
-    for output in system.get_output_actions() {
+    for output in system.get_output_actions().into_iter().sorted() {
         for transition in system.next_outputs(&state.decorated_locations, &output) {
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
-- 
2.43.0


From 4c2710ab52e1bdc7dda0f57f54c30d837397e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 22/34] fix: pruning reports systems it cannot prune, and works
 in the dimension of the pruned component

---
 src/System/extract_system_rep.rs |  2 +-
 src/System/pruning.rs            | 18 ++++++++----------
 src/System/save_component.rs     |  9 ++-------
 3 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/System/extract_system_rep.rs b/src/System/extract_system_rep.rs
index 65619df..ca40590 100644
--- a/src/System/extract_system_rep.rs
+++ b/src/System/extract_system_rep.rs
@@ -158,7 +158,7 @@ pub fn create_executable_query<'a>(
                 }
 
                 Ok(Box::new(GetComponentExecutor {
-                    system: pruning::prune_system(recipe.compile(dim)?, dim),
+                    system: pruning::prune_system(recipe.compile(dim)?)?,
                     comp_name: name.clone().unwrap_or("Unnamed".to_string()),
                     component_loader,
                 }))
diff --git a/src/System/pruning.rs b/src/System/pruning.rs
index a234060..efd0413 100644
--- a/src/System/pruning.rs
+++ b/src/System/pruning.rs
@@ -10,22 +10,21 @@ use crate::TransitionSystems::TransitionSystemPtr;
 use crate::TransitionSystems::{CompiledComponent, LocationTree};
 use std::collections::{HashMap, HashSet};
 
+use super::query_failures::SystemRecipeFailure;
 use super::save_component::PruningStrategy;
 
-pub fn prune_system(ts: TransitionSystemPtr, dim: ClockIndex) -> TransitionSystemPtr {
+pub fn prune_system(
+    ts: TransitionSystemPtr,
+) -> Result<TransitionSystemPtr, Box<SystemRecipeFailure>> {
+    // A system which is not least consistent cannot be pruned
     ts.precheck_sys_rep()
-        .expect("Cannot prune transitions system which is not least consistent");
+        .map_err(|failure| failure.to_recipe_failure(ts.as_ref()))?;
 
     let inputs = ts.get_input_actions();
     let outputs = ts.get_output_actions();
     let comp = combine_components(&ts, PruningStrategy::NoPruning);
 
-    let mut input_map: HashMap<String, Vec<String>> = HashMap::new();
-    input_map.insert(comp.name.clone(), inputs.iter().cloned().collect());
-
-    let result = prune(&comp, dim, inputs, outputs);
-
-    result.unwrap()
+    prune(&comp, ts.get_dim(), inputs, outputs).map(|comp| comp as TransitionSystemPtr)
 }
 
 struct PruneContext {
@@ -86,7 +85,7 @@ pub fn prune(
     dim: ClockIndex,
     inputs: HashSet<String>,
     outputs: HashSet<String>,
-) -> Result<Box<CompiledComponent>, String> {
+) -> Result<Box<CompiledComponent>, Box<SystemRecipeFailure>> {
     let new_comp = comp.clone();
     let inconsistent_locs: Vec<_> = new_comp
         .locations
@@ -144,7 +143,6 @@ pub fn prune(
     );
 
     CompiledComponent::compile_with_actions(new_comp, inputs, outputs, dim, 0)
-        .map_err(|e| format!("Pruning failed: {}", e))
 }
 
 fn add_inconsistent_parts_to_invariants(
diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 6483cc6..376e0b3 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -74,14 +74,9 @@ pub fn get_locations_from_trees(
 /// are told apart by the index of their component.
 pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex> {
     let mut clocks: HashMap<String, ClockIndex> = HashMap::new();
-    let decls = sysrep.get_decls();
-
-    if decls.len() == 1 {
-        return decls[0].clocks.clone();
-    }
-    for (comp_id, decl) in decls.into_iter().enumerate() {
+    for (comp_id, decl) in sysrep.get_decls().into_iter().enumerate() {
         for (k, v) in &decl.clocks {
-            // Components can share a clock
+            // Components can share a clock, and so can the names of one component
             if clocks.values().any(|index| index == v) {
                 continue;
             }
-- 
2.43.0


From 30c5b4524232c39494524567e1cd8e39f7d49c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 23/34] fix: an offered simulation decision of a
 nondeterministic system can be taken

---
 src/Simulation/decision.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Simulation/decision.rs b/src/Simulation/decision.rs
index 2b18f4c..34ebebd 100644
--- a/src/Simulation/decision.rs
+++ b/src/Simulation/decision.rs
@@ -14,7 +14,7 @@ impl Decision {
     /// Resolves a [`Decision`]: use the `action` in the `state` and return a [`Vec`] of the possible [`Decision`]s from the destination [`State`].
     ///
     /// # Panics
-    /// Panics if the [`Decision`] leads to no new states or is ambiguous (leads to multiple new states)
+    /// Panics if the [`Decision`] leads to no new states, or to several none of which is its `next_state`
     pub fn resolve(&self, system: &TransitionSystemPtr) -> Vec<Decision> {
         let transitions = system.next_transitions(&self.state.decorated_locations, &self.action);
         let mut next_states: Vec<_> = transitions
@@ -22,13 +22,16 @@ impl Decision {
             .filter_map(|transition| transition.use_transition_alt(&self.state))
             .collect();
 
-        assert_ne!(next_states.len(), 0, "Decision leads to no new states");
-        assert_eq!(
-            next_states.len(),
-            1,
-            "Ambiguous decision leads to multiple new states"
-        );
+        // In a nondeterministic system the destination tells which of them was decided on
+        if next_states.len() > 1 {
+            next_states.retain(|state| {
+                state.decorated_locations == self.next_state.decorated_locations
+                    && state.zone_ref().equals(self.next_state.zone_ref())
+            });
+            next_states.truncate(1);
+        }
 
+        assert_ne!(next_states.len(), 0, "Decision leads to no new states");
         let next_state = next_states.pop().unwrap();
 
         Decision::get_decisions_from_state(next_state, system)
-- 
2.43.0


From 3b977c2ca764f3f5b971e05016e75d9faff685ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 24/34] fix: system declarations are read whatever their
 spacing and comments

---
 src/DataReader/xml_parser.rs            |  94 +-----------------
 src/ModelObjects/system_declarations.rs | 121 +++++++++++-------------
 2 files changed, 58 insertions(+), 157 deletions(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index b3f081e..dc487eb 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -2,11 +2,10 @@ use crate::DataReader::parse_edge;
 use crate::DataReader::parse_edge::Update;
 use crate::DataReader::serialization::parse_declarations;
 use crate::ModelObjects::{
-    Component, Declarations, Edge, Location, LocationType, Query, SyncType, SystemDeclarations,
-    SystemSpecification,
+    parse_system_specification, Component, Declarations, Edge, Location, LocationType, Query,
+    SyncType, SystemDeclarations,
 };
 use elementtree::{Element, FindChildren};
-use std::collections::HashMap;
 use std::fs::File;
 use std::io::BufReader;
 use std::io::Read;
@@ -64,7 +63,7 @@ fn parse_xml<R: Read>(xml_data: R) -> (Vec<Component>, SystemDeclarations, Vec<Q
 
     let system_declarations = SystemDeclarations {
         //name: "".to_string(),
-        declarations: decode_sync_type(root.find("system").unwrap().text()),
+        declarations: parse_system_specification(root.find("system").unwrap().text()),
     };
 
     (xml_components, system_declarations, vec![])
@@ -145,90 +144,3 @@ fn collect_edges(xml_edges: FindChildren) -> Vec<Edge> {
 
     edges
 }
-
-fn decode_sync_type(global_decl: &str) -> SystemSpecification {
-    let mut first_run = true;
-    let decls: Vec<String> = global_decl.split('\n').map(|s| s.into()).collect();
-    let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut components: Vec<String> = vec![];
-
-    let mut component_names: Vec<String> = vec![];
-
-    for declaration in &decls {
-        //skip comments
-        if declaration.starts_with("//") || declaration.is_empty() {
-            continue;
-        }
-
-        if !declaration.trim().is_empty() {
-            if first_run {
-                let component_decls = declaration;
-
-                component_names = component_decls
-                    .split(' ')
-                    .map(|s| s.chars().filter(|c| !c.is_whitespace()).collect())
-                    .collect();
-
-                if component_names[0] == "system" {
-                    //do not include element 0 as that is the system keyword
-                    for name in component_names.iter_mut().skip(1) {
-                        let s = name.replace(',', "");
-                        let s_cleaned = s.replace(';', "");
-                        *name = s_cleaned.clone();
-                        components.push(s_cleaned);
-                    }
-                    first_run = false;
-                } else {
-                    panic!("Unexpected format of system declarations. Missing system in beginning of {:?}", component_names)
-                }
-            }
-
-            let split_string: Vec<String> = declaration.split(' ').map(|s| s.into()).collect();
-            if split_string[0].as_str() == "IO" {
-                let component_name = split_string[1].clone();
-
-                if component_names.contains(&component_name) {
-                    for split_str in split_string.iter().skip(2) {
-                        let mut s = split_str.replace('{', "");
-                        s = s.replace('\r', "");
-                        s = s.replace('\n', "");
-                        let p = s.replace('}', "");
-                        let comp_actions: Vec<String> = p.split(',').map(|s| s.into()).collect();
-                        for action in comp_actions {
-                            if action.is_empty() {
-                                continue;
-                            }
-                            if action.ends_with('?') {
-                                let r = action.replace('?', "");
-                                if let Some(Channel_vec) = input_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r)
-                                } else {
-                                    let Channel_vec = vec![r];
-                                    input_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else if action.ends_with('!') {
-                                let r = action.replace('!', "");
-                                if let Some(Channel_vec) = output_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r.clone())
-                                } else {
-                                    let Channel_vec = vec![r.clone()];
-                                    output_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else {
-                                panic!("Channel type not defined for Channel {:?}", action)
-                            }
-                        }
-                    }
-                } else {
-                    panic!("Was not able to find component name: {:?} in declared component names: {:?}", component_name, component_names)
-                }
-            }
-        }
-    }
-    SystemSpecification {
-        components,
-        input_actions,
-        output_actions,
-    }
-}
diff --git a/src/ModelObjects/system_declarations.rs b/src/ModelObjects/system_declarations.rs
index ff71f90..309a2ce 100644
--- a/src/ModelObjects/system_declarations.rs
+++ b/src/ModelObjects/system_declarations.rs
@@ -66,83 +66,72 @@ where
     D: Deserializer<'de>,
 {
     let s = String::deserialize(deserializer)?;
-    let mut first_run = true;
-    let decls: Vec<String> = s.split('\n').map(|s| s.into()).collect();
+    Ok(parse_system_specification(&s))
+}
+
+/// Parses the text of system declarations: first a line `system A, B;` naming the components,
+/// then for each component a line `IO A { input?, output! }` declaring its actions.
+/// The spacing is free, and `//` starts a comment.
+pub(crate) fn parse_system_specification(text: &str) -> SystemSpecification {
     let mut input_actions: HashMap<String, Vec<String>> = HashMap::new();
     let mut output_actions: HashMap<String, Vec<String>> = HashMap::new();
-    let mut components: Vec<String> = vec![];
+    let mut component_names: Option<Vec<String>> = None;
+
+    for line in text.lines() {
+        let declaration = line.split("//").next().unwrap_or_default();
+        let mut words = declaration
+            .split(|c: char| c.is_whitespace() || matches!(c, ',' | ';' | '{' | '}'))
+            .filter(|word| !word.is_empty());
 
-    let mut component_names: Vec<String> = vec![];
+        let keyword = match words.next() {
+            Some(keyword) => keyword,
+            None => continue,
+        };
+
+        let component_names = match &component_names {
+            Some(names) => names,
+            None if keyword == "system" => {
+                debug!("Comp decls: {declaration}");
+                component_names = Some(words.map(String::from).collect());
+                continue;
+            }
+            None => panic!(
+                "Unexpected format of system declarations. Missing system in beginning of {:?}",
+                declaration
+            ),
+        };
 
-    for declaration in &decls {
-        //skip comments
-        if declaration.starts_with("//") || declaration.is_empty() {
+        if keyword != "IO" {
             continue;
         }
 
-        if !declaration.is_empty() {
-            if first_run {
-                let component_decls = &declaration;
-                debug!("Comp decls: {component_decls}");
-                component_names = component_decls.split(' ').map(|s| s.into()).collect();
-
-                if component_names[0] == "system" {
-                    //do not include element 0 as that is the system keyword
-                    for name in component_names.iter_mut().skip(1) {
-                        let s = name.replace(',', "");
-                        let s_cleaned = s.replace(';', "");
-                        *name = s_cleaned.clone();
-                        components.push(s_cleaned);
-                    }
-                    first_run = false;
-                } else {
-                    panic!("Unexpected format of system declarations. Missing system in beginning of {:?}", component_names)
-                }
-            }
+        let component_name = words.next().unwrap_or_default().to_string();
+        if !component_names.contains(&component_name) {
+            panic!(
+                "Was not able to find component name: {:?} in declared component names: {:?}",
+                component_name, component_names
+            )
+        }
+
+        for word in words {
+            let (actions, action) = if let Some(input) = word.strip_suffix('?') {
+                (&mut input_actions, input.to_string())
+            } else if let Some(output) = word.strip_suffix('!') {
+                (&mut output_actions, output.to_string())
+            } else {
+                panic!("Channel type not defined for Channel {:?}", word)
+            };
 
-            let split_string: Vec<String> = declaration.split(' ').map(|s| s.into()).collect();
-            if split_string[0].as_str() == "IO" {
-                let component_name = split_string[1].clone();
-
-                if component_names.contains(&component_name) {
-                    for split_str in split_string.iter().skip(2) {
-                        let s = split_str.replace('{', "");
-                        let p = s.replace('}', "");
-                        let comp_actions: Vec<String> = p.split(',').map(|s| s.into()).collect();
-                        for action in comp_actions {
-                            if action.is_empty() {
-                                continue;
-                            }
-                            if action.ends_with('?') {
-                                let r = action.replace('?', "");
-                                if let Some(Channel_vec) = input_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r)
-                                } else {
-                                    let Channel_vec = vec![r];
-                                    input_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else if action.ends_with('!') {
-                                let r = action.replace('!', "");
-                                if let Some(Channel_vec) = output_actions.get_mut(&component_name) {
-                                    Channel_vec.push(r.clone())
-                                } else {
-                                    let Channel_vec = vec![r.clone()];
-                                    output_actions.insert(component_name.clone(), Channel_vec);
-                                }
-                            } else {
-                                panic!("Channel type not defined for Channel {:?}", action)
-                            }
-                        }
-                    }
-                } else {
-                    panic!("Was not able to find component name: {:?} in declared component names: {:?}", component_name, component_names)
-                }
+            let actions = actions.entry(component_name.clone()).or_default();
+            if !actions.contains(&action) {
+                actions.push(action);
             }
         }
     }
-    Ok(SystemSpecification {
-        components,
+
+    SystemSpecification {
+        components: component_names.unwrap_or_default(),
         input_actions,
         output_actions,
-    })
+    }
 }
-- 
2.43.0


From caa648bc6a28526216873c6fa840aa33f52296ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 25/34] fix: a path that ends in .xml is an XML project

---
 src/DataReader/xml_parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index dc487eb..ea887c5 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -12,7 +12,10 @@ use std::io::Read;
 use std::path::Path;
 
 pub fn is_xml_project<P: AsRef<Path>>(project_path: P) -> bool {
-    project_path.as_ref().ends_with(".xml")
+    project_path
+        .as_ref()
+        .extension()
+        .map_or(false, |extension| extension == "xml")
 }
 
 ///Used to parse systems described in xml
-- 
2.43.0


From 2084be13c2e7264a48f1971801d1fd527cd9a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 26/34] fix: only the invariant label of an XML location is its
 invariant

---
 src/DataReader/xml_parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DataReader/xml_parser.rs b/src/DataReader/xml_parser.rs
index ea887c5..955c850 100644
--- a/src/DataReader/xml_parser.rs
+++ b/src/DataReader/xml_parser.rs
@@ -77,7 +77,10 @@ fn collect_locations(xml_locations: FindChildren, initial_id: &str) -> Vec<Locat
     for loc in xml_locations {
         let location = Location {
             id: loc.get_attr("id").unwrap().parse().unwrap(),
-            invariant: match loc.find("label") {
+            invariant: match loc
+                .find_all("label")
+                .find(|label| label.get_attr("kind") == Some("invariant"))
+            {
                 Some(x) => match parse_edge::parse_guard(x.text()) {
                     Ok(edgeAttribute) => Some(edgeAttribute),
                     Err(e) => panic!("Could not parse invariant {} got error: {:?}", x.text(), e),
-- 
2.43.0


From d9d49fb4cece298e7dfc6bfca454a8e9586888dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 27/34] fix: a failed action subset names an empty output set
 as outputs

---
 src/System/query_failures.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/System/query_failures.rs b/src/System/query_failures.rs
index 965d138..109d030 100644
--- a/src/System/query_failures.rs
+++ b/src/System/query_failures.rs
@@ -326,10 +326,15 @@ impl ActionFailure {
         (sys2, actions2): (&dyn TransitionSystem, HashSet<String>),
     ) -> Result<(), Box<ActionFailure>> {
         let is_input1 = sys1.get_input_actions() == actions1;
-        let is_input2 = sys2.get_input_actions() == actions2;
+        // The sets are of one kind, and only the second can be empty and so look like either
+        let is_input2 = is_input1;
 
         debug_assert!(is_input1 || sys1.get_output_actions() == actions1);
-        debug_assert!(is_input2 || sys2.get_output_actions() == actions2);
+        debug_assert!(if is_input2 {
+            sys2.get_input_actions() == actions2
+        } else {
+            sys2.get_output_actions() == actions2
+        });
 
         Err(Box::new(ActionFailure::NotSubset(
             ActionSet {
-- 
2.43.0


From ced6530ba04ba28a2aa421360a69c849bed5fd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 28/34] fix: refinement pairs an input only with what its
 target invariants allow

---
 src/System/refine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index abf5fc2..49dc06a 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -349,10 +349,10 @@ fn build_state_pair(
     //Apply guards on both sides
     let (locations1, locations2) = new_sp.get_mut_states(is_state1);
 
-    //Applies the left side guards and checks if zone is valid
-    new_sp_zone = transition1.apply_guards(new_sp_zone);
-    //Applies the right side guards and checks if zone is valid
-    new_sp_zone = transition2.apply_guards(new_sp_zone);
+    //Applies the left side guards and target invariants and checks if zone is valid
+    new_sp_zone = new_sp_zone.intersection(&transition1.get_allowed_federation());
+    //Applies the right side guards and target invariants and checks if zone is valid
+    new_sp_zone = new_sp_zone.intersection(&transition2.get_allowed_federation());
 
     // Continue to the next transition pair if the zone is empty
     if new_sp_zone.is_empty() {
-- 
2.43.0


From 651e4d1efb2167434909ecb6328207df7f86221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 29/34] fix: clock bounds count in universal and inconsistent
 locations too

---
 src/TransitionSystems/compiled_component.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/TransitionSystems/compiled_component.rs b/src/TransitionSystems/compiled_component.rs
index 2bad9ee..947c18d 100644
--- a/src/TransitionSystems/compiled_component.rs
+++ b/src/TransitionSystems/compiled_component.rs
@@ -112,12 +112,9 @@ impl CompiledComponent {
 }
 
 impl TransitionSystem for CompiledComponent {
-    fn get_local_max_bounds(&self, loc: &LocationTree) -> Bounds {
-        if loc.is_universal() || loc.is_inconsistent() {
-            Bounds::new(self.get_dim())
-        } else {
-            self.comp_info.max_bounds.clone()
-        }
+    fn get_local_max_bounds(&self, _loc: &LocationTree) -> Bounds {
+        // Also for universal and inconsistent locations, which can have invariants and outputs
+        self.comp_info.max_bounds.clone()
     }
 
     fn get_dim(&self) -> ClockIndex {
-- 
2.43.0


From 724e924a3a8e355ab7d72a26b5e90ad90556e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:33 +0000
Subject: [PATCH 30/34] fix: a reset of a merged clock takes the last value it
 is given

---
 src/ModelObjects/component.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 6698599..c43dc5f 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -128,7 +128,8 @@ impl Component {
                 if !updates.iter().any(|u| u.variable == name) {
                     continue;
                 }
-                for update in updates {
+                // Of several values for one clock the last stays
+                for update in updates.iter().rev() {
                     if let Ok(ArithExpression::Int(value)) = update.expression.simplify() {
                         invariant.fix_varname(&update.variable, value);
                     }
-- 
2.43.0


From d5b2fae2bf5d31c2614e9e54c922296c2387eec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 31/34] fix: a transition is only taken to where the target's
 invariants hold on entry

---
 src/ModelObjects/transition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index 5020a92..052adb5 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -57,8 +57,10 @@ impl Transition {
         let mut zone = state.take_zone();
         zone = self.apply_guards(zone);
         if !zone.is_empty() {
-            zone = self.apply_updates(zone).up();
+            zone = self.apply_updates(zone);
             self.move_locations(&mut state.decorated_locations);
+            // The invariants must hold on entry, and while time passes afterwards
+            zone = state.decorated_locations.apply_invariants(zone).up();
             zone = state.decorated_locations.apply_invariants(zone);
             if !zone.is_empty() {
                 state.set_zone(zone);
-- 
2.43.0


From c9d9ae3ac8891527493ba98e32f0fe5a98660ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:11 +0000
Subject: [PATCH 32/34] fix: an update is refused when a clock is multiplied,
 divided or taken modulo in it

---
 src/DataReader/parse_edge.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index e86c9a7..be9be90 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -120,6 +120,8 @@ fn parse_update(pair: pest::iterators::Pair<Rule>) -> Result<Update, String> {
     let mut inner_pairs = pair.into_inner();
     let variable = inner_pairs.next().unwrap().as_str().to_string();
     let expression = parse_arith_expr(inner_pairs.next().unwrap())?;
+    // Refuses what no constant can be the value of, such as a clock divided by a clock
+    expression.as_sum()?;
     Ok(Update {
         variable,
         expression: expression.simplify()?,
-- 
2.43.0


From d2ec0df71c76aef4957a13ef213546424deed9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:11 +0000
Subject: [PATCH 33/34] fix: divisions by zero and values out of range beside a
 clock are refused

---
 .../Expressions/arith_expression.rs           | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 935edcf..4e7d341 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -533,7 +533,9 @@ impl ArithExpression {
 
         if let ArithExpression::Int(i) = left {
             if let ArithExpression::Int(j) = right {
-                return ArithExpression::Int(i - j);
+                if let Some(value) = i.checked_sub(j) {
+                    return ArithExpression::Int(value);
+                }
             }
         }
 
@@ -549,7 +551,9 @@ impl ArithExpression {
 
         if let ArithExpression::Int(i) = left {
             if let ArithExpression::Int(j) = right {
-                return ArithExpression::Int(i + j);
+                if let Some(value) = i.checked_add(j) {
+                    return ArithExpression::Int(value);
+                }
             }
         }
 
@@ -563,7 +567,9 @@ impl ArithExpression {
 
         if let ArithExpression::Int(i) = left {
             if let ArithExpression::Int(j) = right {
-                return ArithExpression::Int(i * j);
+                if let Some(value) = i.checked_mul(j) {
+                    return ArithExpression::Int(value);
+                }
             }
         }
 
@@ -571,13 +577,15 @@ impl ArithExpression {
     }
 
     pub fn ADiv(left: ArithExpression, right: ArithExpression) -> ArithExpression {
-        if right == ArithExpression::Int(0) || left == ArithExpression::Int(0) {
+        if right != ArithExpression::Int(0) && left == ArithExpression::Int(0) {
             return ArithExpression::Int(0);
         }
 
         if let ArithExpression::Int(i) = left {
             if let ArithExpression::Int(j) = right {
-                return ArithExpression::Int(i / j);
+                if let Some(value) = i.checked_div(j) {
+                    return ArithExpression::Int(value);
+                }
             }
         }
 
@@ -587,7 +595,9 @@ impl ArithExpression {
     pub fn AMod(left: ArithExpression, right: ArithExpression) -> ArithExpression {
         if let ArithExpression::Int(i) = left {
             if let ArithExpression::Int(j) = right {
-                return ArithExpression::Int(i % j);
+                if let Some(value) = i.checked_rem(j) {
+                    return ArithExpression::Int(value);
+                }
             }
         }
 
-- 
2.43.0


From c65dc5a8d22e7c73ef48a379fab9710c667fc684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:20 +0000
Subject: [PATCH 34/34] fix: clock reduction leaves a system without an initial
 location as it is

---
 src/TransitionSystems/transition_system.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TransitionSystems/transition_system.rs b/src/TransitionSystems/transition_system.rs
index 11b3ae6..b4f6db3 100644
--- a/src/TransitionSystems/transition_system.rs
+++ b/src/TransitionSystems/transition_system.rs
@@ -235,6 +235,10 @@ pub trait TransitionSystem: DynClone {
     }
 
     fn find_redundant_clocks(&self) -> Vec<ClockReductionInstruction> {
+        // A system without an initial location goes nowhere, and keeps its clocks
+        if self.get_initial_location().is_none() {
+            return vec![];
+        }
         self.get_analysis_graph().find_clock_redundancies()
     }
 
-- 
2.43.0

