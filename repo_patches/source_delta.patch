From b028a074337158034365705b5c168566c61d7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 1/5] fix: kill exactly the worst alive individuals in
 kill_worst

The kill list started with the individual 0 even if it was dead already (one
individual too many stayed alive), the best fitness of the list was not updated
while the list was being filled (for fitness [5, 1, 3, 4] and count 2 the best
individual was killed), NaN fitness was never considered to be the worst one and
count == 0 killed an individual.
---
 optlib/src/genetic/selection/mod.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/optlib/src/genetic/selection/mod.rs b/optlib/src/genetic/selection/mod.rs
index 4c05858..1a40d6d 100644
--- a/optlib/src/genetic/selection/mod.rs
+++ b/optlib/src/genetic/selection/mod.rs
@@ -55,33 +55,37 @@ impl<T: Clone> Selection<T> for LimitPopulation {
 /// Function to kill worst individuals in population.
 /// `count` - how many individuals must be killed.
 pub fn kill_worst<T: Clone>(population: &mut Population<T>, count: usize) {
+    if count == 0 {
+        return;
+    }
+
     // List of indexes of individuals in population to be kill
-    let mut kill_list: Vec<usize> = Vec::with_capacity(count);
-    kill_list.push(0);
+    let mut kill_list: Vec<usize> = Vec::with_capacity(count.min(population.len()));
 
     // Index of the items in kill_list with best fitness
     let mut best_index = 0;
-    let mut best_fitness = population[kill_list[best_index]].get_fitness();
+    let mut best_fitness = f64::NAN;
 
-    for n in 1..population.len() {
+    for n in 0..population.len() {
         if !population[n].is_alive() {
             continue;
         }
 
         if kill_list.len() < count {
             kill_list.push(n);
-            if population[n].get_fitness() < best_fitness {
+            if is_worse(best_fitness, population[n].get_fitness()) {
                 best_index = kill_list.len() - 1;
+                best_fitness = population[n].get_fitness();
             }
         } else {
-            if population[n].get_fitness() > best_fitness {
+            if is_worse(population[n].get_fitness(), best_fitness) {
                 kill_list[best_index] = n;
 
                 // Find new best item
                 best_index = 0;
                 best_fitness = population[kill_list[best_index]].get_fitness();
                 for m in 1..kill_list.len() {
-                    if population[kill_list[m]].get_fitness() < best_fitness {
+                    if is_worse(best_fitness, population[kill_list[m]].get_fitness()) {
                         best_index = m;
                         best_fitness = population[kill_list[best_index]].get_fitness();
                     }
@@ -94,3 +98,8 @@ pub fn kill_worst<T: Clone>(population: &mut Population<T>, count: usize) {
         population[n].kill();
     }
 }
+
+/// Returns true if `fitness_1` is strictly worse than `fitness_2`. NaN is worse than any number.
+fn is_worse(fitness_1: f64, fitness_2: f64) -> bool {
+    fitness_1 > fitness_2 || (fitness_1.is_nan() && !fitness_2.is_nan())
+}
-- 
2.43.0


From 59afdf2ae7190a8623974970507e726ff9cb28da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 2/5] fix: do not panic while pairing an empty population

The selections may kill all individuals (for example KillFitnessNaN if the goal
function is not defined in all points), after that Uniform::new(0, 0) panicked.
---
 optlib/src/genetic/pairing/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/optlib/src/genetic/pairing/mod.rs b/optlib/src/genetic/pairing/mod.rs
index e7d8204..4d7af1d 100644
--- a/optlib/src/genetic/pairing/mod.rs
+++ b/optlib/src/genetic/pairing/mod.rs
@@ -14,6 +14,9 @@ pub struct RandomPairing {
 impl<T> Pairing<T> for RandomPairing {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = vec![];
+        if population.len() == 0 {
+            return pairs;
+        }
 
         let between = Uniform::new(0, population.len());
         let count = population.len() / 2;
@@ -77,6 +80,10 @@ impl Tournament {
 impl<T> Pairing<T> for Tournament {
     fn get_pairs(&mut self, population: &Population<T>) -> Vec<Vec<usize>> {
         let mut pairs: Vec<Vec<usize>> = Vec::with_capacity(self.families_count);
+        if population.len() == 0 {
+            return pairs;
+        }
+
         let between = Uniform::new(0, population.len());
 
         // Loop for families count
-- 
2.43.0


From 37460537851015bec062a03ab50105d3397f0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 3/5] fix: do not panic in GoalNotChange after restart of the
 algorithm

The iteration number of the new run may be less than the number of the iteration
remembered in the previous run, the subtraction of them overflowed.
---
 optlib/src/tools/stopchecker/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optlib/src/tools/stopchecker/mod.rs b/optlib/src/tools/stopchecker/mod.rs
index 476eb40..e464953 100644
--- a/optlib/src/tools/stopchecker/mod.rs
+++ b/optlib/src/tools/stopchecker/mod.rs
@@ -114,7 +114,9 @@ impl<T> StopChecker<T> for GoalNotChange {
             None => false,
             Some((_, best_goal)) => {
                 let delta = (best_goal - self.old_goal).abs();
-                if delta > self.delta {
+                // The iterations start over if the algorithm was restarted
+                let restarted = state.get_iteration() < self.change_iter;
+                if delta > self.delta || restarted {
                     self.old_goal = best_goal;
                     self.change_iter = state.get_iteration();
                 }
-- 
2.43.0


From 877b51c68229862df053b93730d4303fe6078297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 4/5] fix: do not consider NaN solution as success

The comparison of NaN with the delta is always false, so the solution with NaN
was considered as successful in get_predicate_success_vec_solution.
---
 optlib/src/tools/statistics/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index 9867a05..bfd36fb 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -94,7 +94,8 @@ pub fn get_predicate_success_vec_solution<T: Float>(
 
     move |(answer, _): &(Vec<T>, GoalValue)| {
         for (x, (e, d)) in answer.iter().zip(expected.iter().zip(delta.iter())) {
-            if (*x - *e).abs() > *d {
+            let distance = (*x - *e).abs();
+            if distance > *d || distance.is_nan() || d.is_nan() {
                 return false;
             }
         }
-- 
2.43.0


From 969841fe6ae2b89ae93c16440436ca928f8fb119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 5/5] fix: do not panic in StatisticsLogger which joins a
 started algorithm

If the logger was set after find_min() and the algorithm was continued with
next_iterations() then there was no convergence row to add the solution to.
---
 optlib/src/tools/statistics/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optlib/src/tools/statistics/mod.rs b/optlib/src/tools/statistics/mod.rs
index bfd36fb..7efaf75 100644
--- a/optlib/src/tools/statistics/mod.rs
+++ b/optlib/src/tools/statistics/mod.rs
@@ -177,6 +177,9 @@ impl<T: Clone> Statistics<T> {
     }
 
     fn add_convergence(&mut self, state: &dyn AlgorithmState<T>) {
+        if self.convergence.is_empty() {
+            self.convergence.push(vec![]);
+        }
         let run_index = self.convergence.len() - 1;
         self.convergence[run_index].push(state.get_best_solution().clone());
     }
-- 
2.43.0

