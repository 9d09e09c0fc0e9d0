From 4c6b668c2f6528155d021ca34004c79c98260326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:52 +0000
Subject: [PATCH 01/84] fix: L# and adaptive L# perform exactly
 max_learning_rounds rounds (a limit of 1 crashed)

---
 aalpy/learning_algs/adaptive/AdaptiveLSharp.py | 2 +-
 aalpy/learning_algs/deterministic/LSharp.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
index 4f7b430..020ab10 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
@@ -88,9 +88,9 @@ def run_adaptive_Lsharp(alphabet: list, sul: SUL, references: list, eq_oracle: O
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
diff --git a/aalpy/learning_algs/deterministic/LSharp.py b/aalpy/learning_algs/deterministic/LSharp.py
index 541f419..c58bec6 100644
--- a/aalpy/learning_algs/deterministic/LSharp.py
+++ b/aalpy/learning_algs/deterministic/LSharp.py
@@ -67,9 +67,9 @@ def run_Lsharp(alphabet: list, sul: SUL, eq_oracle: Oracle, automaton_type,
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
-- 
2.43.0


From bf12375997dec94ce9c38131600531e9ec30b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 02/84] fix: adaptive L# skips references without common inputs
 without crashing or editing the caller's list

---
 .../learning_algs/adaptive/AdaptiveObservationTree.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 3840a75..3f0411f 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -488,16 +488,18 @@ class AdaptiveObservationTree(ObservationTree):
         """
         automaton_class = {'dfa': Dfa, 'mealy': MealyMachine, 'moore': MooreMachine}
         all_states = []
-        for reference_id in range(0, len(self.references)):
-            reference = self.references[reference_id]
+        # references without a common input are skipped (the list passed by the user is left as it is)
+        usable_references = []
+        for reference_id, reference in enumerate(self.references):
             overlap = [inp for inp in self.alphabet if inp in reference.get_input_alphabet()]
             if not overlap:
                 print(
                     f"Warning: reference model {reference_id} has no common inputs and will not be used as a reference.")
-                self.references.remove(reference)
-                reference_id -= 1
                 continue
+            usable_references.append(reference)
+        self.references = usable_references
 
+        for reference_id, reference in enumerate(self.references):
             states = self.add_ref_transitions_to_states(reference, reference_id)
             all_states += states
 
-- 
2.43.0


From 0fa6cd45ee28ccf4411e13d4ef206f9453b5e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 03/84] fix: total state matching supports Moore machines

---
 aalpy/learning_algs/adaptive/StateMatching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/adaptive/StateMatching.py b/aalpy/learning_algs/adaptive/StateMatching.py
index 0841ad3..8969e45 100644
--- a/aalpy/learning_algs/adaptive/StateMatching.py
+++ b/aalpy/learning_algs/adaptive/StateMatching.py
@@ -263,7 +263,8 @@ class TotalStateMatching(StateMatching):
 
         # need to test the empty word
         if defined_after_access == (): 
-            if reference_state.is_accepting != current_ob_state.output:
+            ref_out = reference_state.is_accepting if ob_tree.automaton_type == 'dfa' else reference_state.output
+            if ref_out != current_ob_state.output:
                 self.matchings[basis_state][orig_ref] = 0
                 return
 
-- 
2.43.0


From b166c0e94ff7f3f85e5c978cc360d63897aecf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 04/84] fix: TomitaSUL answers the empty word for the empty
 string instead of 'None'

---
 aalpy/SULs/TomitaSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/TomitaSUL.py b/aalpy/SULs/TomitaSUL.py
index 89a7fbe..218fb62 100644
--- a/aalpy/SULs/TomitaSUL.py
+++ b/aalpy/SULs/TomitaSUL.py
@@ -26,7 +26,7 @@ class TomitaSUL(SUL):
         pass
 
     def step(self, letter):
-        if input:
+        if letter is not None:
             self.string += str(letter)
         return self.tomita_level(self.string)
 
-- 
2.43.0


From 87532ce87b508d040b9510d1478c16a9273a0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 05/84] fix: RegexSUL accepts exact matches only (top-level
 alternation, trailing newline)

---
 aalpy/SULs/RegexSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/RegexSUL.py b/aalpy/SULs/RegexSUL.py
index 1499bdc..c18ea1f 100644
--- a/aalpy/SULs/RegexSUL.py
+++ b/aalpy/SULs/RegexSUL.py
@@ -34,4 +34,4 @@ class RegexSUL(SUL):
         """
         if letter is not None:
             self.string += str(letter)
-        return True if re.match(self.regex, self.string) else False
+        return True if re.fullmatch(self.regex, self.string) else False
-- 
2.43.0


From d25f4945f881ece16ef234d631f3457a0962374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:05 +0000
Subject: [PATCH 06/84] fix: FunctionDecorator keeps falsy arguments such as 0
 or False

---
 aalpy/SULs/PyMethodSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/PyMethodSUL.py b/aalpy/SULs/PyMethodSUL.py
index d45d7b4..cc1e42a 100644
--- a/aalpy/SULs/PyMethodSUL.py
+++ b/aalpy/SULs/PyMethodSUL.py
@@ -18,7 +18,7 @@ class FunctionDecorator:
 
         self.function = function
         self.args = None
-        if args:
+        if args is not None:
             self.args = [args] if not isinstance(args, (list, tuple)) else args
 
     def __repr__(self):
-- 
2.43.0


From d526fc893d9ed3f218cbd6ee34521129cce79299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:06 +0000
Subject: [PATCH 07/84] fix: CacheDict handles the empty word, list queries and
 conflicting samples like CacheTree

---
 aalpy/base/CacheTree.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index c733318..ea44c00 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -122,7 +122,8 @@ class CacheDict:
         """
 
         if inp is None:
-            return self.cache_dict[()]
+            self.cache_dict[()] = out
+            return
 
         self.inputs += (inp,)
 
@@ -154,6 +155,7 @@ class CacheDict:
             outputs associated with inputs if it is in the query, None otherwise
 
         """
+        input_seq = tuple(input_seq)
         if input_seq in self.cache_dict.keys():
             return self.get_output_sequence(input_seq)
         return None
@@ -162,8 +164,9 @@ class CacheDict:
         """
         Add input-output sequence to cache
         """
-        for i in range(1, len(input_sequence) + 1):
-            self.cache_dict[input_sequence[:i]] = output_sequence[i-1]
+        self.reset()
+        for i, o in zip(input_sequence, output_sequence):
+            self.step_in_cache(i, o)
 
     def get_output_sequence(self, input_seq):
         return tuple(self.cache_dict[input_seq[:i]] for i in range(1, len(input_seq) + 1))
-- 
2.43.0


From b3594bd4ed72762ac8bbb92c3676af37a0dcb729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:08 +0000
Subject: [PATCH 08/84] fix: exponential counterexample processing honours the
 requested suffix closedness

---
 .../learning_algs/deterministic/CounterExampleProcessing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
index 5503946..ec96cdd 100644
--- a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
+++ b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
@@ -209,7 +209,11 @@ def exponential_cex_processing(sul: SUL, cex: tuple, hypothesis, suffix_closedne
             bwd_subtrahend *= 2
 
     if (bp - bp_recent) == 1:
-        return [suffix]
+        if not suffix_closedness:
+            return [suffix]
+        suffixes = all_suffixes(suffix) if closedness == 'suffix' else all_prefixes(suffix)
+        suffixes.reverse()
+        return suffixes
     else:
         if direction == 'fwd':
             return rs_cex_processing(sul, cex, hypothesis, suffix_closedness, closedness, is_vpa, lower=bp_recent)
-- 
2.43.0


From c31c4575901907e1597d4eaf37d93bf36f576ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 09/84] fix: Wp-method executes second-phase tests for states
 without distinguishing sequences

---
 aalpy/oracles/WpMethodEqOracle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 86c2d7e..931f8c9 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -59,7 +59,8 @@ def second_phase_it(hyp, alphabet, difference, depth):
                 if state not in state_mapping:
                     state_mapping[state] = state_characterization_set(hyp, alphabet, state)
 
-                for sm in state_mapping[state]:
+                # states that need no distinguishing sequence (e.g., single-state hypothesis) still have to be reached
+                for sm in state_mapping[state] or [()]:
                     yield t + mid + sm
 
 
-- 
2.43.0


From e5c428bdcfbdcc5081c5163e241aa56b9efdc5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 10/84] fix: breadth-first oracle checks every word up to its
 depth for every hypothesis

---
 aalpy/oracles/BreadthFirstExplorationEqOracle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/oracles/BreadthFirstExplorationEqOracle.py b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
index dfa4537..8dbbaf8 100644
--- a/aalpy/oracles/BreadthFirstExplorationEqOracle.py
+++ b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
@@ -34,8 +34,8 @@ class BreadthFirstExplorationEqOracle(Oracle):
 
     def find_cex(self, hypothesis):
 
-        while self.queue:
-            test_case = self.queue.pop()
+        # a refined hypothesis can be wrong on test cases that a previous hypothesis passed, thus none of them is dropped
+        for test_case in self.queue:
             self.reset_hyp_and_sul(hypothesis)
 
             for ind, letter in enumerate(test_case):
-- 
2.43.0


From 6d7d744c8a8b4fc6155e18d86c6385a9e30fa67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 11/84] fix: W- and Wp-method compare cached test cases with
 the current hypothesis instead of skipping them

---
 aalpy/oracles/WMethodEqOracle.py  | 12 +++++++++---
 aalpy/oracles/WpMethodEqOracle.py | 14 +++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index bfc4bcb..e51f3fc 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -24,7 +24,7 @@ class WMethodEqOracle(Oracle):
         super().__init__(alphabet, sul)
         self.m = max_number_of_states
         self.shuffle = shuffle_test_set
-        self.cache = set()
+        self.cache = dict()
 
     def test_suite(self, cover, depth, char_set):
         """
@@ -60,7 +60,13 @@ class WMethodEqOracle(Oracle):
 
         depth = self.m + 1 - len(hypothesis.states)
         for seq in self.test_suite(transition_cover, depth, hypothesis.characterization_set):
-            if seq not in self.cache:
+            if seq in self.cache:
+                # already executed: the recorded outputs decide, as this hypothesis may differ from the one tested before
+                outputs = hypothesis.execute_sequence(hypothesis.initial_state, seq)
+                for ind, out_sul in enumerate(self.cache[seq]):
+                    if outputs[ind] != out_sul:
+                        return seq[:ind + 1]
+            else:
                 self.reset_hyp_and_sul(hypothesis)
                 outputs = []
 
@@ -73,7 +79,7 @@ class WMethodEqOracle(Oracle):
                     if out_hyp != out_sul:
                         self.sul.post()
                         return seq[:ind + 1]
-                self.cache.add(seq)
+                self.cache[seq] = tuple(outputs)
 
         return None
 
diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 931f8c9..41b3434 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -72,7 +72,7 @@ class WpMethodEqOracle(Oracle):
     def __init__(self, alphabet: list, sul: SUL, max_number_of_states=4):
         super().__init__(alphabet, sul)
         self.m = max_number_of_states
-        self.cache = set()
+        self.cache = dict()
 
     def find_cex(self, hypothesis):
         if not hypothesis.characterization_set:
@@ -96,18 +96,26 @@ class WpMethodEqOracle(Oracle):
         test_suite = chain(first_phase, second_phase)
 
         for seq in test_suite:
-            if seq not in self.cache:
+            if seq in self.cache:
+                # already executed: the recorded outputs decide, as this hypothesis may differ from the one tested before
+                outputs = hypothesis.execute_sequence(hypothesis.initial_state, seq)
+                for ind, out_sul in enumerate(self.cache[seq]):
+                    if outputs[ind] != out_sul:
+                        return seq[: ind + 1]
+            else:
                 self.reset_hyp_and_sul(hypothesis)
+                outputs = []
 
                 for ind, letter in enumerate(seq):
                     out_hyp = hypothesis.step(letter)
                     out_sul = self.sul.step(letter)
                     self.num_steps += 1
 
+                    outputs.append(out_sul)
                     if out_hyp != out_sul:
                         self.sul.post()
                         return seq[: ind + 1]
-                self.cache.add(seq)
+                self.cache[seq] = tuple(outputs)
 
         return None
 
-- 
2.43.0


From 2e5131b9abcbbe0fcd5464f0cffe1769c6626ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 12/84] fix: transition focus oracle follows the current state
 of the hypothesis

---
 aalpy/oracles/TransitionFocusOracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/oracles/TransitionFocusOracle.py b/aalpy/oracles/TransitionFocusOracle.py
index 779d0e7..a02d80a 100644
--- a/aalpy/oracles/TransitionFocusOracle.py
+++ b/aalpy/oracles/TransitionFocusOracle.py
@@ -31,9 +31,9 @@ class TransitionFocusOracle(Oracle):
         for _ in range(self.num_walks):
             self.reset_hyp_and_sul(hypothesis)
 
-            curr_state = hypothesis.initial_state
             inputs = []
             for _ in range(self.steps_per_walk):
+                curr_state = hypothesis.current_state
                 if random.random() <= self.same_state_prob:
                     possible_inputs = curr_state.get_same_state_transitions()
                 else:
-- 
2.43.0


From b08f74b6c86e8899e397c927d3f59b80db1355e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 13/84] fix: k-way state coverage oracle counts its tests of
 single-state hypotheses

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index d259e53..1530bd5 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -37,9 +37,7 @@ class KWayStateCoverageEqOracle(Oracle):
         if len(hypothesis.states) == 1:
             for _ in range(self.random_walk_len):
                 path = choices(self.alphabet, k=self.random_walk_len)
-                hypothesis.reset_to_initial()
-                self.sul.post()
-                self.sul.pre()
+                self.reset_hyp_and_sul(hypothesis)
                 for i, p in enumerate(path):
                     out_sul = self.sul.step(p)
                     out_hyp = hypothesis.step(p)
-- 
2.43.0


From ae77bc2b379a60fb2ab8950dcc786cdf5fc0a669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 14/84] fix: k-way state coverage tests every permutation and
 leaves the state order of the hypothesis unchanged

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index 1530bd5..b28d2b6 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -47,11 +47,13 @@ class KWayStateCoverageEqOracle(Oracle):
                         self.sul.post()
                         return path[:i + 1]
 
-        states = hypothesis.states
+        states = list(hypothesis.states)
         shuffle(states)
 
-        for comb in self.fun(hypothesis.states, self.k):
-            prefixes = frozenset([c.prefix for c in comb])
+        for comb in self.fun(states, self.k):
+            # the order of states matters only for permutations
+            prefixes = [c.prefix for c in comb]
+            prefixes = tuple(prefixes) if self.fun is permutations else frozenset(prefixes)
             if prefixes in self.cache:
                 continue
             else:
-- 
2.43.0


From af476a768cfa5c9bb68e075882bee0786b22c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 15/84] fix: provided sequences wrapper counts every query of
 the wrapped oracle once and keeps the caller's list

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index a64122c..6244da7 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -15,7 +15,7 @@ class ProvidedSequencesOracleWrapper(Oracle):
             of input alphabet
         """
         super().__init__(alphabet, sul)
-        self.provided_counterexamples = provided_counterexamples
+        self.provided_counterexamples = list(provided_counterexamples)
         self.oracle = oracle
 
     def find_cex(self, hypothesis):
@@ -35,12 +35,12 @@ class ProvidedSequencesOracleWrapper(Oracle):
 
             self.provided_counterexamples.remove(provided_cex)
 
+        queries, steps = self.oracle.num_queries, self.oracle.num_steps
         cex = self.oracle.find_cex(hypothesis)
 
         # to account for steps statistics from actual oracle
-        if cex is None:
-            self.num_queries += self.oracle.num_queries
-            self.num_steps += self.oracle.num_steps
+        self.num_queries += self.oracle.num_queries - queries
+        self.num_steps += self.oracle.num_steps - steps
 
         return cex
 
-- 
2.43.0


From a504882977e3699bbbc7f1c9b64917b711832230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 16/84] fix: resetting the counter of the random word oracle
 also renews its walks

---
 aalpy/oracles/RandomWordEqOracle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/oracles/RandomWordEqOracle.py b/aalpy/oracles/RandomWordEqOracle.py
index 6a1a8d9..f943777 100644
--- a/aalpy/oracles/RandomWordEqOracle.py
+++ b/aalpy/oracles/RandomWordEqOracle.py
@@ -92,4 +92,5 @@ class RandomWordEqOracle(Oracle):
 
     def reset_counter(self):
         if self.reset_after_cex:
+            self.walk_lengths = [randint(self.min_walk_len, self.max_walk_len) for _ in range(self.num_walks)]
             self.num_walks_done = 0
-- 
2.43.0


From 5cde190d27eb13d7668e3b8420f5559149e64cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 17/84] fix: distinguishing sequences and characterization sets
 take state labels into account

---
 aalpy/automata/Dfa.py          | 7 +++++--
 aalpy/automata/MooreMachine.py | 7 +++++--
 aalpy/base/Automaton.py        | 6 +++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/aalpy/automata/Dfa.py b/aalpy/automata/Dfa.py
index 0362dd7..8238871 100644
--- a/aalpy/automata/Dfa.py
+++ b/aalpy/automata/Dfa.py
@@ -42,8 +42,11 @@ class Dfa(DeterministicAutomaton[DfaState[InputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(Dfa, self).compute_characterization_set(char_set_init if char_set_init else [()],
-                                                             online_suffix_closure, split_all_blocks,
+        # states are labeled, thus the empty sequence is always included
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.append(())
+        return super(Dfa, self).compute_characterization_set(char_set_init, online_suffix_closure, split_all_blocks,
                                                              return_same_states, raise_warning)
 
     def compute_output_seq(self, state, sequence):
diff --git a/aalpy/automata/MooreMachine.py b/aalpy/automata/MooreMachine.py
index 57e40f6..afa5c78 100644
--- a/aalpy/automata/MooreMachine.py
+++ b/aalpy/automata/MooreMachine.py
@@ -39,8 +39,11 @@ class MooreMachine(DeterministicAutomaton[MooreState[InputType, OutputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(MooreMachine, self).compute_characterization_set(char_set_init if char_set_init else [()],
-                                                                      online_suffix_closure, split_all_blocks,
+        # states are labeled, thus the empty sequence is always included
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.append(())
+        return super(MooreMachine, self).compute_characterization_set(char_set_init, online_suffix_closure, split_all_blocks,
                                                                       return_same_states, raise_warning)
 
     def compute_output_seq(self, state, sequence):
diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 73878c6..c25d40e 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -275,6 +275,10 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         Returns: an input sequence distinguishing two states, or None if the states are equivalent
 
         """
+        # states of DFAs and Moore machines can be distinguished by their labels
+        if self.compute_output_seq(state1, ()) != self.compute_output_seq(state2, ()):
+            return []
+
         visited = set()
         to_explore = [(state1, state2, [])]
         while to_explore:
@@ -346,7 +350,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         """
         blocks = list()
         blocks.append(copy.copy(self.states))
-        char_set = [] if not char_set_init else char_set_init
+        char_set = [] if not char_set_init else list(char_set_init)
         if char_set_init:
             for seq in char_set_init:
                 blocks = self._split_blocks(blocks, seq)
-- 
2.43.0


From 465997a0162f9f0e474eed40b690faf9f1381d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 18/84] fix: minimization never removes the initial state

---
 aalpy/base/Automaton.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index c25d40e..5a13222 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -441,6 +441,9 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
 
         s1, s2 = self.compute_characterization_set(return_same_states=True)
         while s1 and s2:
+            # the initial state is never the one to be removed
+            if s2 is self.initial_state:
+                s1, s2 = s2, s1
             for s in self.states:
                 for i, new_state in s.transitions.items():
                     if new_state == s2:
-- 
2.43.0


From 193ef6d0d711937de7e5aeec94ea1c275bd1037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 19/84] fix: generated test cases include the last one executed
 by the oracle

---
 aalpy/utils/ModelChecking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 3199250..3ef3175 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -363,6 +363,7 @@ class TestCaseWrapperSUL(SUL):
     def post(self):
         if self.test_case_inputs and self.test_case_outputs:
             self.test_cases.append((tuple(self.test_case_inputs), tuple(self.test_case_outputs)))
+            self.test_case_inputs, self.test_case_outputs = [], []
         return self.sul.post()
 
     def step(self, letter):
@@ -396,6 +397,8 @@ def generate_test_cases(automaton: DeterministicAutomaton, oracle):
     # no counterexamples can be found
     cex = oracle.find_cex(automaton)
     assert cex is None
+    # oracles do not close their last test case
+    wrapped_sul.post()
     return wrapped_sul.test_cases
 
 
-- 
2.43.0


From 41a1726bf6e3d5b49ea3f48ed32b258a81db51d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 20/84] fix: randomized Wp-method executes tests of states that
 need no distinguishing sequence instead of dropping them

---
 aalpy/oracles/WpMethodEqOracle.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 41b3434..c823997 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -161,8 +161,6 @@ class RandomWpMethodEqOracle(Oracle):
                 _ = hypothesis.execute_sequence(hypothesis.initial_state, input)
                 if state_mapping[hypothesis.current_state]:
                     input += random.choice(state_mapping[hypothesis.current_state])
-                else:
-                    continue
 
             self.reset_hyp_and_sul(hypothesis)
             for ind, letter in enumerate(input):
-- 
2.43.0


From 24ddcb1b6b376d85215a6bb39bb81084497f5fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 21/84] fix: cache based oracle extends the leaves of the cache
 (paths contained the inputs of earlier siblings)

---
 aalpy/oracles/CacheBasedEqOracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/oracles/CacheBasedEqOracle.py b/aalpy/oracles/CacheBasedEqOracle.py
index 5d40c47..a777352 100644
--- a/aalpy/oracles/CacheBasedEqOracle.py
+++ b/aalpy/oracles/CacheBasedEqOracle.py
@@ -92,6 +92,5 @@ class CacheBasedEqOracle(Oracle):
             paths.append(current_path)
         else:
             for inp, child in t.children.items():
-                current_path.append(inp)
-                self.get_paths(child, paths, list(current_path))
+                self.get_paths(child, paths, current_path + [inp])
         return paths
-- 
2.43.0


From 64a3866e0c9332beb9b73fabbe1ac323fda39710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 22/84] fix: k-way transition coverage recomputes the coverage
 of cached paths for the current hypothesis

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index db253ea..7c24192 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -52,7 +52,9 @@ class KWayTransitionCoverageEqOracle(Oracle):
 
     def find_cex(self, hypothesis: Automaton):
         if self.method == 'random':
-            paths = self.generate_random_paths(hypothesis) + self.cached_paths
+            # coverage of cached paths refers to a previous hypothesis
+            cached_paths = [self.create_path(hypothesis, path.steps) for path in self.cached_paths]
+            paths = self.generate_random_paths(hypothesis) + cached_paths
             self.cached_paths = self.greedy_set_cover(hypothesis, paths)
 
             for path in self.cached_paths:
-- 
2.43.0


From 7c60590c79694f5fb0c9dbb74a4d7d7f4736a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 23/84] fix: state prefix and random W oracles (and
 compare_automata) skip unreachable states instead of crashing

---
 aalpy/oracles/StatePrefixEqOracle.py | 3 +++
 aalpy/oracles/WMethodEqOracle.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/aalpy/oracles/StatePrefixEqOracle.py b/aalpy/oracles/StatePrefixEqOracle.py
index 2bb6d72..fb11282 100644
--- a/aalpy/oracles/StatePrefixEqOracle.py
+++ b/aalpy/oracles/StatePrefixEqOracle.py
@@ -42,6 +42,9 @@ class StatePrefixEqOracle(Oracle):
         for state in hypothesis.states:
             if state.prefix is None:
                 state.prefix = hypothesis.get_shortest_path(hypothesis.initial_state, state)
+                # unreachable states cannot be covered
+                if state.prefix is None:
+                    continue
             if state.prefix not in self.freq_dict.keys():
                 self.freq_dict[state.prefix] = 0
 
diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index e51f3fc..d9473bc 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -121,6 +121,9 @@ class RandomWMethodEqOracle(Oracle):
         for state in hypothesis.states:
             if state.prefix is None:
                 state.prefix = hypothesis.get_shortest_path(hypothesis.initial_state, state)
+                # unreachable states cannot be covered
+                if state.prefix is None:
+                    continue
             if state.prefix not in self.freq_dict.keys():
                 self.freq_dict[state.prefix] = 0
 
-- 
2.43.0


From 61f3a1cb7fd5cbd402aecadab16a7bcd285654c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 24/84] fix: classic RPNI keeps the label of the empty sequence

---
 aalpy/learning_algs/deterministic_passive/ClassicRPNI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index d389a11..1121724 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -13,6 +13,8 @@ class ClassicRPNI:
         pta_construction_start = time.time()
         self.root_node = createPTA(data, automaton_type)
         self.test_data = extract_unique_sequences(self.root_node)
+        # label of the empty sequence, which is not part of any of the extracted sequences
+        self.root_output = self.root_node.output if self.root_node is not None else None
 
         if self.print_info:
             print(f'PTA Construction Time: {round(time.time() - pta_construction_start, 2)}')
@@ -57,6 +59,8 @@ class ClassicRPNI:
         """
         Check if current model is compatible with the data.
         """
+        if self.automaton_type != 'mealy' and self.root_output is not None and root_node.output != self.root_output:
+            return False
         for sequence in self.test_data:
             if not check_sequence(root_node, sequence, automaton_type=self.automaton_type):
                 return False
-- 
2.43.0


From fc1cbc80322af1989b678192dd59f035b79ed63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 25/84] fix: classic RPNI supports Mealy machines (crashed on
 every sample)

---
 .../deterministic_passive/ClassicRPNI.py      | 38 +++----------------
 .../rpni_helper_functions.py                  | 11 +++---
 2 files changed, 12 insertions(+), 37 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index 1121724..c1c9a76 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -70,16 +70,7 @@ class ClassicRPNI:
         """
         Only allow merging of states that have same output(s).
         """
-        if self.automaton_type != 'mealy':
-            # None is compatible with everything
-            return red_node.output == blue_node.output or red_node.output is None or blue_node.output is None
-        else:
-            red_io = {i: o for i, o in red_node.children.keys()}
-            blue_io = {i: o for i, o in blue_node.children.keys()}
-            for common_i in set(red_io.keys()).intersection(blue_io.keys()):
-                if red_io[common_i] != blue_io[common_i]:
-                    return False
-        return True
+        return red_node.compatible_outputs(blue_node)
 
     def _merge(self, red_node, lex_min_blue, copy_nodes=False):
         """
@@ -98,36 +89,19 @@ class ClassicRPNI:
 
         to_update.children[lex_min_blue.prefix[-1]] = red_node_in_tree
 
-        if self.automaton_type != 'mealy':
-            self._fold(red_node_in_tree, lex_min_blue)
-        else:
-            self._fold_mealy(red_node_in_tree, lex_min_blue)
+        self._fold(red_node_in_tree, lex_min_blue)
 
         return root_node
 
     def _fold(self, red_node, blue_node):
         # Change the output of red only to concrete output, ignore None
-        red_node.output = blue_node.output if blue_node.output is not None else red_node.output
+        if self.automaton_type != 'mealy':
+            red_node.output = blue_node.output if blue_node.output is not None else red_node.output
+        else:
+            red_node.output.update({i: o for i, o in blue_node.output.items() if o is not None})
 
         for i in blue_node.children.keys():
             if i in red_node.children.keys():
                 self._fold(red_node.children[i], blue_node.children[i])
             else:
                 red_node.children[i] = blue_node.children[i]
-
-    def _fold_mealy(self, red_node, blue_node):
-        blue_io_map = {i: o for i, o in blue_node.children.keys()}
-
-        updated_keys = {}
-        for io, val in red_node.children.items():
-            o = blue_io_map[io[0]] if io[0] in blue_io_map.keys() else io[1]
-            updated_keys[(io[0], o)] = val
-
-        red_node.children = updated_keys
-
-        for io in blue_node.children.keys():
-            if io in red_node.children.keys():
-                self._fold_mealy(red_node.children[io], blue_node.children[io])
-            else:
-                red_node.children[io] = blue_node.children[io]
-
diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index 4cf93e0..4e010c8 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -59,10 +59,10 @@ def check_sequence(root_node, seq, automaton_type):
     curr_node = root_node
     for i, o in seq:
         if automaton_type == 'mealy':
-            input_outputs = {i: o for i, o in curr_node.children.keys()}
-            if i[0] not in input_outputs.keys() or o is not None and input_outputs[i[0]] != o:
+            # for mealy machines outputs are associated with inputs of the node
+            if i not in curr_node.children.keys() or o is not None and curr_node.output.get(i) != o:
                 return False
-            curr_node = curr_node.children[(i[0], input_outputs[i[0]])]
+            curr_node = curr_node.children[i]
         else:
             # For dfa and moore, check if outputs are the same, iff output in test data is concrete (not None)
             curr_node = curr_node.children[i]
@@ -118,8 +118,9 @@ def extract_unique_sequences(root_node):
         seq = []
         curr_node = root_node
         for i in node.prefix:
-            curr_node = curr_node.children[i]
-            seq.append((i, curr_node.output))
+            next_node = curr_node.children[i]
+            seq.append((i, curr_node.output.get(i) if root_node.type == 'mealy' else next_node.output))
+            curr_node = next_node
         paths.append(seq)
 
     return paths
-- 
2.43.0


From 8f666f6d9ccc3ff38a9f07f92e5958b84933ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 26/84] fix: generalized state merging rejects contradictory
 labels of the empty sequence

---
 aalpy/learning_algs/general_passive/GsmNode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index 8d72e14..f408936 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -421,6 +421,8 @@ class GsmNode:
                 transitions[output] = transitions.pop(unknown_output)
             if output not in transitions:
                 raise ValueError("nondeterminism encountered for GSM with labeled_sequences. not supported")
+        elif curr_node.get_prefix_output() != output:
+            raise ValueError("nondeterminism encountered for GSM with labeled_sequences. not supported")
 
     @staticmethod
     def createPTA(data, output_behavior, data_format=None) -> 'GsmNode':
-- 
2.43.0


From f760c117e824d99daec4b8e75455165852cb0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 27/84] fix: Alergia with eps='auto' counts the steps of
 stochastic Mealy data and keeps eps in its valid range

---
 aalpy/learning_algs/stochastic_passive/Alergia.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/Alergia.py b/aalpy/learning_algs/stochastic_passive/Alergia.py
index 6534504..1faeb5f 100644
--- a/aalpy/learning_algs/stochastic_passive/Alergia.py
+++ b/aalpy/learning_algs/stochastic_passive/Alergia.py
@@ -18,7 +18,9 @@ class Alergia:
         self.print_info = print_info
 
         if eps == 'auto':
-            eps = 10 / sum(len(d) - 1 for d in data)  # len - 1 to ignore initial output
+            # len - 1 to ignore initial output, which is not present in data for stochastic Mealy machines
+            num_steps = sum(len(d) if automaton_type == 'smm' else len(d) - 1 for d in data)
+            eps = min(2, 10 / max(num_steps, 1))
 
         self.diff_checker = HoeffdingCompatibility(eps) if not compatibility_checker else compatibility_checker
 
-- 
2.43.0


From d3f15b5d99842c83ead71d17caf9bb37fd8e98dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 28/84] fix: error states of 1-SEVPAs are only states that
 really cannot be left

---
 aalpy/automata/Sevpa.py | 43 +++++++++++------------------------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index f9b080d..5f01c26 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -304,49 +304,28 @@ class Sevpa(Automaton):
     def get_error_state(self):
         """
         A state is an error state iff:
-            - if all transitions self loop to itself
-            - if the pop transitions from the corresponding stack symbol lead to the same state
+            - all of its transitions self loop to itself
+            - all pop transitions that pop the corresponding stack symbol lead to the same state
             - for example:
                 - all q2 transitions lead to q2
-                - the pop transitions from the initial state which pop the q2+call-symbol from the stack lead to q2 as well
+                - pop transitions of all states which pop the q2+call-symbol from the stack lead to q2 as well
 
             - Not an error state if it is the initial state or an accepting state
         """
 
         for state in self.states:
-
-            is_error_state = True
             if state.is_accepting or state == self.initial_state:
                 continue
 
-            state_target = None
-            # check internal and return transitions
-            ret_int_al = []
-            ret_int_al.extend(self.input_alphabet.internal_alphabet)
-            ret_int_al.extend(self.input_alphabet.return_alphabet)
-            for letter in ret_int_al:
-                for transition in state.transitions[letter]:
-                    if state_target is None:
-                        state_target = transition.target_state
-                    else:
-                        if state_target != transition.target_state:
+            is_error_state = True
+            for origin_state in self.states:
+                for transition_list in origin_state.transitions.values():
+                    for transition in transition_list:
+                        from_state = origin_state == state
+                        guarded_by_state = transition.stack_guard is not None and \
+                                           transition.stack_guard[0] == state.state_id
+                        if (from_state or guarded_by_state) and transition.target_state != state:
                             is_error_state = False
-                            break
-                if not is_error_state:
-                    break
-
-            # check return transitions from the initial state
-            if is_error_state:
-                for return_letter in self.input_alphabet.return_alphabet:
-                    for transition in self.initial_state.transitions[return_letter]:
-                        if transition.stack_guard[0] == state_target.state_id:
-                            if transition.target_state != state_target:
-                                is_error_state = False
-                                break
-                    if not is_error_state:
-                        break
-            else:
-                continue
 
             if is_error_state:
                 return state
-- 
2.43.0


From 39c3edcd0a8fdac64eadded27c6b6aeb9cd03380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 29/84] fix: KV for VPAs never drops stack symbols of a
 presumed error state (learning did not terminate)

---
 .../deterministic/ClassificationTree.py             | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ClassificationTree.py b/aalpy/learning_algs/deterministic/ClassificationTree.py
index acfdaf4..c46809c 100644
--- a/aalpy/learning_algs/deterministic/ClassificationTree.py
+++ b/aalpy/learning_algs/deterministic/ClassificationTree.py
@@ -70,9 +70,6 @@ class ClassificationTree:
         self.initial_state = None
         self.hypothesis_states = {}
 
-        # prefix of identified error state in VPDA learning
-        self.error_state_prefix = None
-
         if self.automaton_type != 'mealy':
             initial_output = sul.query(())[-1]
             cex_output = sul.query(cex)[-1]
@@ -225,9 +222,6 @@ class ClassificationTree:
                             continue
 
                         for other_state in self.hypothesis_states.values():
-                            # ignore other state if other state is error state
-                            if other_state.prefix == self.error_state_prefix:
-                                continue
                             transition_target_node = self._sift(
                                 other_state.prefix + (input_element,) + state.prefix + (return_letter,))
                             transition_target_access_string = transition_target_node.access_string
@@ -238,12 +232,7 @@ class ClassificationTree:
                             state.transitions[return_letter].append(trans)
 
         if self.automaton_type == 'vpa':
-            hypothesis = Sevpa(initial_state=self.initial_state, states=list(self.hypothesis_states.values()))
-            if not self.error_state_prefix:
-                error_state = hypothesis.get_error_state()
-                if error_state:
-                    self.error_state_prefix = error_state.prefix
-            return hypothesis
+            return Sevpa(initial_state=self.initial_state, states=list(self.hypothesis_states.values()))
 
         return automaton_class[self.automaton_type](initial_state=self.initial_state,
                                                     states=list(self.hypothesis_states.values()))
-- 
2.43.0


From 8600f6ab6a841dc357c0a0f9ee30b566f4379119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:31 +0000
Subject: [PATCH 30/84] fix: executing a sequence on a VPA starts with an empty
 stack

---
 aalpy/automata/Vpa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index ca64bb7..2180e1a 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -150,6 +150,11 @@ class Vpa(Automaton):
 
         return self.current_state.is_accepting and self.stack == []
 
+    def execute_sequence(self, origin_state, seq):
+        # executions start with an empty stack, whatever was executed before
+        self.reset_to_initial()
+        return super().execute_sequence(origin_state, seq)
+
     def to_state_setup(self):
         state_setup_dict = {}
 
-- 
2.43.0


From 94e641799175a2f31f7ac90831cd9dff6241f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:31 +0000
Subject: [PATCH 31/84] fix: stepping a pushdown automaton with an undefined
 letter does not add the letter to its transitions

---
 aalpy/automata/Sevpa.py | 2 +-
 aalpy/automata/Vpa.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 5f01c26..f0663a7 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -132,7 +132,7 @@ class Sevpa(Automaton):
             return self.current_state.is_accepting and self.stack[-1] == self.empty
 
         # get possible transitions
-        transitions = self.current_state.transitions[letter]
+        transitions = self.current_state.transitions.get(letter, [])
         taken_transition = None
         for t in transitions:
             if t.letter in self.return_set:
diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index 2180e1a..820a258 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -121,7 +121,7 @@ class Vpa(Automaton):
         if letter is None:
             return self.current_state.is_accepting and self.stack == []
 
-        transitions = self.current_state.transitions[letter]
+        transitions = self.current_state.transitions.get(letter, [])
 
         taken_transition = None
 
-- 
2.43.0


From c770b49c2e18555df5efad4001d6876ba8a32b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:08 +0000
Subject: [PATCH 32/84] fix: word generation of 1-SEVPAs does not rule out
 calls that are only matched in states reached by returns

---
 aalpy/automata/Sevpa.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index f0663a7..d15f655 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -360,8 +360,8 @@ class Sevpa(Automaton):
         """
         Returns a dict of states that are allowed to push a call letters on the stack.
 
-        For all states that are connected via internal transitions from the initial state on, the state_id and
-        call_letter of the stack_guard from every return transition is used.
+        For all states that are connected via internal or return transitions from the initial state on, the state_id
+        and call_letter of the stack_guard from every return transition is used.
 
         States are not allowed to push something somthing on the stack if there is no possibility to pop the
         stack guard, where their state_id is used, from the stack, which would lead into a dead-end otherwise.
@@ -370,18 +370,17 @@ class Sevpa(Automaton):
         - dict: A dictionary where keys are the call_letters and values are sets of the allowed states.
         """
 
-        # get all states that are connected via internal transitions by using BFS
+        # get all states that are connected via internal and return transitions by using BFS
         connected_states = set()
         queue = deque([self.initial_state])
         while queue:
             current_state = queue.popleft()
             connected_states.add(current_state)
 
-            for internal_letter in self.input_alphabet.internal_alphabet:
-                for internal_trans in current_state.transitions[internal_letter]:
-                    target_state = internal_trans.target_state
-                    if target_state not in connected_states:
-                        queue.append(target_state)
+            for transition_list in current_state.transitions.values():
+                for trans in transition_list:
+                    if trans.target_state not in connected_states:
+                        queue.append(trans.target_state)
 
         allowed_call_transitions = defaultdict(set)
         for state in connected_states:
-- 
2.43.0


From bcdb70785db35ecb326d84b4a3c265e78e81a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:19 +0000
Subject: [PATCH 33/84] fix: random accepting words of 1-SEVPAs without return
 letters (crashed)

---
 aalpy/automata/Sevpa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index d15f655..6dc1740 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -450,6 +450,8 @@ class Sevpa(Automaton):
         word = []
 
         internal_letter_prob = 0.0
+        if len(self.input_alphabet.return_alphabet) == 0:
+            return_letter_prob = 0.0
         if len(self.input_alphabet.internal_alphabet) != 0:
             internal_letter_prob = 1.0 - return_letter_prob
         else:
@@ -467,10 +469,10 @@ class Sevpa(Automaton):
         while True:
             letter_type = random.uniform(0.0, 1.0)
             is_return_letter = False
-            if letter_type <= return_letter_boarder:
+            if letter_type <= return_letter_boarder and return_letter_prob > 0:
                 possible_letters = self.input_alphabet.return_alphabet
                 is_return_letter = True
-            elif return_letter_boarder < letter_type <= internal_letter_boarder:
+            elif return_letter_boarder <= letter_type <= internal_letter_boarder:
                 possible_letters = self.input_alphabet.internal_alphabet
             else:
                 assert False
-- 
2.43.0


From 02f2a400bb39ced694536609150fb7b2770d4c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:33 +0000
Subject: [PATCH 34/84] fix: PAPNI supports call and internal letters that are
 tuples

---
 aalpy/automata/Vpa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index 820a258..cd146df 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -319,7 +319,9 @@ def vpa_from_dfa_representation(dfa_repr, vpa_alphabet):
             reached_state = vpa_states[reached_dfa_state.state_id]
 
             top_of_stack = None
-            if isinstance(input_symbol, tuple):
+            # letters of the alphabet may be tuples themselves
+            if isinstance(input_symbol, tuple) and input_symbol not in vpa_alphabet.internal_alphabet \
+                    and input_symbol not in vpa_alphabet.call_alphabet:
                 input_symbol, top_of_stack = input_symbol[0], input_symbol[1]
 
             if input_symbol in vpa_alphabet.return_alphabet:
-- 
2.43.0


From 0a5e80c9ff7101ceaf15a53d9caf6bbd2a2e6f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:33 +0000
Subject: [PATCH 35/84] fix: PAPNI returns None for non-deterministic data as
 documented (crashed)

---
 aalpy/learning_algs/deterministic_passive/RPNI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/RPNI.py b/aalpy/learning_algs/deterministic_passive/RPNI.py
index 04bbead..314f388 100644
--- a/aalpy/learning_algs/deterministic_passive/RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/RPNI.py
@@ -111,6 +111,10 @@ def run_PAPNI(data, vpa_alphabet, algorithm='edsm', print_info=True):
     else:
         learned_model = run_EDSM(papni_data, automaton_type='dfa', print_info=print_info)
 
+    # data is not deterministic
+    if learned_model is None:
+        return None
+
     # convert intermediate DFA representation to VPA
     learned_model = vpa_from_dfa_representation(learned_model, vpa_alphabet)
 
-- 
2.43.0


From af29b35ab3b95fef560e499ab5b66987abbfdd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:00 +0000
Subject: [PATCH 36/84] fix: state setup of non-deterministic Moore machines is
 returned (copy and pickle crashed)

---
 aalpy/automata/NonDeterministicMooreMachine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 97d474d..1f78813 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -33,6 +33,8 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
                 continue
             set_dict_entry(state)
 
+        return state_setup
+
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs) -> 'NDMooreMachine':
         states_map = {key: NDMooreState(key, output=value[0]) for key, value in state_setup.items()}
-- 
2.43.0


From 60c9303ba7fb2e287e0959355fa7fdabe30c3ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:00 +0000
Subject: [PATCH 37/84] fix: copy and pickle of pushdown automata (crashed, VPA
 state setup lost stack guards and initial state)

---
 aalpy/automata/Sevpa.py | 5 ++++-
 aalpy/automata/Vpa.py   | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 6dc1740..93bd5b9 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -181,6 +181,8 @@ class Sevpa(Automaton):
         state_setup_dict = {}
 
         sorted_states = sorted(self.states, key=lambda x: x.state_id)
+        # ensure initial state is first
+        sorted_states.sort(key=lambda x: x is not self.initial_state)
         for state in sorted_states:
             transitions_for_symbol = {}
             for symbol, transition_list in state.transitions.items():
@@ -197,7 +199,8 @@ class Sevpa(Automaton):
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs):
 
-        init_state_id = kwargs['init_state_id']
+        # first state is initial if not provided
+        init_state_id = kwargs.get('init_state_id', next(iter(state_setup)))
 
         # build states with state_id and output
         states = {key: SevpaState(key, val[0]) for key, val in state_setup.items()}
diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index cd146df..0980671 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -162,9 +162,12 @@ class Vpa(Automaton):
         # self.compute_prefixes()
 
         sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # ensure initial state is first
+        sorted_states.sort(key=lambda x: x is not self.initial_state)
         for s in sorted_states:
             state_setup_dict[s.state_id] = (
-                s.is_accepting, {k: (v.target_state.state_id, v.action) for k, v in s.transitions.items()})
+                s.is_accepting, {k: [(t.target_state.state_id, t.action, t.stack_guard) for t in v]
+                                 for k, v in s.transitions.items()})
 
         return state_setup_dict
 
@@ -223,7 +226,7 @@ class Vpa(Automaton):
                 state_setup (dict): A dictionary mapping from state IDs to tuples containing
                     (is_accepting: bool, transitions_dict: dict), where transitions_dict maps input symbols to
                     lists of tuples (target_state_id, action, stack_guard).
-                init_state_id (str): The state ID for the initial state of the VPA.
+                init_state_id (str): The state ID for the initial state of the VPA (first state if not provided).
                 input_alphabet (VpaAlphabet): The alphabet for the VPA.
 
             Returns:
@@ -231,7 +234,7 @@ class Vpa(Automaton):
             """
         # state_setup should map from state_id to tuple(is_accepting and transitions_dict)
 
-        init_state_id = kwargs['init_state_id']
+        init_state_id = kwargs.get('init_state_id', next(iter(state_setup)))
 
         # build states with state_id and output
         states = {key: VpaState(key, val[0]) for key, val in state_setup.items()}
-- 
2.43.0


From 9db8201d17b4717c1b1fdb7810a5b6daa0db9d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 38/84] fix: state set-ups of deterministic automata always
 start with the initial state (copies started elsewhere after changing it)

---
 aalpy/automata/Dfa.py          | 2 ++
 aalpy/automata/MealyMachine.py | 2 ++
 aalpy/automata/MooreMachine.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/aalpy/automata/Dfa.py b/aalpy/automata/Dfa.py
index 8238871..df81fa2 100644
--- a/aalpy/automata/Dfa.py
+++ b/aalpy/automata/Dfa.py
@@ -61,6 +61,8 @@ class Dfa(DeterministicAutomaton[DfaState[InputType]]):
         self.compute_prefixes()
 
         sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # ensure initial state is first
+        sorted_states.sort(key=lambda x: x is not self.initial_state)
         for s in sorted_states:
             state_setup_dict[s.state_id] = (s.is_accepting, {k: v.state_id for k, v in s.transitions.items()})
 
diff --git a/aalpy/automata/MealyMachine.py b/aalpy/automata/MealyMachine.py
index d498c56..627c328 100644
--- a/aalpy/automata/MealyMachine.py
+++ b/aalpy/automata/MealyMachine.py
@@ -43,6 +43,8 @@ class MealyMachine(DeterministicAutomaton[MealyState[InputType, OutputType]]):
         self.compute_prefixes()
 
         sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # ensure initial state is first
+        sorted_states.sort(key=lambda x: x is not self.initial_state)
         for s in sorted_states:
             state_setup_dict[s.state_id] = {k: (s.output_fun[k], v.state_id) for k, v in s.transitions.items()}
 
diff --git a/aalpy/automata/MooreMachine.py b/aalpy/automata/MooreMachine.py
index afa5c78..ce9d4b1 100644
--- a/aalpy/automata/MooreMachine.py
+++ b/aalpy/automata/MooreMachine.py
@@ -58,6 +58,8 @@ class MooreMachine(DeterministicAutomaton[MooreState[InputType, OutputType]]):
         self.compute_prefixes()
 
         sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # ensure initial state is first
+        sorted_states.sort(key=lambda x: x is not self.initial_state)
         for s in sorted_states:
             state_setup_dict[s.state_id] = (s.output, {k: v.state_id for k, v in s.transitions.items()})
 
-- 
2.43.0


From 385adaa732193ee502ba30127a1e208fdadedb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 39/84] fix: load_automaton_from_file computes the prefixes of
 deterministic automata when asked to (never did, crashed for others)

---
 aalpy/utils/FileHandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 820019e..3ff5404 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -8,6 +8,7 @@ from pydot import Dot, Node, Edge
 from aalpy.automata import Dfa, MooreMachine, Mdp, Onfsm, MealyState, DfaState, MooreState, MealyMachine, \
     MdpState, StochasticMealyMachine, StochasticMealyState, OnfsmState, MarkovChain, McState, Sevpa, SevpaState, \
     SevpaTransition, Vpa, VpaState, VpaTransition, NDMooreMachine, NDMooreState
+from aalpy.base import DeterministicAutomaton
 
 file_types = ['dot', 'png', 'svg', 'pdf', 'string']
 automaton_types = {Dfa: 'dfa', MealyMachine: 'mealy', MooreMachine: 'moore', Mdp: 'mdp',
@@ -406,7 +407,7 @@ def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
     automaton = aut_type(initial_state, list(node_label_dict.values()))
     if automaton_type not in {'mc', 'sevpa', 'vpa'} and not automaton.is_input_complete():
         print('Warning: Loaded automaton is not input complete.')
-    if compute_prefixes and not automaton_type not in {'mc', 'sevpa', 'vpa'}:
+    if compute_prefixes and isinstance(automaton, DeterministicAutomaton):
         for state in automaton.states:
             state.prefix = automaton.get_shortest_path(automaton.initial_state, state)
     return automaton
-- 
2.43.0


From c152ec04afac81de725acf2465bcee8e48265958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:16 +0000
Subject: [PATCH 40/84] fix: models saved to files with 'label' in the name can
 be loaded

---
 aalpy/utils/FileHandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 3ff5404..1165833 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -380,6 +380,9 @@ def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
     with open(Path(path)) as f:
         for line in f.readlines():
             line = line.strip()
+            # header, the name of the graph (file) can be anything
+            if re.match(r'(strict\s+)?digraph\b', line):
+                continue
             if '__start0 ->' in line:
                 match = re.search(starting_state_pattern, line)
                 initial_state = match.group(1).strip()
-- 
2.43.0


From b2e400cbb1d44089deadafc6945e1f98b668d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:42 +0000
Subject: [PATCH 41/84] fix: integer outputs of MDPs and Markov chains are
 loaded as integers as for all other models

---
 aalpy/utils/FileHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 1165833..a244fac 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -318,7 +318,7 @@ def _strip_label(label: str) -> str:
 
 def _process_node_label_prime(node_name, label, line, node_label_dict, node_type, automaton_type):
     if automaton_type == 'mdp' or automaton_type == 'mc':
-        node_label_dict[node_name] = node_type(node_name, label)
+        node_label_dict[node_name] = node_type(node_name, int(label) if label.isdigit() else label)
     else:
         if automaton_type in {'moore', 'ndmoore'} and label != "":
             label_output = _strip_label(label)
-- 
2.43.0


From 3eb3e902ecbc670c1be750b2fa5c7cb33855481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 42/84] fix: loading VPAs whose letters contain push or pop
 (crashed) or whose stack symbols contain brackets

---
 aalpy/utils/FileHandler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index a244fac..0a3baa6 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -269,12 +269,12 @@ def _process_label(label, source, destination, automaton_type):
         pass
     if automaton_type == 'vpa':
         input_symbol, stack_symbol, action = None, None, None
-        if 'push' in label:
-            push_elements = re.match(vpa_push_pattern, label)
+        push_elements = re.fullmatch(vpa_push_pattern, label)
+        pop_elements = re.fullmatch(vpa_pop_pattern, label)
+        if push_elements:
             input_symbol, stack_symbol = push_elements.group(1), push_elements.group(2)
             action = 'push'
-        elif 'pop' in label:
-            pop_elements = re.match(vpa_pop_pattern, label)
+        elif pop_elements:
             input_symbol, stack_symbol = pop_elements.group(1), pop_elements.group(2)
             action = 'pop'
         else:
-- 
2.43.0


From 08ffb74423b3976f5e6483300a98aa829bf551e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 43/84] fix: loading the return transitions of 1-SEVPAs (were
 filed under their whole label, integer call letters were not recognized)

---
 aalpy/utils/FileHandler.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 0a3baa6..1477ca9 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -220,7 +220,7 @@ def save_automaton_to_file(automaton, path="LearnedModel", file_type="dot",
             print(f'Could not write to the file {path.as_posix()}.', file=sys.stderr)
 
 
-sevpa_transition_pattern = r"(\S+)\s*/\s*\(\s*'(\S+)'\s*,\s*'(\S+)'\s*\)"
+sevpa_transition_pattern = r"(\S+)\s*/\s*\(\s*('\S+'|\d+)\s*,\s*('\S+'|\d+)\s*\)"
 vpa_push_pattern = r"(\S+)\s*/\s*push\(\s*(.*?)\s*\)"
 vpa_pop_pattern = r"(\S+)\s*/\s*pop\(\s*(.*?)\s*\)"
 
@@ -256,17 +256,18 @@ def _process_label(label, source, destination, automaton_type):
         out = int(out) if out.isdigit() else out
         source.transitions[inp].append((destination, out, float(prob)))
     if automaton_type == 'sevpa':
-        match = re.match(sevpa_transition_pattern, label)
-        # cast to integer
-        label = int(label) if label.isdigit() else label
+        match = re.fullmatch(sevpa_transition_pattern, label)
         if match:
-            ret, stack_guard, top_of_stack = match.groups()
-            return_transition = SevpaTransition(destination, ret, 'pop', (stack_guard, top_of_stack))
-            source.transitions[label].append(return_transition)
+            ret, *stack_guard = match.groups()
+            ret = int(ret) if ret.isdigit() else ret
+            stack_guard = tuple(int(x) if x.isdigit() else x[1:-1] for x in stack_guard)
+            return_transition = SevpaTransition(destination, ret, 'pop', stack_guard)
+            source.transitions[ret].append(return_transition)
         else:
+            # cast to integer
+            label = int(label) if label.isdigit() else label
             internal_transition = SevpaTransition(destination, label, None, None)
             source.transitions[label].append(internal_transition)
-        pass
     if automaton_type == 'vpa':
         input_symbol, stack_symbol, action = None, None, None
         push_elements = re.fullmatch(vpa_push_pattern, label)
-- 
2.43.0


From d430df5924cd3cfc19663db016c9bb693532c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:21 +0000
Subject: [PATCH 44/84] fix: saving automata whose state identifiers are not
 strings (crashed)

---
 aalpy/utils/FileHandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 1477ca9..487640b 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -20,7 +20,8 @@ def _wrap_label(label):
     """
     Adds a " " around a label if not already present on both ends.
     """
-    if label[0] == '\"' and label[-1] == '\"':
+    label = str(label)
+    if label and label[0] == '\"' and label[-1] == '\"':
         return label
     return f'\"{label}\"'
 
-- 
2.43.0


From 561bd710ebdbbc9affa6343797c18cf895f6364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:04 +0000
Subject: [PATCH 45/84] fix: models with state identifiers that dot quotes
 (starting with a digit) can be loaded

---
 aalpy/utils/FileHandler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 487640b..933325d 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -340,8 +340,8 @@ def _process_node_label_prime(node_name, label, line, node_label_dict, node_type
 
 # TODO: robust patterns (break eg. if state label contains "-")
 label_pattern = r'label=("[^"]*"|[^\s\],]*)'
-starting_state_pattern = r'__start0\s*->\s*(\w+)\s*(?:\[label=""\])?;?'
-transition_pattern = r'(\w+)\s*->\s*(\w+)\s*(.*)?;?'
+starting_state_pattern = r'__start0\s*->\s*"?(\w+)"?\s*(?:\[label=""\])?;?'
+transition_pattern = r'"?(\w+)"?\s*->\s*"?(\w+)"?\s*(.*)?;?'
 
 
 def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
@@ -390,7 +390,7 @@ def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
                 initial_state = match.group(1).strip()
             # State definitions
             elif '__start0' not in line and 'label' in line and '->' not in line:
-                state_id = line.split('[')[0].strip()
+                state_id = line.split('[')[0].strip().strip('"')
                 match = re.search(label_pattern, line)
                 label = _strip_label(match.group(1))
                 _process_node_label_prime(state_id, label, line, node_label_dict, nodeType, automaton_type)
-- 
2.43.0


From 3ac7d73a220059c1775e43044233796a32d8c99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 46/84] fix: sink states of non-deterministic Moore machines
 have the documented output

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index fb52c0b..a9831e8 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -251,7 +251,7 @@ def make_input_complete(automaton, missing_transition_go_to='self_loop'):
                             MooreMachine: MooreState(state_id='sink', output='sink_state'),
                             MealyMachine: MealyState(state_id='sink'),
                             Onfsm: OnfsmState(state_id='sink'),
-                            NDMooreMachine: NDMooreState(state_id='sink'),
+                            NDMooreMachine: NDMooreState(state_id='sink', output='sink_state'),
                             Mdp: MdpState(state_id='sink', output='sink_state'),
                             StochasticMealyMachine: StochasticMealyState(state_id='sink')}
 
-- 
2.43.0


From bf81772ac2b641b3e84b6bb285b53807927a1019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 47/84] fix: the sink state added by make_input_complete has an
 identifier that no other state has

---
 aalpy/utils/HelperFunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index a9831e8..e49e27d 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -257,6 +257,9 @@ def make_input_complete(automaton, missing_transition_go_to='self_loop'):
 
     if missing_transition_go_to == 'sink_state':
         sink_state = sink_state_type_dict[automaton.__class__]
+        # state identifiers are unique
+        while automaton.get_state_by_id(sink_state.state_id) is not None:
+            sink_state.state_id += '_'
         automaton.states.append(sink_state)
 
     for state in automaton.states:
-- 
2.43.0


From 84f411cdddebcb04fead8188d88ad0ce63f5a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:57 +0000
Subject: [PATCH 48/84] fix: executing an undefined input on non-deterministic
 and stochastic automata does not add it to their transitions and alphabet

---
 aalpy/automata/Mdp.py                          | 7 ++++---
 aalpy/automata/NonDeterministicMooreMachine.py | 2 +-
 aalpy/automata/Onfsm.py                        | 8 ++++----
 aalpy/automata/StochasticMealyMachine.py       | 7 ++++---
 4 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/aalpy/automata/Mdp.py b/aalpy/automata/Mdp.py
index 8f530ad..22312a2 100644
--- a/aalpy/automata/Mdp.py
+++ b/aalpy/automata/Mdp.py
@@ -40,8 +40,9 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
         if letter is None:
             return self.current_state.output
 
-        probability_distributions = [i[1] for i in self.current_state.transitions[letter]]
-        states = [i[0] for i in self.current_state.transitions[letter]]
+        transitions = self.current_state.transitions.get(letter, [])
+        probability_distributions = [i[1] for i in transitions]
+        states = [i[0] for i in transitions]
 
         new_state = random.choices(states, probability_distributions, k=1)[0]
 
@@ -60,7 +61,7 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
 
             output of the reached state, None otherwise
         """
-        for new_state in self.current_state.transitions[inp]:
+        for new_state in self.current_state.transitions.get(inp, []):
             if new_state[0].output == out:
                 self.current_state = new_state[0]
                 return out
diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 1f78813..6bfcfda 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -64,6 +64,6 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
             the output of the reached state
 
         """
-        options = self.current_state.transitions[letter]
+        options = self.current_state.transitions.get(letter, [])
         self.current_state = random.choice(options)
         return self.current_state.output
diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index fb0bc9a..c544920 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -37,7 +37,7 @@ class OnfsmState(AutomatonState, Generic[InputType, OutputType]):
         Returns:
 
         """
-        possible_transitions = self.transitions[input]
+        possible_transitions = self.transitions.get(input, [])
         if output:
             return next((t for t in possible_transitions if t[0] == output), None)
         else:
@@ -63,7 +63,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             output of the probabilistically chosen transition
 
         """
-        transition = choice(self.current_state.transitions[letter])
+        transition = choice(self.current_state.transitions.get(letter, []))
         output = transition[0]
         self.current_state = transition[1]
         return output
@@ -80,7 +80,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             list of observable outputs
 
         """
-        return [trans[0] for trans in self.current_state.transitions[letter]]
+        return [trans[0] for trans in self.current_state.transitions.get(letter, [])]
 
     def step_to(self, inp, out):
         """Performs a step on the automaton based on the input `inp` and output `out`.
@@ -95,7 +95,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             output of the reached state, None otherwise
 
         """
-        for new_state in self.current_state.transitions[inp]:
+        for new_state in self.current_state.transitions.get(inp, []):
             if new_state[0] == out:
                 self.current_state = new_state[1]
                 return out
diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index ae033d9..5d663af 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -36,7 +36,8 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
            output of the current state
         """
         prob = random.random()
-        probability_distributions = [i[2] for i in self.current_state.transitions[letter]]
+        transitions = self.current_state.transitions.get(letter, [])
+        probability_distributions = [i[2] for i in transitions]
         index = 0
         for i, p in enumerate(probability_distributions):
             prob -= p
@@ -44,7 +45,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
                 index = i
                 break
 
-        transition = self.current_state.transitions[letter][index]
+        transition = transitions[index]
         self.current_state = transition[0]
         return transition[1]
 
@@ -61,7 +62,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
             output of the reached state, None otherwise
 
         """
-        for (new_state, output, prob) in self.current_state.transitions[inp]:
+        for (new_state, output, prob) in self.current_state.transitions.get(inp, []):
             if output == out:
                 self.current_state = new_state
                 return out
-- 
2.43.0


From 86a7d649839f687b1643542e4ddad0feba36103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:07 +0000
Subject: [PATCH 49/84] fix: the current output of non-deterministic Moore
 machines can be read (empty queries crashed)

---
 aalpy/automata/NonDeterministicMooreMachine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 6bfcfda..b18224c 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -64,6 +64,9 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
             the output of the reached state
 
         """
+        if letter is None:
+            return self.current_state.output
+
         options = self.current_state.transitions.get(letter, [])
         self.current_state = random.choice(options)
         return self.current_state.output
-- 
2.43.0


From 1c194aef0a98a8ff08263426e9f43c5f04e3d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:22 +0000
Subject: [PATCH 50/84] fix: OnfsmState.get_transition finds the transition of
 falsy outputs (returned all transitions)

---
 aalpy/automata/Onfsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index c544920..06d45d5 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -38,7 +38,7 @@ class OnfsmState(AutomatonState, Generic[InputType, OutputType]):
 
         """
         possible_transitions = self.transitions.get(input, [])
-        if output:
+        if output is not None:
             return next((t for t in possible_transitions if t[0] == output), None)
         else:
             return possible_transitions
-- 
2.43.0


From 504c40a43830660b5b11c071ce82e1a596df28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:34 +0000
Subject: [PATCH 51/84] fix: SMM to MDP conversion gives every state a unique
 identifier and supports identifiers that are not strings

---
 aalpy/automata/StochasticMealyMachine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index 5d663af..7c1e2a8 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -125,7 +125,8 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
                 incoming_outputs.update(map(lambda t: t[1], incoming_edges[i]))
         state_id = 0
         for o in incoming_outputs:
-            new_state_id = s.state_id + str(state_id)
+            # unique, whatever the ids of the SMM states look like
+            new_state_id = f'{s.state_id}_{state_id}'
             state_id += 1
             new_state = MdpState(new_state_id, o)
             mdp_states.append(new_state)
-- 
2.43.0


From d3b517cec9b18e13bc9b128c1e1213003b499137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:45 +0000
Subject: [PATCH 52/84] fix: SMM to MDP conversion does not change SMMs that
 are not input complete

---
 aalpy/automata/StochasticMealyMachine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index 7c1e2a8..2de5777 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -121,7 +121,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
         incoming_outputs = set()
         for pre_s in smm.states:
             for i in inputs:
-                incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions[i])
+                incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions.get(i, []))
                 incoming_outputs.update(map(lambda t: t[1], incoming_edges[i]))
         state_id = 0
         for o in incoming_outputs:
@@ -135,7 +135,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
     for s in smm.states:
         mdp_states_for_s = {mdp_state for (s_id, o), mdp_state in smm_state_to_mdp_state.items() if s_id == s.state_id}
         for i in inputs:
-            for outgoing_t in s.transitions[i]:
+            for outgoing_t in s.transitions.get(i, []):
                 target_smm_state = outgoing_t[0]
                 output = outgoing_t[1]
                 prob = outgoing_t[2]
-- 
2.43.0


From 2762c7852e741baad8ac44b8bd2fb3061f0d3448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:57 +0000
Subject: [PATCH 53/84] fix: PRISM export of MDPs whose outputs are not strings
 (crashed)

---
 aalpy/utils/ModelChecking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 3ef3175..aae261c 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -104,7 +104,7 @@ def mdp_2_prism_format(mdp: Mdp, name: str, output_path=None):
     # labelling function
     output_to_state_id = defaultdict(list)
     for s in mdp.states:
-        joined_output = s.output
+        joined_output = str(s.output)
         outputs = joined_output.split("__")
         for o in outputs:
             if o:
-- 
2.43.0


From c1e3332aa612fc61870b38f2100a07340d971ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 54/84] fix: mc_from_mdp uses the given input symbol even if it
 is falsy (took another input)

---
 aalpy/utils/HelperFunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index e49e27d..f865e97 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -438,7 +438,8 @@ def mc_from_mdp(mdp: Mdp, input_symbol=None) -> MarkovChain:
     alphabet = mdp.get_input_alphabet()
     if len(alphabet) != 1 and input_symbol is None:
         raise ValueError('Cannot convert MDP with several inputs to Markov chain.')
-    input_symbol = input_symbol or alphabet[0]
+    if input_symbol is None:
+        input_symbol = alphabet[0]
 
     state_map = {state.state_id: McState(state.state_id, state.output) for state in mdp.states}
     for state in mdp.states:
-- 
2.43.0


From 01d34cdf44bcd9c2be30337f6a7597237d364ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:39 +0000
Subject: [PATCH 55/84] fix: generation of minimal random automata gives up
 after 100 iterations (looped forever if no minimal automaton exists)

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 2d975b6..a833751 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -124,6 +124,7 @@ def generate_random_deterministic_automata(automaton_type,
             if minimality_iterations == 100:
                 warnings.warn(f'Non-minimal automaton ({automaton_type}, num_states : {num_states}) returned.')
                 break
+            minimality_iterations += 1
 
             custom_args = {}
             if 'custom_input_alphabet' in kwargs:
-- 
2.43.0


From d90dfda487c82ceaaf98ad8ada6db649031d2eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:11 +0000
Subject: [PATCH 56/84] fix: random SMMs do not have two transitions with the
 same input and output

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index a833751..d507589 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -353,6 +353,7 @@ def generate_random_smm(num_states, input_size, output_size, possible_probabilit
                     if new_output not in observed_outputs:
                         state_id_state_map[deterministic_state.state_id].transitions[i].append(
                             (new_state, new_output, prob[prob_index]))
+                        observed_outputs.append(new_output)
                         break
 
     return StochasticMealyMachine(smm_states[0], smm_states)
-- 
2.43.0


From 3c2be9762fa56ec536b2116acf99a91ef0e297f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 57/84] fix: random SEVPAs are internally input complete
 (missing internal transitions were not added)

---
 aalpy/utils/AutomatonGenerators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index d507589..34d559c 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -505,7 +505,7 @@ def generate_random_sevpa(num_states, internal_alphabet_size, call_alphabet_size
 
     for state in states:
         for internal_letter in internal_alphabet:
-            if state.transitions[internal_letter] is None:
+            if not state.transitions[internal_letter]:
                 target_state = random.choice(states)
                 state.transitions[internal_letter].append(
                     SevpaTransition(target_state, internal_letter, None, None))
-- 
2.43.0


From 1d72e82d6e83272d65e97615bc7df06e3d42cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 58/84] fix: samples of active Alergia pair each output with
 its own input (inputs and outputs were shifted by one)

---
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 5abdfcd..2bcdd54 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from random import randint, choice
 
+from aalpy.automata import StochasticMealyMachine
 from aalpy.learning_algs import run_Alergia
 
 
@@ -43,9 +44,9 @@ class RandomWordSampler(Sampler):
 
             outputs = sul.query(random_walk)
 
-            sample = [outputs.pop(0)]
-            for i in range(len(outputs)):
-                sample.append((random_walk[i], outputs[i]))
+            # outputs are aligned with inputs, the initial output (not present in stochastic Mealy machines) is not queried
+            sample = [] if isinstance(model, StochasticMealyMachine) else [model.initial_state.output]
+            sample.extend(zip(random_walk, outputs))
 
             samples.append(sample)
 
-- 
2.43.0


From 92aadc2bffe979de60c6225d64927cd638e55c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:22 +0000
Subject: [PATCH 59/84] fix: active Alergia learns models of the requested type
 (always learned MDPs)

---
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 2bcdd54..ab35a1e 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -80,7 +80,7 @@ def run_active_Alergia(data, sul, sampler, n_iter, eps=0.05, compatibility_check
     for i in range(n_iter):
         if print_info:
             print(f'Active Alergia Iteration: {i}')
-        model = run_Alergia(data, automaton_type='mdp', eps=eps, compatibility_checker=compatibility_checker)
+        model = run_Alergia(data, automaton_type=automaton_type, eps=eps, compatibility_checker=compatibility_checker)
 
         new_samples = sampler.sample(sul, model)
         data.extend(new_samples)
-- 
2.43.0


From d8158ccbae402778e853a100b8fd6f2c8ce18c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 60/84] fix: ONFSM L* stops after max_learning_rounds rounds
 (learned one more)

---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 223cb36..a4c0659 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -67,7 +67,7 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
     hypothesis = None
 
     while True:
-        if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
+        if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
 
         ot.S = list()
-- 
2.43.0


From dc32a26798c2fac11d67dd892247695eee7d3fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 61/84] fix: ONFSM L* checks closedness after the table is
 cleaned (crashed when the last representative of a row was removed)

---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index a4c0659..dc726cd 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -77,8 +77,8 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
         row_to_close = ot.get_row_to_close()
         while row_to_close is not None:
             ot.query_missing_observations()
-            row_to_close = ot.get_row_to_close()
             ot.clean_obs_table()
+            row_to_close = ot.get_row_to_close()
 
         hypothesis = ot.gen_hypothesis()
 
-- 
2.43.0


From 7daa19d5726561e18a70726aa6dee8ec7873f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 62/84] fix: cleaning of the abstracted observation table
 removes rows once (crashed, the set of rows is shared)

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index e01ad1a..2fb60e1 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -250,15 +250,14 @@ class AbstractedNonDetObservationTable:
             hashed_s_row = self.row_to_hashable(s)
             if hashed_s_row in hashed_rows_from_s:
                 if s in self.S:
+                    # S is shared with the concrete observation table
                     self.S.remove(s)
-                    self.observation_table.S.remove(s)
                 size = len(s[0])
                 for row_prefix in tmp_both_S:
                     s_both_row = (row_prefix[0][:size], row_prefix[1][:size])
                     if s != row_prefix and s == s_both_row:
                         if row_prefix in self.S:
                             self.S.remove(row_prefix)
-                            self.observation_table.S.remove(s)
             else:
                 hashed_rows_from_s.add(hashed_s_row)
 
-- 
2.43.0


From 43a739ad040048586ff555d6462804306eea12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 63/84] fix: consistency check of the abstracted ONFSM
 observation table compares rows (never found a violation, hypotheses were not
 observable)

---
 .../AbstractedOnfsmObservationTable.py        | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 2fb60e1..fcc5c7c 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -49,6 +49,10 @@ class AbstractedNonDetObservationTable:
 
         """
 
+        if s_set is None:
+            extended_S = self.update_extended_S()
+            s_set = self.S + extended_S + [row for row in self.S_dot_A if row not in extended_S]
+
         self.observation_table.query_missing_observations(s_set, e_set)
         self.abstract_obs_table()
         self.clean_obs_table()
@@ -192,17 +196,19 @@ class AbstractedNonDetObservationTable:
                 #                 outputs = self.observation_table.T[s_row[0]][a]
                 outputs = self.get_all_outputs(s_row[0], a)
                 for o in outputs:
-                    extended_s_sequence = (s_row[0][0] + a, s_row[0][1] + tuple([o]))
+                    extended_s_sequence = (s_row[0][0] + a, s_row[0][1] + o)
                     if extended_s_sequence in unified_S:
                         extended_s_sequence_row = self.row_to_hashable(extended_s_sequence)
                         for similar_s_dot_a_row in similar_s_dot_a_rows:
                             extended_s_dot_a_sequence = (
-                                similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + tuple([o]))
+                                similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + o)
                             if extended_s_dot_a_sequence in unified_S:
                                 extended_s_dot_a_sequence_row = self.row_to_hashable(extended_s_dot_a_sequence)
-                                if extended_s_sequence_row is not extended_s_dot_a_sequence_row:
-                                    return self.get_distinctive_input_sequence(extended_s_sequence,
-                                                                               extended_s_dot_a_sequence, a)
+                                if extended_s_sequence_row != extended_s_dot_a_sequence_row:
+                                    e = self.get_distinctive_input_sequence(extended_s_sequence,
+                                                                            extended_s_dot_a_sequence, a)
+                                    if e is not None:
+                                        return e
 
         return None
 
@@ -222,8 +228,8 @@ class AbstractedNonDetObservationTable:
 
         """
         for e in self.E:
-            if len(self.T[first_row][e].difference(self.T[second_row][e])) > 0:
-                return tuple([inp]) + e
+            if self.T[first_row][e] != self.T[second_row][e] and inp + e not in self.E:
+                return inp + e
 
         return None
 
-- 
2.43.0


From 85ed40956e29df482b4222c992b571d4af8c1873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 64/84] fix: abstracted observation table can be cleaned if
 outputs are not comparable (crashed)

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py         | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index fcc5c7c..094bd5c 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -425,7 +425,6 @@ class AbstractedNonDetObservationTable:
         update_S = self.S.copy()
         whole_S = self.S + self.S_dot_A
 
-        update_S.sort()
         update_S.sort(key=lambda t: len(t[0]))
 
         s_rows = set()
-- 
2.43.0


From 8902e7abb72ae38376673cf788235f3c1ec1aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 65/84] fix: stochastic L* reports the steps of learning
 (subtracted the queries of the equivalence oracle)

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 7d7623b..ef340e5 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -202,7 +202,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
         'learning_rounds': learning_rounds,
         'automaton_size': len(hypothesis.states),
         'queries_learning': stochastic_teacher.sul.num_queries - eq_oracle.num_queries,
-        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_queries,
+        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_steps,
         'queries_eq_oracle': eq_oracle.num_queries,
         'steps_eq_oracle': eq_oracle.num_steps,
         'learning_time': learning_time,
-- 
2.43.0


From d5c932e14e7824c3a2fe862d32caccfbcd1e44b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 66/84] fix: rows of the stochastic table that are observed for
 the first time get cells (classic strategy crashed)

---
 .../SamplingBasedObservationTable.py          | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
index 5513278..f47081a 100644
--- a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
+++ b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
@@ -122,16 +122,17 @@ class SamplingBasedObservationTable:
         Returns:
 
         """
-        if element_of_s:
-            s_set = element_of_s + list(self.get_extended_s(element_of_s=element_of_s))
-        else:
-            s_set = self.S + list(self.get_extended_s())
-        # s_set = element_of_s if  else self.S + list(self.get_extended_s())
+        # elements of S are updated first, as their updated cells determine the extended S set
+        for update_extended_s in (False, True):
+            if update_extended_s:
+                s_set = list(self.get_extended_s(element_of_s=element_of_s))
+            else:
+                s_set = element_of_s if element_of_s else self.S
 
-        for s in s_set:
-            for e in self.E:
-                self.T[s][e] = self.teacher.frequency_query(s, e)
-                self.freq_query_cache[s + e] = self.T[s][e]
+            for s in s_set:
+                for e in self.E:
+                    self.T[s][e] = self.teacher.frequency_query(s, e)
+                    self.freq_query_cache[s + e] = self.T[s][e]
 
     def get_extended_s(self, element_of_s=None):
         """Generator returning all elements of the extended S set.
-- 
2.43.0


From 030fc60200cddf690d659ab4be54c5b6dcc1b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 67/84] fix: longest prefix processing of stochastic
 counterexamples compares inputs and outputs (crashed if only the inputs of
 the counterexample were known)

---
 aalpy/learning_algs/stochastic/StochasticCexProcessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
index d115a49..1a55d8b 100644
--- a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
+++ b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
@@ -16,11 +16,12 @@ def stochastic_longest_prefix(cex, prefixes):
     """
     prefixes = list(prefixes)
     prefixes.sort(key=len, reverse=True)
+    cex = tuple(cex)
 
     trimmed_cex = None
     trimmed = False
     for p in prefixes:
-        if p[1::2] == cex[:len(p)][1::2]:
+        if len(p) < len(cex) and p == cex[:len(p)]:
             trimmed_cex = cex[len(p):]
             trimmed = True
             break
-- 
2.43.0


From 1ac2e85ba86771ab3db8d2ad45aee5e955750160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 68/84] fix: Yates correction of the chi-square test does not
 increase deviations (tables with few samples were called different)

---
 aalpy/learning_algs/stochastic/DifferenceChecker.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/DifferenceChecker.py b/aalpy/learning_algs/stochastic/DifferenceChecker.py
index dec3ec3..b0142cf 100644
--- a/aalpy/learning_algs/stochastic/DifferenceChecker.py
+++ b/aalpy/learning_algs/stochastic/DifferenceChecker.py
@@ -169,9 +169,10 @@ class ChiSquareChecker(DifferenceChecker):
                                    any(c1_out_freq.get(k, 0) < 5 or c2_out_freq.get(k, 0) < 5 for k in keys) else 0
         for k in keys:
             p_hat_k = float(c1_out_freq.get(k, default_val) + c2_out_freq.get(k, default_val)) / (n_1 + n_2)
-            q_1_k = float(((abs(c1_out_freq.get(k, default_val) - n_1 * p_hat_k)) + yates_correction) ** 2) / (
-                    n_1 * p_hat_k)
-            q_2_k = float(((abs(c2_out_freq.get(k, default_val) - n_2 * p_hat_k)) + yates_correction) ** 2) / (
-                    n_2 * p_hat_k)
+            # the correction must not increase deviations that are smaller than the correction
+            dev_1_k = max(abs(c1_out_freq.get(k, default_val) - n_1 * p_hat_k) + yates_correction, 0)
+            dev_2_k = max(abs(c2_out_freq.get(k, default_val) - n_2 * p_hat_k) + yates_correction, 0)
+            q_1_k = float(dev_1_k ** 2) / (n_1 * p_hat_k)
+            q_2_k = float(dev_2_k ** 2) / (n_2 * p_hat_k)
             Q = Q + q_1_k + q_2_k
         return Q
-- 
2.43.0


From dfbcd1f18db723f25d7444d304ff69f421b9fa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 69/84] fix: transforming the score of a score calculation does
 not recurse into itself

---
 aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
index 0f1cd97..be55418 100644
--- a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
+++ b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
@@ -182,7 +182,8 @@ def transform_score(score, transform: Callable):
     if isinstance(score, Callable):
         return lambda *args: transform(score(*args))
     if isinstance(score, ScoreCalculation):
-        score.score_function = lambda *args: transform(score.score_function(*args))
+        score_function = score.score_function
+        score.score_function = lambda *args: transform(score_function(*args))
         return score
     return transform(score)
 
-- 
2.43.0


From 78b65960490386ff897652c3b07aa34f6c6a8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 70/84] fix: complete sample of a single-state Mealy machine is
 not empty

---
 aalpy/utils/Sampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/utils/Sampling.py b/aalpy/utils/Sampling.py
index 3e6d454..26160a2 100644
--- a/aalpy/utils/Sampling.py
+++ b/aalpy/utils/Sampling.py
@@ -83,5 +83,7 @@ def get_complete_sample(automaton: DeterministicAutomaton):
     alphabet = automaton.get_input_alphabet()
     automaton.compute_prefixes()
     char_set = automaton.compute_characterization_set()
+    if len(char_set) == 0:  # nothing to distinguish: Mealy machine with a single state
+        char_set = [tuple()]
     infixes = [(x,) for x in alphabet] + [tuple()]
     return [state.prefix + infix + suffix for state in automaton.states for suffix in char_set for infix in infixes]
-- 
2.43.0


From 74721416e9ade1ae2090102e8d3e6c590eb9b5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 71/84] fix: PRISM results in scientific notation keep their
 exponent

---
 aalpy/utils/ModelChecking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index aae261c..eb6b6a4 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -12,7 +12,7 @@ from aalpy.automata import Mdp, StochasticMealyMachine, MealyMachine, Dfa, Moore
     DfaState
 from aalpy.base import DeterministicAutomaton, SUL, AutomatonState
 
-prism_prob_output_regex = re.compile("Result: (\d+\.\d+)")
+prism_prob_output_regex = re.compile(r"Result: (\d+\.\d+(?:[eE][+-]?\d+)?)")
 
 
 def get_properties_file(exp_name):
-- 
2.43.0


From 6d0396aa450378f44c321445fb769c93ff4561dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 72/84] fix: guided queries of stochastic learning do not lower
 the counts of executed inputs (systems with an output 'dummy')

---
 aalpy/learning_algs/stochastic/StochasticTeacher.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticTeacher.py b/aalpy/learning_algs/stochastic/StochasticTeacher.py
index 3070dcf..6a2bd6e 100644
--- a/aalpy/learning_algs/stochastic/StochasticTeacher.py
+++ b/aalpy/learning_algs/stochastic/StochasticTeacher.py
@@ -225,9 +225,6 @@ class StochasticTeacher:
         self.sul.pre()
         curr_node = pta_root
 
-        inputs = []
-        outputs = []
-
         while True:
 
             if curr_node.children:
@@ -246,21 +243,15 @@ class StochasticTeacher:
                             break
                     # curr_node.input_frequencies[inp] -= 1
 
-                inputs.append(inp)
                 out = self.sul.step(inp)
                 new_node = curr_node.get_child(inp, out)
 
                 if new_node:
-                    outputs.append(out)
                     curr_node = new_node
                 else:
                     self.sul.post()
                     return
             else:
-                curr_node = pta_root
-                for i, o in zip(inputs, outputs):
-                    self.curr_node.input_frequencies[i] -= 1
-                    curr_node = curr_node.get_child(i, o)
                 self.sul.post()
                 return
 
-- 
2.43.0


From 63a5ad8e3f0941887c107e818860562d37f39f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 73/84] fix: GSM rejects Moore traces with different initial
 outputs

---
 aalpy/learning_algs/general_passive/GsmNode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index f408936..640540f 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -442,6 +442,8 @@ class GsmNode:
         if data_format == "io_traces" or data_format == "traces":
             if output_behavior == "moore":
                 initial_output = data[0][0]
+                if any(len(d) > 0 and d[0] != initial_output for d in data):
+                    raise ValueError("all traces of a Moore machine need to have the same initial output")
                 root_node.prefix_access_pair = (None, initial_output)
                 data = (d[1:] for d in data)
             for trace in data:
-- 
2.43.0


From 373eef96ce8d44c0e8c968156b031328b15dee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 74/84] fix: GSM data format detection recognizes output traces
 which start with a short trace

---
 aalpy/learning_algs/general_passive/GsmNode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index 640540f..047886c 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -87,7 +87,8 @@ def detect_data_format(data, check_consistency=False, guess=False):
         for k, check in check_dict.items():
             accept_dict[k] &= check(data_point)
         accepted_formats = [k for k, v in accept_dict.items() if v]
-        if len(accepted_formats) == 1 and not check_consistency:
+        # data points with at most one element do not distinguish input-output traces and (output) traces
+        if len(accepted_formats) == 1 and len(data_point) > 1 and not check_consistency:
             return accepted_formats[0]
         if len(accepted_formats) == 0:
             return "traces" # default to traces
-- 
2.43.0


From ce4376957212833d4a28b0f9df4e31bf806f8d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 75/84] fix: abstracted ONFSM L* refines its table when all
 suffixes of a counterexample are already known

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 094bd5c..ba2fc54 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -399,7 +399,10 @@ class AbstractedNonDetObservationTable:
                 equivalent_output = True
                 break
 
-        if equivalent_output:
+        cex_suffixes = all_suffixes(cex[0])
+
+        # without new suffixes, only the prefixes can refine the table
+        if equivalent_output or all(suffix in self.E for suffix in cex_suffixes):
             # add prefixes of cex to S_dot_A
             cex_prefixes = [(tuple(cex[0][0:i + 1]), tuple(cex[1][0:i + 1])) for i in range(0, len(cex[0]))]
             prefixes_to_extend = self.extend_S_dot_A(cex_prefixes)
@@ -412,8 +415,6 @@ class AbstractedNonDetObservationTable:
             # CHANGED CEX PROX
             # TODO: this will now not work as cex processing was changed
             # cex_suffixes = non_det_longest_prefix_cex_processing(self.observation_table, cex)
-            cex_suffixes = all_suffixes(cex[0])
-
             added_suffixes = extend_set(self.observation_table.E, cex_suffixes)
             self.update_obs_table(e_set=added_suffixes)
 
-- 
2.43.0


From 252ae89e0648416d03cbdc19b55830ac9400d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 76/84] fix: L# and adaptive L# distinguish the output None
 from a missing observation

---
 aalpy/learning_algs/deterministic/ADS.py      | 24 ++++++++-----------
 .../learning_algs/deterministic/Apartness.py  | 23 ++++++++----------
 .../deterministic/ObservationTree.py          | 18 ++++++--------
 3 files changed, 27 insertions(+), 38 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ADS.py b/aalpy/learning_algs/deterministic/ADS.py
index 20eada3..f933800 100644
--- a/aalpy/learning_algs/deterministic/ADS.py
+++ b/aalpy/learning_algs/deterministic/ADS.py
@@ -29,6 +29,7 @@ class Ads:
     def __init__(self, ob_tree, current_block):
         self.initial_node = self.construct_ads(ob_tree, current_block)
         self.current_node = self.initial_node
+        self.started = False
 
     def get_score(self):
         return self.initial_node.get_score()
@@ -127,27 +128,21 @@ class Ads:
         # Partitions states in the block based on their output for a given input
         partition = defaultdict(list)
         for node in block:
-            if automaton_type == 'mealy':
-                output = node.get_output(input_val)
-                if output is not None:
-                    successor = node.get_successor(input_val)
-                    if successor is not None:
-                        partition[output].append(successor)
-            else:
-                successor = node.get_successor(input_val)
-                if successor is not None:
-                    output = successor.output 
-                    if output is not None:
-                        partition[output].append(successor)
+            successor = node.get_successor(input_val)
+            if successor is not None:
+                output = node.get_output(input_val) if automaton_type == 'mealy' else successor.output
+                partition[output].append(successor)
         return partition
 
     def next_input(self, prev_output):
         # Returns the next input based on the previous output and updates the current node
-        if prev_output is not None:
+        # The first input does not depend on an output; afterwards None is an output like any other
+        if self.started:
             child = self.current_node.get_child_node(prev_output)
             if child is None:
                 return None
             self.current_node = child
+        self.started = True
         return self.current_node.get_input()
 
     def maximal_base_input(self, alphabet, block, automaton_type):
@@ -174,4 +169,5 @@ class Ads:
 
     def reset_to_root(self):
         # Resets the current ADS node to the initial root node
-        self.current_node = self.initial_node
\ No newline at end of file
+        self.current_node = self.initial_node
+        self.started = False
\ No newline at end of file
diff --git a/aalpy/learning_algs/deterministic/Apartness.py b/aalpy/learning_algs/deterministic/Apartness.py
index 7d5adf0..1e65d62 100644
--- a/aalpy/learning_algs/deterministic/Apartness.py
+++ b/aalpy/learning_algs/deterministic/Apartness.py
@@ -31,15 +31,14 @@ class Apartness:
         while pairs:
             first_node, second_node = pairs.popleft()
             for input_val in alphabet:
-                first_output = first_node.get_output(input_val)
-                second_output = second_node.get_output(input_val)
+                first_successor = first_node.get_successor(input_val)
+                second_successor = second_node.get_successor(input_val)
 
-                if first_output is not None and second_output is not None:
-                    if first_output != second_output:
-                        return first_node.get_successor(input_val)
+                if first_successor is not None and second_successor is not None:
+                    if first_node.get_output(input_val) != second_node.get_output(input_val):
+                        return first_successor
 
-                    pairs.append((first_node.get_successor(
-                        input_val), second_node.get_successor(input_val)))
+                    pairs.append((first_successor, second_successor))
 
         return None
 
@@ -83,16 +82,14 @@ class Apartness:
             tree_state, hyp_state = pairs.popleft()
 
             for input_val in ob_tree.alphabet:
-                tree_output = tree_state.get_output(input_val)
+                tree_dest = tree_state.get_successor(input_val)
 
-                if tree_output is not None and input_val in hyp_state.output_fun:
+                if tree_dest is not None and input_val in hyp_state.output_fun:
                     hyp_output = hyp_state.output_fun[input_val]
-                    if tree_output != hyp_output:
-                        tree_dest = tree_state.get_successor(input_val)
+                    if tree_state.get_output(input_val) != hyp_output:
                         return ob_tree.get_transfer_sequence(ob_tree_state, tree_dest)
 
-                    pairs.append((tree_state.get_successor(
-                        input_val), hyp_state.transitions[input_val]))
+                    pairs.append((tree_dest, hyp_state.transitions[input_val]))
 
         return None
 
diff --git a/aalpy/learning_algs/deterministic/ObservationTree.py b/aalpy/learning_algs/deterministic/ObservationTree.py
index 55fbe10..a47abd5 100644
--- a/aalpy/learning_algs/deterministic/ObservationTree.py
+++ b/aalpy/learning_algs/deterministic/ObservationTree.py
@@ -136,15 +136,15 @@ class ObservationTree:
         current_node = self.root
         observation = []
         for input_val in inputs:
+            successor_node = current_node.get_successor(input_val)
+            if successor_node is None:
+                return None
             if self.automaton_type == 'mealy':
                 output = current_node.get_output(input_val)
-                current_node = current_node.get_successor(input_val)
             else:
-                current_node = current_node.get_successor(input_val)
-                output = current_node.output
-            if output is None:
-                return None
+                output = successor_node.output
             observation.append(output)
+            current_node = successor_node
         return observation
 
     def get_outputs(self, basis_state, inputs):
@@ -279,12 +279,8 @@ class ObservationTree:
 
         for basis_state in self.basis:
             for inp in self.alphabet:
-                if self.automaton_type == 'mealy':
-                    if basis_state.get_output(inp) is None:
-                        return False
-                else:
-                    if basis_state.get_successor(inp) is None:
-                        return False
+                if basis_state.get_successor(inp) is None:
+                    return False
 
         return True
 
-- 
2.43.0


From afe22b3280fdfa88ed2999f1f4b3c2f73d47e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 77/84] fix: linear counterexample processing works with the
 output None

---
 aalpy/learning_algs/deterministic/CounterExampleProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
index ec96cdd..6650ce9 100644
--- a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
+++ b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
@@ -135,7 +135,7 @@ def linear_cex_processing(sul: SUL, cex: tuple, hypothesis, suffix_closedness=Tr
 
         sul_out = sul.query(s_bracket + suffix)[-1]
 
-        if previous_output is None:
+        if i == 0:
             previous_output = sul_out
             continue
 
-- 
2.43.0


From 0503f63fd47c31b4e8241b2fc4694050d262367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:01 +0000
Subject: [PATCH 78/84] fix: rs counterexample processing of stochastic L*
 queries through the teacher and closes its sessions

---
 aalpy/learning_algs/stochastic/StochasticCexProcessing.py | 4 +++-
 aalpy/learning_algs/stochastic/StochasticLStar.py         | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
index 1a55d8b..af5624f 100644
--- a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
+++ b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
@@ -90,7 +90,6 @@ def stochastic_rs(sul: SUL, cex: tuple, hypothesis):
         prefix_reached = False
         while not prefix_reached:
             hypothesis.reset_to_initial()
-            sul.post()
             sul.pre()
 
             repeat = False
@@ -102,6 +101,8 @@ def stochastic_rs(sul: SUL, cex: tuple, hypothesis):
                     repeat = True
                     break
 
+            if repeat:
+                sul.post()
             prefix_reached = not repeat
 
         for inp in inputs[mid:]:
@@ -112,6 +113,7 @@ def stochastic_rs(sul: SUL, cex: tuple, hypothesis):
             if o_hyp is None:
                 not_same = True
                 break
+        sul.post()
 
         if not not_same:
             lower = mid + 1
diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index ef340e5..f9c30d3 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -167,7 +167,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
                     prefixes = observation_table.S + list(observation_table.get_extended_s())
                     suffixes = [stochastic_longest_prefix(cex, prefixes)[-1]]
                 elif cex_processing == 'rs':
-                    suffixes = stochastic_rs(sul, cex, hypothesis)
+                    suffixes = stochastic_rs(stochastic_teacher.sul, cex, hypothesis)
                 for suf in suffixes:
                     if suf not in observation_table.E:
                         observation_table.E.append(suf)
-- 
2.43.0


From 48c768cd8cf437e71473b08661888e1b30d759dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:04 +0000
Subject: [PATCH 79/84] fix: RPNI leaves the order of the caller's data alone
 and accepts tuples

---
 .../deterministic_passive/rpni_helper_functions.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index 4e010c8..721128f 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -72,7 +72,8 @@ def check_sequence(root_node, seq, automaton_type):
 
 
 def createPTA(data, automaton_type):
-    data.sort(key=lambda x: len(x[0]))
+    # the data belongs to the caller
+    data = sorted(data, key=lambda x: len(x[0]))
 
     root_node = RpniNode(automaton_type=automaton_type)
     for seq, label in data:
-- 
2.43.0


From 5b934bab04bf0acea830ab5a798a1d28bc132f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 80/84] fix: stochastic L* respects max_rounds when it stops
 based on properties

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index f9c30d3..fc4630d 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -181,6 +181,8 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
             # stop based on maximum allowed error
             if stop_based_on_confidence(hypothesis, property_based_stopping, print_level):
                 break
+            if max_rounds and learning_rounds >= max_rounds:
+                break
         else:
             # stop based on number of unambiguous rows
             stop_based_on_unambiguity = observation_table.stop(learning_rounds, chaos_cex_present, cex,
-- 
2.43.0


From 4b5fb200be1da92b1a52b25b405be3efb7e44a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 81/84] fix: k-way transition coverage executes at most
 max_number_of_steps steps

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index 7c24192..10f28dd 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -64,7 +64,11 @@ class KWayTransitionCoverageEqOracle(Oracle):
                     return counter_example
 
         elif self.method == 'prefix':
+            step_count = 0
             for steps in self.generate_prefix_steps(hypothesis):
+                step_count += len(steps)
+                if self.max_number_of_steps != 0 and step_count > self.max_number_of_steps:
+                    break
                 counter_example = self.check_path(hypothesis, steps)
 
                 if counter_example is not None:
@@ -82,6 +86,8 @@ class KWayTransitionCoverageEqOracle(Oracle):
             path = self.select_optimal_path(covered, paths)
 
             if path is not None:
+                if self.max_number_of_steps != 0 and step_count + len(path.steps) > self.max_number_of_steps:
+                    break
                 covered = set.union(covered, path.kWayTransitions)
                 paths.remove(path)
                 result.append(path)
@@ -90,10 +96,6 @@ class KWayTransitionCoverageEqOracle(Oracle):
             if path is None or not paths:
                 paths = [self.create_path(hypothesis, steps) for steps in self.generate_prefix_steps(hypothesis)]
 
-            if self.max_number_of_steps != 0 and step_count > self.max_number_of_steps:
-                print("stop")
-                break
-
         return result
 
     def select_optimal_path(self, covered: set, paths: list) -> Path:
-- 
2.43.0


From 84fe00509ed41b821cc72c082e9a520131020f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:44 +0000
Subject: [PATCH 82/84] fix: moving north in the small gridworld has a proper
 distribution

---
 aalpy/utils/BenchmarkSULs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/BenchmarkSULs.py b/aalpy/utils/BenchmarkSULs.py
index 6a812b8..974d635 100644
--- a/aalpy/utils/BenchmarkSULs.py
+++ b/aalpy/utils/BenchmarkSULs.py
@@ -259,7 +259,7 @@ def get_small_gridworld():
     s2.transitions['east'].append((s3, 'grass', p_g))
     s2.transitions['east'].append((s1, 'mud', 1 - p_g))
     s2.transitions['north'].append((s0, 'grass', p_g))
-    s2.transitions['south'].append((s1, 'mud', 1 - p_g))
+    s2.transitions['north'].append((s1, 'mud', 1 - p_g))
 
     s3.transitions['south'].append((s3, 'wall', 1.))
     s3.transitions['east'].append((s3, 'wall', 1.))
-- 
2.43.0


From 73e9c1129285fc4fc6ec1d8df34a643b4dea51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:12 +0000
Subject: [PATCH 83/84] fix: date validator rejects months above 12 and the
 31st of 30-day months

---
 aalpy/utils/BenchmarkSULs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/BenchmarkSULs.py b/aalpy/utils/BenchmarkSULs.py
index 974d635..baf460e 100644
--- a/aalpy/utils/BenchmarkSULs.py
+++ b/aalpy/utils/BenchmarkSULs.py
@@ -346,13 +346,16 @@ class DateValidator:
         if not (0 <= year <= 9999):
             return False
 
+        if not (1 <= month <= 12):
+            return False
+
         if month == 2 and not (1 <= day <= 28):
             return False
 
         if month in [1, 3, 5, 7, 8, 10, 12] and not (1 <= day <= 31):
             return False
 
-        elif not (1 <= day <= 31):
+        if month in [4, 6, 9, 11] and not (1 <= day <= 30):
             return False
 
         return True
-- 
2.43.0


From 8ab7de2309a384edc09a87c8f8c6c41e545267fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 84/84] fix: merge violation debugger survives promotions of
 prefixes its model does not know

---
 aalpy/learning_algs/general_passive/Instrumentation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/Instrumentation.py b/aalpy/learning_algs/general_passive/Instrumentation.py
index f39b72d..fdcb809 100644
--- a/aalpy/learning_algs/general_passive/Instrumentation.py
+++ b/aalpy/learning_algs/general_passive/Instrumentation.py
@@ -83,6 +83,9 @@ class MergeViolationDebugger(Instrumentation):
     def log_promote(self, new_red: GsmNode):
         new_red_prefix = new_red.get_prefix()
         node = self.root.get_by_prefix(new_red_prefix)
+        if node is None:
+            self.log.append(("broken promote", new_red_prefix))
+            return
         old_red = self.map.get(node)
         if old_red is None:
             self.map[node] = new_red
-- 
2.43.0

