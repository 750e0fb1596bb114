From e267ef673420b23f132388db6dbcd3246c441094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 01/16] fix: correct the tests deciding whether a constraint
 without variables is violated

The inequalities were inverted: a constant constraint such as 0 <= -1 was
accepted while 0 <= 1 was rejected.
---
 libclingo-lpx/src/solving.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 77c5f07..e8caf0d 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -297,25 +297,25 @@ auto Solver<Value>::prepare(Clingo::PropagateInit &init, SymbolMap const &symbol
             }
             switch (x.rel) {
                 case Relation::Less: {
-                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::LessEqual: {
-                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::Greater: {
-                    if (x.rhs <= 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs >= 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
                 }
                 case Relation::GreaterEqual: {
-                    if (x.rhs < 0 && !init.add_clause({-x.lit})) {
+                    if (x.rhs > 0 && !init.add_clause({-x.lit})) {
                         return false;
                     }
                     break;
-- 
2.43.0


From ed80da8a029f53ac7e3192568f652cf003cf4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 02/16] fix: restore the previous lower bound when undoing an
 equality

Storing a single trail entry for an equality restored the old upper bound as
lower bound as well (or overwrote the kind of an unrelated entry).
---
 libclingo-lpx/src/solving.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index e8caf0d..bc1ea9b 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -191,12 +191,7 @@ template <typename Value>
 auto Solver<Value>::Variable::update_lower(Solver &s, Clingo::Assignment ass, Bound const &bound) -> bool {
     if (!has_lower() || bound.value > lower()) {
         if (!has_lower() || ass.level(lower_bound->lit) < ass.decision_level()) {
-            if (upper_bound != &bound) {
-                s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
-            } else {
-                // Note: this assumes that update_lower is called right after update_upper for the same bound
-                std::get<1>(s.bound_trail_.back()) = BoundRelation::Equal;
-            }
+            s.bound_trail_.emplace_back(bound.variable, BoundRelation::GreaterEqual, lower_bound);
         }
         lower_bound = &bound;
     }
-- 
2.43.0


From 8e7fca0ca347009c79513d9fcae2a87089ef3601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 03/16] fix: treat conditional constants in sums as constants

The placeholder marking constant terms became an unconstrained variable.
---
 libclingo-lpx/src/parsing.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 5694683..00df2a5 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -346,7 +346,11 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
                 if (res.second) {
                     auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
-                    iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    if (is_invalid(it->var)) {
+                        iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
+                    } else {
+                        iqs.emplace_back(Inequality{{{1, res.first->second}, {-1, it->var}}, 0, Relation::Equal, lit});
+                    }
                 }
                 it->var = res.first->second;
             }
-- 
2.43.0


From ccb8bcc18872eb5501ca978a58e37b8315e41010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 04/16] fix: reject divisions by zero in terms

Evaluating such a term aborted the process.
---
 libclingo-lpx/src/parsing.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index 00df2a5..d864667 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -203,7 +203,10 @@ auto evaluate(bool num_str, Clingo::TheoryTerm const &term) -> std::variant<Rati
     }
     if (match(term, "/", 2)) {
         return evaluate(num_str, term.arguments().front(), term.arguments().back(),
-                        [](Rational &&a, Rational &&b) { return std::move(a) / std::move(b); });
+                        [](Rational &&a, Rational &&b) {
+                            check_syntax(b != 0);
+                            return std::move(a) / std::move(b);
+                        });
     }
 
     if (match(term, "-", 1)) {
-- 
2.43.0


From 48b4a8d32063eb41853fc85ade8c90b99881b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 05/16] fix: parse the objective option as such in
 clingolpx_configure

The value was parsed as Boolean and written over an optional rational.
---
 libclingo-lpx/src/clingo-lpx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 1393831..66edafa 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -383,7 +383,7 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("strict", parse_bool(value, &theory->strict));
         }
         if (strcmp(key, "objective") == 0) {
-            return check_parse("objective", parse_bool(value, &theory->options.global_objective));
+            return check_parse("objective", parse_objective(value, &theory->options));
         }
         if (strcmp(key, "propagate-conflicts") == 0) {
             return check_parse("propagate-conflicts", parse_bool(value, &theory->options.propagate_conflicts));
-- 
2.43.0


From 55b91403d3c347b6205a348771cdc2545ae7e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 06/16] fix: pass the options when parsing propagate-bounds in
 clingolpx_configure

The pointer to the member was interpreted as a pointer to all options, writing
the value past the end of them.
---
 libclingo-lpx/src/clingo-lpx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/clingo-lpx.cc b/libclingo-lpx/src/clingo-lpx.cc
index 66edafa..00b5568 100644
--- a/libclingo-lpx/src/clingo-lpx.cc
+++ b/libclingo-lpx/src/clingo-lpx.cc
@@ -389,7 +389,7 @@ extern "C" auto clingolpx_configure(clingolpx_theory_t *theory, char const *key,
             return check_parse("propagate-conflicts", parse_bool(value, &theory->options.propagate_conflicts));
         }
         if (strcmp(key, "propagate-bounds") == 0) {
-            return check_parse("propagate-bounds", parse_propagate(value, &theory->options.propagate_mode));
+            return check_parse("propagate-bounds", parse_propagate(value, &theory->options));
         }
         if (strcmp(key, "select") == 0) {
             return check_parse("select", parse_select(value, &theory->options));
-- 
2.43.0


From 4498420a8061713d8050ebb1befb12e202c6bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 07/16] fix: compare integers by value also if they are not
 small

The handle of a big integer was compared like a machine integer.
---
 libclingo-lpx/src/number_flint.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/number_flint.hh b/libclingo-lpx/src/number_flint.hh
index 77ba3f2..39443c8 100644
--- a/libclingo-lpx/src/number_flint.hh
+++ b/libclingo-lpx/src/number_flint.hh
@@ -412,7 +412,7 @@ inline auto operator<<(std::ostream &out, Integer const &a) -> std::ostream & {
 
 [[nodiscard]] inline auto compare(Integer const &a, fixed_int b) -> int { return fmpz_cmp_si(&a.num_, b); }
 
-[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp_si(&a.num_, b.num_); }
+[[nodiscard]] inline auto compare(Integer const &a, Integer const &b) -> int { return fmpz_cmp(&a.num_, &b.num_); }
 
 // gcd
 
-- 
2.43.0


From 1aeb3c79a6709792f558e94fcd30ff8591641762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 08/16] fix: sum up the step statistics of all threads

The values of one step were those of the last thread only.
---
 libclingo-lpx/src/solving.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index bc1ea9b..9c655e3 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1090,12 +1090,15 @@ void Propagator<Value>::on_statistics(Clingo::UserStatistics step, Clingo::UserS
     auto accu_simplex = accu.add_subkey("Simplex", Clingo::StatisticsType::Map);
     auto accu_pivots = accu_simplex.add_subkey("Pivots", Clingo::StatisticsType::Value);
     auto accu_propagated_bounds = accu_simplex.add_subkey("Bounds propagated", Clingo::StatisticsType::Value);
+    Statistics stats;
     for (auto const &[offset, slv] : slvs_) {
-        step_pivots.set_value(slv.statistics().pivots);
-        accu_pivots.set_value(accu_pivots.value() + slv.statistics().pivots);
-        step_propagated_bounds.set_value(slv.statistics().propagated_bounds);
-        accu_propagated_bounds.set_value(accu_propagated_bounds.value() + slv.statistics().propagated_bounds);
+        stats.pivots += slv.statistics().pivots;
+        stats.propagated_bounds += slv.statistics().propagated_bounds;
     }
+    step_pivots.set_value(stats.pivots);
+    accu_pivots.set_value(accu_pivots.value() + stats.pivots);
+    step_propagated_bounds.set_value(stats.propagated_bounds);
+    accu_propagated_bounds.set_value(accu_propagated_bounds.value() + stats.propagated_bounds);
 }
 
 template <typename Value>
-- 
2.43.0


From 92ab298afb930273140720f3bccba917357c5d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 09/16] fix: identify conditions by solver literals

Condition ids of conjunctions are reused in later steps of a multi-shot run.
Auxiliary variables of unrelated conditions were mixed up.
---
 libclingo-lpx/src/parsing.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libclingo-lpx/src/parsing.cc b/libclingo-lpx/src/parsing.cc
index d864667..53977dc 100644
--- a/libclingo-lpx/src/parsing.cc
+++ b/libclingo-lpx/src/parsing.cc
@@ -343,11 +343,12 @@ void parse_sum_elem(Clingo::TheoryTerm const &term, std::vector<Term> &res) {
         size_t n = lhs.size();
         parse_sum_elem(term, lhs);
         if (!elem.condition().empty()) {
+            // Note: unlike solver literals, condition ids are only unique within one step
+            auto lit = mapper(elem.condition_id());
             for (auto it = lhs.begin() + n, ie = lhs.end(); it != ie; ++it) {
-                auto res = var_map.try_emplace(std::make_pair(it->var, elem.condition_id()),
+                auto res = var_map.try_emplace(std::make_pair(it->var, lit),
                                                Clingo::Number(safe_cast<int>(var_map.size() + 1)));
                 if (res.second) {
-                    auto lit = mapper(elem.condition_id());
                     iqs.emplace_back(Inequality{{{1, res.first->second}}, 0, Relation::Equal, -lit});
                     if (is_invalid(it->var)) {
                         iqs.emplace_back(Inequality{{{1, res.first->second}}, 1, Relation::Equal, lit});
-- 
2.43.0


From 66bcc87d788e9bb00f9c59cf93ff9c5789f0e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 10/16] fix: undo nothing if solving failed before entering the
 level

---
 libclingo-lpx/src/solving.cc | 9 +++++++--
 libclingo-lpx/src/solving.hh | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 9c655e3..66c1f8e 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -813,8 +813,13 @@ template <typename Value> auto Solver<Value>::propagate_(Clingo::PropagateContro
     return true;
 }
 
-template <typename Value> void Solver<Value>::undo() {
+template <typename Value> void Solver<Value>::undo(index_t level) {
     try {
+        // there is nothing to undo if solving failed before entering the level
+        if (trail_offset_.empty() || trail_offset_.back().level < level) {
+            return;
+        }
+
         // this function restores the last satisfying assignment
         auto &offset = trail_offset_.back();
 
@@ -1163,7 +1168,7 @@ void Propagator<Value>::propagate(Clingo::PropagateControl &ctl, Clingo::Literal
 template <typename Value>
 void Propagator<Value>::undo(Clingo::PropagateControl const &ctl, Clingo::LiteralSpan changes) noexcept {
     static_cast<void>(changes);
-    slvs_[ctl.thread_id()].second.undo();
+    slvs_[ctl.thread_id()].second.undo(ctl.assignment().decision_level());
 }
 
 template <typename Value> auto Propagator<Value>::lookup_symbol(Clingo::Symbol symbol) const -> std::optional<index_t> {
diff --git a/libclingo-lpx/src/solving.hh b/libclingo-lpx/src/solving.hh
index e9c1443..59447a6 100644
--- a/libclingo-lpx/src/solving.hh
+++ b/libclingo-lpx/src/solving.hh
@@ -176,8 +176,8 @@ template <typename Value> class Solver {
     //! Solve the (previously prepared) problem.
     [[nodiscard]] auto solve(Clingo::PropagateControl &ctl, Clingo::LiteralSpan lits) -> bool;
 
-    //! Undo assignments on the current level.
-    void undo();
+    //! Undo assignments on the given (current) level.
+    void undo(index_t level);
 
     //! Get the currently assigned value.
     [[nodiscard]] auto get_value(index_t i) const -> Value;
-- 
2.43.0


From 035d57104be25999fa566b1938b59a6492782448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 11/16] fix: ignore calls to solvers in an inconsistent state
 after an exception

---
 libclingo-lpx/src/solving.cc |  9 +++++++++
 libclingo-lpx/src/solving.hh | 21 +++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 66c1f8e..8d6c222 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1125,6 +1125,10 @@ template <typename Value> void Propagator<Value>::on_model(Clingo::Model const &
 }
 
 template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl &ctl) {
+    slvs_[ctl.thread_id()].second.guard([&, this]() { check_(ctl); });
+}
+
+template <typename Value> void Propagator<Value>::check_(Clingo::PropagateControl &ctl) {
     auto ass = ctl.assignment();
     auto &[offset, slv] = slvs_[ctl.thread_id()];
     if (ass.decision_level() == 0 && offset < facts_offset_) {
@@ -1156,6 +1160,11 @@ template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl
 
 template <typename Value>
 void Propagator<Value>::propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
+    slvs_[ctl.thread_id()].second.guard([&, this]() { propagate_(ctl, changes); });
+}
+
+template <typename Value>
+void Propagator<Value>::propagate_(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
     auto ass = ctl.assignment();
     if (ass.decision_level() == 0 && ctl.thread_id() == 0) {
         // Note to self: auxiliary variables introduced during solving cannot become facts
diff --git a/libclingo-lpx/src/solving.hh b/libclingo-lpx/src/solving.hh
index 59447a6..16a9228 100644
--- a/libclingo-lpx/src/solving.hh
+++ b/libclingo-lpx/src/solving.hh
@@ -176,6 +176,22 @@ template <typename Value> class Solver {
     //! Solve the (previously prepared) problem.
     [[nodiscard]] auto solve(Clingo::PropagateControl &ctl, Clingo::LiteralSpan lits) -> bool;
 
+    //! Run the given function unless a previous run failed with an exception.
+    //!
+    //! An exception might leave the solver in an inconsistent state and clingo
+    //! might still call the propagator while it aborts the search.
+    template <typename F> void guard(F &&fun) {
+        if (failed_) {
+            return;
+        }
+        try {
+            fun();
+        } catch (...) {
+            failed_ = true;
+            throw;
+        }
+    }
+
     //! Undo assignments on the given (current) level.
     void undo(index_t level);
 
@@ -269,6 +285,8 @@ template <typename Value> class Solver {
     index_t n_basic_{0};
     //! The objective function.
     Objective objective_;
+    //! Whether running a function of the solver failed with an exception.
+    bool failed_{false};
 };
 
 template <typename Value> class Propagator : public Clingo::Heuristic {
@@ -299,6 +317,9 @@ template <typename Value> class Propagator : public Clingo::Heuristic {
         -> Clingo::literal_t override;
 
   private:
+    void check_(Clingo::PropagateControl &ctl);
+    void propagate_(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes);
+
     VarMap aux_map_;
     SymbolMap var_map_;
     SymbolVec var_vec_;
-- 
2.43.0


From fc78938005527b98c37d3a233053e5c1f32146e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 12/16] fix: freeze literals of problems with objectives

---
 libclingo-lpx/src/solving.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 8d6c222..150bdb1 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1066,6 +1066,15 @@ template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &in
         init.add_watch(x.lit);
     }
 
+    // The objective is optimized w.r.t. total assignments. Literals have to be
+    // frozen because variables eliminated by clasp's preprocessing are never
+    // assigned during search.
+    if (!objective_.empty()) {
+        for (auto lit : init.assignment()) {
+            init.freeze_literal(lit);
+        }
+    }
+
     objective_state_.reset();
 
     slvs_.clear();
-- 
2.43.0


From 1610b53abea86f26cf61f171dd335a95aa6ef034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 13/16] fix: keep track of facts per thread

---
 libclingo-lpx/src/solving.cc | 28 +++++++++++++++++-----------
 libclingo-lpx/src/solving.hh |  3 +--
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index 150bdb1..a13da80 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -3,6 +3,7 @@
 
 #include <clingo.hh>
 
+#include <algorithm>
 #include <climits>
 #include <cmath>
 #include <cstddef>
@@ -1044,8 +1045,11 @@ auto Solver<Value>::adjust(Clingo::Assignment const &assign, Clingo::literal_t l
 }
 
 template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &init) {
-    facts_offset_ = facts_.size();
-    if (facts_offset_ > 0 || options_.global_objective.has_value()) {
+    // Each thread keeps track of the facts it already received because they
+    // are not propagated again in later calls.
+    facts_.resize(std::max(facts_.size(), static_cast<size_t>(init.number_of_threads())));
+    auto has_facts = std::any_of(facts_.begin(), facts_.end(), [](auto const &facts) { return !facts.empty(); });
+    if (has_facts || options_.global_objective.has_value()) {
         init.set_check_mode(Clingo::PropagatorCheckMode::Both);
     }
 
@@ -1080,7 +1084,8 @@ template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &in
     slvs_.clear();
     slvs_.reserve(init.number_of_threads());
     for (size_t i = 0, e = init.number_of_threads(); i != e; ++i) {
-        slvs_.emplace_back(std::piecewise_construct, std::forward_as_tuple(0), std::forward_as_tuple(options_));
+        slvs_.emplace_back(std::piecewise_construct, std::forward_as_tuple(facts_[i].size()),
+                           std::forward_as_tuple(options_));
         if (!slvs_.back().second.prepare(init, var_map_, iqs_, objective_, i == 0)) {
             return;
         }
@@ -1105,7 +1110,7 @@ void Propagator<Value>::on_statistics(Clingo::UserStatistics step, Clingo::UserS
     auto accu_pivots = accu_simplex.add_subkey("Pivots", Clingo::StatisticsType::Value);
     auto accu_propagated_bounds = accu_simplex.add_subkey("Bounds propagated", Clingo::StatisticsType::Value);
     Statistics stats;
-    for (auto const &[offset, slv] : slvs_) {
+    for (auto const &[n_facts, slv] : slvs_) {
         stats.pivots += slv.statistics().pivots;
         stats.propagated_bounds += slv.statistics().propagated_bounds;
     }
@@ -1139,10 +1144,10 @@ template <typename Value> void Propagator<Value>::check(Clingo::PropagateControl
 
 template <typename Value> void Propagator<Value>::check_(Clingo::PropagateControl &ctl) {
     auto ass = ctl.assignment();
-    auto &[offset, slv] = slvs_[ctl.thread_id()];
-    if (ass.decision_level() == 0 && offset < facts_offset_) {
-        auto res = slv.solve(ctl, Clingo::LiteralSpan{facts_.data() + offset, facts_offset_}); // NOLINT
-        offset = facts_offset_;
+    auto &[n_facts, slv] = slvs_[ctl.thread_id()];
+    if (ass.decision_level() == 0 && n_facts > 0) {
+        auto res = slv.solve(ctl, Clingo::LiteralSpan{facts_[ctl.thread_id()].data(), n_facts});
+        n_facts = 0;
         // can happen in case of a top-level conflict
         if (!res) {
             return;
@@ -1175,11 +1180,12 @@ void Propagator<Value>::propagate(Clingo::PropagateControl &ctl, Clingo::Literal
 template <typename Value>
 void Propagator<Value>::propagate_(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
     auto ass = ctl.assignment();
-    if (ass.decision_level() == 0 && ctl.thread_id() == 0) {
+    if (ass.decision_level() == 0) {
         // Note to self: auxiliary variables introduced during solving cannot become facts
-        facts_.insert(facts_.end(), changes.begin(), changes.end());
+        auto &facts = facts_[ctl.thread_id()];
+        facts.insert(facts.end(), changes.begin(), changes.end());
     }
-    auto &[offset, slv] = slvs_[ctl.thread_id()];
+    auto &slv = slvs_[ctl.thread_id()].second;
     static_cast<void>(slv.solve(ctl, changes));
 }
 
diff --git a/libclingo-lpx/src/solving.hh b/libclingo-lpx/src/solving.hh
index 16a9228..d10cdad 100644
--- a/libclingo-lpx/src/solving.hh
+++ b/libclingo-lpx/src/solving.hh
@@ -325,8 +325,7 @@ template <typename Value> class Propagator : public Clingo::Heuristic {
     SymbolVec var_vec_;
     std::vector<Term> objective_;
     std::vector<Inequality> iqs_;
-    size_t facts_offset_{0};
-    std::vector<Clingo::literal_t> facts_;
+    std::vector<std::vector<Clingo::literal_t>> facts_;
     std::vector<std::pair<size_t, Solver<Value>>> slvs_;
     ObjectiveState<Value> objective_state_;
     Options options_;
-- 
2.43.0


From 413d83f3840864a4012fd1c593e0a8ec02b864de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 14/16] fix: freeze literals also in calls before an objective
 is added

---
 libclingo-lpx/src/solving.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libclingo-lpx/src/solving.cc b/libclingo-lpx/src/solving.cc
index a13da80..59424a8 100644
--- a/libclingo-lpx/src/solving.cc
+++ b/libclingo-lpx/src/solving.cc
@@ -1072,11 +1072,10 @@ template <typename Value> void Propagator<Value>::init(Clingo::PropagateInit &in
 
     // The objective is optimized w.r.t. total assignments. Literals have to be
     // frozen because variables eliminated by clasp's preprocessing are never
-    // assigned during search.
-    if (!objective_.empty()) {
-        for (auto lit : init.assignment()) {
-            init.freeze_literal(lit);
-        }
+    // assigned during search. This also concerns calls without objectives
+    // because eliminated variables stay so if an objective is added later.
+    for (auto lit : init.assignment()) {
+        init.freeze_literal(lit);
     }
 
     objective_state_.reset();
-- 
2.43.0


From b3d8b84771f72a5f3f52177f7ce658d52e6ce551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 15/16] fix: reject zero denominators and canonicalize when
 parsing rationals

---
 libclingo-lpx/src/number_flint.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-lpx/src/number_flint.hh b/libclingo-lpx/src/number_flint.hh
index 39443c8..5c55802 100644
--- a/libclingo-lpx/src/number_flint.hh
+++ b/libclingo-lpx/src/number_flint.hh
@@ -458,9 +458,12 @@ inline Rational::Rational(char const *val, int radix) : Rational() {
         if (fmpz_set_str(&num_.den, buf.substr(pos + 1).c_str(), radix) != 0) {
             throw std::runtime_error("could not parse number");
         }
-        fmpq_canonicalise(&num_);
     }
 #endif
+    if (fmpz_is_zero(&num_.den) != 0) {
+        throw std::runtime_error("could not parse number");
+    }
+    fmpq_canonicalise(&num_);
 }
 
 inline Rational::Rational(std::string const &val, int radix) : Rational(val.c_str(), radix) {}
-- 
2.43.0


From 2ebdb2bad2a265481cff5300514ca9007c94230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 16/16] fix: report failures while printing models

---
 app/src/main.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/app/src/main.cc b/app/src/main.cc
index 04a1cb1..7ebcfc0 100644
--- a/app/src/main.cc
+++ b/app/src/main.cc
@@ -25,10 +25,12 @@
 #include <clingo-lpx-app/app.hh>
 #include <clingo-lpx.h>
 #include <clingo.hh>
+#include <exception>
 #include <fstream>
 #include <limits>
 #include <optional>
 #include <sstream>
+#include <stdexcept>
 #ifdef CLINGOLPX_PROFILE
 #include <gperftools/profiler.h>
 #endif
@@ -102,7 +104,14 @@ class App : public Clingo::Application, private Clingo::SolveEventHandler {
                           << (objective->second ? "bounded" : "unbounded") << "]";
             }
             std::cout << std::endl;
+            if (!std::cout) {
+                throw std::runtime_error("could not write model");
+            }
         } catch (...) {
+            // exceptions cannot be passed through the host here
+            if (!error_) {
+                error_ = std::current_exception();
+            }
         }
     }
     //! Pass models to the theory.
@@ -128,6 +137,9 @@ class App : public Clingo::Application, private Clingo::SolveEventHandler {
         Profiler prof{"clingo-lpx-solve.prof"};
 #endif
         ctl.solve(Clingo::SymbolicLiteralSpan{}, this, false, false).get();
+        if (error_) {
+            std::rethrow_exception(error_);
+        }
     }
     //! Register options of the theory and optimization related options.
     void register_options(Clingo::ClingoOptions &options) override {
@@ -138,6 +150,7 @@ class App : public Clingo::Application, private Clingo::SolveEventHandler {
 
   private:
     clingolpx_theory_t *theory_{nullptr}; //!< The underlying DL theory.
+    std::exception_ptr error_;            //!< The first error while printing models.
 };
 
 } // namespace ClingoLPX
-- 
2.43.0

