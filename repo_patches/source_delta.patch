From 54cf7253402d4b20338264b18f89a48091871609 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 01/27] fix: do not disable edges twice when combining zero and
 full propagation

---
 libclingo-dl/src/graph.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index a2867ca..12a3296 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -858,7 +858,10 @@ template <typename T> auto Graph<T>::propagate_full_(Clingo::PropagateControl &c
     //
     // There is a negative cycle, if cost(x ->* u) + cost(v *<- y) - cost(x -> y) + cost(u -> v) is negative.
     ++stats_.edges_propagated;
-    disable_edge(xy_idx);
+    // the edge is already disabled if it has been propagated through the zero node before
+    if (edge_is_enabled(xy_idx)) {
+        disable_edge(xy_idx);
+    }
     auto &xy = edges_[xy_idx];
     auto &x = vertices_[xy.from];
     auto &y = vertices_[xy.to];
-- 
2.43.0


From cbb77d7b09816b4e18a0f9c519e81a8556db6d58 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 02/27] fix: keep relevance of the propagated edge when it
 replaces a parallel edge

---
 libclingo-dl/src/graph.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 12a3296..113706a 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -405,9 +405,13 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                         costs_heap_.push(*this, v_idx);
                     } else {
                         // vertex v became or lost relevance
-                        if (relevant_u != relevant_v) {
-                            relevant(v_idx) = relevant_u;
-                            num_relevant += relevant_u ? 1 : -1;
+                        // (the vertex reached via edge relevant_idx is already included in the count)
+                        bool relevant_uv = relevant_u || uv_idx == relevant_idx;
+                        if (relevant_uv != relevant_v) {
+                            relevant(v_idx) = relevant_uv;
+                            if (uv_idx != relevant_idx) {
+                                num_relevant += relevant_uv ? 1 : -1;
+                            }
                         }
                         costs_heap_.decrease(*this, v_idx);
                     }
-- 
2.43.0


From 2ccbc6668fddf54cf0bf95552dd957d53189238e Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 03/27] fix: propagate through the zero vertex of the component
 of the edge

---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 54276a8..0bb2b9d 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -744,7 +744,7 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
             auto &edge = edges_[edge_idx];
             auto &info = vertex_info_[edge.from];
             // check for conflicts
-            if (!state.graph.add_edge(ctl, edge_idx, info.cc)) {
+            if (!state.graph.add_edge(ctl, edge_idx, zero_vertices_[info.cc])) {
                 return;
             }
         }
-- 
2.43.0


From 7ec1775e1fe214fe457c0a4e8e98e43201545b08 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 04/27] fix: watch edges of previous steps in threads added
 between solve calls

---
 libclingo-dl/clingo-dl/propagator.hh |  2 ++
 libclingo-dl/src/propagator.cc       | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index b1eff00..3d23ba0 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -127,6 +127,8 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
                     bool strict);
     //! Add (up to one) edge for a constraint.
     void add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit);
+    //! Add watches for an edge literal to all threads.
+    void add_watches_(Clingo::PropagateInit &init, literal_t lit);
     //! Reset connected components (to be recalculated with the next call to cc_calculate_).
     void cc_reset_();
     //! Mark a vertex in a component as visited.
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 0bb2b9d..661230f 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -163,6 +163,12 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
 
     edge_t edge_start = edges_.size();
 
+    // watch edges of previous steps in threads that have been added since then
+    // (adding a watch again has no effect and removed threads cannot be observed here)
+    for (auto const &edge : edges_) {
+        add_watches_(init, edge.lit);
+    }
+
     Timer t{stats_.time_init};
     if (!add_constraints_(init)) {
         return;
@@ -421,6 +427,10 @@ void DLPropagator<T>::add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vert
     auto id = numeric_cast<edge_t>(edges_.size());
     edges_.push_back({u_id, v_id, weight, lit});
     lit_to_edges_.emplace(lit, id);
+    add_watches_(init, lit);
+}
+
+template <typename T> void DLPropagator<T>::add_watches_(Clingo::PropagateInit &init, literal_t lit) {
     for (int i = 0; i < init.number_of_threads(); ++i) {
         init.add_watch(lit, i);
         if (conf_.get_propagate_mode(i) >= PropagationMode::Zero || conf_.get_propagate_root(i) > 0 ||
-- 
2.43.0


From 81b2352620480e980a3dc0c2b1f2f3fd4a5511d4 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 05/27] fix: keep search bounds of large minimization steps
 negatable

---
 app/lib/src/app.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/lib/src/app.cc b/app/lib/src/app.cc
index 6a00b05..0ff6b8e 100644
--- a/app/lib/src/app.cc
+++ b/app/lib/src/app.cc
@@ -116,8 +116,10 @@ auto Optimizer::on_model(Clingo::Model &model) -> bool {
     if (lower_bound_ && aux <= *lower_bound_) {
         aux = *lower_bound_ + 1.0;
     }
-    if (aux < std::numeric_limits<int_value_t>::min()) {
-        aux = std::numeric_limits<int_value_t>::min();
+    // NOTE: the bound must be negatable and should leave room to compute path lengths
+    auto limit = *optimization / 2 + std::numeric_limits<int_value_t>::min() / 2; // NOLINT
+    if (aux < limit) {
+        aux = limit;
     }
     search_bound_ = static_cast<int_value_t>(aux);
 
-- 
2.43.0


From eb432a0e50eee47433132d4ceb77c3f463a4e610 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 06/27] fix: do not report lower bounds exceeding the optimum

---
 app/lib/src/app.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/lib/src/app.cc b/app/lib/src/app.cc
index 0ff6b8e..17180e0 100644
--- a/app/lib/src/app.cc
+++ b/app/lib/src/app.cc
@@ -24,6 +24,7 @@
 
 #include <clingo-dl-app/app.hh>
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <limits>
@@ -121,7 +122,8 @@ auto Optimizer::on_model(Clingo::Model &model) -> bool {
     if (aux < limit) {
         aux = limit;
     }
-    search_bound_ = static_cast<int_value_t>(aux);
+    // NOTE: bounds above the upper bound cannot be used to derive lower bounds
+    search_bound_ = std::min(static_cast<int_value_t>(aux), *upper_bound_);
 
     // update (exponential) adujustment value
     adjust_ = adjust_ * opt_cfg_.factor;
-- 
2.43.0


From 421806bcd4e4aabff1733b3b506f5c071c8c2ba0 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 07/27] fix: tolerate rounding errors of floating point numbers

---
 libclingo-dl/clingo-dl/theory.hh |  6 +++++
 libclingo-dl/src/graph.cc        | 39 +++++++++++++++++++++-----------
 libclingo-dl/src/propagator.cc   |  6 ++---
 libclingo-dl/src/theory.cc       | 23 +++++++++++++++++++
 4 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/libclingo-dl/clingo-dl/theory.hh b/libclingo-dl/clingo-dl/theory.hh
index 94b2484..4d93cfb 100644
--- a/libclingo-dl/clingo-dl/theory.hh
+++ b/libclingo-dl/clingo-dl/theory.hh
@@ -59,6 +59,12 @@ template <typename T> struct EdgeAtom {
 //! Epsilon value depending on number type.
 template <class T> [[nodiscard]] auto epsilon() -> T;
 
+//! Largest rounding error up to which a path length is not considered negative.
+template <class T> [[nodiscard]] auto tolerance() -> T;
+
+//! Check if a path length is negative ignoring rounding errors.
+template <class T> [[nodiscard]] auto negative(T length) -> bool { return length < -tolerance<T>(); }
+
 } // namespace ClingoDL
 
 #endif
diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 113706a..72b6197 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -277,6 +277,19 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
         }
     }
 
+    //! The weight of an edge made non-negative using the potentials.
+    auto reduced_cost(edge_t idx) -> value_t {
+        auto &uv = edges_[idx];
+        auto c = vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential();
+        if constexpr (std::is_floating_point_v<value_t>) {
+            // the cost might be slightly negative due to rounding errors
+            return std::max<value_t>(c, 0);
+        } else {
+            assert(c >= 0);
+            return c;
+        }
+    }
+
     //! Mark an incoming edge as removed.
     void remove_incoming(edge_t idx) {
         if constexpr (std::is_same_v<D, From>) {
@@ -389,8 +402,7 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                 // NOTE: We have to make sure that weights are positive for the
                 // algorithm to run correctly. We can use the potentials to do
                 // this. Explicitely using uv.from and uv.to is intended here.
-                auto c = cost(u_idx) + vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential();
-                assert(vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential() >= 0);
+                auto c = cost(u_idx) + reduced_cost(uv_idx);
                 if (!visited(v_idx) || less(c, relevant_u, v_idx)) {
                     bool relevant_v = relevant(v_idx);
                     cost(v_idx) = c;
@@ -448,7 +460,7 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
         assert(visited_set().empty() && costs_heap_.empty());
         auto v_idx = to(uv_idx);
         auto bound_uv = bound_value(u_idx) + edges_[uv_idx].weight;
-        if (!bound_visited(v_idx) || bound_uv < bound_value(v_idx)) {
+        if (!bound_visited(v_idx) || bound_uv < bound_value(v_idx) - tolerance<T>()) {
             cost(v_idx) = 0;
             costs_heap_.push(*this, v_idx);
             visited(v_idx) = true;
@@ -470,11 +482,10 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                 // NOTE: We have to make sure that weights are positive for the
                 // algorithm to run correctly. We can use the potentials to do
                 // this. Explicitely using st.from and st.to is intended here.
-                auto c = cost(s_idx) + vertices_[st.from].potential() + st.weight - vertices_[st.to].potential();
+                auto c = cost(s_idx) + reduced_cost(st_idx);
                 auto bound_st = bound_value(s_idx) + st.weight;
-                assert(vertices_[st.from].potential() + st.weight - vertices_[st.to].potential() >= 0);
                 if ((!visited(t_idx) || less(c, false, t_idx)) &&
-                    (!bound_visited(t_idx) || bound_st < bound_value(t_idx))) {
+                    (!bound_visited(t_idx) || bound_st < bound_value(t_idx) - tolerance<T>())) {
                     cost(t_idx) = c;
                     if (!visited(t_idx)) {
                         visited(t_idx) = true;
@@ -619,7 +630,7 @@ template <typename T> auto Graph<T>::edge_is_negative(edge_t edge_idx) const ->
     auto const &v = vertices_[st.to];
     auto up = u.defined() ? u.potential() : 0;
     auto vp = v.defined() ? v.potential() : 0;
-    return up + st.weight - vp < 0;
+    return negative<T>(up + st.weight - vp);
 }
 
 template <typename T> auto Graph<T>::can_propagate() const -> bool {
@@ -744,7 +755,7 @@ template <typename T> bool Graph<T>::check_cycle_(Clingo::PropagateControl &ctl,
     }
     v.cost_from = u.potential() + uv.weight - v.potential();
     ++stats_.edges_added;
-    if (v.cost_from < 0) {
+    if (negative<T>(v.cost_from)) {
         costs_heap_.push(m, uv.to);
         visited_from_.emplace_back(uv.to);
         v.visited_from = 1;
@@ -761,13 +772,15 @@ template <typename T> bool Graph<T>::check_cycle_(Clingo::PropagateControl &ctl,
         assert(s.visited_from);
         s.visited_from = ++dfs;
         set_potential_(s, level, s.potential() + s.cost_from);
+        // vertices are visited at most once (also in presence of rounding errors)
+        s.cost_from = std::numeric_limits<T>::lowest();
         for (auto st_idx : s.outgoing) {
             ++stats_.propagate_cost_add;
             assert(st_idx < numeric_cast<edge_t>(edges_.size()));
             auto &st = edges_[st_idx];
             auto &t = vertices_[st.to];
             auto c = s.potential() + st.weight - t.potential();
-            if (c < (t.visited_from ? t.cost_from : 0)) {
+            if (t.visited_from ? c < t.cost_from : negative<T>(c)) {
                 assert(c < 0);
                 t.path_from = st_idx;
                 t.cost_from = c;
@@ -823,7 +836,7 @@ template <typename T> bool Graph<T>::propagate_simple_(Clingo::PropagateControl
         if (visited_from_.empty() || propagate_ == PropagationMode::Trivial) {
             return with_incoming_(ctl, uv.from, [&](vertex_t t_idx, edge_t ts_idx) {
                 auto &ts = edges_[ts_idx];
-                if (t_idx == uv.to && uv.weight + ts.weight < 0 && !ctl.assignment().is_false(ts.lit)) {
+                if (t_idx == uv.to && negative<T>(uv.weight + ts.weight) && !ctl.assignment().is_false(ts.lit)) {
                     clause_.emplace_back(-edges_[uv_idx].lit);
                     clause_.emplace_back(-edges_[ts_idx].lit);
                     ++stats_.false_edges_trivial;
@@ -955,7 +968,7 @@ template <typename T>
         auto &ts = edges_[ts_idx];
         if (s.visited_from < t.visited_from) {
             T weight = t.potential() - s.potential();
-            if (weight + ts.weight < 0 && !ctl.assignment().is_false(ts.lit)) {
+            if (negative<T>(weight + ts.weight) && !ctl.assignment().is_false(ts.lit)) {
                 T check = 0;
                 auto r_idx = t_idx;
                 while (u_idx != r_idx && s_idx != r_idx) {
@@ -971,7 +984,7 @@ template <typename T>
                     } else {
                         ++stats_.false_edges_weak_plus;
                     }
-                    assert(weight == check);
+                    assert(std::is_floating_point_v<T> || weight == check);
                     clause_.emplace_back(-edges_[ts_idx].lit);
                     return true;
                 }
@@ -1169,7 +1182,7 @@ bool Graph<T>::propagate_edge_false_(Clingo::PropagateControl &ctl, edge_t uv_id
             cost_vu = v.bound_upper + u.bound_lower;
         }
 
-        if (cost_vu + uv.weight < 0) {
+        if (negative<T>(cost_vu + uv.weight)) {
             ++stats_.false_edges;
             if (!ctl.assignment().is_false(uv.lit)) {
 #ifdef CLINGODL_CROSSCHECK
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 661230f..d2527f1 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -224,7 +224,7 @@ template <typename T> void DLPropagator<T>::check(Clingo::PropagateControl &ctl)
         for (auto &x : edges_) {
             if (ctl.assignment().is_true(x.lit)) {
                 if (!state.graph.has_value(x.from) || !state.graph.has_value(x.to) ||
-                    !(state.graph.get_value(x.from) - state.graph.get_value(x.to) <= x.weight)) {
+                    !(state.graph.get_value(x.from) - state.graph.get_value(x.to) <= x.weight + 2 * tolerance<T>())) {
                     throw std::logic_error("not a valid solution");
                 }
             }
@@ -376,7 +376,7 @@ auto DLPropagator<T>::add_edges_(Clingo::PropagateInit &init, literal_t literal,
     auto u_id = map_vertex_(Clingo::Number(0));
     auto v_id = map_vertex_(Clingo::Number(0));
     if (covec.empty()) {
-        if (rhs < 0) {
+        if (negative<T>(rhs)) {
             return init.add_clause({-literal});
         }
         return !strict || init.add_clause({literal});
@@ -602,7 +602,7 @@ void DLPropagator<T>::calculate_mutexes_(Clingo::PropagateInit &init, edge_t edg
                 if (found == 0 && st_truth == Clingo::TruthValue::Free) {
                     n += 1;
                 }
-                if (st.to == start.from && w < 0) {
+                if (st.to == start.from && negative<T>(w)) {
                     ++stats_.mutexes;
                     clause.emplace_back(-st.lit);
                     auto c = queue_offset;
diff --git a/libclingo-dl/src/theory.cc b/libclingo-dl/src/theory.cc
index 2532597..0a4d3f9 100644
--- a/libclingo-dl/src/theory.cc
+++ b/libclingo-dl/src/theory.cc
@@ -43,11 +43,34 @@ template <class T, typename std::enable_if<std::is_floating_point_v<T>, bool>::t
     return DOUBLE_EPSILON;
 }
 
+//! Tolerance for floating point arithmetics.
+//!
+//! This value has to be considerably smaller than epsilon to detect negative
+//! cycles involving strict constraints.
+constexpr double DOUBLE_TOLERANCE = DOUBLE_EPSILON / 1000;
+
+//! Tolerance for integral numbers.
+template <class T, typename std::enable_if<std::is_integral_v<T>, bool>::type = true>
+[[nodiscard]] auto tolerance_() -> T {
+    return 0;
+}
+
+//! Tolerance for floating point numbers.
+template <class T, typename std::enable_if<std::is_floating_point_v<T>, bool>::type = true>
+[[nodiscard]] auto tolerance_() -> T {
+    return DOUBLE_TOLERANCE;
+}
+
 } // namespace
 
 template <class T> auto epsilon() -> T { return epsilon_<T>(); }
 
+template <class T> auto tolerance() -> T { return tolerance_<T>(); }
+
 template int epsilon<int>();
 template double epsilon<double>();
 
+template int tolerance<int>();
+template double tolerance<double>();
+
 } // namespace ClingoDL
-- 
2.43.0


From 8732b0fe0d47815a0143dcedf63680ded80b2c76 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 17:26:18 +0000
Subject: [PATCH 08/27] fix: evaluate division of constants in difference
 constraints

---
 libclingo-dl/src/parsing.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index a221c88..5f7495b 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -297,6 +297,26 @@ template <class N> auto evaluate(Clingo::TheoryTerm const &term) -> Clingo::Symb
     return throw_syntax_error<Clingo::Symbol>();
 }
 
+//! Parse the given theory term for an arithmetic expression.
+template <class N>
+void parse_elem(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol)> const &map_vert, CoVarVec<N> &res);
+
+//! Parse the given theory term for an arithmetic expression without variables.
+template <class N>
+[[nodiscard]] auto parse_constant(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol)> const &map_vert)
+    -> N {
+    CoVarVec<N> covec;
+    parse_elem(term, map_vert, covec);
+    N res = 0;
+    for (auto &[co, var] : covec) {
+        if (is_valid_var(var)) {
+            throw_syntax_error("Invalid Syntax: only division of constants is supported");
+        }
+        res = safe_add<N>(res, co);
+    }
+    return res;
+}
+
 //! Parse the given theory term for an arithmetic expression.
 template <class N>
 void parse_elem(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol)> const &map_vert,
@@ -340,6 +360,11 @@ void parse_elem(Clingo::TheoryTerm const &term, std::function<int(Clingo::Symbol
                 }
             }
         }
+    } else if (match(term, "/", 2)) {
+        auto args = term.arguments();
+        auto lhs = parse_constant<N>(args.front(), map_vert);
+        auto rhs = parse_constant<N>(args.back(), map_vert);
+        res.emplace_back(safe_div<N>(lhs, rhs), INVALID_VAR);
     } else if (term.type() == Clingo::TheoryTermType::Symbol) {
         if (auto val = parse_number<N>(term.name()); val) {
             res.emplace_back(*val, INVALID_VAR);
-- 
2.43.0


From 368a576524035d6b5a4164892e2bdd1b4ab5e81e Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 17:26:23 +0000
Subject: [PATCH 09/27] fix: do not interpret the empty string as number zero

---
 libclingo-dl/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 5f7495b..45df1e0 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -231,7 +231,7 @@ template <class N> [[nodiscard]] auto parse_number(char const *name) -> std::opt
     }
     char *parsed = nullptr;                    // NOLINT
     auto res = std::strtod(name + 1, &parsed); // NOLINT
-    if (parsed != name + len - 1) {            // NOLINT
+    if (parsed != name + len - 1 || len == 2) { // NOLINT
         return std::nullopt;
     }
     auto ret = static_cast<N>(res);
-- 
2.43.0


From ec9fde365330bea0b7f1042033cb4273eb088343 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 10/27] fix: reject numbers that are out of range

---
 libclingo-dl/src/parsing.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 45df1e0..94ec843 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -234,6 +234,10 @@ template <class N> [[nodiscard]] auto parse_number(char const *name) -> std::opt
     if (parsed != name + len - 1 || len == 2) { // NOLINT
         return std::nullopt;
     }
+    if (std::is_integral_v<N> && !(res >= static_cast<double>(std::numeric_limits<N>::min()) &&
+                                   res <= static_cast<double>(std::numeric_limits<N>::max()))) {
+        throw std::runtime_error("could not evaluate term: number out of range");
+    }
     auto ret = static_cast<N>(res);
     if (static_cast<double>(ret) != res) {
         throw std::runtime_error("could not evaluate term: for floating point numbers use option rdl");
@@ -458,6 +462,9 @@ auto parse(Clingo::TheoryAtom const &atom, std::function<int(Clingo::Symbol)> co
     }
 
     auto rhs = simplify(covec);
+    if (std::is_floating_point_v<N> && !std::isfinite(rhs)) {
+        throw std::runtime_error("parsing difference constraint failed: bound is not a finite number");
+    }
     return {std::move(covec), rel, rhs, atom.literal(), strict};
 }
 
-- 
2.43.0


From 5f764c4fcd8829572cee4c09e93ca8ddd85a318a Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 17:27:35 +0000
Subject: [PATCH 11/27] fix: reject strings that are only partly numbers

---
 libclingo-dl/src/parsing.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 94ec843..203dcef 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -196,7 +196,10 @@ template <class T> [[nodiscard]] auto to_number(Clingo::Symbol const &a) -> T {
         return static_cast<T>(a.number());
     }
     if (a.type() == Clingo::SymbolType::String) {
-        return std::stod(a.string());
+        size_t pos = 0;
+        auto res = std::stod(a.string(), &pos);
+        check_syntax(a.string()[pos] == '\0');
+        return res;
     }
     return throw_syntax_error<T>();
 }
-- 
2.43.0


From 1826b38d67c5894ea53384f58f59521cea908c65 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 17:27:43 +0000
Subject: [PATCH 12/27] fix: reject invalid escape sequences in strings

---
 libclingo-dl/clingo-dl/impl/util.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libclingo-dl/clingo-dl/impl/util.hh b/libclingo-dl/clingo-dl/impl/util.hh
index 5cc3575..1123309 100644
--- a/libclingo-dl/clingo-dl/impl/util.hh
+++ b/libclingo-dl/clingo-dl/impl/util.hh
@@ -325,8 +325,7 @@ inline auto unquote(char const *str) -> std::string {
                     break;
                 }
                 default: {
-                    assert(false);
-                    break;
+                    throw std::runtime_error("invalid escape sequence");
                 }
             }
             slash = false;
-- 
2.43.0


From 53032903e343857b83e41276938113e98e9dd025 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 17:43:04 +0000
Subject: [PATCH 13/27] fix: rewrite theory atoms named by symbolic terms

---
 libclingo-dl/src/parsing.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 203dcef..c531e2e 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -60,7 +60,7 @@ auto match_constant(Clingo::AST::Node const &ast, char const *name) -> bool {
     using namespace Clingo::AST;
     switch (ast.type()) {
         case Type::SymbolicTerm: {
-            return ast.get<Clingo::Symbol>(Attribute::Term).match(name, 0);
+            return ast.get<Clingo::Symbol>(Attribute::Symbol).match(name, 0);
         }
         case Type::Function: {
             if (ast.get<int>(Attribute::External) != 0) {
@@ -132,12 +132,12 @@ auto tag_terms(Clingo::AST::Node &ast, char const *tag) -> Clingo::AST::Node {
     using namespace Clingo::AST;
     if (ast.type() == Type::SymbolicTerm) {
         auto ret = ast.copy();
-        auto term = ast.get<Clingo::Symbol>(Attribute::Term);
+        auto term = ast.get<Clingo::Symbol>(Attribute::Symbol);
         check_syntax(term.type() == Clingo::SymbolType::Function);
         std::string name{"__"};
         name += term.name();
         name += tag;
-        ast.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
+        ret.set(Attribute::Symbol, Clingo::Function(name.c_str(), {}));
         return ret;
     }
     if (ast.type() == Type::Function) {
-- 
2.43.0


From 1243e90f186ac7dd224f59fb1af3509c160616be Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 17:57:15 +0000
Subject: [PATCH 14/27] fix: keep integers in arguments of variables with real
 number support

---
 libclingo-dl/src/parsing.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index c531e2e..b2bcec6 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -24,6 +24,8 @@
 
 #include "clingo-dl/parsing.hh"
 #include "clingo-dl/util.hh"
+#include <climits>
+#include <cmath>
 #include <optional>
 
 namespace ClingoDL {
@@ -222,7 +224,13 @@ template <class N, class F, typename std::enable_if<std::is_floating_point_v<N>,
 [[nodiscard]] auto evaluate_binary(Clingo::TheoryTerm const &a, Clingo::TheoryTerm const &b, F &&f) -> Clingo::Symbol {
     auto ea = evaluate<N>(a);
     auto eb = evaluate<N>(b);
-    return Clingo::String(std::to_string(f(to_number<N>(ea), to_number<N>(eb))).c_str());
+    auto res = f(to_number<N>(ea), to_number<N>(eb));
+    // arithmetic over integers with an integral result gives an integer
+    if (ea.type() == Clingo::SymbolType::Number && eb.type() == Clingo::SymbolType::Number && std::abs(res) <= INT_MAX &&
+        std::trunc(res) == res) {
+        return Clingo::Number(static_cast<int>(res));
+    }
+    return Clingo::String(std::to_string(res).c_str());
 }
 
 //! Parse a string to a number.
-- 
2.43.0


From 33264895a97d2b04c54978d14fdbfa4fca92c035 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 15/27] fix: do not access missing thread states when asking
 for values

---
 libclingo-dl/src/propagator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index d2527f1..84a9719 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -129,7 +129,8 @@ template <typename T> auto DLPropagator<T>::lookup(Clingo::Symbol symbol) -> ver
 }
 
 template <typename T> auto DLPropagator<T>::has_lower_bound(Clingo::id_t thread_id, vertex_t index) const -> bool {
-    return index < vertex_info_.size() && !is_zero_(index) && states_[thread_id].graph.has_value(index);
+    return index < vertex_info_.size() && !is_zero_(index) && thread_id < states_.size() &&
+           states_[thread_id].graph.has_value(index);
 }
 
 template <typename T> auto DLPropagator<T>::lower_bound(Clingo::id_t thread_id, vertex_t index) const -> value_t {
-- 
2.43.0


From f2bcddc84f55aec31aa9eb793a216dfc280947e3 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 18:02:54 +0000
Subject: [PATCH 16/27] fix: accumulate statistics if the number of threads
 decreases

---
 libclingo-dl/src/propagator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 84a9719..268486c 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -64,9 +64,10 @@ void Statistics::accu(Statistics const &x) {
     if (thread_statistics.size() < x.thread_statistics.size()) {
         thread_statistics.resize(x.thread_statistics.size());
     }
-    auto it = x.thread_statistics.begin();
-    for (auto &y : thread_statistics) {
-        y.accu(*it++);
+    // Note: the number of threads can decrease between steps
+    auto it = thread_statistics.begin();
+    for (auto const &y : x.thread_statistics) {
+        (it++)->accu(y);
     }
 }
 
-- 
2.43.0


From 5d3595b5795ac7daad2ac0c00ef35518bdf10a11 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 17/27] fix: do not share the decision mode between theory
 instances

---
 libclingo-dl/src/clingo-dl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 8efc17c..a6b241a 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -137,8 +137,8 @@ template <typename T> class DLPropagatorFacade : public PropagatorFacade {
   public:
     DLPropagatorFacade(clingo_control_t *control, PropagatorConfig const &conf) : prop_{step_, conf} {
         handle_error(clingo_control_add(control, "base", nullptr, 0, THEORY));
-        static clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
-                                           conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
+        clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
+                                    conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
         handle_error(clingo_control_register_propagator(control, &prop, &prop_, false));
     }
 
-- 
2.43.0


From e08b733f64f08f39b13b304f28ec694d509f7feb Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 18/27] fix: name the option in errors about the propagation
 budget

---
 libclingo-dl/src/clingo-dl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index a6b241a..b6f652d 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -497,7 +497,7 @@ extern "C" auto clingodl_configure(clingodl_theory_t *theory, char const *key, c
             return check_parse("propagate-root", parse_root(value, &theory->config));
         }
         if (strcmp(key, "propagate-budget") == 0) {
-            return check_parse("propgate-budget", parse_budget(value, &theory->config));
+            return check_parse("propagate-budget", parse_budget(value, &theory->config));
         }
         if (strcmp(key, "add-mutexes") == 0) {
             return check_parse("add-mutexes", parse_mutex(value, &theory->config));
-- 
2.43.0


From 5b658d0cacb2760fcb45da8663149ff03183fd7c Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 18:03:25 +0000
Subject: [PATCH 19/27] fix: detect overflows when parsing numbers in options

---
 libclingo-dl/src/clingo-dl.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index b6f652d..8da0ad9 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -27,6 +27,7 @@
 
 #include <clingo.h>
 #include <clingo.hh>
+#include <limits>
 #include <sstream>
 
 #define CLINGODL_TRY try // NOLINT
@@ -252,12 +253,11 @@ auto parse_uint64_pre(const char *value, void *data) -> char const * {
 
     for (; *it != '\0'; ++it) { // NOLINT
         if ('0' <= *it && *it <= '9') {
-            auto tmp = res;
-            res *= 10; // NOLINT
-            res += *it - '0';
-            if (res < tmp) {
+            uint64_t digit = *it - '0';
+            if (res > (std::numeric_limits<uint64_t>::max() - digit) / 10) { // NOLINT
                 return nullptr;
             }
+            res = 10 * res + digit; // NOLINT
         } else {
             break;
         }
-- 
2.43.0


From a0f35c88710fea5d9774949a7c74240405201c92 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 18:03:28 +0000
Subject: [PATCH 20/27] fix: reject invalid values for mutex detection

---
 libclingo-dl/src/clingo-dl.cc | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 8da0ad9..78296a4 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -324,17 +324,12 @@ auto parse_mutex(const char *value, void *data) -> bool {
     if ((value = parse_uint64_pre(value, &x)) == nullptr) {
         return false;
     }
-    pc.mutex_size = x;
-    if (*value == '\0') {
-        pc.mutex_cutoff = 10 * x; // NOLINT
-        return true;
-    }
-    if (*value == ',') {
-        if (!parse_uint64(value + 1, &x)) {
-            return false;
-        } // NOLINT
-        pc.mutex_cutoff = x;
+    uint64_t cutoff = x > std::numeric_limits<uint64_t>::max() / 10 ? std::numeric_limits<uint64_t>::max() : 10 * x; // NOLINT
+    if (*value != '\0' && (*value != ',' || !parse_uint64(value + 1, &cutoff))) { // NOLINT
+        return false;
     }
+    pc.mutex_size = x;
+    pc.mutex_cutoff = cutoff;
     return true;
 }
 
-- 
2.43.0


From 715f0c529ff98259dc532f9baabb2b75bb091303 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 18:03:33 +0000
Subject: [PATCH 21/27] fix: reject unknown decision heuristics

---
 libclingo-dl/src/clingo-dl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 78296a4..86ef835 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -384,12 +384,14 @@ auto parse_sort(const char *value, void *data) -> bool {
 //! Return false if there is a parse error.
 auto parse_decide(const char *value, void *data) -> bool {
     DecisionMode mode = DecisionMode::Disabled;
-    if (iequals(value, "no")) {
+    if (iequals(value, "no") || iequals(value, "none")) {
         mode = DecisionMode::Disabled;
     } else if (iequals(value, "min")) {
         mode = DecisionMode::MinConflict;
     } else if (iequals(value, "max")) {
         mode = DecisionMode::MaxConflict;
+    } else {
+        return false;
     }
     static_cast<PropagatorConfig *>(data)->decision_mode = mode;
     return true;
-- 
2.43.0


From f5125b16ec041d8dac20a392611a7f3e5b24c2fe Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 18:03:41 +0000
Subject: [PATCH 22/27] fix: do not truncate the level limiting full
 propagation

---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 268486c..65b8003 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -88,7 +88,7 @@ template <typename T> struct DLPropagator<T>::VertexInfo {
 //! Struct to store thread specific state.
 template <typename T> struct DLPropagator<T>::ThreadState {
     ThreadState(ThreadStatistics &stats, const std::vector<Edge> &edges, PropagationMode propagate,
-                level_t propagate_root, uint64_t propagate_budget)
+                uint64_t propagate_root, uint64_t propagate_budget)
         : stats{stats}, graph{stats, edges, propagate}, propagate_root{propagate_root},
           propagate_budget{propagate_budget} {}
 
-- 
2.43.0


From c30d83dcdf1b1964387c4788970de5f1cbcf6327 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 18:11:14 +0000
Subject: [PATCH 23/27] fix: do not exceed the integer range with large
 propagation budgets

---
 libclingo-dl/src/propagator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 65b8003..3b00e96 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -747,9 +747,10 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
     for (auto edge_idx : state.todo_edges) {
         if (state.graph.edge_is_enabled(edge_idx)) {
             // disable propagation once budget exceeded
-            bool has_budget =
-                state.propagate_budget > 0 && state.stats.propagate_cost_add + state.propagate_budget >
-                                                  state.stats.propagate_cost_from + state.stats.propagate_cost_to;
+            auto cost_add = state.stats.propagate_cost_add;
+            auto cost_propagate = state.stats.propagate_cost_from + state.stats.propagate_cost_to;
+            bool has_budget = state.propagate_budget > 0 && (cost_propagate < cost_add ||
+                                                             cost_propagate - cost_add < state.propagate_budget);
             if (!propagate && !has_budget) {
                 state.graph.disable_propagate();
             }
-- 
2.43.0


From 401ecaa38c156a7091c23e8e0225fb048ad80919 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 18:14:55 +0000
Subject: [PATCH 24/27] fix: do not show outdated statistics of removed threads

---
 libclingo-dl/src/propagator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 3b00e96..3d6d58a 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -628,7 +628,10 @@ void DLPropagator<T>::calculate_mutexes_(Clingo::PropagateInit &init, edge_t edg
 
 template <typename T> void DLPropagator<T>::initialize_states_(Clingo::PropagateInit &init) {
     states_.clear();
-    stats_.thread_statistics.resize(init.number_of_threads());
+    // Note: entries of removed threads are kept because clingo's statistics cannot shrink
+    if (stats_.thread_statistics.size() < numeric_cast<size_t>(init.number_of_threads())) {
+        stats_.thread_statistics.resize(init.number_of_threads());
+    }
     if (facts_.size() < numeric_cast<size_t>(init.number_of_threads())) {
         facts_.resize(init.number_of_threads());
     }
-- 
2.43.0


From 120eee1643b7d27ee0211e5a809a2072c91c5a40 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 25/27] fix: keep #inf and #sup in variables

---
 libclingo-dl/src/parsing.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index b2bcec6..2744306 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -262,6 +262,12 @@ template <class N> auto evaluate(Clingo::TheoryTerm const &term) -> Clingo::Symb
         if (std::strncmp(name, "\"", 1) == 0) {
             return Clingo::String(unquote(name).c_str());
         }
+        if (std::strcmp(name, "#inf") == 0) {
+            return Clingo::Infimum();
+        }
+        if (std::strcmp(name, "#sup") == 0) {
+            return Clingo::Supremum();
+        }
         return Clingo::Function(name, {});
     }
 
-- 
2.43.0


From 9b8a6b1f8963b032bb71f1c70c33cf3bdd6529f5 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 26/27] fix: do not modify candidate lists while propagating

Propagating a clause can backtrack if other threads provide conflicting
clauses. Backtracking adds edges to the lists of candidate edges, which
invalidated the iterators into these lists.
---
 libclingo-dl/src/graph.cc | 49 +++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 72b6197..725a69d 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -572,22 +572,26 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                 if (backward) {
                     bool ret = true;
                     auto &out = candidate_outgoing(vertex);
+                    // Note: propagation might backtrack and add edges to the
+                    // list, so the list must not be changed while propagating
+                    for (size_t i = 0, n = out.size(); ret && i < n; ++i) {
+                        auto uv_idx = out[i];
+                        if (edge_states_[uv_idx].enabled) {
+                            static_cast<void>(propagate_edge_false_<full>(ctl, uv_idx, xy_idx, ret));
+                        }
+                    }
+                    if (!ret) {
+                        return false;
+                    }
                     out.resize(std::remove_if(out.begin(), out.end(),
                                               [&](edge_t uv_idx) {
-                                                  if (!ret) {
-                                                      return false;
-                                                  }
-                                                  if (!edge_states_[uv_idx].enabled ||
-                                                      propagate_edge_false_<full>(ctl, uv_idx, xy_idx, ret)) {
+                                                  if (!edge_states_[uv_idx].enabled) {
                                                       remove_outgoing(uv_idx);
                                                       return true;
                                                   }
                                                   return false;
                                               }) -
                                out.begin());
-                    if (!ret) {
-                        return false;
-                    }
                 }
             }
         }
@@ -926,33 +930,34 @@ template <class F>
 auto Graph<T>::with_incoming_(Clingo::PropagateControl &ctl, vertex_t s_idx, F f) -> bool {
     auto &s = vertices_[s_idx];
     auto &in = s.candidate_incoming;
-    auto jt = in.begin();
     // traverse over incoming edges
-    for (auto it = jt, ie = in.end(); it != ie; ++it) {
-        auto &ts_idx = *it;
-        auto &ts = edges_[ts_idx];
-        auto t_idx = ts.from;
-        // remove edges marked inactive
+    // Note: propagation might backtrack and add edges to the list, so the list
+    // must not be changed while propagating
+    for (size_t i = 0, n = in.size(); i < n; ++i) {
+        auto ts_idx = in[i];
         if (!edge_states_[ts_idx].enabled) {
-            edge_states_[ts_idx].removed_incoming = true;
             continue;
         }
         // visit the incoming vertex and edge
         clause_.clear();
-        if (f(t_idx, ts_idx)) {
-            edge_states_[ts_idx].removed_incoming = true;
+        if (f(edges_[ts_idx].from, ts_idx)) {
             disable_edge(ts_idx);
             // add constraint for the negative cycle
             if (!(ctl.add_clause(clause_) && ctl.propagate())) {
-                // erease edges marked as removed
-                in.erase(jt, it + 1);
                 return false;
             }
-            continue;
         }
-        *jt++ = *it;
     }
-    in.erase(jt, in.end());
+    // remove edges marked inactive
+    in.erase(std::remove_if(in.begin(), in.end(),
+                            [&](edge_t ts_idx) {
+                                if (!edge_states_[ts_idx].enabled) {
+                                    edge_states_[ts_idx].removed_incoming = true;
+                                    return true;
+                                }
+                                return false;
+                            }),
+             in.end());
     return true;
 }
 
-- 
2.43.0


From cf7d65fd9f6695606f393273a699e7a4816c5cc6 Mon Sep 17 00:00:00 2001
From: verif <v@e>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 27/27] fix: real zero in arguments of variables has no sign

---
 libclingo-dl/src/parsing.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/parsing.cc b/libclingo-dl/src/parsing.cc
index 2744306..cfc543f 100644
--- a/libclingo-dl/src/parsing.cc
+++ b/libclingo-dl/src/parsing.cc
@@ -230,7 +230,12 @@ template <class N, class F, typename std::enable_if<std::is_floating_point_v<N>,
         std::trunc(res) == res) {
         return Clingo::Number(static_cast<int>(res));
     }
-    return Clingo::String(std::to_string(res).c_str());
+    auto str = std::to_string(res);
+    // zero has no sign
+    if (str == std::to_string(-0.0)) {
+        str = std::to_string(0.0);
+    }
+    return Clingo::String(str.c_str());
 }
 
 //! Parse a string to a number.
-- 
2.43.0

