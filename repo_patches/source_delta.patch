From 282b264bd41141a586eac702ee93182f89dd11dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 01/13] fix: count a qubit once when a chain is assigned from a
 list repeating it

---
 include/find_embedding/chain.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/find_embedding/chain.hpp b/include/find_embedding/chain.hpp
index e8e44d3..669a3f6 100644
--- a/include/find_embedding/chain.hpp
+++ b/include/find_embedding/chain.hpp
@@ -91,9 +91,8 @@ class chain {
     chain &operator=(const vector<int> &c) {
         clear();
         for (auto &q : c) {
-            data.emplace(q, pair<int, int>(q, 1));
             minorminer_assert(0 <= q && q < static_cast<int>(qubit_weight.size()));
-            qubit_weight[q]++;
+            if (data.emplace(q, pair<int, int>(q, 1)).second) qubit_weight[q]++;
         }
         DIAGNOSE_CHAIN();
         return *this;
-- 
2.43.0


From c350b4549552cb17b25dcec56971749d987604f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 02/13] fix: relabel an explicit quickpass variable order to
 internal labels

---
 include/find_embedding/find_embedding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/find_embedding.hpp b/include/find_embedding/find_embedding.hpp
index 5ddebd5..1989230 100644
--- a/include/find_embedding/find_embedding.hpp
+++ b/include/find_embedding/find_embedding.hpp
@@ -123,7 +123,7 @@ class parameter_processor {
         vector<int> U;
         for (auto &v : V) {
             if (v < 0 || static_cast<unsigned int>(v) >= num_vars) throw CorruptParametersException();
-            if (!var_fixed_unscrewed[v]) U.push_back(v);
+            if (!var_fixed_unscrewed[v]) U.push_back(screw_vars[v]);
         }
         return U;
     }
-- 
2.43.0


From 0d98e6361f79fabf326716239930f7dcfb271e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 03/13] fix: embedding statistics must see overlaps on reserved
 qubits

---
 include/find_embedding/embedding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 685e6c1..d1b6dfc 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -278,7 +278,7 @@ class embedding {
     int statistics(vector<int> &stats) const {
         int W = 0;
         stats.assign(num_vars + num_fixed, 0);
-        for (int q = num_qubits; q--;) {
+        for (int q = num_qubits + num_reserved; q--;) {
             int w = qub_weight[q];
             W = max(W, w);
             if (w > 1) stats[w - 2]++;
-- 
2.43.0


From 09655daca4c74f93154ac45220b93d42e20524e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:38 +0000
Subject: [PATCH 04/13] fix: do not link up initial chains that are ignored
 because the variable is fixed

---
 include/find_embedding/embedding.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index d1b6dfc..5277fad 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -91,6 +91,7 @@ class embedding {
 
         for (auto &vC : initial_chains) {
             int v = vC.first;
+            if (ep.fixed(v)) continue;
             auto &c = var_embedding[v];
             int root = vC.second[0];
             c.set_link(v, root);
-- 
2.43.0


From 60cea3dcc043b57cbc33d4caee7cdc51b87a74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 05/13] fix: allocate one qubit permutation per variable, not
 per reserved qubit

---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 84c6bf2..b5c1e9e 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -125,7 +125,7 @@ class pathfinder_base : public pathfinder_public_interface {
               qubit_permutations() {
         vector<int> permutation(num_qubits);
         for (int q = num_qubits; q--;) permutation[q] = q;
-        for (int v = num_vars + num_reserved; v--;) {
+        for (int v = num_vars + num_fixed; v--;) {
             ep.shuffle(permutation.begin(), permutation.end());
             qubit_permutations.push_back(permutation);
         }
-- 
2.43.0


From e6995b82d2dd761af5a7504817e2b1b79299bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 06/13] fix: drop the qubits of fixed chains from initial
 chains, and skip empty initial chains

---
 include/find_embedding/embedding.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 5277fad..5b7b84a 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -87,11 +87,16 @@ class embedding {
         for (auto &vC : fixed_chains) fix_chain(vC.first, vC.second);
 
         for (auto &vC : initial_chains)
-            if (!ep.fixed(vC.first)) set_chain(vC.first, vC.second);
+            if (!ep.fixed(vC.first)) {
+                // reserved qubits belong to the fixed chains, and are not available to any other
+                auto &c = vC.second;
+                c.erase(std::remove_if(c.begin(), c.end(), [this](int q) { return ep.reserved(q); }), c.end());
+                set_chain(vC.first, c);
+            }
 
         for (auto &vC : initial_chains) {
             int v = vC.first;
-            if (ep.fixed(v)) continue;
+            if (ep.fixed(v) || vC.second.empty()) continue;
             auto &c = var_embedding[v];
             int root = vC.second[0];
             c.set_link(v, root);
-- 
2.43.0


From 2ac5c6726d546c211d038e69c2518dfcf71577d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 07/13] fix: flip_back must skip neighbors that are not linked,
 as steal_all does

---
 include/find_embedding/embedding.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 5b7b84a..091abd8 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -229,8 +229,12 @@ class embedding {
     //!  * if the target chainsize is zero, dump the entire segment into the neighbor
     //!  * if the target chainsize is k, stop when the neighbor's size reaches k
     void flip_back(int u, const int target_chainsize) {
-        for (auto &v : ep.var_neighbors(u))
-            if (chainsize(v) && !(ep.fixed(v))) var_embedding[v].steal(var_embedding[u], ep, target_chainsize);
+        for (auto &v : ep.var_neighbors(u)) {
+            if (ep.fixed(v)) continue;
+            if (var_embedding[u].get_link(v) == -1) continue;
+            if (var_embedding[v].get_link(u) == -1) continue;
+            var_embedding[v].steal(var_embedding[u], ep, target_chainsize);
+        }
         DIAGNOSE_EMB("flip_back")
     }
 
-- 
2.43.0


From 6e22a9cf98e90b468402692db701c680d1e967a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 08/13] fix: construct_chain_steiner must not trust qubits
 masked out of the search

---
 include/find_embedding/embedding.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 091abd8..ce1408b 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -207,10 +207,10 @@ class embedding {
         for (auto &v : ep.var_neighbors(u)) {
             if (chainsize(v)) {
                 int qv = q;
-                distance_t dqv = visited_list[v][q] ? distances[v][q] : max_distance;
+                distance_t dqv = visited_list[v][q] == 1 ? distances[v][q] : max_distance;
                 for (auto &p : var_embedding[u]) {
                     if (var_embedding[u].refcount(p) > 1) {
-                        distance_t dp = visited_list[v][p] ? distances[v][p] : max_distance;
+                        distance_t dp = visited_list[v][p] == 1 ? distances[v][p] : max_distance;
                         if (dp < dqv) {
                             dqv = dp;
                             qv = p;
-- 
2.43.0


From 444312b5973e2f6db42e86a57b2da3a0665ac2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:37 +0000
Subject: [PATCH 09/13] fix: no variable order can be kept before one has been
 made

---
 include/find_embedding/embedding_problem.hpp | 2 +-
 include/find_embedding/pathfinder.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/embedding_problem.hpp b/include/find_embedding/embedding_problem.hpp
index cfc3d48..66a7b39 100644
--- a/include/find_embedding/embedding_problem.hpp
+++ b/include/find_embedding/embedding_problem.hpp
@@ -238,7 +238,7 @@ class embedding_problem_base {
               qubit_nbrs(q_n),
               var_nbrs(v_n),
               rand(0, 0xffffffff),
-              var_order_space(n_v),
+              var_order_space(),
               var_order_visited(n_v, 0),
               var_order_shuffle(n_v),
               exponent_margin(compute_margin()),
diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index b5c1e9e..aa353ef 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -615,7 +615,7 @@ class pathfinder_base : public pathfinder_public_interface {
         ep.initialized = 1;
         best_stats.clear();
         check_improvement(currEmbedding);
-        ep.improved = 1;
+        ep.improved = !params.skip_initialization;  // without an initialization pass, there's no variable order to keep
         currEmbedding = bestEmbedding;
         for (int trial_patience = params.tries; trial_patience-- && (!ep.embedded);) {
             int improvement_patience = params.max_no_improvement;
-- 
2.43.0


From add3ce645da2552d08e78bc6afff7e2e2853540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:33 +0000
Subject: [PATCH 10/13] fix: cell_cache::inflate takes each track once instead
 of never ending

---
 include/busclique/cell_cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/busclique/cell_cache.hpp b/include/busclique/cell_cache.hpp
index c629907..9390436 100644
--- a/include/busclique/cell_cache.hpp
+++ b/include/busclique/cell_cache.hpp
@@ -69,9 +69,9 @@ class cell_cache {
             vector<size_t> &chain = emb.back();
             topo.construct_line(0, vert(x), vert(y), vert(y), first_bit[k0], chain);
             topo.construct_line(1, horz(y), horz(x), horz(x), first_bit[k1], chain);
+            k0 ^= mask_bit[first_bit[k0]];
+            k1 ^= mask_bit[first_bit[k1]];
         }
-        k0 ^= mask_bit[first_bit[k0]];
-        k1 ^= mask_bit[first_bit[k1]];
     }
 
 };
-- 
2.43.0


From d323b7a16469928708dc93925158190d53ca20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 11/13] fix: clique_cache and clique_iterator handle a clique
 that fits in a single cell

---
 include/busclique/clique_cache.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/busclique/clique_cache.hpp b/include/busclique/clique_cache.hpp
index 2af40bb..7a364e6 100644
--- a/include/busclique/clique_cache.hpp
+++ b/include/busclique/clique_cache.hpp
@@ -136,6 +136,12 @@ class clique_cache {
     
     template<typename C>
     void compute_cache(C &check) {
+        if (width == 1) {
+            // a single cell: the first and the last ell are the same one
+            auto zero = zerocache();
+            extend_cache(zero, size_y(1), size_x(1), check, corner::SE);
+            return;
+        }
         {
             size_y h = 1;
             size_x w = width;
@@ -311,7 +317,7 @@ class clique_iterator {
             std::tie(by, bx, bc) = basepoints.back();
             basepoints.pop_back();
             cliq.inflate_first_ell(emb, by, bx, width-1, 0, bc);
-            bc = cliq.get(width-2).corners(by, bx);
+            bc = width > 1 ? cliq.get(width-2).corners(by, bx) : corner::none;
             //we'll grow the stack from here using the ell located at by, bx
             //with any of the corners in bc 
             stack.emplace_back(emb.size(), by, bx, bc);
-- 
2.43.0


From 7176230b344a5a1391598689b66a1c318e1e9a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 12/13] fix: topo_cache::reset restores the order of the
 missing couplers

---
 include/busclique/topo_cache.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/busclique/topo_cache.hpp b/include/busclique/topo_cache.hpp
index cf72f53..1f6b509 100644
--- a/include/busclique/topo_cache.hpp
+++ b/include/busclique/topo_cache.hpp
@@ -72,6 +72,8 @@ class topo_cache {
         if(mask_num > 0) {
             mask_num = 0;
             rng = fastrng(topo.seed);
+            // next() may have shuffled these; compute_bad_edges lists them in sorted order
+            std::sort(bad_edges.begin(), bad_edges.end());
             next();
         }
     }
-- 
2.43.0


From 507dac67beb8df5eb929ff25e66a049d4fa38664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:21 +0000
Subject: [PATCH 13/13] fix: a problem with too few free qubits raises instead
 of terminating the Python process

---
 minorminer/_minorminer_h.pxi | 4 ++--
 minorminer/src/pyutil.hpp    | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/minorminer/_minorminer_h.pxi b/minorminer/_minorminer_h.pxi
index ca9c138..ebdd448 100644
--- a/minorminer/_minorminer_h.pxi
+++ b/minorminer/_minorminer_h.pxi
@@ -119,11 +119,11 @@ cdef extern from "../include/find_embedding/chain.hpp" namespace "find_embedding
         pathfinder_wrapper() except +handle_exceptions
         parameter_processor pp
         unique_ptr[pathfinder_public_interface] pf
-        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &)
+        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &) except +handle_exceptions
         int heuristicEmbedding() except +handle_exceptions
         int num_vars()
         void get_chain(int, vector[int] &)
-        void set_initial_chains(chainmap &)
+        void set_initial_chains(chainmap &) except +handle_exceptions
         void quickPass(const vector[int] &, int, int, bool, bool, double) except +handle_exceptions
         void quickPass(VARORDER, int, int, bool, bool, double) except +handle_exceptions
 
diff --git a/minorminer/src/pyutil.hpp b/minorminer/src/pyutil.hpp
index 550a84e..3fe5e29 100644
--- a/minorminer/src/pyutil.hpp
+++ b/minorminer/src/pyutil.hpp
@@ -71,6 +71,8 @@ void handle_exceptions() {
         PyErr_SetString(PyExc_RuntimeError, e.what());
     } catch (const find_embedding::CorruptEmbeddingException &e) {
         PyErr_SetString(PyExc_AssertionError, e.what());
+    } catch (const find_embedding::MinorMinerException &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
     }
 }
 
-- 
2.43.0

