// bounded stand-in: neighbourhood lists and components of random multigraphs, by the real graph.hpp
#include <algorithm>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include "harness.hpp"
#include "find_embedding/graph.hpp"
using std::vector; using std::string; using std::set;
using namespace H;
typedef vector<vector<int>> VV;
static void same(const string &what, const vector<set<int>> &want, const VV &got) {
    if (got.size() != want.size()) fail(what + ": " + std::to_string(got.size()) + " lists for " + std::to_string(want.size()) + " nodes");
    for (size_t p = 0; p < want.size(); p++) {
        vector<int> w(want[p].begin(), want[p].end()), g(got[p]);
        std::sort(g.begin(), g.end());
        if (w != g) fail(what + ": node " + std::to_string(p) + " lists " + S(g) + " instead of " + S(w));
    }
}
int main(int argc, char **argv) {
    init(argc, argv);
    while (more()) {
        int n = R(0, 30) == 0 ? R(20, 200) : R(1, 11), m = R(0, 4) ? R(0, 2 * n) : R(0, n / 2);
        vector<int> A, B; for (int i = 0; i < m; i++) { int a = R(0, n - 1), b = R(0, 5) ? R(0, n - 1) : a; if (i && R(0, 4) == 0) { int j = R(0, i - 1); a = A[j]; b = B[j]; if (R(0, 1)) std::swap(a, b); } A.push_back(a); B.push_back(b); }
        bool sweep = R(0, 3) == 0;      // a path numbered at random: long union-find chains
        if (sweep) { A.clear(); B.clear(); vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; std::shuffle(p.begin(), p.end(), rng); for (int i = 0; i + 1 < n; i++) if (R(0, 8)) { A.push_back(p[i]); B.push_back(p[i + 1]); } m = A.size(); }
        vector<int> mark(n), perm(n); for (auto &x : mark) x = R(0, 2) == 0; for (int i = 0; i < n; i++) perm[i] = i; std::shuffle(perm.begin(), perm.end(), rng);
        int cut = R(0, n);
        string s = "nodes " + std::to_string(n) + " edges:"; for (int i = 0; i < m; i++) s += " " + std::to_string(A[i]) + "-" + std::to_string(B[i]);
        s += "\nmarked " + S(mark) + " renumbered " + S(perm) + " cut " + std::to_string(cut) + "\n"; start_case(s);
        bool grown = R(0, 1);
        graph::input_graph g = grown ? graph::input_graph() : graph::input_graph(n, A, B);
        if (grown) { if (R(0, 3) == 0) { g.push_back(3, 4); g.clear(); } for (int i = 0; i < m; i++) g.push_back(A[i], B[i]); int mx = -1; for (int i = 0; i < m; i++) mx = std::max(mx, std::max(A[i], B[i]));
            if ((int)g.num_nodes() != mx + 1) fail("a graph grown edge by edge has " + std::to_string(g.num_nodes()) + " nodes instead of " + std::to_string(mx + 1));
            if (mx + 1 != n) { g = graph::input_graph(n, A, B); } }
        if ((int)g.num_edges() != m) fail("the graph has another number of edges");
        for (int i = 0; i < m; i++) if (g.a(i) != A[i] || g.b(i) != B[i]) fail("edge " + std::to_string(i) + " changed");
        auto lists = [&](std::function<bool(int)> src, std::function<bool(int)> snk, std::function<int(int)> re) { vector<set<int>> w(n); for (int i = 0; i < m; i++) for (int d = 0; d < 2; d++) { int a = d ? B[i] : A[i], b = d ? A[i] : B[i]; if (a != b && !src(b) && !snk(a)) w[re(a)].insert(re(b)); } return w; };
        auto no = [](int) { return false; }; auto id = [](int x) { return x; };
        same("all neighbours", lists(no, no, id), g.get_neighbors());
        same("neighbours, marked nodes as sinks, renumbered", lists(no, [&](int x) { return mark[x] != 0; }, [&](int x) { return perm[x]; }), g.get_neighbors_sinks(mark, perm));
        same("neighbours, marked nodes as sources", lists([&](int x) { return mark[x] != 0; }, no, id), g.get_neighbors_sources(mark));
        same("neighbours, last nodes as sources", lists([&](int x) { return x >= cut; }, no, id), g.get_neighbors_sources(cut));
        graph::components C(g, mark);
        vector<int> comp(n); for (int i = 0; i < n; i++) comp[i] = i; for (int ch = 1; ch;) { ch = 0; for (int i = 0; i < m; i++) if (comp[A[i]] != comp[B[i]]) { int v = std::min(comp[A[i]], comp[B[i]]); comp[A[i]] = comp[B[i]] = v; ch = 1; } }
        std::map<int, set<int>> want; for (int i = 0; i < n; i++) want[comp[i]].insert(i);
        if (C.size() != want.size()) fail(std::to_string(C.size()) + " components instead of " + std::to_string(want.size()));
        vector<int> where(n, -1), lab(n, -1); size_t last = n + 1;
        for (size_t c = 0; c < C.size(); c++) {
            const auto &N = C.nodes(c);
            if (N.empty() || N.size() > last) fail("components are not listed from the largest to the smallest"); last = N.size();
            set<int> w(N.begin(), N.end()); if (w.size() != N.size() || want[comp[N[0]]] != w) fail("component " + std::to_string(c) + " lists " + S(N));
            int nr = C.num_reserved(c), k = N.size();
            for (int j = 0; j < k; j++) { where[N[j]] = c; lab[N[j]] = j; if ((mark[N[j]] != 0) != (j >= k - nr)) fail("component " + std::to_string(c) + ": the marked nodes are not the last " + std::to_string(nr) + " of " + S(N)); }
            if (k > 1 && (int)C.size(c) != k) fail("component " + std::to_string(c) + " has another size");
        }
        vector<std::multiset<std::pair<int, int>>> we(C.size());
        for (int i = 0; i < m; i++) we[where[A[i]]].insert({lab[A[i]], lab[B[i]]});
        for (size_t c = 0; c < C.size(); c++) {
            std::multiset<std::pair<int, int>> ge; const auto &cg = C.component_graph(c); for (size_t i = 0; i < cg.num_edges(); i++) ge.insert({cg.a(i), cg.b(i)});
            if (ge != we[c]) fail("component " + std::to_string(c) + " does not have the edges of its nodes");
            int k = C.size(c), nr = C.num_reserved(c); vector<set<int>> w(k); for (auto &e : we[c]) for (int d = 0; d < 2; d++) { int a = d ? e.second : e.first, b = d ? e.first : e.second; if (a != b && b < k - nr) w[a].insert(b); }
            same("neighbours in component " + std::to_string(c), w, C.component_neighbors(c));
            vector<int> in, out, back; for (int j = R(0, 5); j--;) in.push_back(R(0, 4) || C.nodes(c).empty() ? R(-2, n + 1) : C.nodes(c)[R(0, C.nodes(c).size() - 1)]);
            if (R(0, 1)) { in.clear(); for (int j = R(0, 5); j--;) in.push_back(C.nodes(c)[R(0, C.nodes(c).size() - 1)]); }
            bool ok = true; for (int x : in) ok = ok && 0 <= x && x < n && where[x] == (int)c;
            if (C.into_component(c, in, out) != ok) fail("translation of " + S(in) + " into component " + std::to_string(c) + (ok ? " was refused" : " was accepted"));
            if (ok) { C.from_component(c, out, back); if (back != in) fail("translating " + S(in) + " into component " + std::to_string(c) + " and back gives " + S(back)); for (size_t j = 0; j < in.size(); j++) if (out[j] != lab[in[j]]) fail("node " + std::to_string(in[j]) + " got another label"); }
        }
    }
    return done();
}
