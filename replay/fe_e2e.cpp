// bounded stand-in: random small problems through the public C++ interface of find_embedding
// argv[4] = valid | fixed | restrict | det | improve | order | initial
#include <memory>
#include "harness.hpp"
#include "find_embedding/find_embedding.hpp"
using namespace find_embedding;
using std::map; using std::vector; using std::set; using std::string; using std::pair;
struct LI : public LocalInteraction {
    void displayOutputImpl(int, const std::string &) const override {}
    void displayErrorImpl(int, const std::string &) const override {}
    bool cancelledImpl() const override { return false; }
};
typedef set<pair<int, int>> ES;
struct Prob {
    int n, m; vector<pair<int, int>> se, te;
    map<int, vector<int>> fixed, initial, restrict_;
    int tries, patience, noimp, inner, maxfill, threads, chainlen; bool skip, overlap; unsigned seed; double beta;
    int plan;
    vector<vector<int>> orders;
    string str() const {
        std::ostringstream o;
        o << "source " << n << " nodes:"; for (auto &e : se) o << " " << e.first << "-" << e.second;
        o << "\ntarget " << m << " nodes:"; for (auto &e : te) o << " " << e.first << "-" << e.second;
        auto pm = [&](const char *nm, const map<int, vector<int>> &c) { o << "\n" << nm << ":"; for (auto &vc : c) o << " " << vc.first << ":" << H::S(vc.second); };
        pm("fixed_chains", fixed); pm("initial_chains", initial); pm("restrict_chains", restrict_);
        o << "\ntries=" << tries << " chainlength_patience=" << patience << " max_no_improvement=" << noimp << " inner_rounds=" << inner << " max_fill=" << maxfill
          << " threads=" << threads << " skip_initialization=" << skip << " return_overlap=" << overlap << " seed=" << seed << " max_beta=" << beta << " plan=" << plan << "\norders:";
        for (auto &v : orders) o << " " << H::S(v);
        o << "\n";
        return o.str();
    }
};
static bool adj(const ES &T, int a, int b) { return T.count({a, b}); }
static bool conn(const ES &T, const vector<int> &c) {
    if (c.empty()) return false;
    set<int> s(c.begin(), c.end()), seen{c[0]}; vector<int> st{c[0]};
    while (!st.empty()) { int p = st.back(); st.pop_back(); for (int q : s) if (!seen.count(q) && adj(T, p, q)) { seen.insert(q); st.push_back(q); } }
    return seen.size() == s.size();
}
static ES target(const Prob &p) { ES T; for (auto &e : p.te) if (e.first != e.second) { T.insert(e); T.insert({e.second, e.first}); } return T; }
static bool related(const ES &T, const vector<int> &a, const vector<int> &b) { for (int p : a) for (int q : b) if (adj(T, p, q)) return true; return false; }
static string chk_valid(const Prob &p, const vector<vector<int>> &ch) {
    ES T = target(p);
    if ((int)ch.size() != p.n) return "number of chains differs from the number of source nodes";
    map<int, int> own;
    for (int v = 0; v < p.n; v++) {
        if (ch[v].empty()) { if (!p.fixed.count(v)) return "empty chain for " + std::to_string(v); else continue; }
        set<int> s(ch[v].begin(), ch[v].end());
        if (s.size() != ch[v].size()) return "chain of " + std::to_string(v) + " lists a qubit twice";
        for (int q : s) { if (q < 0 || q >= p.m) return "chain of " + std::to_string(v) + " has a qubit that is no target node"; if (own.count(q)) return "chains of " + std::to_string(own[q]) + " and " + std::to_string(v) + " overlap on " + std::to_string(q); own[q] = v; }
        if (!p.fixed.count(v) && !conn(T, ch[v])) return "chain of " + std::to_string(v) + " is not connected: " + H::S(ch[v]);
    }
    for (auto &e : p.se) {
        int u = e.first, v = e.second;
        if (u == v || (p.fixed.count(u) && p.fixed.count(v))) continue;
        if (!related(T, ch[u], ch[v])) return "edge " + std::to_string(u) + "-" + std::to_string(v) + " has no target edge between its chains";
    }
    return "";
}
static string chk_fixed(const Prob &p, const vector<vector<int>> &ch) {
    for (auto &vc : p.fixed) {
        set<int> a(vc.second.begin(), vc.second.end()), b(ch[vc.first].begin(), ch[vc.first].end());
        if (a != b) return "fixed chain of " + std::to_string(vc.first) + " came back as " + H::S(ch[vc.first]);
    }
    return "";
}
static string chk_restrict(const Prob &p, const vector<vector<int>> &ch) {
    for (auto &vc : p.restrict_) {
        if (p.fixed.count(vc.first)) continue;
        set<int> a(vc.second.begin(), vc.second.end());
        for (int q : ch[vc.first]) if (!a.count(q)) return "chain of " + std::to_string(vc.first) + " leaves its restricted set with qubit " + std::to_string(q);
    }
    return "";
}
static vector<pair<int, int>> randgraph(int n, int kind, int dens) {
    vector<pair<int, int>> e;
    if (kind == 0) { for (int i = 1; i < n; i++) e.push_back({H::R(0, i - 1), i}); }
    if (kind == 1) { for (int i = 0; i + 1 < n; i++) e.push_back({i, i + 1}); if (n > 2 && H::R(0, 1)) e.push_back({n - 1, 0}); }
    if (kind == 2) { int w = 1; while (w * w < n) w++; for (int i = 0; i < n; i++) { if ((i + 1) % w && i + 1 < n) e.push_back({i, i + 1}); if (i + w < n) e.push_back({i, i + w}); } }
    if (kind == 3) { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) e.push_back({i, j}); }
    for (int k = 0; k < dens; k++) { int a = H::R(0, n - 1), b = H::R(0, n - 1); if (a != b || H::R(0, 3) == 0) e.push_back({a, b}); }
    return e;
}
static vector<int> rchain(const Prob &p, const ES &T, int len, bool connected) {
    vector<int> c{H::R(0, p.m - 1)};
    for (int k = 1; k < len; k++) {
        if (connected) { vector<int> o; for (int q = 0; q < p.m; q++) if (std::find(c.begin(), c.end(), q) == c.end()) for (int x : c) if (adj(T, x, q)) { o.push_back(q); break; } if (o.empty()) break; c.push_back(o[H::R(0, o.size() - 1)]); }
        else c.push_back(H::R(0, p.m - 1));
    }
    return c;
}
struct Out { int rc; bool exc; string what; vector<vector<int>> ch; };
static optional_parameters mk(const Prob &p) {
    optional_parameters o; o.localInteractionPtr.reset(new LI()); o.rng.seed(p.seed);
    o.tries = p.tries; o.chainlength_patience = p.patience; o.max_no_improvement = p.noimp; o.inner_rounds = p.inner; o.max_fill = p.maxfill; o.threads = p.threads;
    o.skip_initialization = p.skip; o.return_overlap = p.overlap; o.timeout = 40; o.max_beta = p.beta;
    o.fixed_chains = p.fixed; o.initial_chains = p.initial; o.restrict_chains = p.restrict_;
    return o;
}
static Out run(const Prob &p) {
    graph::input_graph S(p.n, {}, {}), T(p.m, {}, {});
    for (auto &e : p.se) S.push_back(e.first, e.second);
    for (auto &e : p.te) T.push_back(e.first, e.second);
    optional_parameters o = mk(p);
    Out r{0, false, "", {}};
    try {
        if (p.plan == 0) r.rc = findEmbedding(S, T, o, r.ch);
        else {
            pathfinder_wrapper pf(S, T, o);
            auto get = [&]() { r.ch.assign(p.n, {}); for (int v = 0; v < p.n; v++) pf.get_chain(v, r.ch[v]); };
            int k = 0;
            for (auto &ord : p.orders) {
                if (p.plan == 2 && k % 2) pf.quickPass((VARORDER)H::R(0, 0), p.chainlen, p.maxfill, k % 3 == 0, k == 0, 0.3);
                else { vector<int> x = ord; pf.quickPass(x, p.chainlen, p.maxfill, k % 3 == 0, k == 0, 0.3); }
                k++;
                get();
                string f = chk_fixed(p, r.ch); if (f != "") { r.what = f; return r; }
            }
            if (p.plan == 3) { auto init = p.initial; pf.set_initial_chains(init); }
            r.rc = pf.heuristicEmbedding(); get();
        }
    } catch (const minorminer::MinorMinerException &e) { r.exc = true; }
    return r;
}
int main(int argc, char **argv) {
    H::init(argc, argv);
    string mode = argc > 4 ? argv[4] : "valid";
    while (H::more()) {
        Prob p; p.n = H::R(1, 8); p.m = H::R(2, 20);
        if (H::R(0, 3) == 0) p.n = H::R(1, 3);
        p.se = randgraph(p.n, H::R(0, 4), H::R(0, 3)); p.te = randgraph(p.m, H::R(0, 3), H::R(0, 12));
        p.tries = H::R(1, 3); p.patience = H::R(0, 3); p.noimp = H::R(1, 5); p.inner = H::R(0, 3) ? 1000 : H::R(1, 5); p.maxfill = H::R(0, 2) ? 1000 : H::R(1, 3);
        p.threads = 1; if (mode != "det" && H::R(0, 15) == 0) p.threads = 2;
        p.skip = false; p.overlap = H::R(0, 1); p.seed = H::R(1, 1 << 30); p.beta = H::R(0, 2) ? 1e300 : H::R(2, 9); p.plan = 0; p.chainlen = H::R(0, 1) ? 0 : H::R(1, 6);
        ES T = target(p);
        auto maybe = [&](const char *m, int rare) { return mode == m ? H::R(0, 7) > 0 : H::R(0, rare) == 0; };
        if (maybe("fixed", 4)) { int k = H::R(1, p.n); for (int i = 0; i < k; i++) p.fixed[H::R(0, p.n - 1)] = rchain(p, T, H::R(1, 3), H::R(0, 4) > 0); }
        if (maybe("restrict", 5)) { int k = H::R(1, p.n); for (int i = 0; i < k; i++) { vector<int> d; for (int q = 0; q < p.m; q++) if (H::R(0, 3)) d.push_back(q); if (d.empty()) d.push_back(0); p.restrict_[H::R(0, p.n - 1)] = d; } }
        if (maybe("initial", 4) || mode == "improve") { int k = H::R(1, p.n); for (int i = 0; i < k; i++) p.initial[H::R(0, p.n - 1)] = rchain(p, T, H::R(1, 4), H::R(0, 5) > 0); if (H::R(0, 2) == 0) p.skip = true; }
        if (!p.restrict_.empty()) for (auto &kv : p.initial) if (p.restrict_.count(kv.first)) kv.second = {p.restrict_[kv.first][0]};
        if (mode == "order" ? true : H::R(0, 3) == 0) {
            p.plan = H::R(1, 3); int k = H::R(1, 4);
            if (p.skip) p.plan = 1;
            for (int i = 0; i < k; i++) { vector<int> o; for (int v = 0; v < p.n; v++) o.push_back(v); std::shuffle(o.begin(), o.end(), H::rng); if (i && H::R(0, 1)) o.resize(H::R(0, p.n)); p.orders.push_back(o); }
        }
        H::start_case(p.str());
        Out a = run(p);
        if (a.what != "") H::fail(a.what);
        if (a.exc) continue;
        if (a.rc) {
            string w = chk_valid(p, a.ch); if (w != "") H::fail("success reported but " + w);
        }
        if (!a.ch.empty()) {
            string w = chk_fixed(p, a.ch); if (w != "") H::fail(w);
            if (mode == "restrict") { w = chk_restrict(p, a.ch); if (w != "") H::fail(w); }
        }
        if (mode == "det") {
            Out b = run(p);
            if (a.rc != b.rc || a.exc != b.exc || a.ch != b.ch) H::fail("two runs with the same inputs and seed returned different embeddings");
        }
        if (mode == "improve" && a.rc) {
            // restart from the result: the incumbent may never get worse
            Prob q = p; q.initial.clear(); q.plan = 0; q.orders.clear(); q.restrict_.clear(); q.skip = H::R(0, 1); q.overlap = true; q.seed++; q.threads = 1;
            bool ok = true; size_t mx = 0, nm = 0;
            for (int v = 0; v < q.n; v++) if (!q.fixed.count(v)) { q.initial[v] = a.ch[v]; if (a.ch[v].size() > mx) { mx = a.ch[v].size(); nm = 0; } if (a.ch[v].size() == mx) nm++; if (a.ch[v].empty()) ok = false; }
            q.maxfill = 1000;
            if (ok && mx) {
                H::start_case(q.str());
                Out b = run(q);
                if (b.exc) H::fail("a valid initial embedding was rejected");
                if (q.skip) {
                if (!b.rc) H::fail("a valid initial embedding was lost");
                string w = chk_valid(q, b.ch); if (w != "") H::fail("success reported but " + w);
                size_t mx2 = 0, nm2 = 0; for (int v = 0; v < q.n; v++) if (!q.fixed.count(v)) { if (b.ch[v].size() > mx2) { mx2 = b.ch[v].size(); nm2 = 0; } if (b.ch[v].size() == mx2) nm2++; }
                if (mx2 > mx || (mx2 == mx && nm2 > nm)) H::fail("the result is worse than the initial embedding it started from");
                }
            }
        }
    }
    return H::done();
}
