// bounded stand-in: the busclique layer on random Chimera / Pegasus / Zephyr graphs with missing nodes and couplers,
// against an oracle written from the published definitions of the three families.
#include <memory>
#include "harness.hpp"
#include "busclique/find_clique.hpp"
#include "busclique/find_biclique.hpp"
using namespace busclique;
using std::vector; using std::pair; using std::set; using std::string;
typedef vector<vector<size_t>> emb_t;

struct Frag { int u, w, z, k; };   // a qubit's footprint in one cell: orientation, line, position along the line, track
struct Q { int u, w, k, z0, z1; };  // covers positions z0..z1 of track k on line (u, w)
struct Family {
    int kind, m, n, t, DY, DX, shore;
    int voff[6], hoff[6];
    size_t total;
    vector<Q> q;                   // by linear label
    Q foot(size_t l) const { return q[l]; }
    void build() {
        q.clear();
        if (kind == 0) {           // chimera: (y, x, u, k)
            DY = m; DX = n; shore = t;
            for (int y = 0; y < m; y++) for (int x = 0; x < n; x++) for (int u = 0; u < 2; u++) for (int k = 0; k < t; k++)
                q.push_back(u ? Q{1, y, k, x, x} : Q{0, x, k, y, y});
        } else if (kind == 1) {    // pegasus: (u, w, k, z), k < 12
            DY = DX = 6 * m; shore = 2;
            for (int u = 0; u < 2; u++) for (int w = 0; w < m; w++) for (int k = 0; k < 12; k++) for (int z = 0; z < m - 1; z++) {
                const int *off = u ? hoff : voff; int o = off[k / 2];
                q.push_back(Q{u, 6 * w + k / 2, k % 2, 6 * z + o, 6 * z + o + 5});
            }
        } else {                   // zephyr: (u, w, k, j, z)
            DY = DX = 2 * m + 1; shore = 2 * t;
            for (int u = 0; u < 2; u++) for (int w = 0; w < 2 * m + 1; w++) for (int k = 0; k < t; k++) for (int j = 0; j < 2; j++) for (int z = 0; z < m; z++)
                q.push_back(Q{u, w, 2 * k + j, 2 * z + j, 2 * z + j + 1});
        }
        total = q.size();
    }
    bool internal(size_t a, size_t b) const {    // coupled because the two cross
        const Q &v = q[a].u ? q[b] : q[a], &h = q[a].u ? q[a] : q[b];
        if (v.u == h.u) return false;
        return v.z0 <= h.w && h.w <= v.z1 && h.z0 <= v.w && v.w <= h.z1;
    }
    bool external(size_t a, size_t b) const {    // next along the same track
        const Q &x = q[a], &y = q[b];
        return x.u == y.u && x.w == y.w && x.k == y.k && (x.z1 + 1 == y.z0 || y.z1 + 1 == x.z0);
    }
    bool odd(size_t a, size_t b) const {
        const Q &x = q[a], &y = q[b];
        if (kind == 0 || x.u != y.u || x.w != y.w || (x.k ^ 1) != y.k) return false;
        if (kind == 1) return x.z0 == y.z0;
        return x.z1 >= y.z0 && y.z1 >= x.z0;
    }
    bool coupled(size_t a, size_t b) const { return a != b && (internal(a, b) || external(a, b) || odd(a, b)); }
};
struct Case {
    Family f;
    vector<size_t> nodes;
    vector<pair<size_t, size_t>> edges;
    set<size_t> N;
    set<pair<size_t, size_t>> E;
    uint32_t seed;
    string text;
    bool has(size_t a, size_t b) const { return E.count({a, b}); }
};
static Case mk(int kind, int small, bool no_odd = false) {
    Case c; Family &f = c.f; f.kind = kind;
    std::ostringstream o;
    f.t = 0; f.n = 0;
    if (kind == 0) { f.m = H::R(1, small ? 3 : 5); f.n = H::R(1, small ? 3 : 5); f.t = H::R(1, H::R(0, 1) ? 4 : 8); o << "chimera " << f.m << "," << f.n << "," << f.t; }
    if (kind == 1) {
        f.m = H::R(2, small ? 2 : 3);
        o << "pegasus " << f.m << " offsets";
        static const int P[2][6] = {{1, 1, 5, 5, 3, 3}, {3, 3, 1, 1, 5, 5}};     // the default family, halved
        bool dflt = H::R(0, 1);
        // any offsets for which the formula applies (also used in the definition of other pegasus flavours)
        for (int i = 0; i < 6; i++) { f.voff[i] = dflt ? P[0][i] : H::R(0, 5); f.hoff[i] = dflt ? P[1][i] : H::R(0, 5); }
        for (int i = 0; i < 6; i++) o << " " << f.voff[i];
        for (int i = 0; i < 6; i++) o << " " << f.hoff[i];
    }
    if (kind == 2) { f.m = H::R(1, small ? 2 : 3); f.t = H::R(1, 4); o << "zephyr " << f.m << "," << f.t; }
    f.build();
    vector<size_t> all; for (size_t i = 0; i < f.total; i++) all.push_back(i);
    int style = H::R(0, 5);
    set<size_t> gone; set<pair<size_t, size_t>> cut;
    double pn = 0, pe = 0, pi = 0;
    switch (style) {
        case 0: break;
        case 1: pn = H::R(1, 12) / 100.0; break;
        case 2: pe = H::R(1, 6) / 100.0; break;
        case 3: pn = H::R(1, 30) / 100.0; pe = H::R(0, 10) / 100.0; break;
        case 4: pn = H::R(30, 95) / 100.0; break;
        case 5: pi = 1; break;
    }
    auto coin = [](double p) { return (H::rng() % 1000000) < p * 1000000; };
    for (size_t i : all) if (coin(pn)) gone.insert(i); else c.N.insert(i);
    vector<pair<size_t, size_t>> inter;
    for (size_t a = 0; a < f.total; a++) for (size_t b = a + 1; b < f.total; b++) {
        if (gone.count(a) || gone.count(b) || !f.coupled(a, b)) continue;
        if (no_odd && f.odd(a, b)) continue;
        if (coin(pe)) { cut.insert({a, b}); continue; }
        c.E.insert({a, b});
        if (f.internal(a, b)) inter.push_back({a, b});
    }
    if (pi && inter.size()) for (int k = H::R(1, 9); k--;) { auto e = inter[H::R(0, inter.size() - 1)]; c.E.erase(e); cut.insert(e); }
    if (H::R(0, 20) == 0) { c.E.clear(); o << " no couplers"; }
    o << " missing nodes " << H::S(gone) << " missing couplers";
    for (auto &e : cut) o << " " << e.first << "-" << e.second;
    for (size_t i : c.N) c.nodes.push_back(i);
    for (auto &e : c.E) c.edges.push_back(e);
    if (H::R(0, 1)) { std::shuffle(c.nodes.begin(), c.nodes.end(), H::rng); std::shuffle(c.edges.begin(), c.edges.end(), H::rng); o << " (listed in random order)"; }
    vector<pair<size_t, size_t>> es(c.E.begin(), c.E.end());
    for (auto &e : es) c.E.insert({e.second, e.first});
    if (H::R(0, 1)) for (auto &e : c.edges) if (H::rng() & 1) std::swap(e.first, e.second);
    c.seed = (uint32_t)H::rng();
    o << " seed " << c.seed;
    c.text = o.str();
    return c;
}
template <typename spec> spec make_spec(const Case &c);
template <> chimera_spec make_spec<chimera_spec>(const Case &c) { return chimera_spec((size_t)c.f.m, (size_t)c.f.n, (size_t)c.f.t, c.seed); }
template <> pegasus_spec make_spec<pegasus_spec>(const Case &c) {
    vector<uint8_t> v(c.f.voff, c.f.voff + 6), h(c.f.hoff, c.f.hoff + 6);
    return pegasus_spec((size_t)c.f.m, v, h, c.seed);
}
template <> zephyr_spec make_spec<zephyr_spec>(const Case &c) { return zephyr_spec((size_t)c.f.m, (size_t)c.f.t, c.seed); }

static int track_at(const Case &c, int u, int w, int k, int z, bool present = true) {   // qubit covering position z, or -1
    static const Case *last = nullptr; static std::map<std::tuple<int, int, int, int>, int> idx;
    static string lasttext;
    if (last != &c || lasttext != c.text) {
        idx.clear(); last = &c; lasttext = c.text;
        for (size_t i = 0; i < c.f.total; i++) { const Q &q = c.f.q[i]; for (int z = q.z0; z <= q.z1; z++) idx[std::make_tuple(q.u, q.w, q.k, z)] = i; }
    }
    auto it = idx.find(std::make_tuple(u, w, k, z));
    if (it == idx.end()) return -1;
    return !present || c.N.count(it->second) ? it->second : -1;
}
static uint8_t oracle_mask(const Case &c, int u, int w, int z0, int z1) {
    uint8_t r = 0;
    for (int k = 0; k < c.f.shore; k++) {
        bool ok = true; int prev = -1;
        for (int z = z0; z <= z1 && ok; z++) {
            int q = track_at(c, u, w, k, z);
            if (q < 0) ok = false;
            else if (prev >= 0 && prev != q && !c.has(prev, q)) ok = false;
            prev = q;
        }
        if (ok) r |= 1 << k;
    }
    return r;
}
static vector<size_t> oracle_line(const Case &c, int u, int w, int z0, int z1, int k) {
    vector<size_t> r;
    for (int z = z0; z <= z1; z++) { int q = track_at(c, u, w, k, z); if (r.empty() || (int)r.back() != q) r.push_back(q); }
    return r;
}
static string P(const emb_t &e) { std::ostringstream o; for (auto &c : e) o << H::S(c); return o.str(); }

template <typename spec> void masks(const Case &c) {
    spec s = make_spec<spec>(c);
    cell_cache<spec> cells(s, c.nodes, c.edges);
    bundle_cache<spec> b(cells);
    const int D[2] = {c.f.DX, c.f.DY}, L[2] = {c.f.DY, c.f.DX};
    for (int u = 0; u < 2; u++) for (int w = 0; w < D[u]; w++) for (int z1 = 0; z1 < L[u]; z1++) for (int z0 = 0; z0 <= z1; z0++) {
        uint8_t got = b.get_line_mask(u, w, z0, z1), want = oracle_mask(c, u, w, z0, z1);
        if (got != want) H::fail("line u=" + std::to_string(u) + " w=" + std::to_string(w) + " from " + std::to_string(z0) + " to " + std::to_string(z1) + ": mask " + std::to_string(got) + ", unbroken tracks " + std::to_string(want));
        if (b.get_line_score(u, w, z0, z1) != __builtin_popcount(want)) H::fail("score of a line differs from its number of tracks");
    }
    // masks into chains
    for (int r = 0; r < 12; r++) {
        int y0 = H::R(0, c.f.DY - 1), y1 = H::R(y0, c.f.DY - 1), x0 = H::R(0, c.f.DX - 1), x1 = H::R(x0, c.f.DX - 1);
        int u = H::R(0, 1);
        emb_t e;
        b.inflate((bool)u, y0, y1, x0, x1, e);
        emb_t want;
        for (int w = u ? y0 : x0; w <= (u ? y1 : x1); w++) { int z0 = u ? x0 : y0, z1 = u ? x1 : y1; uint8_t m = oracle_mask(c, u, w, z0, z1); for (int k = 0; k < 8; k++) if (m >> k & 1) want.push_back(oracle_line(c, u, w, z0, z1, k)); }
        if (e != want) H::fail("lines of the rectangle " + std::to_string(y0) + ".." + std::to_string(y1) + "," + std::to_string(x0) + ".." + std::to_string(x1) + " became " + P(e) + " but should be " + P(want));
        int yc = H::R(0, 1) ? y0 : y1, xc = H::R(0, 1) ? x0 : x1;
        e.clear(); want.clear();
        b.inflate(yc, xc, y0, y1, x0, x1, e);
        uint8_t m0 = oracle_mask(c, 0, xc, y0, y1), m1 = oracle_mask(c, 1, yc, x0, x1);
        vector<int> k0, k1; for (int k = 0; k < 8; k++) { if (m0 >> k & 1) k0.push_back(k); if (m1 >> k & 1) k1.push_back(k); }
        size_t cnt = std::min(k0.size(), k1.size());
        if (b.score(yc, xc, y0, y1, x0, x1) != cnt) H::fail("score of an ell is not the number of chains it holds");
        for (size_t i = 0; i < cnt; i++) { auto a = oracle_line(c, 0, xc, y0, y1, k0[i]), d = oracle_line(c, 1, yc, x0, x1, k1[i]); a.insert(a.end(), d.begin(), d.end()); want.push_back(a); }
        if (e != want) H::fail("ell became " + P(e) + " but should be " + P(want));
        if constexpr (!std::is_same<spec, zephyr_spec>::value) if (cnt) for (auto &ch : want) if (ch.size() > b.length(yc, xc, y0, y1, x0, x1)) H::fail("an ell is longer than its announced length");
        // one cell
        int y = y0, x = x0;
        m0 = oracle_mask(c, 0, x, y, y); m1 = oracle_mask(c, 1, y, x, x);
        k0.clear(); k1.clear(); for (int k = 0; k < 8; k++) { if (m0 >> k & 1) k0.push_back(k); if (m1 >> k & 1) k1.push_back(k); }
        cnt = std::min(k0.size(), k1.size()); e.clear(); want.clear();
        if (cells.score(y, x) != cnt) H::fail("score of a cell is not the number of chains it holds");
        cells.inflate(y, x, e);
        for (size_t i = 0; i < cnt; i++) { auto a = oracle_line(c, 0, x, y, y, k0[i]), d = oracle_line(c, 1, y, x, x, k1[i]); a.insert(a.end(), d.begin(), d.end()); want.push_back(a); }
        if (e != want) H::fail("cell " + std::to_string(y) + "," + std::to_string(x) + " became " + P(e) + " but should be " + P(want));
    }
}
template <typename spec> void variants(const Case &c, int rounds) {
    spec s = make_spec<spec>(c);
    topo_cache<spec> t(s, c.nodes, c.edges);
    const int DY = c.f.DY, DX = c.f.DX;
    size_t nc = s.num_cells();
    typedef vector<uint8_t> B;
    auto snap = [&](const uint8_t *p) { return B(p, p + nc); };
    // base masks
    B bn(nc, 0), be(nc, 0);
    set<pair<size_t, size_t>> bad;
    set<size_t> badq;
    auto lin = [&](int y, int x, int u, int k) { return (size_t)(k + c.f.shore * (u + 2 * (x + DX * y))); };
    for (int y = 0; y < DY; y++) for (int x = 0; x < DX; x++) {
        bn[s.cell_index((size_y)y, (size_x)x, false)] = oracle_mask(c, 0, x, y, y); bn[s.cell_index((size_y)y, (size_x)x, true)] = oracle_mask(c, 1, y, x, x);
        if (y) be[s.cell_index((size_y)y, (size_x)x, false)] = oracle_mask(c, 0, x, y - 1, y);
        if (x) be[s.cell_index((size_y)y, (size_x)x, true)] = oracle_mask(c, 1, y, x - 1, x);
        for (int k = 0; k < c.f.shore; k++) for (int l = 0; l < c.f.shore; l++) {
            int a = track_at(c, 0, x, k, y), b = track_at(c, 1, y, l, x);
            if (a >= 0 && b >= 0 && !c.has(a, b)) { bad.insert({lin(y, x, 0, k), lin(y, x, 1, l)}); badq.insert(lin(y, x, 0, k)); badq.insert(lin(y, x, 1, l)); }
        }
    }
    auto recorded = t.bad_edges;
    if (recorded.size() != bad.size() || set<pair<size_t, size_t>>(recorded.begin(), recorded.end()) != bad) H::fail("the recorded missing couplers differ from those of the graph");
    int mode = H::R(0, 3);
    if (mode == 1) t.set_mask_bound(H::R(1, 200));
    if (mode == 2) t.set_mask_bound(1 << H::R(0, 9));
    if (mode == 1 || mode == 2) t.reset();     // the first variant was made under the default bound
    uint64_t bound = t.mask_bound;
    bool exhaustive = bad.size() <= 9 && (double)bad.size() <= std::log2((double)bound);
    vector<pair<B, B>> first;
    for (int r = 0; r < rounds; r++) {
        if (r) t.reset();
        set<pair<B, B>> distinct; vector<pair<B, B>> seq; set<set<size_t>> choices;
        do {
            B n = snap(t.child_nodemask), e = snap(t.child_edgemask);
            seq.push_back({n, e});
            set<size_t> removed;
            for (int y = 0; y < DY; y++) for (int x = 0; x < DX; x++) for (int u = 0; u < 2; u++) {
                size_t i = s.cell_index((size_y)y, (size_x)x, (bool)u);
                if (n[i] & ~bn[i]) H::fail("a variant contains a qubit that is not there");
                for (int k = 0; k < 8; k++) if ((bn[i] & ~n[i]) >> k & 1) removed.insert(lin(y, x, u, k));
                bool edge = u ? x > 0 : y > 0;
                uint8_t both = 0;
                if (edge) both = be[i] & n[i] & n[u ? s.cell_index((size_y)y, (size_x)(x - 1), true) : s.cell_index((size_y)(y - 1), (size_x)x, false)];
                if (e[i] != both) H::fail("variant " + std::to_string(seq.size()) + ": couplers along lines of cell " + std::to_string(y) + "," + std::to_string(x) + " orientation " + std::to_string(u) + " are " + std::to_string(e[i]) + ", should be " + std::to_string(both));
            }
            for (size_t q : removed) if (!badq.count(q)) H::fail("a variant removes a qubit that misses no coupler");
            for (auto &b : bad) if (!removed.count(b.first) && !removed.count(b.second)) H::fail("variant " + std::to_string(seq.size()) + " keeps both ends of a missing coupler");
            if (exhaustive) choices.insert(removed);
            if (seq.size() > 5000) H::fail("more variants than the bound allows");
        } while (t.next());
        if (bad.empty()) { if (seq.size() != 1) H::fail("a graph without missing couplers has " + std::to_string(seq.size()) + " variants"); }
        else if (exhaustive) {
            if (seq.size() != (1ul << bad.size())) H::fail("tried " + std::to_string(seq.size()) + " variants for " + std::to_string(bad.size()) + " missing couplers");
            set<set<size_t>> want;
            vector<pair<size_t, size_t>> bl(bad.begin(), bad.end());
            for (size_t m = 0; m < (1ul << bl.size()); m++) { set<size_t> x; for (size_t i = 0; i < bl.size(); i++) x.insert(m >> i & 1 ? bl[i].first : bl[i].second); want.insert(x); }
            if (choices != want) H::fail("the variants do not cover the choices of ends to give up");
        } else if (seq.size() != std::max<uint64_t>(bound, 1)) H::fail("tried " + std::to_string(seq.size()) + " variants although the bound is " + std::to_string(bound));
        if (t.next()) H::fail("the sequence of variants goes on after its end");
        if (r == 0) first = seq;
        else if (seq[0] != first[0]) H::fail("after returning to the start the masks differ from the original ones");
        else if (seq != first) H::fail("after returning to the start the sequence of variants differs");
        if (snap(t.nodemask) != bn || snap(t.edgemask) != be) H::fail("the masks of the graph itself changed");
    }
}
static void check_chains(const Case &c, const emb_t &e, size_t upto, const string &what) {
    set<size_t> used;
    for (size_t i = 0; i < upto; i++) {
        if (e[i].empty()) H::fail(what + ": empty chain in " + P(e));
        for (size_t q : e[i]) {
            if (!c.N.count(q)) H::fail(what + ": qubit " + std::to_string(q) + " is not in the graph; " + P(e));
            if (!used.insert(q).second) H::fail(what + ": qubit " + std::to_string(q) + " used twice; " + P(e));
        }
        set<size_t> seen{e[i][0]}; vector<size_t> st{e[i][0]};
        while (st.size()) { size_t x = st.back(); st.pop_back(); for (size_t y : e[i]) if (!seen.count(y) && c.has(x, y)) { seen.insert(y); st.push_back(y); } }
        if (seen.size() != e[i].size()) H::fail(what + ": chain " + H::S(e[i]) + " is not connected");
    }
}
static bool joined(const Case &c, const vector<size_t> &a, const vector<size_t> &b) {
    for (size_t x : a) for (size_t y : b) if (c.has(x, y)) return true;
    return false;
}
static void check_clique(const Case &c, const emb_t &e, size_t upto, const string &what) {
    check_chains(c, e, upto, what);
    for (size_t i = 0; i < upto; i++) for (size_t j = 0; j < i; j++) if (!joined(c, e[i], e[j])) H::fail(what + ": chains " + H::S(e[i]) + " and " + H::S(e[j]) + " are not joined");
}
template <typename spec> void cliques(const Case &c) {
    spec s = make_spec<spec>(c);
    topo_cache<spec> t(s, c.nodes, c.edges);
    if (H::R(0, 3) == 0) t.set_mask_bound(H::R(1, 12));
    emb_t e1;
    short_clique<spec>(s, c.nodes, c.edges, e1);
    check_clique(c, e1, e1.size(), "short_clique");
    if (c.nodes.size() && e1.size() == 0) H::fail("short_clique finds nothing although there are qubits");
    int top = c.f.kind == 0 ? std::min(c.f.m, c.f.n) * c.f.t + 2 : c.f.kind == 1 ? 12 * (c.f.m - 1) + 2 : 16;
    vector<emb_t> embs;
    if (H::R(0, 2) == 0) {
        best_cliques(t, embs, e1);
        for (size_t L = 0; L < embs.size(); L++) {
            for (auto &ch : embs[L]) if (ch.size() > L) H::fail("best_cliques: a chain in the list for length " + std::to_string(L) + " is longer");
            check_clique(c, embs[L], embs[L].size(), "best_cliques");
        }
    }
    for (int r = 0; r < 3; r++) {
        size_t size = H::R(0, 1) ? H::R(0, 5) : H::R(1, top);
        emb_t e;
        bool ok = H::R(0, 2) ? (size > e1.size() ? find_clique(t, size, e) : (e = e1, true)) : find_clique(s, c.nodes, c.edges, size, e);
        string what = "find_clique(" + std::to_string(size) + ")";
        if (ok) {
            if (e.size() < size) H::fail(what + " reports success with " + std::to_string(e.size()) + " chains");
            check_clique(c, e, size, what);
        } else if (e.size()) H::fail(what + " reports failure and returns " + P(e));
    }
    int maxw = std::min(c.f.DY, c.f.DX);
    if (H::R(0, 1)) {
        cell_cache<spec> *own = nullptr;
        t.reset();
        bundle_cache<spec> b(t.cells);
        size_t w = H::R(1, std::min(maxw, 6));
        clique_cache<spec> q(t.cells, b, w);
        clique_iterator<spec> it(t.cells, q);
        emb_t e; size_t size = 0; int n = 0;
        while (n < 60 && it.next(e)) {
            n++;
            if (size == 0) size = e.size();
            if (e.size() != size) H::fail("clique_iterator: " + std::to_string(e.size()) + " chains after " + std::to_string(size));
            check_clique(c, e, e.size(), "clique_iterator");
        }
        emb_t x;
        if (q.extract_solution(x)) { check_clique(c, x, x.size(), "extract_solution"); if (x.size() != size) H::fail("extract_solution gives " + std::to_string(x.size()) + " chains, the iterator " + std::to_string(size)); }
    }
}
template <typename spec> void bicliques(const Case &c) {
    spec s = make_spec<spec>(c);
    topo_cache<spec> t(s, c.nodes, c.edges);
    t.set_mask_bound(H::R(1, 8));
    vector<pair<pair<size_t, size_t>, emb_t>> out;
    best_bicliques(t, out);
    set<pair<size_t, size_t>> keys;
    for (auto &z : out) {
        size_t a = z.first.first, b = z.first.second;
        string what = "biclique " + std::to_string(a) + "x" + std::to_string(b);
        if (!keys.insert(z.first).second) H::fail(what + " listed twice");
        if (z.second.size() != a + b) H::fail(what + " has " + std::to_string(z.second.size()) + " chains");
        check_chains(c, z.second, a + b, what);
        for (size_t i = 0; i < a; i++) for (size_t j = a; j < a + b; j++) if (!joined(c, z.second[i], z.second[j])) H::fail(what + ": chains " + H::S(z.second[i]) + " and " + H::S(z.second[j]) + " are not joined");
    }
    if (H::R(0, 1)) {                 // the yield of every rectangle
        t.reset();
        bundle_cache<spec> b(t.cells);
        biclique_cache<spec> bc(t.cells, b);
        for (int y0 = 0; y0 < c.f.DY; y0++) for (int y1 = y0; y1 < c.f.DY; y1++) for (int x0 = 0; x0 < c.f.DX; x0++) for (int x1 = x0; x1 < c.f.DX; x1++) {
            auto p = bc.score(y0, y1, x0, x1);
            size_t s0 = 0, s1 = 0;
            for (int x = x0; x <= x1; x++) s0 += b.get_line_score(0, x, y0, y1);
            for (int y = y0; y <= y1; y++) s1 += b.get_line_score(1, y, x0, x1);
            if (p.first != s0 || p.second != s1) H::fail("yield of the rectangle " + std::to_string(y0) + ".." + std::to_string(y1) + "," + std::to_string(x0) + ".." + std::to_string(x1) + " is " + std::to_string(p.first) + "," + std::to_string(p.second) + " but it has " + std::to_string(s0) + "," + std::to_string(s1) + " lines");
        }
    }
}
template <typename spec> void coords(const Case &c) {
    spec s = make_spec<spec>(c);
    const Family &f = c.f;
    set<size_t> cellset;
    for (int y = 0; y < f.DY; y++) for (int x = 0; x < f.DX; x++) for (int u = 0; u < 2; u++) {
        size_t i = s.cell_index((size_y)y, (size_x)x, (bool)u);
        if (i >= s.num_cells() || !cellset.insert(i).second) H::fail("cell index");
        if (u ? s.cell_index(true, (size_w)y, (size_z)x) != i : s.cell_index(false, (size_w)x, (size_z)y) != i) H::fail("the two forms of a cell index differ");
        for (int k = 0; k < f.shore; k++) {
            size_t q = s.chimera_linear((size_y)y, (size_x)x, (bool)u, (uint8_t)k); size_y yy; size_x xx; bool uu; uint8_t kk;
            if (q != (size_t)(k + f.shore * (u + 2 * (x + f.DX * y)))) H::fail("fragment label");
            s.linear_chimera(q, yy, xx, uu, kk);
            if ((int)yy != y || (int)xx != x || uu != (bool)u || kk != k) H::fail("fragment label " + std::to_string(q) + " is not read back");
        }
    }
    // fragments of a qubit: the cells it covers
    for (size_t q = 0; q < f.total; q++) {
        auto fr = [&] { vector<size_t> one(1, q); return s.fragment_nodes(one); }();
        set<size_t> want; const Q &x = f.q[q];
        for (int z = x.z0; z <= x.z1; z++) want.insert(x.u ? s.chimera_linear((size_y)x.w, (size_x)z, true, (uint8_t)x.k) : s.chimera_linear((size_y)z, (size_x)x.w, false, (uint8_t)x.k));
        if (set<size_t>(fr.begin(), fr.end()) != want || fr.size() != want.size()) H::fail("qubit " + std::to_string(q) + " covers cells " + H::S(fr));
    }
    // segments
    cell_cache<spec> cells(s, c.nodes, c.edges);
    bundle_cache<spec> b(cells);
    size_t tot = b.orthstride + (size_t)f.DY * b.linestride[1];
    set<size_t> seg;
    const int D[2] = {f.DX, f.DY}, L[2] = {f.DY, f.DX};
    for (int u = 0; u < 2; u++) for (int w = 0; w < D[u]; w++) for (int z1 = 0; z1 < L[u]; z1++) for (int z0 = 0; z0 <= z1; z0++) {
        size_t i = &b.get_line_mask(u, w, z0, z1) - b.line_mask;
        if (i >= tot || !seg.insert(i).second) H::fail("line table entry of u=" + std::to_string(u) + " w=" + std::to_string(w) + " " + std::to_string(z0) + ".." + std::to_string(z1) + " is outside the table or shared");
    }
    if (seg.size() != tot) H::fail("the line table has entries for nothing");
}
template <typename spec> struct frags : spec { frags(const spec &s) : spec(s) {} };
template <typename spec> void labels(const Case &c, const spec &s);
template <> void labels(const Case &c, const chimera_spec &s) {}
template <> void labels(const Case &c, const pegasus_spec &s) {
    for (size_t q = 0; q < c.f.total; q++) { bool u; size_w w; uint8_t k; size_z z; s.pegasus_coordinates(q, u, w, k, z); if (s.pegasus_linear(u, w, k, z) != q || w >= (size_t)c.f.m || k >= 12 || z >= (size_t)c.f.m - 1) H::fail("qubit label " + std::to_string(q) + " is not read back"); }
}
template <> void labels(const Case &c, const zephyr_spec &s) {
    for (size_t q = 0; q < c.f.total; q++) { bool u; size_w w; uint8_t k; size_z z; s.zephyr_coordinates(q, u, w, k, z); if (s.zephyr_linear(u, w, k, z) != q || w >= (size_t)(2 * c.f.m + 1) || k >= 2 * c.f.t || z >= (size_t)c.f.m) H::fail("qubit label " + std::to_string(q) + " is not read back"); }
}
template <typename spec> void run(const string &mode, const Case &c) {
    if (mode == "masks") masks<spec>(c);
    else if (mode == "variants") variants<spec>(c, 3);
    else if (mode == "clique") cliques<spec>(c);
    else if (mode == "biclique") bicliques<spec>(c);
    else { labels(c, make_spec<spec>(c)); coords<spec>(c); }
}
int main(int argc, char **argv) {
    H::init(argc, argv);
    string mode = argv[4];
    while (H::more()) {
        int kind = H::R(0, 2);
        if (mode == "variants" || mode == "masks") kind = H::R(0, 3) % 3;
        Case c = mk(kind, mode != "clique" ? H::R(0, 3) : H::R(0, 2));
        H::start_case(mode + " " + c.text);
        try {
            if (kind == 0) run<chimera_spec>(mode, c);
            else if (kind == 1) run<pegasus_spec>(mode, c);
            else run<zephyr_spec>(mode, c);
        } catch (const char *e) { H::fail(string("throws ") + e); }
        catch (int e) { H::fail("throws " + std::to_string(e)); }
    }
    return H::done();
}
