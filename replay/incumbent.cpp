// bounded stand-in: sequences of candidate embeddings offered to the real check_improvement; the oracle recomputes the histograms
#include <memory>
#include "harness.hpp"
#include "find_embedding/find_embedding.hpp"
using namespace find_embedding;
using std::vector; using std::string; using std::map;
typedef embedding_problem<fixed_handler_hival, domain_handler_masked, output_handler<false>> EP;
struct LI : public LocalInteraction {
    void displayOutputImpl(int, const std::string &) const override {}
    void displayErrorImpl(int, const std::string &) const override {}
    bool cancelledImpl() const override { return false; }
};
typedef vector<vector<int>> Chains;
struct St { bool valid; vector<int> h; };
static St stats(const Chains &c, int nq) {
    St s; vector<int> use(nq, 0); int W = 0;
    for (auto &x : c) for (int q : x) W = std::max(W, ++use[q]);
    s.valid = W <= 1;
    if (!s.valid) { s.h.assign(W - 1, 0); for (int u : use) if (u > 1) s.h[u - 2]++; }
    else { size_t L = 0; for (auto &x : c) L = std::max(L, x.size()); s.h.assign(L + 1, 0); for (auto &x : c) s.h[x.size()]++; }
    return s;
}
static bool lex(const vector<int> &a, const vector<int> &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    for (size_t i = a.size(); i--;) if (a[i] != b[i]) return a[i] < b[i];
    return false;
}
static bool better(const St &a, const St &b) { return a.valid != b.valid ? a.valid : lex(a.h, b.h); }
int main(int argc, char **argv) {
    H::init(argc, argv);
    while (H::more()) {
        int nv = H::R(1, 7), nf = H::R(0, 2) ? 0 : H::R(1, 2), nq = H::R(nv, 3 * nv), nr = nf;
        vector<vector<int>> vn(nv + nf), qn(nq + nr);
        for (int a = 0; a < nq + nr; a++) for (int b = 0; b < nq + nr; b++) if (a != b) qn[a].push_back(b);
        for (int a = 0; a + 1 < nv; a++) { vn[a].push_back(a + 1); vn[a + 1].push_back(a); }
        std::ostringstream o; o << "variables " << nv << " fixed " << nf << " qubits " << nq << "\n";
        vector<Chains> seq; int steps = H::R(1, 10);
        Chains base;
        for (int k = 0; k < steps; k++) {
            Chains c(nv);
            bool ov = H::R(0, 3) == 0;
            if (!base.empty() && H::R(0, 1)) {   // the same lengths, slightly changed
                vector<int> len; for (auto &x : base) len.push_back(x.size());
                int i = H::R(0, nv - 1), j = H::R(0, nv - 1); if (len[i] > 1) { len[i]--; if (H::R(0, 2)) len[j]++; }
                vector<int> qs; for (int q = 0; q < nq; q++) qs.push_back(q); std::shuffle(qs.begin(), qs.end(), H::rng); size_t p = 0;
                for (int v = 0; v < nv; v++) for (int t = 0; t < len[v]; t++) { if (p < qs.size()) c[v].push_back(qs[p++]); }
            } else if (ov) { for (auto &x : c) { std::set<int> s; int L = H::R(1, 4); for (int t = 0; t < L; t++) s.insert(H::R(0, nq - 1)); x.assign(s.begin(), s.end()); } }
            else { vector<int> qs; for (int q = 0; q < nq; q++) qs.push_back(q); std::shuffle(qs.begin(), qs.end(), H::rng); size_t p = 0; for (auto &x : c) x.push_back(qs[p++]); while (p < qs.size() && H::R(0, 5)) c[H::R(0, nv - 1)].push_back(qs[p++]); }
            base = c; seq.push_back(c);
            o << (k ? "then " : ""); for (auto &x : c) o << H::S(x) << " "; o << "\n";
        }
        H::start_case(o.str());
        optional_parameters p; p.localInteractionPtr.reset(new LI()); p.rng.seed(uint64_t(1));
        for (int f = 0; f < nf; f++) p.fixed_chains[nv + f] = {nq + f};
        pathfinder_serial<EP> pf(p, nv, nf, nq, nr, vn, qn);
        bool have = false; St cur; Chains best;
        int k = 0;
        for (auto &c : seq) {
            map<int, vector<int>> ini; for (int v = 0; v < nv; v++) ini[v] = c[v];
            embedding<EP> e(pf.ep, p.fixed_chains, ini);
            St s = stats(c, nq);
            vector<int> got; int v = e.statistics(got);
            if (v != (s.valid ? 1 : 0)) H::fail("candidate " + std::to_string(k) + ": overlap is misreported");
            if (got != s.h) H::fail("candidate " + std::to_string(k) + ": statistics are " + H::S(got) + " instead of " + H::S(s.h));
            bool r = pf.check_improvement(e), want = !have || better(s, cur);
            if (r != want) H::fail("candidate " + std::to_string(k) + (r ? " replaced a better incumbent" : " was better and was not taken"));
            if (r) { have = true; cur = s; best = c; }
            for (int v = 0; v < nv; v++) { vector<int> a; for (auto &q : pf.bestEmbedding.get_chain(v)) a.push_back(q); std::sort(a.begin(), a.end()); vector<int> b = best[v]; std::sort(b.begin(), b.end()); if (a != b) H::fail("candidate " + std::to_string(k) + ": the incumbent's chain of " + std::to_string(v) + " is " + H::S(a)); }
            k++;
        }
    }
    return H::done();
}
