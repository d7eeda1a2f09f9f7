// bounded stand-in: sequences of variable orders and shuffled neighbour lists on the real embedding_problem
#include <memory>
#include "harness.hpp"
#include "find_embedding/find_embedding.hpp"
using namespace find_embedding;
using std::vector; using std::string;
typedef embedding_problem<fixed_handler_hival, domain_handler_masked, output_handler<false>> EP;
struct LI : public LocalInteraction {
    void displayOutputImpl(int, const std::string &) const override {}
    void displayErrorImpl(int, const std::string &) const override {}
    bool cancelledImpl() const override { return false; }
};
int main(int argc, char **argv) {
    H::init(argc, argv);
    while (H::more()) {
        int nv = H::R(1, 10), nf = H::R(0, 3), nq = H::R(1, 6), nr = H::R(0, 2);
        vector<vector<int>> vn(nv + nf), qn(nq + nr);
        int dens = H::R(0, 25);
        bool deep = H::R(0, 49) == 0;      // a long path of free variables
        if (deep) { nv = H::R(11, 120); vn.assign(nv + nf, {}); }
        std::set<std::pair<int, int>> es;
        std::ostringstream o; o << "free variables " << nv << " fixed " << nf << " edges:";
        for (int k = 0; k < dens; k++) { int a = H::R(0, nv + nf - 1), b = H::R(0, nv + nf - 1); if (a == b || es.count({a, b})) continue; es.insert({a, b}); es.insert({b, a}); vn[a].push_back(b); vn[b].push_back(a); o << " " << a << "-" << b; }
        if (deep) for (int a = 0; a + 1 < nv; a++) { if (es.count({a, a + 1})) continue; es.insert({a, a + 1}); es.insert({a + 1, a}); vn[a].push_back(a + 1); vn[a + 1].push_back(a); o << " " << a << "-" << a + 1; }
        unsigned seed = H::R(1, 1 << 30); int steps = H::R(1, 8);
        o << " seed " << seed << " strategies:";
        vector<int> plan; for (int i = 0; i < steps; i++) { plan.push_back(H::R(0, 7)); o << " " << plan.back(); }
        H::start_case(o.str());
        optional_parameters p; p.localInteractionPtr.reset(new LI()); p.rng.seed(seed);
        EP ep(p, nv, nf, nq, nr, vn, qn);
        vector<int> last;   // nothing to keep before the first order is made
        int st = 0;
        for (int s : plan) {
            st++;
            if (s > 5) {
                for (int u = 0; u < nv + nf; u++) {
                    vector<int> before = ep.var_neighbors(u), w;
                    if (s == 6) w = ep.var_neighbors(u, shuffle_first()); else w = ep.var_neighbors(u, rndswap_first());
                    vector<int> a = w; std::sort(before.begin(), before.end()); std::sort(a.begin(), a.end());
                    if (a != before || w != ep.var_neighbors(u)) H::fail("step " + std::to_string(st) + ": shuffling changed the neighbours of variable " + std::to_string(u));
                }
                continue;
            }
            vector<int> r = ep.var_order((VARORDER)s);
            if (s == 5) { if (r != last) H::fail("step " + std::to_string(st) + ": keeping the order returned " + H::S(r) + " instead of " + H::S(last)); continue; }
            last = r;
            vector<int> a = r; std::sort(a.begin(), a.end());
            vector<int> w; for (int v = 0; v < nv; v++) w.push_back(v);
            if (a != w) H::fail("step " + std::to_string(st) + ": strategy " + std::to_string(s) + " visits " + H::S(r));
        }
    }
    return H::done();
}
