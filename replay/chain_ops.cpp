// random operation histories on find_embedding::chain, checked against an independent model
// argv[4]: acc | tree | undo
#include "harness.hpp"
#include <map>
#include <unordered_map>
#include <memory>
#define private public
#define protected public
#include "find_embedding/util.hpp"
#include "find_embedding/chain.hpp"
#undef private
#undef protected
using namespace find_embedding;
using namespace H;
using std::vector; using std::map; using std::set; using std::string; using std::pair;
static string mode;
struct EP { bool accepts_qubit(int u, int q) { return ((mask >> (u * 12 + q)) & 1) == 0; } unsigned long mask; };
struct Snap { vector<map<int, pair<int,int>>> d; vector<map<int,int>> l; vector<int> w;
  bool operator==(const Snap &o) const { return d == o.d && l == o.l && w == o.w; } };
static int NV, NQ;
static Snap snap(vector<chain> &C, vector<int> &W) { Snap s; for (auto &c : C) { s.d.emplace_back(c.data.begin(), c.data.end()); s.l.emplace_back(c.links.begin(), c.links.end()); } s.w = W; return s; }
static string show(vector<chain> &C) { std::ostringstream o; for (auto &c : C) { o << "  chain " << c.label << ": "; for (auto &x : map<int,pair<int,int>>(c.data.begin(), c.data.end())) o << x.first << "->(" << x.second.first << "," << x.second.second << ") "; o << "links "; for (auto &x : map<int,int>(c.links.begin(), c.links.end())) o << x.first << ":" << x.second << " "; o << "\n"; } return o.str(); }
static void check(vector<chain> &C, vector<int> &W, const char *op) {
  string at = string(" after ") + op;
  if (mode == "acc" || mode == "undo") for (int q = 0; q < NQ; q++) { int n = 0; for (auto &c : C) n += (int)c.count(q); if (n != W[q]) fail("qubit use count of " + std::to_string(q) + " is " + std::to_string(W[q]) + ", chains containing it: " + std::to_string(n) + at); }
  if (mode == "tree" || mode == "undo") for (auto &c : C) {
    map<int,int> refs;
    for (auto &x : c.data) { if (!c.data.count(x.second.first)) fail("parent outside the chain" + at); refs[x.second.first]++; }
    for (auto &x : c.links) { if (!c.data.count(x.second)) fail("linking qubit outside the chain" + at); refs[x.second]++; }
    for (auto &x : c.data) { if (x.second.second != refs[x.first]) fail("reference count wrong" + at);
      int z = x.first, n = 0; while (c.data.at(z).first != z) { z = c.data.at(z).first; if (++n > NQ) fail("cycle in parents" + at); } }
  }
}
int main(int argc, char **argv) {
  init(argc, argv); mode = argc > 4 ? argv[4] : "acc";
  while (more()) {
    NV = R(2, 5); NQ = R(3, 12);
    vector<int> W(NQ, 0); vector<chain> C; for (int v = 0; v < NV; v++) C.emplace_back(W, v);
    std::ostringstream log; log << "vars " << NV << " qubits " << NQ << "\n";
    string lg = log.str();
    EP ep; ep.mask = (rng() & rng() & rng());
    int steps = R(1, 60);
    for (int s = 0; s < steps; s++) {
      int v = R(0, NV - 1), u = R(0, NV - 1), q = R(0, NQ - 1); chain &c = C[v]; int op = R(0, 14);
      vector<int> mem; for (auto &x : c.data) mem.push_back(x.first); std::sort(mem.begin(), mem.end());
      int m = mem.size() ? mem[R(0, (int)mem.size() - 1)] : -1;
      auto L = [&](const string &t) { lg += t + "\n"; start_case(lg); };
      string a = " v=" + std::to_string(v) + " u=" + std::to_string(u) + " q=" + std::to_string(q) + " m=" + std::to_string(m);
      Snap s0 = snap(C, W);
      auto unlink_all = [&](int x) { for (int y = 0; y < NV; y++) if (y != x && C[x].get_link(y) != -1) { C[x].drop_link(y); C[y].drop_link(x); } };
      if (op == 0) { if (c.size() || c.links.size()) continue; L("set_root" + a); c.set_root(q); check(C, W, "set_root"); if (c.get_link(v) != q || c.size() != 1 || !c.count(q)) fail("set_root did not install the root"); }
      else if (op <= 3) { if (m < 0 || c.count(q)) continue; L("add_leaf" + a); c.add_leaf(q, m); check(C, W, "add_leaf"); if (!c.count(q) || c.parent(q) != m || c.size() != mem.size() + 1) fail("add_leaf did not add the qubit below its parent"); }
      else if (op <= 5) { if (u == v || m < 0 || !C[u].size() || c.get_link(u) != -1 || C[u].get_link(v) != -1) continue; int p = C[u].data.begin()->first; L("link" + a + " p=" + std::to_string(p)); c.set_link(u, m); C[u].set_link(v, p); check(C, W, "set_link"); if (c.get_link(u) != m || C[u].get_link(v) != p) fail("set_link lost the link"); }
      else if (op == 6) { if (u == v) continue; L("unlink" + a); int x = c.get_link(u); int y = c.drop_link(u); C[u].drop_link(v); if (x != y || c.get_link(u) != -1) fail("drop_link did not return/forget the link"); check(C, W, "drop_link"); }
      else if (op == 7) { if (m < 0) continue; int rc = c.refcount(m), pa = c.parent(m); L("trim_leaf" + a); int r = c.trim_leaf(m); check(C, W, "trim_leaf"); if (rc ? (r != m || c.size() != mem.size()) : (r != pa || c.count(m) || c.size() + 1 != mem.size())) fail("trim_leaf removed the wrong thing"); for (auto &x : s0.l[v]) if (c.get_link(x.first) != x.second) fail("trim_leaf changed a link"); }
      else if (op == 8) { if (m < 0) continue; L("trim_branch" + a); int r = c.trim_branch(m); check(C, W, "trim_branch"); if (!c.count(r)) fail("trim_branch returned a qubit not in the chain"); if (c.refcount(r) == 0) fail("trim_branch stopped at an unreferenced qubit");
        set<int> gone; int z = m; auto d = s0.d[v]; while (d[z].second == 0) { int pz = d[z].first; gone.insert(z); d.erase(z); d[pz].second--; z = pz; } if (r != z) fail("trim_branch stopped at the wrong qubit"); for (int x : mem) if ((c.count(x) == 0) != (gone.count(x) == 1)) fail("trim_branch removed a referenced qubit or kept a free one"); }
      else if (op == 9) { L("clear" + a); for (int y = 0; y < NV; y++) if (y != v) C[y].drop_link(v); c.clear(); check(C, W, "clear"); if (c.size() || c.links.size()) fail("clear left data behind"); }
      else if (op == 10) { unlink_all(v); vector<int> in; int k = R(0, 5); for (int i = 0; i < k; i++) in.push_back(R(0, NQ - 1)); L("assign " + S(in) + a); c = in; check(C, W, "assignment from a list"); for (int x = 0; x < NQ; x++) if ((c.count(x) == 1) != (std::find(in.begin(), in.end(), x) != in.end())) fail("assignment has the wrong members"); }
      else if (op == 11) { if (mode == "tree") { int p = -1, qq = -1; for (int x : mem) if (c.data.at(x).first == x && c.get_link(v) != x) qq = x; if (qq < 0) continue; for (int x : mem) { int z = x; while (c.data.at(z).first != z) z = c.data.at(z).first; if (z != qq) p = x; } if (p < 0) continue; L("adopt p=" + std::to_string(p) + " q=" + std::to_string(qq) + a); c.adopt(p, qq); check(C, W, "adopt"); if (c.parent(qq) != p) fail("adopt did not set the parent"); } }
      else if (op == 12) { L("freeze/thaw" + a); frozen_chain fz; vector<int> junk; if (R(0,1)) { fz.data.emplace(1, pair<int,int>(1, 3)); fz.links.emplace(0, 1); fz.links.emplace(-1, 1); } size_t n = c.freeze(C, fz); if (n != mem.size()) fail("freeze reported the wrong size"); check(C, W, "freeze"); if (c.size() || c.links.size()) fail("freeze left the chain non-empty"); for (int y = 0; y < NV; y++) if (y != v && C[y].get_link(v) != -1) fail("freeze left a link from another chain");
        c.thaw(C, fz); check(C, W, "thaw"); if (mode == "undo" && !(snap(C, W) == s0)) fail("freeze followed by thaw did not restore the embedding"); }
      else if (op == 13) { if (u == v || c.get_link(u) == -1 || C[u].get_link(v) == -1) continue; int k = R(0, 4); L("steal" + a + " size=" + std::to_string(k)); size_t tot = c.size(); c.steal(C[u], ep, k); check(C, W, "steal"); if (c.get_link(u) == -1 || C[u].get_link(v) == -1) fail("steal lost the link"); if (!C[u].size()) fail("steal emptied the other chain"); for (auto &x : s0.l[u]) if (x.first != v && C[u].get_link(x.first) != x.second) fail("steal changed another link of the victim"); for (int x = 0; x < NQ; x++) if (c.count(x) && !s0.d[v].count(x) && (!s0.d[u].count(x) || !ep.accepts_qubit(v, x))) fail("steal took a qubit it may not take"); }
      else if (op == 14) { if (u == v || m < 0 || !C[u].size() || c.get_link(u) != -1 || C[u].get_link(v) != -1) continue; if (c.refcount(m) == 0) continue; bool free_leaf = false; for (auto &x : c.data) if (x.second.second == 0) free_leaf = true; if (free_leaf) continue;
        vector<int> par(NQ, -7); vector<int> perm; for (int i = 0; i < NQ; i++) perm.push_back(i); std::shuffle(perm.begin(), perm.end(), rng); vector<int> tgt; for (auto &x : C[u].data) tgt.push_back(x.first); int x = m; bool self = C[u].count(m); if (self) par[m] = -1; else { for (int p : perm) { if (p == m) continue; if (C[u].count(p)) { par[x] = p; break; } par[x] = p; x = p; } }
        L("link_path" + a + " parents=" + S(par)); c.link_path(C[u], m, par); check(C, W, "link_path"); int lq = c.get_link(u), lp = C[u].get_link(v); if (lq < 0 || lp < 0 || !c.count(lq) || !C[u].count(lp)) fail("link_path did not link the chains"); if (!(lq == lp ? par[lq] == -1 : par[lq] == lp)) fail("link_path linked qubits that are not consecutive on the path"); for (auto &y : s0.l[v]) if (c.get_link(y.first) != y.second) fail("link_path changed another link"); for (auto &y : c.data) if (y.second.second == 0) fail("link_path left an unreferenced qubit"); }
    }
  }
  return done();
}
