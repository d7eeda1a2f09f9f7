// bounded stand-in: random interleavings of insertions and removals on the real pairing_queue, and collectMinima
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include "harness.hpp"
#include "find_embedding/util.hpp"
#include "find_embedding/pairing_queue.hpp"
using namespace find_embedding;
using std::vector; using std::string;
using namespace H;
typedef long long D;
template <class TAG> static void run_queue(bool mx) {
    typedef priority_node<D, TAG> N;
    int n = R(0, 5) ? R(1, 12) : R(13, 60);
    pairing_queue<N> q0(n);
    pairing_queue<N> q(std::move(q0));
    string lg = string(mx ? "max" : "min") + " queue of capacity " + std::to_string(n) + "\n";
    int rounds = R(1, 3), span = R(0, 2) ? R(1, 4) : 1000000;
    D base = R(0, 2) ? 0 : (D(1) << R(20, 61));
    for (int r = 0; r < rounds; r++) {
        q.reset(); lg += "reset\n"; start_case(lg);
        if (!q.empty()) fail("a queue that was reset is not empty");
        std::map<int, std::pair<D, int>> in;  // node -> key
        int ins = 0, bias = R(1, 5);
        bool more_ = true;
        while (more_) {
            bool can = ins < n;
            bool push = can && R(0, 5) < bias;
            if (!can && in.empty()) break;
            if (!push && in.empty()) { if (can) push = true; else break; }
            if (push) {
                D d = R(0, span) + base; if (R(0, 30) == 0) d = 4611686018427387904LL;
                if (R(0, 30) == 0) d = -d;
                int dirt = R(0, 3), node = ins++;
                lg += "emplace " + std::to_string(node) + " " + std::to_string(dirt) + " " + std::to_string(d) + "\n"; start_case(lg);
                q.emplace(node, dirt, d); in[node] = {d, dirt};
            } else {
                lg += "top/pop\n"; start_case(lg);
                if (q.empty()) fail("the queue is empty although entries are left");
                N z = q.top();
                auto it = in.find(z.node);
                if (it == in.end()) fail("entry " + std::to_string(z.node) + " was returned twice or never inserted");
                if (it->second != std::make_pair(D(z.dist), z.dirt)) fail("entry " + std::to_string(z.node) + " came back with another key");
                for (auto &x : in) if (mx ? x.second > it->second : x.second < it->second) fail("entry " + std::to_string(z.node) + " was returned before the better entry " + std::to_string(x.first));
                q.pop(); in.erase(it);
            }
            if (q.empty() != in.empty()) fail(in.empty() ? "the queue still holds entries although all were returned" : "the queue lost entries");
            if (in.empty() && ins > 0 && R(0, 9) == 0) more_ = false;
        }
    }
}
template <class T> static void run_min() {
    int n = R(0, 200) ? R(1, 12) : R(1000, 80000), span = R(0, 3) ? R(0, 3) : 1000000; vector<T> v; for (int i = 0; i < n; i++) v.push_back(R(0, 1) ? R(0, span) : R(0, span) * (sizeof(T) == 8 ? 1000003LL : 1));
    if (R(0, 3) == 0) for (auto &x : v) if (R(0, 2)) x = std::numeric_limits<T>::max();
    if (R(0, 5) == 0) for (auto &x : v) x = -x;
    vector<int> out; if (R(0, 1)) out = {7, 3};
    string s = "collectMinima over " + string(sizeof(T) == 8 ? "64" : "32") + " bit values:"; if (n > 100) s += std::to_string(n) + " values"; else for (T x : v) s += " " + std::to_string((long long)x); start_case(s + "\n");
    vector<T> c = v; collectMinima(v, out);
    T m = *std::min_element(c.begin(), c.end()); vector<int> want; for (int i = 0; i < n; i++) if (c[i] == m) want.push_back(i);
    std::sort(out.begin(), out.end());
    if (out != want) fail("positions of the minimum are " + S(want) + " but " + S(out) + " was reported");
}
int main(int argc, char **argv) {
    init(argc, argv);
    while (more()) {
        int k = R(0, 5);
        if (k == 0) run_min<long long>(); else if (k == 1) run_min<int>(); else if (k == 2) run_queue<max_heap_tag>(true); else run_queue<min_heap_tag>(false);
    }
    return done();
}
