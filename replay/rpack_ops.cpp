// the real rpackcore.c against direct geometry
#include "harness.hpp"
#include <algorithm>
extern "C" {
#include "rpackcore.h"
extern Cell *const COL_FULL;
}
using namespace H;
using std::string;
using std::vector;
struct P { long x, y, w, h; };
static string S(const vector<P> &p) {
    std::ostringstream o;
    for (auto &r : p) o << r.w << "x" << r.h << "@" << r.x << "," << r.y << " ";
    return o.str();
}
static bool meet(const P &a, const P &b) { return a.x < b.x + b.w && b.x < a.x + a.w && a.y < b.y + b.h && b.y < a.y + a.h; }
// the lists of columns and rows partition the grid
static void lines(const char *what, CellLink *l, long len, size_t maxcells) {
    long last = 0;
    size_t n = 0;
    Cell *prev = NULL;
    std::set<size_t> idx;
    for (Cell *c = l->head; c; prev = c, c = c->next) {
        if (c->prev != prev) fail(string(what) + ": the list does not link back");
        if (start_pos(c) != last) fail(string(what) + ": a cell does not start where the one before ends");
        if (c->end_pos <= last) fail(string(what) + ": an empty cell");
        if (c->jump_index >= maxcells || !idx.insert(c->jump_index).second) fail(string(what) + ": two cells share an index, or the index is out of range");
        last = c->end_pos;
        if (++n > maxcells) fail(string(what) + ": more cells than rectangles allow");
    }
    if (last != len) fail(string(what) + ": the cells end at " + std::to_string(last) + " instead of " + std::to_string(len));
}
static bool packs(Grid *g, const vector<P> &sz, long W, long Hh, vector<P> &out, bool deep) {
    g->width = W;
    g->height = Hh;
    grid_clear(g);
    lines("columns", g->cols, W, g->size);
    lines("rows", g->rows, Hh, g->size);
    for (auto &r : sz) {
        Rectangle rc;
        memset(&rc, 0, sizeof rc);
        rc.width = r.w;
        rc.height = r.h;
        Region reg;
        grid_find_region(g, &rc, &reg);
        if (!reg.col_cell) return false;
        P n{start_pos(reg.col_cell_start), start_pos(reg.row_cell_start), r.w, r.h};
        if (n.x < 0 || n.y < 0 || n.x + n.w > W || n.y + n.h > Hh) fail("an item leaves the grid of " + std::to_string(W) + "x" + std::to_string(Hh) + ": " + S({n}));
        if (reg.col_end_pos != n.x + n.w || reg.row_end_pos != n.y + n.h) fail("the region found does not have the size of the item: " + S({n}));
        for (auto &o : out)
            if (meet(o, n)) fail("items overlap: " + S({o, n}) + "after " + S(out));
        grid_split(g, &reg);
        out.push_back(n);
        if (deep) {
            lines("columns", g->cols, W, g->size);
            lines("rows", g->rows, Hh, g->size);
            // an occupied mark lies inside an item, the first column and the first row of every item are marked
            for (Cell *c = g->cols->head; c; c = c->next)
                for (Cell *q = g->rows->head; q; q = q->next) {
                    P sq{start_pos(c), start_pos(q), c->end_pos - start_pos(c), q->end_pos - start_pos(q)};
                    const P *own = NULL;
                    for (auto &o : out)
                        if (meet(o, sq)) {
                            own = &o;
                            if (sq.x < o.x || sq.y < o.y || sq.x + sq.w > o.x + o.w || sq.y + sq.h > o.y + o.h) fail("a cell of the grid lies half inside an item: " + S({sq, o}));
                        }
                    bool mark = g->jump_matrix[q->jump_index][c->jump_index] != NULL;
                    if (mark && !own) fail("a free cell is marked occupied: " + S({sq}) + "items " + S(out));
                    if (!mark && own && (sq.x == own->x || sq.y == own->y)) fail("the first row or column of an item is not marked: " + S({sq, *own}));
                }
        }
    }
    return true;
}
int main(int argc, char **argv) {
    init(argc, argv);
    while (more()) {
        int n = R(1, R(0, 3) ? 6 : 14), mx = R(1, R(0, 2) ? 5 : 40), order = R(0, 3);
        vector<P> sz;
        for (int i = 0; i < n; i++) sz.push_back({0, 0, R(1, mx), R(1, R(0, 1) ? mx : 3)});
        if (order == 1) std::sort(sz.begin(), sz.end(), [](const P &a, const P &b) { return a.h != b.h ? a.h > b.h : a.w > b.w; });
        if (order == 2) std::sort(sz.begin(), sz.end(), [](const P &a, const P &b) { return a.w != b.w ? a.w > b.w : a.h > b.h; });
        long sw = 0, sh = 0, mw = 0, mh = 0;
        for (auto &r : sz) sw += r.w, sh += r.h, mw = std::max(mw, r.w), mh = std::max(mh, r.h);
        long W = R(0, 3) ? R(mw, sw) : R(1, sw + 2), Hh = R(0, 3) ? R(mh, sh) : R(1, sh + 2);
        long maxw = R(0, 1) ? sw : R(mw, sw), maxh = R(0, 1) ? sh : R(mh, sh);
        long maxarea = R(0, 1) ? 9223372036854775807L : R(1, (int)std::min(2000000L, 2 * sw * sh));
        std::ostringstream o;
        o << "items (width x height) in this order: ";
        for (auto &r : sz) o << r.w << "x" << r.h << " ";
        o << "\ngrid " << W << "x" << Hh << "\nsearch: width " << mw << ".." << maxw << " height " << mh << ".." << maxh << " area < " << maxarea << "\n";
        start_case(o.str(), 20);
        Grid *g = grid_alloc(n + 1, 0, 0);
        vector<P> out;
        packs(g, sz, W, Hh, out, true);
        if (R(0, 1)) { out.clear(); packs(g, sz, W + R(0, 3), Hh, out, true); }
        vector<Rectangle> rs(n);
        memset(rs.data(), 0, sizeof(Rectangle) * n);
        for (int i = 0; i < n; i++) { rs[i].width = sz[i].w; rs[i].height = sz[i].h; rs[i].index = i; }
        BBoxRestrictions b{mw, maxw, mh, maxh, maxarea};
        long st = grid_search_bbox(g, rs.data(), &b);
        if (st >= 0) {
            long w = g->width, h = g->height;
            if (w > maxw || h > maxh) fail("the search reports " + std::to_string(w) + "x" + std::to_string(h) + ", beyond its bounds");
            out.clear();
            if (!packs(g, sz, w, h, out, false)) fail("the items do not fit in the reported " + std::to_string(w) + "x" + std::to_string(h));
        } else if (maxw == sw && maxh >= mh && maxarea > sw * sh * 2)
            fail("the search finds nothing although all items fit side by side");
        grid_free(g);
    }
    return done();
}
