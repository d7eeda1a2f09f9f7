"""contracts on include/busclique/biclique_cache.hpp: how many complete lines cross every rectangle, and the bicliques made of them"""
from common import *
import busc
from busc import *
from core import TOff

BDRIVER = '''
#include <vector>
#include <map>
#include <set>
#include <string>
#include <iostream>
#include <limits>
#include <cstdint>
#include <algorithm>
#include "busclique/util.hpp"
#include "busclique/cell_cache.hpp"
#include "busclique/bundle_cache.hpp"
#include "busclique/biclique_cache.hpp"
namespace busclique {
template class topo_spec_cellmask<TOPO_spec_base>;
template class cell_cache<TOPO_spec>;
template void bundle_cache<TOPO_spec>::inflate(size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template uint8_t &bundle_cache<TOPO_spec>::get_line_mask(bool, size_w, size_z, size_z) const;
template uint8_t bundle_cache<TOPO_spec>::get_line_score(bool, size_w, size_z, size_z) const;
template class biclique_cache<TOPO_spec>;
}
'''
MAF, COLB, BIX, BSZ, TOT, ALLOC = z3.Function('ma', I, I, I, I), z3.Function('colb', I, I, I), z3.Function('bix', I, I, I), z3.Function('bsz', I, I, I), z3.Function('tot', I, I, I, I, I), z3.Function('alloc', I, I, I, I, I)
MAI = [z3.Function('ma_' + n, I, I, I) for n in 'hw']


def bi_axioms():
    h, w, d, b, c, r, u, z, y, h2, w2 = z3.Ints('h w d b c r u z y h2 w2')
    m = MAF(d, h, w)
    q = CI(c, u, w, z)
    lex = z3.Or(h < h2, z3.And(h == h2, w < w2))
    return [z3.ForAll([d, h, w], z3.Implies(z3.And(1 <= h, 1 <= w, w <= d), z3.And(m == (w - 1) + d * (h - 1), m >= 0, MAI[0](d, m) == h, MAI[1](d, m) == w)), patterns=[m]),
            z3.ForAll([d, w], COLB(d, w) == d - w + 1, patterns=[COLB(d, w)]),
            z3.ForAll([b, c], BIX(b, c) == b + c, patterns=[BIX(b, c)]),
            z3.ForAll([r, c], z3.And(BSZ(r, c) == 2 * (r * c), z3.Implies(z3.And(r >= 0, c >= 0), BSZ(r, c) >= 0)), patterns=[BSZ(r, c)]),
            z3.ForAll([r, c, u, w, z], z3.Implies(z3.And(0 <= u, u <= 1, 0 <= w, 0 <= z, z3.If(u == 1, z3.And(w < r, z < c), z3.And(z < r, w < c))), z3.And(0 <= q, q < BSZ(r, c))), patterns=[z3.MultiPattern(q, BSZ(r, c))]),
            # sizes of the blocks before block (h, w), rows first
            z3.ForAll([r, d], TOT(r, d, 1, 1) == 0, patterns=[TOT(r, d, 1, 1)]),
            z3.ForAll([r, d, h, w], z3.Implies(z3.And(1 <= h, h <= r, 1 <= w, w <= d), TOT(r, d, h, w + 1) == TOT(r, d, h, w) + BSZ(r - h + 1, COLB(d, w))), patterns=[z3.MultiPattern(TOT(r, d, h, w), COLB(d, w))]),
            z3.ForAll([r, d, h, w], z3.Implies(z3.And(1 <= h, h <= r, w == d + 1), TOT(r, d, h + 1, 1) == TOT(r, d, h, w)), patterns=[TOT(r, d, h, w)]),
            z3.ForAll([r, d, h, w, h2, w2], z3.Implies(z3.And(1 <= h, h <= r, 1 <= w, w <= d, 1 <= h2, h2 <= r + 1, 1 <= w2, w2 <= d + 1, lex), TOT(r, d, h, w) + BSZ(r - h + 1, COLB(d, w)) <= TOT(r, d, h2, w2)), patterns=[z3.MultiPattern(TOT(r, d, h, w), TOT(r, d, h2, w2))]),
            # what memsize() adds up, rows first: one more than each block, also for empty shapes
            z3.ForAll([r, d], ALLOC(r, d, 0, 0) == 0, patterns=[ALLOC(r, d, 0, 0)]),
            z3.ForAll([r, d, h, w], z3.Implies(z3.And(0 <= h, h <= r, 0 <= w, w <= d), ALLOC(r, d, h, w + 1) == ALLOC(r, d, h, w) + BSZ(r - h + 1, COLB(d, w)) + 1), patterns=[z3.MultiPattern(ALLOC(r, d, h, w), COLB(d, w))]),
            z3.ForAll([r, d, h, w], z3.Implies(z3.And(0 <= h, h <= r, w == d + 1), ALLOC(r, d, h + 1, 0) == ALLOC(r, d, h, w)), patterns=[ALLOC(r, d, h, w)]),
            z3.ForAll([r, d, h, w], z3.Implies(z3.And(0 <= h, h <= r + 1, 0 <= w, w <= d + 1, r <= 4096, d <= 4096), z3.And(0 <= ALLOC(r, d, h, w), ALLOC(r, d, h, w) <= 2 ** 51)), patterns=[ALLOC(r, d, h, w)]),
            z3.ForAll([r, d, h], z3.Implies(z3.And(h == r + 1, 1 <= r, 1 <= d), d * r + TOT(r, d, h, 1) <= ALLOC(r, d, h, 0)), patterns=[z3.MultiPattern(TOT(r, d, h, 1), ALLOC(r, d, h, 0))]),
            z3.ForAll([r, d, h, w], z3.Implies(z3.And(1 <= h, h <= r + 1, 1 <= w, w <= d + 1, r <= 4096, d <= 4096), z3.And(0 <= TOT(r, d, h, w), TOT(r, d, h, w) <= 2 ** 50)), patterns=[TOT(r, d, h, w)])]


def bprog(topo):
    P = program('biq-' + topo, BDRIVER.replace('TOPO', topo), filters=('busclique::',))
    P.records['topo_spec_cellmask'].sort(key=lambda r: not any(topo in b for b in r.bases))
    return P


def biclique_contracts(topo):
    P = bprog(topo)
    C, M = mask_contracts(topo, P)
    add = lambda c, k=None: (C.__setitem__(k or c.sig or c.fn, c), M.__setitem__(k or c.sig or c.fn, c))
    T = 'CELLS.topo'
    BB = {'BUNDLES.line_mask': 'LINES(CELLS.topo)', 'BMEM': 'LENB'}
    bi = [c for c in M.values() if c.tag == 'bundle_cache::inflate(both directions)'][0]
    BOK = [e.replace('this.', 'BUNDLES.') for _, e in bi.requires][:5]
    DD = '%s.dim_y,%s.dim_x' % (T, T)
    BIG = '1<=%s.dim_y and %s.dim_y<=4096 and 1<=%s.dim_x and %s.dim_x<=4096' % (T, T, T, T)
    LAY = [BIG, 'LAYB(%s)' % DD]
    VIEW = '0<=this.mem and this.mem+bsz(this.rows,this.cols)<=LENB and 1<=this.rows and this.rows<=65535 and 1<=this.cols and this.cols<=65535'
    CIX = 'ci(this.cols,b2i(u),ite(u,y,x),ite(u,x,y))'
    add(Contract('yieldcache::index', requires=['INY(y,x,this.rows,this.cols)', VIEW], ensures=[('value', 'result==' + CIX), ('inside', '0<=result and result<bsz(this.rows,this.cols)')]))
    add(Contract('yieldcache::get', requires=['INY(y,x,this.rows,this.cols)', VIEW], buflen=BB, ensures=[('value', 'result==BMEM[bix(this.mem,%s)]' % CIX)]))
    add(Contract('yieldcache::set', requires=['INY(y,x,this.rows,this.cols)', VIEW], buflen=BB, modifies=['BMEM'], ensures=[('one-entry', 'forall(q, trig(BMEM[q], imp(q!=bix(this.mem,%s), BMEM[q]==old(BMEM)[q])))' % CIX), ('value', 'BMEM[bix(this.mem,%s)]==score' % CIX)]))
    hw = '1<=h and h<=%s.dim_y and 1<=w and w<=%s.dim_x' % (T, T)
    add(Contract('biclique_cache::memrows', requires=[BIG, '0<=h and h<=%s.dim_y' % T], ensures=[('value', 'result==%s.dim_y-h+1' % T)]))
    add(Contract('biclique_cache::memcols', requires=[BIG, '0<=w and w<=%s.dim_x' % T], ensures=[('value', 'result==colb(%s.dim_x,w)' % T)]))
    add(Contract('biclique_cache::mem_addr', requires=[BIG, hw], ensures=[('value', 'result==ma(%s.dim_x,h,w)' % T), ('inside', '0<=result and result<%s.dim_x*%s.dim_y' % (T, T))]))
    for f in [f for f in P.byname.get('biclique_cache::memsize', []) if f.body and not f.params]:
        al = 'size==alloc(%s,%%s)' % DD
        add(Contract('biclique_cache::memsize', sig=f.sig(), tag='biclique_cache::memsize(total)', requires=[BIG], loops=[Loop(inv=['0<=h and h<=%s.dim_y+1' % T, al % 'h,0'], decreases='%s.dim_y+1-h' % T),
                     Loop(inv=['0<=w and w<=%s.dim_x+1' % T, '0<=h and h<=%s.dim_y' % T, al % 'h,w'], decreases='%s.dim_x+1-w' % T)], ensures=[('value', 'result==alloc(%s,%s.dim_y+1,0)' % (DD, T))]))
    for f in [f for f in P.byname.get('biclique_cache::memsize', []) if f.body and f.params]:
        add(Contract('biclique_cache::memsize', sig=f.sig(), tag='biclique_cache::memsize(block)', requires=[BIG, '0<=h and h<=%s.dim_y and 0<=w and w<=%s.dim_x' % (T, T)], ensures=[('value', 'result==bsz(%s.dim_y-h+1,colb(%s.dim_x,w))' % (T, T))],
                     hints=['(%s.dim_y-h+1)*(%s.dim_x-w+1)<=4097*4097' % (T, T)]))
    add(Contract('biclique_cache::get', requires=LAY + [hw], buflen=BB, ensures=[('shape', 'result.rows==%s.dim_y-h+1 and result.cols==colb(%s.dim_x,w)' % (T, T)), ('offset', 'result.mem==BMEM[ma(%s.dim_x,h,w)]' % T)]))
    HD = '%s.dim_y*%s.dim_x' % (T, T)
    set_ = lambda c: 'forall(H,W, trig(BMEM[ma(%s.dim_x,H,W)], imp(1<=H and H<=%s.dim_y and 1<=W and W<=%s.dim_x and (%s), BMEM[ma(%s.dim_x,H,W)]==%s+tot(%s,H,W))))' % (T, T, T, c, T, HD, DD)
    add(Contract('biclique_cache::make_access_table', requires=[BIG, '%s+tot(%s,%s.dim_y+1,1)<=LENB' % (HD, DD, T)], buflen=BB, modifies=['BMEM'],
                 loops=[Loop(inv=['1<=h and h<=%s.dim_y+1' % T, 'offset==%s+tot(%s,h,1)' % (HD, DD), set_('H<h')], decreases='%s.dim_y+1-h' % T),
                        Loop(inv=['1<=w and w<=%s.dim_x+1' % T, '1<=h and h<=%s.dim_y' % T, 'offset==%s+tot(%s,h,w)' % (HD, DD), set_('H<h or (H==h and W<w)')], decreases='%s.dim_x+1-w' % T)],
                 ensures=[('layout', 'LAYB(%s)' % DD)], hints=['tot(%s,%s.dim_y+1,1)>=0' % (DD, T)]))
    SAME = 'forall(H,W, trig(BMEM[ma(%s.dim_x,H,W)], imp(1<=H and H<=%s.dim_y and 1<=W and W<=%s.dim_x, BMEM[ma(%s.dim_x,H,W)]==old(BMEM)[ma(%s.dim_x,H,W)])))' % ((T,) * 5)
    RNG = '1<=H and H<=%s.dim_y and 1<=W and W<=%s.dim_x and 0<=Y and Y<=%s.dim_y-H and 0<=X and X<=%s.dim_x-W' % ((T,) * 4)
    LS = "lsum(arr(BUNDLES.line_mask,'[]'),%s,%%s)" % DD
    def val(u, cond):
        e = 'BMEM[bix(BMEM[ma(%s.dim_x,H,W)],ci(colb(%s.dim_x,W),%d,%s))]' % (T, T, u, 'Y,X' if u else 'X,Y')
        return 'forall(H,W,Y,X, trig(%s, imp(%s and (%s), %s==%s)))' % (e, RNG, cond, e, LS % ('1,Y,Y+H,X,X+W-1' if u else '0,X,X+W,Y,Y+H-1'))
    b0 = [SAME, 'LAYB(%s)' % DD]
    hh, ww = '1<=h and h<=%s.dim_y' % T, '1<=w and w<=%s.dim_x' % T
    NX = 'next.mem==BMEM[ma(%s.dim_x,h,w)] and next.rows==%s.dim_y-h+1 and next.cols==colb(%s.dim_x,w)' % (T, T, T)
    PVW = 'prev.mem==BMEM[ma(%s.dim_x,h,w-1)] and prev.rows==%s.dim_y-h+1 and prev.cols==colb(%s.dim_x,w-1)' % (T, T, T)
    PVH = 'prev.mem==BMEM[ma(%s.dim_x,h-1,w)] and prev.rows==%s.dim_y-(h-1)+1 and prev.cols==colb(%s.dim_x,w)' % (T, T, T)
    yy, xx = '0<=y0 and y0<=%s.dim_y-h' % T, '0<=x0 and x0<=%s.dim_x-w' % T
    yl, xl = '0<=y0 and y0<=%s.dim_y-h+1' % T, '0<=x0 and x0<=%s.dim_x-w+1' % T
    A0 = val(0, '1==1')
    D = lambda a, b: '%s+1-%s' % (a, b)
    def cur(u, cond):
        e = 'BMEM[bix(next.mem,ci(next.cols,%d,%s))]' % (u, 'Y,X' if u else 'X,Y')
        return 'forall(Y,X, trig(%s, imp(0<=Y and Y<=%s.dim_y-h and 0<=X and X<=%s.dim_x-w and (%s), %s==%s)))' % (e, T, T, cond, e, LS % ('1,Y,Y+h,X,X+w-1' if u else '0,X,X+w,Y,Y+h-1'))
    P0, P1 = val(0, 'H<h or (H==h and W<w)'), val(1, 'W<w or (W==w and H<h)')
    R0, R1 = 'Y<y0 or (Y==y0 and X<x0)', 'X<x0 or (X==x0 and Y<y0)'
    loops = [
        Loop(inv=['1<=h and h<=%s.dim_y+1' % T, val(0, 'H<h')] + b0, decreases='%s.dim_y+1-h' % T),
        Loop(inv=[hh, 'w==1', yl, NX, P0, cur(0, 'Y<y0')] + b0, decreases='%s.dim_y-h+1-y0' % T),
        Loop(inv=[hh, 'w==1', yy, xl, NX, P0, cur(0, R0)] + b0, decreases='%s.dim_x-w+1-x0' % T, hints=[LS % '0,x0,x0,y0,y0+h-1' + '==0']),
        Loop(inv=[hh, '2<=w and w<=%s.dim_x+1' % T + ' or (w==2 and %s.dim_x==1)' % T, P0] + b0, decreases='%s.dim_x+2-w' % T),
        Loop(inv=[hh, '2<=w and w<=%s.dim_x' % T, yl, NX, PVW, P0, cur(0, 'Y<y0')] + b0, decreases='%s.dim_y-h+1-y0' % T),
        Loop(inv=[hh, '2<=w and w<=%s.dim_x' % T, yy, '1<=x0 and x0<=%s.dim_x-w+1' % T, NX, PVW, 'score==' + LS % '0,x0-1,x0-1+w,y0,y0+h-1', P0, cur(0, R0)] + b0, decreases='%s.dim_x-w+1-x0' % T, step_hints=['BMEM[bix(BMEM[ma(%s.dim_x,h,w)],ci(colb(%s.dim_x,w),0,x0-1,y0))]==score' % (T, T)]),
        Loop(inv=['1<=w and w<=%s.dim_x+1' % T, A0, val(1, 'W<w')] + b0, decreases='%s.dim_x+1-w' % T),
        Loop(inv=[ww, 'h==1', yl, NX, A0, P1, cur(1, 'Y<y0')] + b0, decreases='%s.dim_y-h+1-y0' % T),
        Loop(inv=[ww, 'h==1', yy, xl, NX, A0, P1, cur(1, R0)] + b0, decreases='%s.dim_x-w+1-x0' % T, hints=[LS % '1,y0,y0,x0,x0+w-1' + '==0']),
        Loop(inv=[ww, '2<=h and h<=%s.dim_y+1' % T + ' or (h==2 and %s.dim_y==1)' % T, A0, P1] + b0, decreases='%s.dim_y+2-h' % T),
        Loop(inv=[ww, '2<=h and h<=%s.dim_y' % T, xl, NX, PVH, A0, P1, cur(1, 'X<x0')] + b0, decreases='%s.dim_x-w+1-x0' % T),
        Loop(inv=[ww, '2<=h and h<=%s.dim_y' % T, xx, '1<=y0 and y0<=%s.dim_y-h+1' % T, NX, PVH, A0, 'score==' + LS % '1,y0-1,y0-1+h,x0,x0+w-1', P1, cur(1, R1)] + b0, decreases='%s.dim_y-h+1-y0' % T, step_hints=['BMEM[bix(BMEM[ma(%s.dim_x,h,w)],ci(colb(%s.dim_x,w),1,y0-1,x0))]==score' % (T, T)])]
    full = [('vertical-counts', A0), ('horizontal-counts', val(1, '1==1'))]
    add(Contract('biclique_cache::compute_cache', alias={'bundles': 'BUNDLES'}, requires=BOK + LAY, buflen=BB, modifies=['BMEM'], loops=loops, timeout=60, ensures=[('layout-kept', 'LAYB(%s)' % DD)] + full))
    ct = [f for f in P.byname.get('biclique_cache::biclique_cache', []) if f.body]
    for f in ct[:1]:
        add(Contract('biclique_cache::biclique_cache', sig=f.sig(), tag='biclique_cache::biclique_cache', params=['c', 'b'], alias={'c': 'CELLS', 'b': 'BUNDLES'}, buflen=BB, modifies=['this', 'BMEM'], requires=BOK + [BIG, 'LENB==alloc(%s,%s.dim_y+1,0)' % (DD, T)], ensures=[('layout', 'LAYB(%s)' % DD)] + full))
    add(Contract('biclique_cache::score', requires=LAY + [e for _, e in full] + ['0<=y0 and y0<=y1 and y1<%s.dim_y and 0<=x0 and x0<=x1 and x1<%s.dim_x' % (T, T)], buflen=BB,
                 ensures=[('vertical', 'result.first==' + LS % '0,x0,x1+1,y0,y1'), ('horizontal', 'result.second==' + LS % '1,y0,y1+1,x0,x1')]))
    return C, M


def make_bicliques(topo):
    def make():
        C, M = biclique_contracts(topo)
        reg = Registry()
        reg.alias[('bundle_cache', 'cells')] = 'CELLS'
        reg.alias[('biclique_cache', 'cells')] = 'CELLS'
        reg.alias[('biclique_cache', 'mem')] = 'BMEM'
        ex = Exec(bprog(topo), reg, C, globals={'BMEM': TArr(TInt(64, False), None), 'LENB': TInt(64, False), 'CELLS': TRec('cell_cache'), 'BUNDLES': TRec('bundle_cache')}, types={('yieldcache', 'mem'): TOff('BMEM')},
                  axioms=TRI_AX + index_axioms() + bit_axioms() + table_axioms() + line_axioms() + sum_axioms() + bi_axioms(), bits=True,
                  consts={'mask_bit': Val(TArr(U8T, 8), {('[]',): MB}), 'first_bit': Val(TArr(U8T, 256), {('[]',): FB}), 'popcount': Val(TArr(U8T, 256), {('[]',): PC})})
        macros(ex.spec)
        mask_macros(ex.spec, topo)
        sp = ex.spec
        for n, f in (('ma', MAF), ('colb', COLB), ('bix', BIX), ('bsz', BSZ), ('tot', TOT), ('alloc', ALLOC)):
            sp.funcs[n] = spec_fn(f)
        sp.define('LAYB(dy,dx)', 'forall(H,W, trig(BMEM[ma(dx,H,W)], imp(1<=H and H<=dy and 1<=W and W<=dx, ma(dx,H,W)<dy*dx and dy*dx<=BMEM[ma(dx,H,W)] and BMEM[ma(dx,H,W)]+bsz(dy-H+1,colb(dx,W))<=LENB))) and forall(H,W,G,V, trig((BMEM[ma(dx,H,W)], BMEM[ma(dx,G,V)]), imp(1<=H and H<=dy and 1<=W and W<=dx and 1<=G and G<=dy and 1<=V and V<=dx and (H<G or (H==G and W<V)), BMEM[ma(dx,H,W)]+bsz(dy-H+1,colb(dx,W))<=BMEM[ma(dx,G,V)])))')
        own = [c for c in M.values() if c.fn.startswith('biclique_cache::') or c.fn.startswith('yieldcache::')]
        return ex, own
    return make


make_chimera, make_pegasus, make_zephyr = make_bicliques('chimera'), make_bicliques('pegasus'), make_bicliques('zephyr')
