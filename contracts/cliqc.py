"""contracts on include/busclique/clique_cache.hpp and small_cliques.hpp: the chains of a clique embedding"""
from common import *
import busc
from busc import *
from exec_cxx import SHL1, SHLC, BITF
from core import TOff, fresh

CDRIVER = '''
#include <vector>
#include <map>
#include <set>
#include <string>
#include <iostream>
#include <limits>
#include <cstdint>
#include <algorithm>
#include "busclique/util.hpp"
#include "busclique/cell_cache.hpp"
#include "busclique/bundle_cache.hpp"
#include "busclique/clique_cache.hpp"
#include "busclique/small_cliques.hpp"
FINDINCnamespace busclique {
template class topo_spec_cellmask<TOPO_spec_base>;
template class cell_cache<TOPO_spec>;
template void bundle_cache<TOPO_spec>::inflate(size_y, size_x, size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template void bundle_cache<TOPO_spec>::inflate(bool, size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template uint8_t &bundle_cache<TOPO_spec>::get_line_mask(bool, size_w, size_z, size_z) const;
template size_t bundle_cache<TOPO_spec>::score(size_y, size_x, size_y, size_y, size_x, size_x) const;
template clique_cache<TOPO_spec>::clique_cache(const cell_cache<TOPO_spec> &, const bundle_cache<TOPO_spec> &, size_t);
template bool clique_cache<TOPO_spec>::extract_solution(vector<vector<size_t>> &) const;
FINDINSTtemplate maxcache clique_cache<TOPO_spec>::get(size_t) const;
}
'''
FILL = z3.Function('fill', z3.ArraySort(I, I), I, I, I, z3.ArraySort(I, I))


def fill_axioms():
    a = z3.Const('fa', z3.ArraySort(I, I))
    lo, hi, v, i = z3.Ints('flo fhi fv fi')
    t = z3.Select(FILL(a, lo, hi, v), i)
    return [z3.ForAll([a, lo, hi, v, i], t == z3.If(z3.And(lo <= i, i < hi), v, a[i]), patterns=[t])]


GIX, GSZ, COLSF = z3.Function('gix', I, I, I, I, I), z3.Function('gsz', I, I, I), z3.Function('colsf', I, I, I, I)
PSZ = z3.Function('psz', I, I, I, I, I)
GXI = [z3.Function('gix_' + n, I, I, I, I) for n in 'yx']


def grid_axioms():
    """cell (y, x) of a grid with c columns stored at offset b"""
    b, y, x, r, c, n, i, e = z3.Ints('b y x r c n i e')
    g = GIX(b, y, x, c)
    OR = BITF['|']
    return [z3.ForAll([b, y, x, c], z3.Implies(z3.And(0 <= y, 0 <= x, x < c), z3.And(g == b + x + c * y, g >= b, GXI[0](b, c, g) == y, GXI[1](b, c, g) == x)), patterns=[g]),
            z3.ForAll([b, y, x, r, c], z3.Implies(z3.And(0 <= y, y < r, 0 <= x, x < c), g < b + GSZ(r, c)), patterns=[z3.MultiPattern(g, GSZ(r, c))]),
            z3.ForAll([r, c], GSZ(r, c) == r * c, patterns=[GSZ(r, c)]),
            # sizes of the levels before level i
            z3.ForAll([y, x, n], PSZ(y, x, n, 0) == 0, patterns=[PSZ(y, x, n, 0)]),
            z3.ForAll([y, x, n, i], z3.Implies(z3.And(0 <= i, i < n, n <= y, n <= x), PSZ(y, x, n, i + 1) == PSZ(y, x, n, i) + GSZ(y - i, COLSF(x, n, i))), patterns=[z3.MultiPattern(PSZ(y, x, n, i), COLSF(x, n, i))]),
            z3.ForAll([y, x, n, i, e], z3.Implies(z3.And(0 <= i, i < e, e <= n, n <= y, n <= x), PSZ(y, x, n, i) + GSZ(y - i, COLSF(x, n, i)) <= PSZ(y, x, n, e)), patterns=[z3.MultiPattern(PSZ(y, x, n, i), PSZ(y, x, n, e))]),
            z3.ForAll([y, x, n, i], z3.Implies(z3.And(0 <= i, i <= n, n <= y, n <= x, y <= 65535, x <= 65535), z3.And(0 <= PSZ(y, x, n, i), PSZ(y, x, n, i) <= 65535 * 65535 * i)), patterns=[PSZ(y, x, n, i)]),
            z3.ForAll([c, n, i], COLSF(c, n, i) == z3.If(i + 1 == n, c, c - n + i + 2), patterns=[COLSF(c, n, i)]),
            # a byte in the low bits leaves the rest alone
            z3.ForAll([e, c], z3.Implies(z3.And(e >= 0, 0 <= c, c <= 255), z3.And(OR(e, c) / 256 == e / 256, OR(e, c) >= e)), patterns=[OR(e, c)]),
            z3.ForAll([e, c], z3.Implies(z3.And(e >= 0, 0 <= c, c <= 255), OR(SHLC(e, 8), c) == SHLC(e, 8) + c), patterns=[OR(SHLC(e, 8), c)])]


def any_bool(ex, n, args, st):
    """the length filter handed to a clique_cache: any answer"""
    return fresh('check', z3.BoolSort())


def shl_facts():
    return [SHL1(k) == 1 << k for k in range(8)]


def cprog(topo, find=False):
    src = CDRIVER.replace('FINDINC', '#include "busclique/topo_cache.hpp"\n#include "busclique/find_clique.hpp"\n' if find else '').replace('FINDINST', 'template bool find_clique_short(const cell_cache<TOPO_spec> &, const size_t, vector<vector<size_t>> &, size_t &);\n' if find else '')
    P = program('clq%s-' % find + topo, src.replace('TOPO', topo), filters=('busclique::',))
    P.records['topo_spec_cellmask'].sort(key=lambda r: not any(topo in b for b in r.bases))     # of the three instances, the one at hand
    return P


def find_contracts(P, T, M, add, AI):
    # the special cases
    add(Contract('find_generic_1', requires=['len(emb)==0'], modifies=['emb'], ensures=[('found-iff-there-is-a-node', 'result==(len(nodes)>0)'), ('none', 'imp(not result, len(emb)==0)'), ('one-node', 'imp(result, len(emb)==1 and len(emb[0])==1 and emb[0][0]==nodes[0])')]))
    add(Contract('find_generic_2', requires=['len(emb)==0'], modifies=['emb'], ensures=[('found-iff-there-is-an-edge', 'result==(len(edges)>0)'), ('none', 'imp(not result, len(emb)==0)'),
                 ('one-edge', 'imp(result, len(emb)==2 and len(emb[0])==1 and len(emb[1])==1 and emb[0][0]==edges[0].first and emb[1][0]==edges[0].second)')]))
    ci = [c for c in M.values() if c.fn == 'cell_cache::inflate'][0]
    IN = ['g_v', 'g_h', 'g_l']
    sf = P.byname.get('find_clique_short', [])
    CR = [e.replace('this.', 'CELLS.') for _, e in ci.requires if 'INY' not in e]
    SUB = lambda e: re.sub(r'\by\b', 'g_y', re.sub(r'\bx\b', 'g_x', e.replace('this.', 'CELLS.').replace('len(old(emb))', '0')))
    FE = [(nm, 'imp(result, %s)' % SUB(e)) for nm, e in ci.ensures if nm in ('tracks-present', 'tracks-different', 'chain-length', 'vertical-line', 'horizontal-line')]
    add(Contract('find_clique_short', alias={'cells': 'CELLS'}, requires=CR, buflen={'CELLS.nodemask': 'NCELL(CELLS.topo)', 'CELLS.edgemask': 'NCELL(CELLS.topo)'}, modifies=['emb', 'max_length', 'g_y', 'g_x'] + IN, ghosts={'g_y': TInt(64, False), 'g_x': TInt(64, False), **{g: AI for g in IN}}, ghost_args={g: g for g in IN},
                 loops=[Loop(inv=['0<=y and y<=%s.dim_y' % T, 'same(emb, old(emb)) and max_length==old(max_length)'], decreases='%s.dim_y-y' % T), Loop(inv=['0<=x and x<=%s.dim_x' % T, '0<=y and y<%s.dim_y' % T, 'same(emb, old(emb)) and max_length==old(max_length)'], decreases='%s.dim_x-x' % T, ghost_start=['g_y := y', 'g_x := x'])],
                 ensures=[('enough', 'imp(result, len(emb)>=size)'), ('none', 'imp(not result, same(emb, old(emb)))')] + FE))


def clique_contracts(topo, find=False):
    P = cprog(topo, find)
    C, M = mask_contracts(topo, P)
    add = lambda c, k=None: (C.__setitem__(k or c.sig or c.fn, c), M.__setitem__(k or c.sig or c.fn, c))
    AI = TZ3(z3.ArraySort(I, I))
    BT = 'CELLS.topo'
    G = ['g_v', 'g_h', 'g_l', 'g_xc', 'g_yc', 'g_x0', 'g_x1', 'g_y0', 'g_y1']
    bi = [c for c in M.values() if c.tag == 'bundle_cache::inflate(ell bundle)'][0]
    BOK = [e.replace('this.', 'BUNDLES.') for _, e in bi.requires][:5]
    BB = {'BUNDLES.line_mask': 'LINES(CELLS.topo)', 'CELLS.nodemask': 'NCELL(CELLS.topo)', 'CELLS.edgemask': 'NCELL(CELLS.topo)'}
    W, Nn = 'k%2==0', 'k%4<2'
    CORN = 'CORN(%s,c,y,x,h,w)' % BT
    J = 'len(old(emb))<=j and j<len(emb)'
    kept = 'forall(j, i, trig(emb[j][i], imp(0<=j and j<len(old(emb)), emb[j][i]==old(emb)[j][i]))) and forall(j, trig(len(emb[j]), imp(0<=j and j<len(old(emb)), len(emb[j])==len(old(emb)[j]))))'
    def ell(cond):
        """chain j is the complete vertical line on track g_v[j] of column g_xc[j] from g_y0[j] to g_y1[j] followed by the complete horizontal line"""
        return [('lines-in-the-grid', 'forall(j, trig(g_xc[j], imp(%s, LRNG(%s,0,g_xc[j],g_y0[j],g_y1[j]) and LRNG(%s,1,g_yc[j],g_x0[j],g_x1[j]) and g_x0[j]<=g_xc[j] and g_xc[j]<=g_x1[j] and g_y0[j]<=g_yc[j] and g_yc[j]<=g_y1[j])))' % (cond, BT, BT)),
                ('vertical-line-complete', 'forall(j, trig(g_v[j], imp(%s, 0<=g_v[j] and g_v[j]<8 and LP(0,g_xc[j],g_v[j],g_y0[j],g_y1[j]))))' % cond),
                ('horizontal-line-complete', 'forall(j, trig(g_h[j], imp(%s, 0<=g_h[j] and g_h[j]<8 and LP(1,g_yc[j],g_h[j],g_x0[j],g_x1[j]))))' % cond),
                ('where-they-meet', 'forall(j, trig(g_l[j], imp(%s, g_l[j]==LLEN(%s,0,g_xc[j],g_v[j],g_y0[j],g_y1[j]))))' % (cond, BT)),
                ('length', 'forall(j, trig(len(emb[j]), imp(%s, len(emb[j])==g_l[j]+LLEN(%s,1,g_yc[j],g_h[j],g_x0[j],g_x1[j]))))' % (cond, BT)),
                ('vertical-qubits', 'forall(j, i, trig(emb[j][i], imp(%s and 0<=i and i<g_l[j], emb[j][i]==QL(%s,0,g_xc[j],g_v[j],QZ(%s,0,g_xc[j],g_v[j],g_y0[j])+i))))' % (cond, BT, BT)),
                ('horizontal-qubits', 'forall(j, i, trig(emb[j][i], imp(%s and g_l[j]<=i and i<len(emb[j]), emb[j][i]==QL(%s,1,g_yc[j],g_h[j],QZ(%s,1,g_yc[j],g_h[j],g_x0[j])+i-g_l[j]))))' % (cond, BT, BT))]
    SAMEOLD = ['forall(j, trig(%s[j], imp(0<=j and j<len(old(emb)), %s[j]==old(%s)[j])))' % (g, g, g) for g in G]
    DIFF = 'forall(i, j, trig((g_v[i], g_v[j]), imp(len(old(emb))<=i and i<j and j<len(emb), g_v[i]<g_v[j]))) and forall(i, j, trig((g_h[i], g_h[j]), imp(len(old(emb))<=i and i<j and j<len(emb), g_h[i]<g_h[j])))'
    KB = 'fbit(c)'
    xa, ya = 'old(x)-b2i(%s%%2==0)' % KB, 'old(y)+b2i(%s%%4<2)' % KB
    XC = '(x+ite(%s%%2==0, 0, w))' % KB
    YC = '(old(y)+ite(%s%%4<2, 0, h))' % KB
    fl = lambda g, v: 'fill(' + g + ', len(old(emb)), len(emb), ' + v + ')'
    add(Contract('clique_cache::inflate_first_ell', requires=BOK + ['1<=c and c<=255', 'CORN(%s,c,y,x,h,w)' % BT, '0<=h and 0<=w'], buflen=BB, modifies=['emb', 'y', 'x'] + G, ghosts={g: AI for g in G},
                 ghost_args={g: g for g in G}, ghost_exit=[g + ' := ' + fl(g, v) for g, v in (('g_xc', XC), ('g_yc', YC), ('g_x0', 'x'), ('g_x1', 'x+w'), ('g_y0', 'old(y)'), ('g_y1', 'old(y)+h'))],
                 ensures=[('moved', 'x==%s and y==%s' % (xa, ya)), ('first-corner', 'result==shl1(%s)' % KB), ('earlier-chains-kept', kept), ('grows', 'len(old(emb))<=len(emb)')] + [('earlier-ells-kept', e) for e in SAMEOLD] + ell(J) + [('tracks-different', DIFF),
                          ('one-ell', 'forall(j, trig(g_xc[j], imp(%s, g_xc[j]==%s and g_x0[j]==x and g_x1[j]==x+w)))' % (J, XC)), ('one-ell-rows', 'forall(j, trig(g_yc[j], imp(%s, g_yc[j]==%s and g_y0[j]==old(y) and g_y1[j]==old(y)+h)))' % (J, YC))]))
    if find:
        find_contracts(P, T := 'CELLS.topo', M, add, AI)
        return C, M
    # the table of best rectangles: level i is a ROWS(i) x COLS(i) grid of (score*256 + corners) at offset CMEM[i]
    T = 'CELLS.topo'
    QB = {'CMEM': 'LENC'}
    GEOM = ['1<=this.width and this.width<=%s.dim_y and this.width<=%s.dim_x and %s.dim_y<=65535 and %s.dim_x<=65535' % (T, T, T, T)]
    LAY = GEOM + ['LAYOUT(%s.dim_y,%s.dim_x,this.width)' % (T, T)]
    DD = '%s.dim_y,%s.dim_x,this.width' % (T, T)
    VIEW = '0<=this.mem and this.mem+gsz(this.rows,this.cols)<=LENC and 1<=this.rows and this.rows<=65535 and 1<=this.cols and this.cols<=65535'
    IDX = 'gix(this.mem,y,x,this.cols)'
    add(Contract('maxcache::index', requires=['INY(y,x,this.rows,this.cols)', VIEW], ensures=[('value', 'this.mem+result==%s' % IDX), ('inside', '0<=result and result<gsz(this.rows,this.cols)')], hints=['result==x+this.cols*y']))
    add(Contract('maxcache::score', requires=['INY(y,x,this.rows,this.cols)', VIEW], buflen=QB, ensures=[('value', 'result==CMEM[%s]//256' % IDX)]))
    add(Contract('maxcache::corners', requires=['INY(y,x,this.rows,this.cols)', VIEW], buflen=QB, ensures=[('value', 'result==low8(CMEM[%s])' % IDX), ('range', '0<=result and result<=255')]))
    E = 'CMEM[%s]' % IDX
    add(Contract('maxcache::setmax', requires=['INY(y,x,this.rows,this.cols)', VIEW, '1<=c and c<=255 and NE(c)', '0<=s and s<1000000', 'ZE(%s) and %s<1000000*256' % (E, E)], buflen=QB, modifies=['CMEM'],
                 hints=['imp(s==old(%s)//256, %s==bor(old(%s),c))' % (E, E, E), 'imp(s>old(%s)//256, %s==s*256+c)' % (E, E)],
                 ensures=[('one-entry', 'forall(q, trig(CMEM[q], imp(q!=%s, CMEM[q]==old(CMEM)[q])))' % IDX), ('corners', 'forall(k, trig(bit(%s,k), imp(0<=k and k<8 and bit(%s,k), bit(old(%s),k) or bit(c,k))))' % (E, E, E)),
                          ('non-empty', 'NE(%s)' % E), ('best-score', '%s//256==ite(s>=old(%s)//256, s, old(%s)//256)' % (E, E, E))]))
    inn = '0<=i and i<this.width'
    add(Contract('clique_cache::memrows', requires=GEOM + ['0<=i and i<=this.width'], ensures=[('value', 'result==ite(i==this.width, 1, ROWS(%s.dim_y,i))' % T)]))
    add(Contract('clique_cache::memcols', requires=GEOM + [inn], ensures=[('value', 'result==colsf(%s.dim_x,this.width,i)' % T)]))
    add(Contract('clique_cache::get', requires=LAY + [inn], buflen=QB, ensures=[('rows', 'result.rows==ROWS(%s.dim_y,i) and result.cols==colsf(%s.dim_x,this.width,i)' % (T, T)), ('offset', 'result.mem==CMEM[i]')]))
    CORNV = 'LEVEL(%s,%s)' % (DD, '%s')
    ELLS = ell('0<=j and j<len(emb)')
    PAIR = 'forall(a, b, trig((g_xc[a], g_xc[b]), imp(0<=a and a<b and b<len(emb), (g_xc[a]!=g_xc[b] or g_v[a]!=g_v[b]) and (g_yc[a]!=g_yc[b] or g_h[a]!=g_h[b]) and g_x0[b]<=g_xc[a] and g_xc[a]<=g_x1[b] and g_y0[a]<=g_yc[b] and g_yc[b]<=g_y1[a])))'
    LENS = 'forall(j, trig(g_xc[j], imp(0<=j and j<len(emb), g_x1[j]-g_x0[j]+g_y1[j]-g_y0[j]==this.width-1)))'
    REST = 'forall(j, trig(g_xc[j], imp(0<=j and j<len(emb), bx<=g_xc[j] and g_xc[j]<=bx+this.width-2-i and g_y0[j]<=by and by+i<=g_y1[j] and (g_yc[j]<by or g_yc[j]>by+i))))'
    AT = '0<=by and by<ROWS(%s.dim_y,i) and 0<=bx and bx<colsf(%s.dim_x,this.width,i) and bc==low8(CMEM[gix(CMEM[i],by,bx,colsf(%s.dim_x,this.width,i))])' % (T, T, T)
    FULL = 'forall(i, trig(CMEM[i], imp(0<=i and i<this.width, %s)))' % (CORNV % 'i')
    best = 'imp(bscore>0, 0<=by and by<scores.rows and 0<=bx and bx<scores.cols)'
    CHK = ['1<=bc and bc<=255', 'CORN(%s,bc,bx,%s)' % (T, '%s')]
    add(Contract('clique_cache::extract_solution', requires=BOK + LAY + [CORNV % 'ANYL'] * 0 + ['FULLC(%s)' % DD, 'len(emb)==0'], buflen={**BB, **QB}, modifies=['emb'] + G, ghosts={g: AI for g in G}, ghost_args={g: g for g in G},
                 loops=[Loop(inv=['0<=y', best], decreases='scores.rows-y'), Loop(inv=['0<=x', best], decreases='scores.cols-x'),
                        Loop(inv=['0<=i and i<this.width', AT, PAIR, LENS, REST] + [e for _, e in ELLS], hints=['NE(bc)', '1<=bc and bc<=255', 'CORN(%s,bc,by,bx,i,this.width-1-i)' % T])],
                 ensures=[('nothing-when-it-reports-none', 'imp(not result, len(emb)==0)')] + ELLS + [('disjoint-and-crossing', PAIR), ('length', LENS)]))
    # filling the table
    fs = [f for f in P.byname.get('clique_cache::extend_cache', []) if f.body]
    LEV = '(y1-y0)'
    N8 = ['LVAL(%s,%s)' % (DD, '%s'), 'LNE(%s,%s)' % (DD, '%s')]
    GE = 'gix(CMEM[%s],%s,%s,colsf(%s.dim_x,this.width,%s))'
    SAMEHDR = 'forall(j, trig(CMEM[j], imp(0<=j and j<this.width, CMEM[j]==old(CMEM)[j])))'
    for f in fs:
        zero = 'zerocache' in f.sig().split(',')[0]
        nc = sum(p.get('name') in ('corners', 'c') for p in f.params)
        if f.params[1].get('name') == 'next':
            if nc > 1:
                continue        # the recursion over the corners is unrolled
            PREV = [] if zero else ['1<=%s' % LEV, 'prev.mem==CMEM[%s-1] and prev.rows==ROWS(%s.dim_y,%s-1) and prev.cols==colsf(%s.dim_x,this.width,%s-1)' % (LEV, T, LEV, T, LEV), 'LVAL(%s,%s-1)' % (DD, LEV)]
            WB = 'b2i(old(c)==1 or old(c)==4)'
            add(Contract('clique_cache::extend_cache', sig=f.sig(), tag='clique_cache::extend_cache(one corner, %s)' % ('first level' if zero else 'later level'), buflen={**BB, **QB}, modifies=['CMEM'], timeout=40,
                         requires=BOK + LAY + PREV + ['0<=y0 and y0<=y1 and y1<%s.dim_y and %s<this.width' % (T, LEV), '0<=x0 and x1==x0+this.width-1-%s and x1<%s.dim_x' % (LEV, T), 'next.mem==CMEM[%s] and next.rows==ROWS(%s.dim_y,%s) and next.cols==colsf(%s.dim_x,this.width,%s)' % (LEV, T, LEV, T, LEV),
                                  'c==1 or c==2 or c==4 or c==8', 'imp(c==1 or c==4, %s+1<this.width)' % LEV, N8[0] % LEV],
                         hints=['NE(c) and 1<=c and c<=255'] * 0,
                         ensures=[('header-kept', SAMEHDR), ('one-entry', 'forall(q, trig(CMEM[q], imp(q!=%s, CMEM[q]==old(CMEM)[q])))' % (GE % (LEV, 'y0', 'x0+' + WB, T, LEV))), ('level-still-valid', N8[0] % LEV), ('entry-set', '%s>0 and NE(%s)' % (('CMEM[%s]' % (GE % (LEV, 'y0', 'x0+' + WB, T, LEV)),) * 2))]))
        else:
            cs = ['c%d' % i for i in range(nc)]
            req = {(True, 1): 'this.width==1 and h==1 and w==1 and c0==8', (True, 2): 'this.width>=2 and h==1 and w==this.width and c0==4 and c1==8',
                   (False, 4): '2<=h and h<this.width and w==this.width-h+1 and c0==2 and c1==1 and c2==4 and c3==8', (False, 2): 'this.width>=2 and h==this.width and w==1 and c0==2 and c1==8'}[(zero, nc)]
            PREV = [] if zero else ['prev.mem==CMEM[h-2] and prev.rows==ROWS(%s.dim_y,h-2) and prev.cols==colsf(%s.dim_x,this.width,h-2)' % (T, T), 'LVAL(%s,h-2)' % DD]
            FR = 'forall(q, trig(CMEM[q], imp(q<CMEM[h-1] or q>=CMEM[h-1]+gsz(ROWS(%s.dim_y,h-1),colsf(%s.dim_x,this.width,h-1)), CMEM[q]==old(CMEM)[q])))' % (T, T)
            en = 'CMEM[gix(CMEM[h-1],r,s,colsf(%s.dim_x,this.width,h-1))]' % T
            wide = '(s==x and x>0)' if (zero, nc) in ((True, 2), (False, 4)) else '1==2'
            filled = lambda c: 'forall(r,s, trig(%s, imp(0<=r and 0<=s and s<colsf(%s.dim_x,this.width,h-1) and (%s), %s>0 and NE(%s))))' % (en, T, c, en, en)
            NX = 'next.mem==CMEM[h-1] and next.rows==ROWS(%s.dim_y,h-1) and next.cols==colsf(%s.dim_x,this.width,h-1)' % (T, T)
            LV = N8[0] % 'h-1'
            PV = [] if zero else PREV
            base = [SAMEHDR, NX, LV, FR, 'LAYOUT(%s)' % DD] + PV
            add(Contract('clique_cache::extend_cache', sig=f.sig(), tag='clique_cache::extend_cache(whole level, %s corners%s)' % (nc, ', first' if zero else ''), params=['prev', 'h', 'w', 'check'] + cs, buflen={**BB, **QB}, modifies=['CMEM'], timeout=40,
                         requires=BOK + LAY + PREV + [req, LV],
                         loops=[Loop(inv=['0<=y and y<=%s.dim_y-h+1' % T, filled('r<y')] + base, decreases='%s.dim_y-h+1-y' % T),
                                Loop(inv=['0<=x and x<=%s.dim_x-w+1' % T, '0<=y and y<=%s.dim_y-h' % T, filled('r<y or (r==y and (s<x or %s))' % wide)] + base, decreases='%s.dim_x-w+1-x' % T)],
                         ensures=[('header-kept', SAMEHDR), ('other-levels-kept', FR), ('level-valid', LV), ('every-entry-set', N8[1] % 'h-1')]))
    ZEROS = 'forall(q, trig(CMEM[q], imp(%s<=q and q<LENC, CMEM[q]==0)))'
    cc = [f for f in P.byname.get('clique_cache::compute_cache', []) if f.body]
    LK = 'forall(l, trig(CMEM[l], imp(0<=l and l<%s, LVAL(%s,l) and LNE(%s,l))))'
    add(Contract('clique_cache::compute_cache', buflen={**BB, **QB}, modifies=['CMEM'], timeout=40, requires=BOK + LAY + [ZEROS % 'this.width'], ensures=[('layout-kept', 'LAYOUT(%s)' % DD), ('table-of-valid-rectangles', 'FULLC(%s)' % DD)],
                 loops=[Loop(inv=['1<=i and i<=this.width-1', 'LAYOUT(%s)' % DD, SAMEHDR, 'FULLK(%s,i)' % DD, ZEROS % 'CMEM[i]'], decreases='this.width-1-i')]))
    # the constructor: allocation, layout and filling
    PS = 'psz(%s,%s)' % (DD, '%s')
    ms = [f for f in P.byname.get('clique_cache::memsize', []) if f.body]
    for f in ms:
        if f.params:
            add(Contract('clique_cache::memsize', sig=f.sig(), tag='clique_cache::memsize(level)', requires=GEOM + [inn], ensures=[('value', 'result==gsz(ROWS(%s.dim_y,i),colsf(%s.dim_x,this.width,i))' % (T, T))]))
        else:
            add(Contract('clique_cache::memsize', sig=f.sig(), tag='clique_cache::memsize(total)', requires=GEOM, loops=[Loop(inv=['0<=i and i<=this.width', 'size==i+' + PS % 'i'], decreases='this.width-i')], ensures=[('value', 'result==this.width+' + PS % 'this.width')]))
    ct = [f for f in P.byname.get('clique_cache::clique_cache', []) if f.body and len(f.params) == 4]
    for f in ct[:1]:
        add(Contract('clique_cache::clique_cache', sig=f.sig(), tag='clique_cache::clique_cache', params=['c', 'b', 'w', 'check'], alias={'c': 'CELLS', 'b': 'BUNDLES'}, buflen={**BB, **QB}, timeout=40, modifies=['this', 'CMEM'],
                     requires=BOK + ['1<=w and w<=%s.dim_y and w<=%s.dim_x and %s.dim_y<=65535 and %s.dim_x<=65535' % (T, T, T, T), 'LENC==w+psz(%s.dim_y,%s.dim_x,w,w)' % (T, T)],
                     loops=[Loop(inv=['1<=i and i<=this.width', 'this.width==w', 'forall(j, trig(CMEM[j], imp(0<=j and j<i, CMEM[j]==this.width+%s)))' % (PS % 'j'), ZEROS % 'this.width'], hints=['CMEM[i-1]==this.width+%s' % (PS % '(i-1)'), 'gsz(ROWS(%s.dim_y,(i-1)),colsf(%s.dim_x,this.width,i-1))>=0' % (T, T), '%s==%s+gsz(ROWS(%s.dim_y,(i-1)),colsf(%s.dim_x,this.width,i-1))' % (PS % 'i', PS % '(i-1)', T, T), '%s<18446744073709000000' % (PS % 'i')], decreases='this.width-i')],
                     ensures=[('width', 'this.width==w'), ('layout', 'LAYOUT(%s)' % DD), ('table-of-valid-rectangles', 'FULLC(%s)' % DD)]))
    return C, M


def make_clique(topo, find=False):
    def make():
        C, M = clique_contracts(topo, find)
        reg = Registry()
        reg.alias[('bundle_cache', 'cells')] = 'CELLS'
        reg.alias[('clique_cache', 'cells')] = 'CELLS'
        reg.alias[('clique_cache', 'mem')] = 'CMEM'
        reg.alias[('clique_cache', 'bundles')] = 'BUNDLES'
        ex = Exec(cprog(topo, find), reg, C, globals={'CMEM': TArr(TInt(64, False), None), 'LENC': TInt(64, False), 'CELLS': TRec('cell_cache'), 'BUNDLES': TRec('bundle_cache')}, types={('maxcache', 'mem'): TOff('CMEM'), 'corner': TInt(64, False), 'busclique::corner': TInt(64, False)}, axioms=TRI_AX + index_axioms() + bit_axioms() + table_axioms() + line_axioms() + fill_axioms() + grid_axioms() + shl_facts(), bits=True, builtins={'check': any_bool},
                  consts={'mask_bit': Val(TArr(U8T, 8), {('[]',): MB}), 'first_bit': Val(TArr(U8T, 256), {('[]',): FB}), 'popcount': Val(TArr(U8T, 256), {('[]',): PC})})
        macros(ex.spec)
        mask_macros(ex.spec, topo)
        ex.spec.funcs['shl1'] = lambda ctx, a: SHL1(ctx.num(a))
        ex.spec.funcs['fill'] = spec_fn(FILL)
        ex.spec.define('CORN(t,c,y,x,h,w)', 'forall(k, trig(bit(c,k), imp(0<=k and bit(c,k), k<=7 and x>=b2i(k%2==0) and x-b2i(k%2==0)+w<t.dim_x and 0<=y and y+h<t.dim_y)))')
        sp = ex.spec
        sp.funcs['psz'] = spec_fn(PSZ)
        sp.funcs['gix'], sp.funcs['gsz'], sp.funcs['colsf'] = spec_fn(GIX), spec_fn(GSZ), spec_fn(COLSF)
        sp.funcs['low8'] = lambda ctx, a: BITF['&'](ctx.num(a), z3.IntVal(255))
        sp.funcs['bor'] = spec_fn(BITF['|'])
        sp.define('ROWS(dy,i)', 'dy-i')
        sp.define('NE(e)', 'bit(e,0) or bit(e,1) or bit(e,2) or bit(e,3) or bit(e,4) or bit(e,5) or bit(e,6) or bit(e,7)')
        sp.define('ZE(e)', 'e==0 or (e>0 and NE(e))')
        sp.define('LAYOUT(dy,dx,n)', 'CMEM[0]==n and forall(i, trig(CMEM[i], imp(0<=i and i<n, n<=CMEM[i] and CMEM[i]+gsz(ROWS(dy,i),colsf(dx,n,i))<=LENC))) and forall(i, j, trig((CMEM[i], CMEM[j]), imp(0<=i and i<j and j<n, CMEM[i]+gsz(ROWS(dy,i),colsf(dx,n,i))<=CMEM[j])))')
        sp.define('OKBIT(dy,dx,n,i,y,x,k)', 'k<=7 and x>=b2i(k%2==0) and x-b2i(k%2==0)+n-1-i<dx and y+i<dy')
        EN2 = 'CMEM[gix(CMEM[l],y,x,colsf(dx,n,l))]'
        RG = '0<=y and y<ROWS(dy,l) and 0<=x and x<colsf(dx,n,l)'
        sp.define('LVAL(dy,dx,n,l)', 'forall(y,x, trig(%s, imp(%s, ZE(%s) and %s<256*(8*l+9)))) and forall(y,x,k, trig(bit(%s,k), imp(%s and 0<=k and k<8 and bit(%s,k), OKBIT(dy,dx,n,l,y,x,k))))' % (EN2, RG, EN2, EN2, EN2, RG, EN2))
        sp.define('LNE(dy,dx,n,l)', 'forall(y,x, trig(%s, imp(%s, %s>0 and NE(%s))))' % (EN2, RG, EN2, EN2))
        ENTRY = 'CMEM[gix(CMEM[i],y,x,colsf(dx,n,i))]'
        sp.define('FULLC(dy,dx,n)', 'FULLK(dy,dx,n,n)')
        sp.define('FULLK(dy,dx,n,m)', 'forall(i,y,x, trig(%s, imp(0<=i and i<m and 0<=y and y<ROWS(dy,i) and 0<=x and x<colsf(dx,n,i), %s>0 and NE(%s) and %s<256*(8*i+9)))) and forall(i,y,x,k, trig(bit(%s,k), imp(0<=i and i<m and 0<=y and y<ROWS(dy,i) and 0<=x and x<colsf(dx,n,i) and 0<=k and k<8 and bit(%s,k), OKBIT(dy,dx,n,i,y,x,k))))' % ((ENTRY,) * 6))
        own = [c for c in M.values() if c.fn.startswith('find_')] if find else [c for c in M.values() if c.fn.startswith('clique_cache::') or c.fn.startswith('maxcache::') or c.fn.startswith('find_')]
        return ex, own
    return make


make_chimera, make_pegasus, make_zephyr = make_clique('chimera'), make_clique('pegasus'), make_clique('zephyr')
make_find = make_clique('chimera', True)
