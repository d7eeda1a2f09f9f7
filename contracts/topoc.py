"""contracts on include/busclique/topo_cache.hpp: the variants of a graph with missing couplers between the orientations"""
from common import *
import busc
from busc import *
from exec_cxx import SHL1

TDRIVER = '''
#include <vector>
#include <map>
#include <set>
#include <string>
#include <iostream>
#include <limits>
#include <cstdint>
#include <algorithm>
#include "busclique/util.hpp"
#include "busclique/cell_cache.hpp"
#include "busclique/topo_cache.hpp"
namespace busclique {
template class topo_cache<TOPO_spec>;
template class topo_spec_cellmask<TOPO_spec_base>;
}
'''


def tprog(topo):
    return program('topo-' + topo, TDRIVER.replace('TOPO', topo), filters=('busclique::',))


def topo_contracts(topo):
    C, M = mask_contracts(topo, tprog(topo))
    add = lambda c, k=None: (C.__setitem__(k or c.sig or c.fn, c), M.__setitem__(k or c.sig or c.fn, c))
    T = 'this.topo'
    AI = TZ3(z3.ArraySort(I, I))
    A2 = TZ3(z3.ArraySort(I, z3.ArraySort(I, I)))
    BL = {'this.badmask': 'NQ(this.topo)', 'this.nodemask': 'NCELL(this.topo)', 'this.edgemask': 'NCELL(this.topo)', 'this.child_nodemask': 'NCELL(this.topo)', 'this.child_edgemask': 'NCELL(this.topo)'}
    CQ0 = 'cq(this.topo.shore,this.topo.dim_x,0,%s,%s,%s)'
    CQ1 = 'cq(this.topo.shore,this.topo.dim_x,1,%s,%s,%s)'
    MISS = 'bit(this.badmask[%s],b)' % (CQ0 % ('w', 'k', 'z'))
    BADK = 'forall(w,k,z,b, trig(%s, imp(RNG(this.topo,0,w,z,k) and k<this.topo.shore and 0<=b and %s, b<this.topo.shore)))' % (MISS, MISS)
    BYTES = 'forall(i, trig(this.badmask[i], 0<=this.badmask[i] and this.badmask[i]<=255))'
    L = 'len(this.bad_edges)'
    E1 = 'this.bad_edges[%s].first'
    E2 = 'this.bad_edges[%s].second'
    entry = 'forall(i, trig(this.bad_edges[i].first, imp(0<=i and i<%s, RNG(this.topo,0,g_w[i],g_z[i],g_k[i]) and g_k[i]<this.topo.shore and 0<=g_b[i] and g_b[i]<this.topo.shore and this.bad_edges[i].first==%s and this.bad_edges[i].second==%s and bit(this.badmask[this.bad_edges[i].first],g_b[i]))))' % (
        L, CQ0 % ('g_w[i]', 'g_k[i]', 'g_z[i]'), CQ1 % ('g_z[i]', 'g_b[i]', 'g_w[i]'))
    def once(c):
        a = 'g_at[%s][b]' % (CQ0 % ('w', 'k', 'z'))
        return 'forall(w,k,z,b, trig(%s, imp(RNG(this.topo,0,w,z,k) and k<this.topo.shore and 0<=b and %s and (%s), 0<=%s and %s<%s and this.bad_edges[%s].first==%s and this.bad_edges[%s].second==%s)))' % (
            MISS, MISS, c, a, a, L, a, CQ0 % ('w', 'k', 'z'), a, CQ1 % ('z', 'b', 'w'))
    order = 'forall(i,j, trig((this.bad_edges[i].first, this.bad_edges[j].first), imp(0<=i and i<j and j<%s, this.bad_edges[i].first<this.bad_edges[j].first or (this.bad_edges[i].first==this.bad_edges[j].first and this.bad_edges[i].second<this.bad_edges[j].second))))' % L
    KQ = CQ0 % ('w', 'k', 'z')
    below = 'forall(i, trig(this.bad_edges[i].first, imp(0<=i and i<%s, this.bad_edges[i].first<%%s)))' % L
    base = [entry, order]
    S = 'this.topo.shore*(2*(%s))'
    LIN = 'x+this.topo.dim_x*y'
    R0 = 'RNG(this.topo,0,w,z,k) and k<this.topo.shore'
    LP_ = '(w+this.topo.dim_x*z)'
    F = lambda c: 'forall(w,k,z, trig(%s, imp(%s, %s)))' % (KQ, R0, c)
    LIN1 = '(x-1)+this.topo.dim_x*y'
    SH = [F('imp(%s<=%s, this.topo.shore*%s<=this.topo.shore*(%s))' % (LP_, LIN1, LP_, LIN1)), F('imp(%s>=%s+1, this.topo.shore*%s>=this.topo.shore*(%s+1))' % (LP_, LIN1, LP_, LIN1)),
          F('%s==k+2*(this.topo.shore*%s)' % (KQ, LP_)), 'q==2*(this.topo.shore*(%s))+2*this.topo.shore' % LIN1,
          F('imp(%s<=%s, %s<q-this.topo.shore)' % (LP_, LIN1, KQ)), F('imp(%s>=%s+1, %s>=q)' % (LP_, LIN1, KQ)), F('imp(%s<q, %s<q-this.topo.shore)' % (KQ, KQ))]
    add(Contract('topo_cache::compute_bad_edges', requires=['OKT(this.topo)', L + '==0', BADK, BYTES], buflen=BL, modifies=['this.bad_edges', 'g_w', 'g_k', 'g_z', 'g_b', 'g_at'],
                 ghosts={'g_w': AI, 'g_k': AI, 'g_z': AI, 'g_b': AI, 'g_at': A2},
                 loops=[Loop(inv=['0<=y and y<=this.topo.dim_y', 'q==' + S % 'this.topo.dim_x*y'] + base + [below % 'q', once(KQ + '<q')], hints=['imp(y<this.topo.dim_y, this.topo.dim_x*(y+1)<=this.topo.dim_x*this.topo.dim_y)']),
                        Loop(inv=['0<=x and x<=this.topo.dim_x', 'q==' + S % LIN] + base + [below % 'q', once(KQ + '<q')],
                             step_hints=SH),
                        Loop(inv=['0<=k and k<=this.topo.shore', 'q==k+' + S % LIN] + base + [below % 'q', once('%s<q' % KQ)], hints=['imp(k<this.topo.shore, q==%s)' % (CQ0 % ('x', 'k', 'y')), 'imp(k<this.topo.shore, q<NQ(this.topo))']),
                        Loop(inv=['0<=mask and mask<=255', 'forall(b, trig(bit(mask,b), imp(0<=b and bit(mask,b), bit(this.badmask[q],b))))'] + base + [below % '(q+1)',
                                  'forall(b, i, trig((bit(mask,b), g_b[i]), imp(0<=b and bit(mask,b) and 0<=i and i<%s and this.bad_edges[i].first==q, g_b[i]<b)))' % L,
                                  once('%s<q or (%s==q and not bit(mask,b))' % (KQ, KQ))],
                             hints=['imp(mask!=0, bit(mask,fbit(mask)))', 'imp(mask!=0, bit(this.badmask[%s],fbit(mask)))' % (CQ0 % ('x', 'k', 'y')), 'imp(mask!=0, fbit(mask)<this.topo.shore)'],
                             decreases='popc(mask)',
                             ghost_start=['g_w := store(g_w, len(this.bad_edges), x)', 'g_z := store(g_z, len(this.bad_edges), y)', 'g_k := store(g_k, len(this.bad_edges), k)', 'g_b := store(g_b, len(this.bad_edges), fbit(mask))', 'g_at := store(g_at, q, store(g_at[q], fbit(mask), len(this.bad_edges)))'])],
                 ensures=[('each-entry-is-a-missing-coupler', entry), ('in-order', order), ('every-missing-coupler-listed', once('1==1'))]))
    # the next variant
    AB = TZ3(z3.ArraySort(I, B))
    N = 'len(this.bad_edges)'
    LAB = 'forall(i, trig(this.bad_edges[i].first, imp(0<=i and i<%s, 0<=this.bad_edges[i].first and this.bad_edges[i].first<NQ(this.topo) and 0<=this.bad_edges[i].second and this.bad_edges[i].second<NQ(this.topo))))' % N
    LABX = LAB.replace('LAB', '')
    COVER = 'forall(i, trig(this.bad_edges[i].first, imp(0<=i and i<%s, g_gone[this.bad_edges[i].first] or g_gone[this.bad_edges[i].second])))' % N
    NB = 'forall(u,w,z,k, trig(bit(this.child_nodemask[ci(this.topo.dim_x,u,w,z)],k), imp(RNG(this.topo,u,w,z,k) and k<this.topo.shore, bit(this.child_nodemask[ci(this.topo.dim_x,u,w,z)],k)==(bit(this.nodemask[ci(this.topo.dim_x,u,w,z)],k) and not g_gone[cq(this.topo.shore,this.topo.dim_x,u,w,k,z)]))))'
    EB = 'forall(u,w,z,k, trig(bit(this.child_edgemask[ci(this.topo.dim_x,u,w,z)],k), imp(RNG(this.topo,u,w,z,k) and k<this.topo.shore, bit(this.child_edgemask[ci(this.topo.dim_x,u,w,z)],k)==(bit(this.edgemask[ci(this.topo.dim_x,u,w,z)],k) and not g_gone[cq(this.topo.shore,this.topo.dim_x,u,w,k,z)] and not (z>=1 and g_gone[cq(this.topo.shore,this.topo.dim_x,u,w,k,z-1)])))))'
    SMALL = '%s<=this.log_mask_bound' % N
    CHOICE = 'forall(i, trig(bit(old(this.mask_num),i), this.bad_edges[i].second, imp(0<=i and i<%s, g_gone[ite(bit(old(this.mask_num),i), this.bad_edges[i].first, this.bad_edges[i].second)])))' % N
    NOSELF = 'forall(a,b, trig(dom(adj[a])[b], imp(a in adj and b in adj[a], a!=b)))'
    CH = 'ite(bit(old(this.mask_num),%s), this.bad_edges[%s].first, this.bad_edges[%s].second)'
    COVB = 'forall(i, trig(this.bad_edges[i].first, imp(0<=i and i<%s, exists(j, 0<=j and j<len(bad_nodes) and (bad_nodes[j]==this.bad_edges[i].first or bad_nodes[j]==this.bad_edges[i].second)))))' % N
    INB = 'forall(j, trig(bad_nodes[j], imp(0<=j and j<len(bad_nodes), 0<=bad_nodes[j] and bad_nodes[j]<NQ(this.topo))))'
    SAMEB = 'forall(i, trig(this.bad_edges[i].first, this.bad_edges[i].first==old(this.bad_edges)[i].first and this.bad_edges[i].second==old(this.bad_edges)[i].second))'
    GB = 'forall(j, trig(bad_nodes[j], imp(0<=j and j<%s, g_gone[bad_nodes[j]])))'
    GX = 'forall(p, trig(g_gone[p], imp(g_gone[p], exists(j, 0<=j and j<%s and bad_nodes[j]==p))))'
    BITS = 'forall(u,w,z,k, trig(bit(this.%s[ci(this.topo.dim_x,u,w,z)],k), imp(RNG(this.topo,u,w,z,k), 1==1)))'
    LOCSMALL = 'imp(%s, len(bad_nodes)==%s and forall(j, trig(bad_nodes[j], imp(0<=j and j<%s, bad_nodes[j]==%s))))' % (SMALL, N, N, CH % (('(%s-1-j)' % N,) * 3))
    EXACT = 'forall(p, trig(g_gone[p], imp(g_gone[p], exists(i, 0<=i and i<%s and p==%s))))' % (N, CH % ('i', 'i', 'i'))
    CHI = 'imp(%s, forall(i, trig(bit(old(this.mask_num),i), this.bad_edges[i].first, imp(0<=i and i<%s, bad_nodes[%s-1-i]==%s))))' % (SMALL, N, N, CH % (('i',) * 3))
    CHOICEK = 'imp(%s, %s)' % (SMALL, CHOICE.replace('0<=i and', '%s-_k<=i and' % N))
    EXACTK = 'imp(%s, %s)' % (SMALL, EXACT.replace('0<=i and', '%s-_k<=i and' % N))
    add(Contract('topo_cache::next', requires=['OKT(this.topo)', LAB, 'forall(i, trig(this.bad_edges[i].first, imp(0<=i and i<%s, this.bad_edges[i].first!=this.bad_edges[i].second)))' % N, 'this.log_mask_bound<64', '0<=this.mask_num'], buflen=BL, ghosts={'g_gone': AB},
                 modifies=['this.bad_edges', 'this.mask_num', 'this.child_nodemask', 'this.child_edgemask', 'g_gone'],
                 loops=[Loop(inv=['0<=i and i<=%s' % N, 'len(bad_nodes)==%s-i' % N, 'forall(j, trig(bad_nodes[j], imp(0<=j and j<len(bad_nodes), bad_nodes[j]==%s)))' % (CH % (('(%s-1-j)' % N,) * 3))]),
                        Loop(inv=[NOSELF]),
                        Loop(inv=[NOSELF, 'forall(i, trig(this.bad_edges[i].first, imp(0<=i and i<_k, this.bad_edges[i].first in cover or this.bad_edges[i].second in cover)))', 'forall(p, trig(dom(cover)[p], imp(p in cover, 0<=p and p<NQ(this.topo))))']),
                        Loop(inv=[NOSELF, 'x in adj']),
                        Loop(inv=[INB, 'forall(p, trig(dom(cover)[p], imp(p in cover and _done[p], exists(j, 0<=j and j<len(bad_nodes) and bad_nodes[j]==p))))']),
                        Loop(inv=[GB % '_k', GX % '_k', CHOICEK, EXACTK, NB, EB], ghost_init=['g_gone := emptyset()'], ghost_start=['g_gone := store(g_gone, bad_nodes[_k], 1==1)'], hints=[INB, LOCSMALL, CHI, COVB])],
                 ensures=[('sequence', 'result==ite(%s==0, old(this.mask_num)==0, ite(%s, old(this.mask_num)<shl1(%s), old(this.mask_num)<this.mask_bound))' % (N, SMALL, N)), ('one-step', 'this.mask_num==old(this.mask_num)+b2i(result)'),
                          ('an-end-of-every-missing-coupler', 'imp(result and %s>0, %s)' % (N, COVER)), ('nodes', 'imp(result and %s>0, %s)' % (N, NB)), ('joints', 'imp(result and %s>0, %s)' % (N, EB)),
                          ('the-chosen-ends', 'imp(result and %s>0 and %s, %s and %s and %s)' % (N, SMALL, SAMEB, CHOICE, EXACT)),
                          ('same-missing-couplers', '%s==len(old(this.bad_edges))' % N), ('labels', LAB)]))
    SORTED = 'forall(i,j, trig((this.bad_edges[i].first, this.bad_edges[j].first), imp(0<=i and i<j and j<%s, this.bad_edges[i].first<this.bad_edges[j].first or (this.bad_edges[i].first==this.bad_edges[j].first and this.bad_edges[i].second<=this.bad_edges[j].second))))' % N
    C0 = 'forall(i, trig(this.bad_edges[i].second, imp(0<=i and i<%s, not bit(0,i) and g_gone[this.bad_edges[i].second])))' % N
    X0 = 'forall(p, trig(g_gone[p], imp(g_gone[p], exists(i, 0<=i and i<%s and p==this.bad_edges[i].second))))' % N
    RST = 'imp(old(this.mask_num)>0 and %s>0 and this.mask_bound>0, %%s)' % N
    cn = C['topo_cache::next']
    add(Contract('topo_cache::reset', requires=cn.requires, buflen=BL, ghosts={'g_gone': AB}, modifies=cn.modifies, ghost_args={'g_gone': 'g_gone'},
                 hints=['forall(i, trig(bit(0,i), not bit(0,i)))'],
                 ensures=[('first-variant', 'this.mask_num==ite(old(this.mask_num)==0, 0, b2i(%s==0 or %s or this.mask_bound>0))' % (N, SMALL)), ('couplers-in-order', 'imp(old(this.mask_num)>0 and %s, %s)' % (SMALL, SORTED)),
                          ('an-end-of-every-missing-coupler', RST % COVER), ('nodes', RST % NB), ('joints', RST % EB), ('first-choice', (RST % 'imp(%s, %s and %s)') % (SMALL, C0, X0)), ('same-missing-couplers', '%s==len(old(this.bad_edges))' % N), ('labels', LAB)]))
    return C, M


def make_topo(topo):
    def make():
        C, M = topo_contracts(topo)
        reg = Registry()
        ex = Exec(tprog(topo), reg, C, axioms=TRI_AX + index_axioms() + bit_axioms() + table_axioms() + line_axioms(), bits=True,
                  consts={'mask_bit': Val(TArr(U8T, 8), {('[]',): MB}), 'first_bit': Val(TArr(U8T, 256), {('[]',): FB}), 'popcount': Val(TArr(U8T, 256), {('[]',): PC})})
        macros(ex.spec)
        ex.spec.funcs['shl1'] = lambda ctx, a: SHL1(ctx.num(a))
        mask_macros(ex.spec, topo)
        own = [c for c in M.values() if c.fn.startswith('topo_cache::')]
        return ex, own
    return make


make_chimera, make_pegasus, make_zephyr = make_topo('chimera'), make_topo('pegasus'), make_topo('zephyr')
