"""contracts on include/find_embedding/embedding.hpp and the bookkeeping of pathfinder.hpp"""
from common import *
import fe, chainc

VV = 'this.var_embedding'


def registry():
    reg = fe.registry()
    # reference members: one problem object, its neighbour tables and parameters are shared by everything
    for c, f, g in [('embedding', 'ep', 'EP'), ('pathfinder_base', 'ep', 'EP'), ('embedding_problem_base', 'var_nbrs', 'VNB'), ('embedding_problem_base', 'qubit_nbrs', 'QNB')]:
        reg.alias[(c, f)] = g
    return reg


VVI = TVec(TVec(TInt(32, True)))
GLE = dict(chainc.GL, EP=TRec('embedding_problem'), VNB=VVI, QNB=VVI)


def simple():
    C = {}

    def add(c):
        C[c.sig or c.fn] = c
    add(Contract('embedding::chainsize', requires=['0<=v and v<len(this.var_embedding)', 'len(this.var_embedding[v].data) <= 2147483647'],
                 ensures=[('value', 'result == len(this.var_embedding[v].data)')]))
    # g_cnt[v][k]: how many of the chains v, v+1, .., num_vars-1 have k qubits (defined by the two requirements below)
    CNT = ['forall(k, trig(g_cnt[this.num_vars][k], g_cnt[this.num_vars][k] == 0))',
           'forall(v, k, trig(g_cnt[v][k], imp(0<=v and v<this.num_vars, g_cnt[v][k] == g_cnt[v+1][k] + b2i(len(this.var_embedding[v].data)==k))))']
    SZ = ['0<=this.num_vars and 0<=this.num_fixed and 0<=this.num_qubits and 0<=this.num_reserved', 'this.num_vars+this.num_fixed==len(this.var_embedding)', 'this.num_qubits+this.num_reserved==len(QW)',
          'this.num_vars+this.num_fixed < 1073741824 and this.num_qubits+this.num_reserved < 1073741824',
          # data invariant: a use count is the number of chains using the qubit, a chain has at most all qubits
          'forall(q, trig(QW[q], imp(0<=q and q<len(QW), 0<=QW[q] and QW[q]<=len(this.var_embedding))))',
          'forall(v, trig(len(this.var_embedding[v].data), imp(0<=v and v<len(this.var_embedding), len(this.var_embedding[v].data)<=len(QW))))']
    add(Contract('embedding::statistics', ghosts={'g_cnt': TZ3(z3.ArraySort(I, z3.ArraySort(I, I)))}, requires=SZ + CNT, modifies=['stats'],
                 loops=[Loop(inv=['0<=q and q<=len(QW)', '0<=W and W<=len(this.var_embedding)', 'len(stats)==len(this.var_embedding)',
                                  'forall(p, trig(QW[p], imp(q<=p and p<len(QW), QW[p]<=W)))', 'W==0 or exists(p, q<=p and p<len(QW) and QW[p]==W)'], decreases='q'),
                        Loop(inv=['0<=v and v<=this.num_vars', '0<=W and W<=len(QW)', 'len(stats)==len(QW)+1',
                                  'forall(k, trig(stats[k], imp(0<=k and k<len(stats), stats[k]==g_cnt[v][k])))',
                                  'forall(u, trig(len(this.var_embedding[u].data), imp(v<=u and u<this.num_vars, len(this.var_embedding[u].data)<=W)))',
                                  'imp(v==this.num_vars, W==0)', 'imp(v<this.num_vars, exists(u, v<=u and u<this.num_vars and len(this.var_embedding[u].data)==W))'], decreases='v')],
                 ensures=[('yes-or-no', 'result==0 or result==1'),
                          ('overlap-iff-some-qubit-is-used-twice', '(result==0) == exists(q, 0<=q and q<len(QW) and QW[q]>1)'),
                          ('overfill', 'imp(result==0, len(stats)>=1 and forall(q, trig(QW[q], imp(0<=q and q<len(QW), QW[q]<=len(stats)+1))) and exists(q, 0<=q and q<len(QW) and QW[q]==len(stats)+1))'),
                          ('histogram', 'imp(result==1, len(stats)>=1 and forall(k, trig(stats[k], imp(0<=k and k<len(stats), stats[k]==g_cnt[0][k]))))'),
                          ('longest', 'imp(result==1, forall(v, trig(len(this.var_embedding[v].data), imp(0<=v and v<this.num_vars, len(this.var_embedding[v].data)<=len(stats)-1))))'),
                          ('longest-attained', 'imp(result==1 and this.num_vars>0, exists(v, 0<=v and v<this.num_vars and len(this.var_embedding[v].data)==len(stats)-1))')]))
    return C


# ---------------------------------------------------------------- operations on the whole embedding
MS = z3.ArraySort(I, z3.ArraySort(I, B))
cntM = z3.Function('cntM', I, MS, I, I)      # how many of the first n membership sets contain q
_w1 = z3.Function('cntM_w1', I, MS, I, I)
_w2 = z3.Function('cntM_w2', I, MS, I, I)
_n, _q, _u, _v = z3.Ints('n q u v')
_M = z3.Const('M', MS)
_S = z3.Const('S', z3.ArraySort(I, B))
_bb = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
_ms = z3.Store(_M, _u, _S)
AXM = [
    z3.ForAll([_n, _M, _q], z3.Implies(_n >= 0, z3.And(0 <= cntM(_n, _M, _q), cntM(_n, _M, _q) <= _n)), patterns=[cntM(_n, _M, _q)]),
    z3.ForAll([_n, _M, _q, _u, _S], z3.Implies(z3.And(0 <= _u, _u < _n), cntM(_n, _ms, _q) == cntM(_n, _M, _q) + _bb(_S[_q]) - _bb(_M[_u][_q])), patterns=[cntM(_n, _ms, _q)]),
    z3.ForAll([_n, _M, _q], z3.Implies(cntM(_n, _M, _q) >= 1, z3.And(0 <= _w1(_n, _M, _q), _w1(_n, _M, _q) < _n, _M[_w1(_n, _M, _q)][_q])), patterns=[cntM(_n, _M, _q)]),
    z3.ForAll([_n, _M, _q], z3.Implies(cntM(_n, _M, _q) >= 2, z3.And(0 <= _w2(_n, _M, _q), _w2(_n, _M, _q) < _n, _w1(_n, _M, _q) != _w2(_n, _M, _q), _M[_w2(_n, _M, _q)][_q])), patterns=[cntM(_n, _M, _q)]),
    z3.ForAll([_n, _M, _q, _u, _v], z3.Implies(z3.And(0 <= _u, _u < _n, 0 <= _v, _v < _n, _u != _v, _M[_u][_q], _M[_v][_q]), cntM(_n, _M, _q) >= 2), patterns=[z3.MultiPattern(cntM(_n, _M, _q), _M[_u][_q], _M[_v][_q])]),
    z3.ForAll([_n, _M, _q, _u], z3.Implies(z3.And(0 <= _u, _u < _n, _M[_u][_q]), cntM(_n, _M, _q) >= 1), patterns=[z3.MultiPattern(cntM(_n, _M, _q), _M[_u][_q])]),
]
_card = card(z3.Const('S', z3.ArraySort(I, B)))
cardle = z3.Function('cardle', z3.ArraySort(I, B), I, B)     # a set within 0..n-1 has at most n members
_bw = z3.Function('cardle_w', z3.ArraySort(I, B), I, I)
AXM += [z3.ForAll([_S, _n], cardle(_S, _n) == (_card <= _n), patterns=[cardle(_S, _n)]),
        z3.ForAll([_S, _n], z3.Implies(z3.And(fin(_S), _n >= 0, z3.Not(cardle(_S, _n))), z3.And(_S[_bw(_S, _n)], z3.Not(z3.And(0 <= _bw(_S, _n), _bw(_S, _n) < _n)))), patterns=[cardle(_S, _n)])]
GP = {'g_P': TZ3(MS), 'g_d': TZ3(z3.ArraySort(I, z3.ArraySort(I, I)))}


def emacros(sp):
    chainc.emacros(sp)
    chainc.pmacros(sp)
    sp.funcs['cntM'] = spec_fn(cntM)
    sp.funcs['cardle'] = spec_fn(cardle)
    sp.define('E_card(E)', "forall(v, trig(len(E[v].data), imp(inr(E,v), cardle(dom(E[v].data), len(QW)))))")
    sp.define('M(E)', "arr(E,'[]','data','?')")
    # use counts are exact: C03 for the whole embedding
    sp.define('E_count(E)', "forall(q, trig(QW[q], imp(0<=q and q<len(QW), QW[q]==cntM(len(E),M(E),q))))")
    sp.define('E_edges(E)', "forall(v, q, trig(E[v].data[q].first, imp(inr(E,v) and q in E[v].data, joined(q, E[v].data[q].first))))")
    sp.define('E_linkedges(E)', "forall(v, w, trig(E[v].links[w], imp(inr(E,v) and w in E[v].links and w!=v, joined(E[v].links[w], E[w].links[v]))))")
    # a chain that knows its root has no other self-parented qubit: it is connected through its parents
    sp.define('E_rooted(E)', "forall(v, q, trig(E[v].data[q].first, imp(inr(E,v) and v in E[v].links and q in E[v].data and E[v].data[q].first==q, q==E[v].links[v])))")
    sp.define('NB(t)', "VNB")
    # only neighbours are linked; the neighbourhood of a non-fixed variable names everything linked to it
    sp.define('NB_ok(t)', "len(NB(t))==len(t.var_embedding) and forall(v, i, trig(NB(t)[v][i], imp(inr(t.var_embedding,v) and 0<=i and i<len(NB(t)[v]), 0<=NB(t)[v][i] and NB(t)[v][i]<len(t.var_embedding) and NB(t)[v][i]!=v)))"
              " and forall(v, trig(len(NB(t)[v]), imp(inr(t.var_embedding,v), len(NB(t)[v])<=2147483647)))")
    sp.define('E_nbr(t)', "forall(v, w, trig(dom(t.var_embedding[v].links)[w], imp(inr(t.var_embedding,v) and v!=w and 0<=w and w<t.num_vars and w in t.var_embedding[v].links, exists(i, 0<=i and i<len(NB(t)[w]) and NB(t)[w][i]==v))))")
    sp.define('SIZES(t)', "0<=t.num_vars and 0<=t.num_fixed and 0<=t.num_qubits and 0<=t.num_reserved and t.num_vars+t.num_fixed==len(t.var_embedding) and t.num_qubits+t.num_reserved==len(QW) and len(t.var_embedding)<1073741824 and len(QW)<1073741824 and EP.num_v==t.num_vars and EP.num_q==t.num_qubits")
    sp.define('EI(t)', "SIZES(t) and E_card(t.var_embedding) and NB_ok(t) and E_WF(t.var_embedding) and E_mutual(t.var_embedding) and E_count(t.var_embedding) and E_edges(t.var_embedding) and E_linkedges(t.var_embedding) and E_rooted(t.var_embedding) and E_nbr(t) and E_unres(t)")
    # C02: no chain of a non-fixed variable uses a reserved qubit
    sp.define('E_unres(t)', "forall(v, q, trig(dom(t.var_embedding[v].data)[q], imp(0<=v and v<t.num_vars and q in t.var_embedding[v].data, q<t.num_qubits)))")
    sp.define('FIXEDSAME(t)', "forall(v, q, trig(dom(t.var_embedding[v].data)[q], imp(t.num_vars<=v and v<len(t.var_embedding), (q in t.var_embedding[v].data)==old(q in t.var_embedding[v].data))))")
    sp.define('QN_ok(t)', "len(QNB)==len(QW) and forall(q, i, trig(QNB[q][i], imp(0<=q and q<len(QNB) and 0<=i and i<len(QNB[q]), 0<=QNB[q][i] and QNB[q][i]<len(QW) and adj(q,QNB[q][i]))))")
    sp.define('empty(c)', "forall(q, trig(dom(c.data)[q], q not in c.data)) and forall(x, trig(dom(c.links)[x], x not in c.links))")
    sp.define('LINKSOF(E)', "forall(v, w, trig(dom(E[v].links)[w], imp(inr(E,v), (w in E[v].links)==old(w in E[v].links))))")
    sp.define('FRAME(t)', "len(t.var_embedding)==old(len(t.var_embedding)) and len(QW)==old(len(QW))")


def ops():
    C = {}

    def add(c):
        C[c.sig or c.fn] = c
    U = ['0<=u and u<this.num_vars']
    M_ = ['this.var_embedding', 'QW']
    add(Contract('embedding_problem_base::var_neighbors', sig='embedding_problem_base::var_neighbors(int)', requires=['0<=u and u<len(VNB)'], returns_ref='VNB[u]', ensures=[]))
    add(Contract('embedding_problem_base::qubit_neighbors', sig='embedding_problem_base::qubit_neighbors(int)', requires=['0<=q and q<len(QNB)'], returns_ref='QNB[q]', ensures=[]))
    add(Contract('fixed_handler_hival::fixed', ensures=[('value', 'result==(u>=this.num_v)')]))
    add(Contract('fixed_handler_hival::reserved', ensures=[('value', 'result==(q>=this.num_q)')]))
    add(Contract('fixed_handler_none::fixed', ensures=[('value', 'result==False')]))
    add(Contract('embedding::has_qubit', requires=['0<=v and v<len(this.var_embedding)'], ensures=[('value', 'result == (q in this.var_embedding[v].data)')]))
    add(Contract('embedding::weight', requires=['0<=q and q<len(QW)'], ensures=[('value', 'result == QW[q]')]))
    LU = "({0} in this.var_embedding[{0}].links and forall(i, trig(NB(this)[{0}][i], imp(0<=i and i<len(NB(this)[{0}]), NB(this)[{0}][i] in this.var_embedding[{0}].links))))"
    add(Contract('embedding::linked', sig='embedding::linked(int)', requires=['SIZES(this)', 'NB_ok(this)', 'E_WF(this.var_embedding)'] + U,
                 loops=[Loop(inv=['u in this.var_embedding[u].links', 'forall(i, trig(NB(this)[u][i], imp(0<=i and i<_k, NB(this)[u][i] in this.var_embedding[u].links)))'])],
                 ensures=[('iff-linked-to-all', 'result == %s' % LU.format('u'))]))
    add(Contract('embedding::linked', sig='embedding::linked()', requires=['SIZES(this)', 'NB_ok(this)', 'E_WF(this.var_embedding)'],
                 loops=[Loop(inv=['0<=u and u<=this.num_vars', 'forall(w, trig(dom(this.var_embedding[w].links), imp(u<=w and w<this.num_vars, %s)))' % LU.format('w')], decreases='u')],
                 ensures=[('iff-all-linked', 'result == forall(w, trig(dom(this.var_embedding[w].links), imp(0<=w and w<this.num_vars, %s)))' % LU.format('w'))]))
    add(Contract('embedding::set_chain', requires=['EI(this)', 'empty(this.var_embedding[u])', 'forall(i, trig(incoming[i], imp(0<=i and i<len(incoming), 0<=incoming[i] and incoming[i]<this.num_qubits)))'] + U,
                 modifies=M_, ensures=[('invariant', 'EI(this)'), ('fixed', 'FIXEDSAME(this)'),
                                       ('members', 'forall(x, trig(dom(this.var_embedding[u].data)[x], (x in this.var_embedding[u].data) == exists(i, 0<=i and i<len(incoming) and incoming[i]==x)))'),
                                       ('others', 'forall(v, trig(this.var_embedding[v], imp(inr(this.var_embedding,v) and v!=u, same(this.var_embedding[v], old(this.var_embedding[v])))))')]))
    add(Contract('embedding::fix_chain', requires=['EI(this)', 'empty(this.var_embedding[u])', 'forall(i, trig(incoming[i], imp(0<=i and i<len(incoming), 0<=incoming[i] and incoming[i]<len(QW))))',
                                                   'this.num_vars<=u and u<len(this.var_embedding)'],
                 modifies=M_, ensures=[('invariant', 'EI(this)'),
                                       ('members', 'forall(x, trig(dom(this.var_embedding[u].data)[x], (x in this.var_embedding[u].data) == exists(i, 0<=i and i<len(incoming) and incoming[i]==x)))')]))
    OTHERS = ['FIXEDSAME(this)', 'FRAME(this)',
              'forall(v, q, trig(dom(this.var_embedding[v].data)[q], imp(inr(this.var_embedding,v) and v!=u, (q in this.var_embedding[v].data)==old(q in this.var_embedding[v].data))))',
              'forall(v, q, trig(this.var_embedding[v].data[q].first, imp(inr(this.var_embedding,v) and v!=u and q in this.var_embedding[v].data, this.var_embedding[v].data[q].first==old(this.var_embedding[v].data[q].first))))']
    LINKO = ['forall(v, w, trig(dom(this.var_embedding[v].links)[w], imp(inr(this.var_embedding,v) and v!=u and w!=u, (w in this.var_embedding[v].links)==old(w in this.var_embedding[v].links))))',
             'forall(v, w, trig(this.var_embedding[v].links[w], imp(inr(this.var_embedding,v) and v!=u and w!=u and w in this.var_embedding[v].links, this.var_embedding[v].links[w]==old(this.var_embedding[v].links[w]))))']
    add(Contract('embedding::tear_out', requires=['EI(this)'] + U, modifies=M_,
                 loops=[Loop(inv=OTHERS + LINKO + ['E_WF(this.var_embedding)', 'E_count(this.var_embedding)', 'E_edges(this.var_embedding)', 'E_rooted(this.var_embedding)', 'empty(this.var_embedding[u])', 'E_unres(this)',
                                          'forall(i, trig(NB(this)[u][i], imp(0<=i and i<_k, u not in this.var_embedding[NB(this)[u][i]].links)))',
                                          'forall(v, trig(dom(this.var_embedding[v].links)[u], imp(inr(this.var_embedding,v) and u in this.var_embedding[v].links, old(u in this.var_embedding[v].links))))'])],
                 ensures=[('invariant', 'EI(this)'), ('empty', 'empty(this.var_embedding[u])'),
                          ('unlinked', 'forall(v, trig(dom(this.var_embedding[v].links)[u], imp(inr(this.var_embedding,v), u not in this.var_embedding[v].links)))')] + [('others%d' % i, x) for i, x in enumerate(OTHERS + LINKO)]))
    VE = 'this.var_embedding'
    KEEPL = ['forall(v, w, trig(dom(this.var_embedding[v].links)[w], imp(inr(this.var_embedding,v), (w in this.var_embedding[v].links)==old(w in this.var_embedding[v].links))))']
    STEALS = ['EI(this)', 'FIXEDSAME(this)', 'FRAME(this)'] + KEEPL
    # the thief only gains qubits it may take, the victims only lose qubits
    GAIN = ['forall(q, trig(dom(this.var_embedding[u].data)[q], imp(q in this.var_embedding[u].data and not old(q in this.var_embedding[u].data), accepts(u,q))))',
            'forall(v, q, trig(dom(this.var_embedding[v].data)[q], imp(inr(this.var_embedding,v) and v!=u and q in this.var_embedding[v].data, old(q in this.var_embedding[v].data))))']
    LOSE = ['forall(q, trig(dom(this.var_embedding[u].data)[q], imp(q in this.var_embedding[u].data, old(q in this.var_embedding[u].data))))',
            'forall(v, q, trig(dom(this.var_embedding[v].data)[q], imp(inr(this.var_embedding,v) and v!=u and q in this.var_embedding[v].data and not old(q in this.var_embedding[v].data), accepts(v,q))))']
    add(Contract('embedding::steal_all', requires=['EI(this)'] + U, modifies=M_, loops=[Loop(inv=STEALS + GAIN)],
                 ensures=[('invariant', 'EI(this)'), ('fixed', 'FIXEDSAME(this)'), ('frame', 'FRAME(this)'), ('links-kept', KEEPL[0]), ('gains', GAIN[0]), ('victims', GAIN[1])]))
    add(Contract('embedding::flip_back', requires=['EI(this)'] + U, modifies=M_, loops=[Loop(inv=STEALS + LOSE)],
                 ensures=[('invariant', 'EI(this)'), ('fixed', 'FIXEDSAME(this)'), ('frame', 'FRAME(this)'), ('links-kept', KEEPL[0]), ('loses', LOSE[0]), ('receivers', LOSE[1])]))
    UNL = 'forall(v, trig(dom(this.var_embedding[v].links)[u], imp(inr(this.var_embedding,v), u not in this.var_embedding[v].links)))'
    add(Contract('embedding::freeze_out', requires=['EI(this)'] + U, modifies=M_ + ['this.frozen'], ghost_args={('chain::freeze', 'g_u'): 'u'},
                 ensures=[('invariant', 'EI(this)'), ('empty', 'empty(this.var_embedding[u])'), ('unlinked', UNL), ('kept', 'KEPT(this.frozen, this.var_embedding, u)'),
                          ('size', 'result == old(len(this.var_embedding[u].data))'),
                          ('recorded', 'forall(q, trig(dom(this.frozen.data)[q], (q in this.frozen.data)==old(q in this.var_embedding[u].data)))')] + [('others%d' % i, x) for i, x in enumerate(OTHERS + LINKO)]))
    add(Contract('embedding::linkup', requires=['EI(this)', 'QN_ok(this)', 'inr(this.var_embedding,u)', 'inr(this.var_embedding,v)', 'u!=v',
                                               'imp(u<this.num_vars, exists(i, 0<=i and i<len(NB(this)[u]) and NB(this)[u][i]==v))', 'imp(v<this.num_vars, exists(i, 0<=i and i<len(NB(this)[v]) and NB(this)[v][i]==u))'], modifies=M_,
                 loops=[Loop(inv=['EI(this)', 'FIXEDSAME(this)', 'same(this.var_embedding, old(this.var_embedding))', 'not (v in this.var_embedding[u].links)']), Loop(inv=['EI(this)', 'FIXEDSAME(this)', 'same(this.var_embedding, old(this.var_embedding))', 'not (v in this.var_embedding[u].links)']),
                        Loop(inv=['EI(this)', 'FIXEDSAME(this)', 'same(this.var_embedding, old(this.var_embedding))', 'not (v in this.var_embedding[u].links)'])],
                 ensures=[('invariant', 'EI(this)'), ('fixed', 'FIXEDSAME(this)'), ('linked', 'imp(result, v in this.var_embedding[u].links and u in this.var_embedding[v].links)')]))
    # construction of a chain: parents of neighbour v lead from every marked qubit (g_P[v]) along couplers into the chain of v
    PATHS = ['forall(v, trig(g_P[v], imp(inr(this.var_embedding,v) and v!=u and len(this.var_embedding[v].data)>0, path_info(parents[v], this.var_embedding[v], g_P[v], g_d[v]))))',
             'forall(v, x, trig(g_P[v][x], imp(inr(this.var_embedding,v) and v!=u and g_P[v][x] and x>=this.num_qubits, x in this.var_embedding[v].data)))',
             'len(parents)>=len(this.var_embedding)', '0<=q and q<this.num_qubits', 'empty(this.var_embedding[u])', UNL,
             'forall(i, trig(VNB[u][i], imp(0<=i and i<len(VNB[u]) and len(this.var_embedding[VNB[u][i]].data)>0, g_P[VNB[u][i]][q])))',
             'forall(i, j, trig((VNB[u][i],VNB[u][j]), imp(0<=i and i<j and j<len(VNB[u]), VNB[u][i]!=VNB[u][j])))',
             'forall(i, trig(VNB[u][i], imp(0<=i and i<len(VNB[u]) and VNB[u][i]<this.num_vars, exists(j, 0<=j and j<len(VNB[VNB[u][i]]) and VNB[VNB[u][i]][j]==u))))']
    LK = 'forall(i, trig(VNB[u][i], imp(0<=i and i<%s, (VNB[u][i] in this.var_embedding[u].links)==(len(this.var_embedding[VNB[u][i]].data)>0))))'
    NOTYET = 'forall(i, trig(VNB[u][i], imp(_k<=i and i<len(VNB[u]), VNB[u][i] not in this.var_embedding[u].links and u not in this.var_embedding[VNB[u][i]].links)))'
    CC = ['EI(this)', 'FIXEDSAME(this)', 'FRAME(this)', 'u in this.var_embedding[u].links and this.var_embedding[u].links[u]==q', 'q in this.var_embedding[u].data'] + OTHERS[2:] + LINKO
    NOLOOSE = 'forall(x, trig(dom(this.var_embedding[u].data)[x], imp(x in this.var_embedding[u].data, this.var_embedding[u].data[x].second>=1)))'
    ENS = [('invariant', 'EI(this)'), ('fixed', 'FIXEDSAME(this)'), ('frame', 'FRAME(this)'), ('root', 'u in this.var_embedding[u].links and this.var_embedding[u].links[u]==q'),
           ('linked-to-every-neighbour-with-a-chain', LK % 'len(VNB[u])')] + [('others%d' % i, x) for i, x in enumerate(OTHERS[2:] + LINKO)]
    H = ['imp(VNB[u][_k-1]<this.num_vars, exists(j, 0<=j and j<len(VNB[VNB[u][_k-1]]) and VNB[VNB[u][_k-1]][j]==u))', 'exists(j, 0<=j and j<len(VNB[u]) and VNB[u][j]==VNB[u][_k-1])',
         'forall(v, w, trig(dom(this.var_embedding[v].links)[w], imp(inr(this.var_embedding,v) and w in this.var_embedding[v].links and not entry(w in this.var_embedding[v].links), (v==u and w==VNB[u][_k-1]) or (w==u and v==VNB[u][_k-1]) )))']
    H = H[:2]
    add(Contract('embedding::construct_chain', requires=['EI(this)'] + U + PATHS, ghosts=GP, modifies=M_, ghost_args={('chain::link_path', 'g_P'): 'g_P[v]', ('chain::link_path', 'g_d'): 'g_d[v]'},
                 loops=[Loop(inv=CC + [LK % '_k', NOTYET, NOLOOSE], step_hints=H)], ensures=ENS))
    VIS = ['forall(v, p, trig(visited_list[v][p], imp(inr(this.var_embedding,v) and 0<=p and p<len(QW) and visited_list[v][p]==1, g_P[v][p])))',
           'len(visited_list)>=len(this.var_embedding) and len(distances)>=len(this.var_embedding)', 'forall(v, trig(len(visited_list[v]), imp(inr(this.var_embedding,v), len(visited_list[v])>=len(QW))))', 'forall(v, trig(len(distances[v]), imp(inr(this.var_embedding,v), len(distances[v])>=len(QW))))']
    add(Contract('embedding::construct_chain_steiner', requires=['EI(this)'] + U + PATHS + VIS, ghosts=GP, modifies=M_, ghost_args={('chain::link_path', 'g_P'): 'g_P[v]', ('chain::link_path', 'g_d'): 'g_d[v]'},
                 loops=[Loop(inv=CC + [LK % '_k', NOTYET, NOLOOSE], step_hints=H), Loop(inv=['qv in this.var_embedding[u].data', 'g_P[v][qv]'])], ensures=ENS))
    return C


def all_contracts():
    C = chainc.pair_contracts()
    C.update({k: v for k, v in chainc.econtracts().items() if v.fn in ('chain::freeze', 'chain::thaw')})
    C.update(simple())
    C.update(ops())
    return C


def make_ops(which='hm'):
    reg = registry()
    C = all_contracts()
    own = ops()
    ex = Exec(fe.prog2(which), reg, C, globals=GLE, iter_adapt={'chain': 'data'}, axioms=chainc.axP + chainc.axL + chainc.ADJ + AXM)
    emacros(ex.spec)
    skip = {'hm': ('fixed_handler_none::',), 'nn': ('fixed_handler_hival::',)}[which]
    return ex, [c for k, c in C.items() if k in own and not c.fn.startswith(skip)]


def make(which='hm'):
    reg = registry()
    C = chainc.contracts()
    S = simple()
    C.update(S)
    ex = Exec(fe.prog2(which), reg, C, globals=GLE, iter_adapt={'chain': 'data'}, axioms=chainc.axP + chainc.axL)
    chainc.macros(ex.spec)
    return ex, list(S.values())
