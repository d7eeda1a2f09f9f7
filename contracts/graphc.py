"""contracts on include/find_embedding/graph.hpp (neighbourhood lists, components) and on the renumbering in find_embedding.hpp"""
from common import *
from cxx import tstr

import re

GDRIVER = '''
#include <algorithm>
#include <map>
#include <random>
#include <set>
#include <vector>
#include <memory>
#include <iostream>
#include <limits>
#include <cstdint>
#include <functional>
#include <string>
#include <stdexcept>
#include "find_embedding/graph.hpp"
namespace graph {
template class unaryint<bool>;
template components::components(const input_graph &, const unaryint<std::vector<int>> &);
template std::vector<std::vector<int>> input_graph::get_neighbors_sources(const int &) const;
template std::vector<std::vector<int>> input_graph::get_neighbors_sinks(const std::vector<int> &, std::vector<int>) const;
template std::vector<std::vector<int>> input_graph::get_neighbors() const;
template bool components::into_component(const int, std::vector<int> &, std::vector<int> &) const;
template void components::from_component(const int, const std::vector<int> &, std::vector<int> &) const;
}
'''


def gprog():
    return program('graph', GDRIVER, filters=('graph::',), split=('unaryint',))


AI = TZ3(z3.ArraySort(I, I))
GOK = ['len(this.edges_aside)==len(this.edges_bside) and len(this.edges_aside)<=2147483647', '0<=this._num_nodes and this._num_nodes<=2147483647',
       'forall(i, trig(this.edges_aside[i], imp(0<=i and i<len(this.edges_aside), 0<=this.edges_aside[i] and this.edges_aside[i]<this._num_nodes)))',
       'forall(i, trig(this.edges_bside[i], imp(0<=i and i<len(this.edges_bside), 0<=this.edges_bside[i] and this.edges_bside[i]<this._num_nodes)))']
G2 = lambda o: [e.replace('this.', o + '.') for e in GOK]


def uval(kind, obj, x):
    return {'bool': 'b2i(%s.b)' % obj, 'int': 'b2i(%s.b<=%s)' % (obj, x), 'void *': x, 'voidptr': x}.get(kind, '%s.b[%s]' % (obj, x))


def graph_contracts(P):
    C, L = {}, []

    def add(c):
        C[c.sig or c.fn] = c
        L.append(c)
    for k in P.byname:
        if k.endswith('::operator()') and k.startswith('unaryint_'):
            kind = k[len('unaryint_'):-len('::operator()')]
            vec = kind.startswith('vector')
            add(Contract(k, params=['x'], requires=['0<=x and x<len(this.b)'] if vec else [], ensures=[('value', 'result==' + uval(kind, 'this', 'x'))]))
    A, Bs = 'this.edges_aside', 'this.edges_bside'
    add(Contract('input_graph::a', requires=['0<=i and i<len(%s)' % A], ensures=[('value', 'result==%s[i]' % A)]))
    add(Contract('input_graph::b', requires=['0<=i and i<len(%s)' % Bs], ensures=[('value', 'result==%s[i]' % Bs)]))
    add(Contract('input_graph::num_nodes', ensures=[('value', 'result==this._num_nodes')]))
    add(Contract('input_graph::num_edges', ensures=[('value', 'result==len(%s)' % A)]))
    add(Contract('input_graph::clear', modifies=['this'], ensures=[('empty', 'len(%s)==0 and len(%s)==0 and this._num_nodes==0' % (A, Bs))]))
    add(Contract('input_graph::push_back', modifies=['this'], requires=GOK[:2] + ['0<=ai and 0<=bi and ai<2147483647 and bi<2147483647 and len(%s)<2147483647' % A],
                 ensures=[('edge', 'len({0})==old(len({0}))+1 and len({1})==old(len({1}))+1 and {0}[old(len({0}))]==ai and {1}[old(len({1}))]==bi'.format(A, Bs)),
                          ('others', 'forall(i, trig({0}[i], imp(0<=i and i<old(len({0})), {0}[i]==old({0})[i]))) and forall(i, trig({1}[i], imp(0<=i and i<old(len({1})), {1}[i]==old({1})[i])))'.format(A, Bs)),
                          ('nodes', 'this._num_nodes>=old(this._num_nodes) and this._num_nodes>ai and this._num_nodes>bi and (this._num_nodes==old(this._num_nodes) or this._num_nodes==ai+1 or this._num_nodes==bi+1)')]))
    # a list of sets becomes a list of lists
    TVH = lambda r: [('one-list-per-node', 'len(%s)==this._num_nodes' % r), ('only-members', 'forall(p,k, trig({0}[p][k], imp(0<=p and p<len({0}) and 0<=k and k<len({0}[p]), SETIN(p,{0}[p][k]) and {0}[p][k]!=p)))'.format(r)),
                     ('every-member', 'forall(p,q, trig(SETIN(p,q), imp(0<=p and p<len({0}) and SETIN(p,q) and q!=p, exists(k, 0<=k and k<len({0}[p]) and {0}[p][k]==q))))'.format(r)),
                     ('once', 'forall(p,k,l, trig(({0}[p][k], {0}[p][l]), imp(0<=p and p<len({0}) and 0<=k and k<l and l<len({0}[p]), {0}[p][k]<{0}[p][l])))'.format(r))]
    sub = lambda es, s: [(n, re.sub(r'SETIN\((\w+),([^,()]*?)\)', r'(\2 in %s[\1])' % s, e)) for n, e in es]
    add(Contract('input_graph::_to_vectorhoods', requires=['len(_nbrs)==this._num_nodes', GOK[1]], modifies=['_nbrs'],
                 loops=[Loop(inv=['0<=i and i<=this._num_nodes', 'len(_nbrs)==this._num_nodes', 'forall(p,q, trig(q in _nbrs[p], imp(i<=p and p<this._num_nodes, (q in _nbrs[p])==(q in old(_nbrs)[p]))))', 'len(nbrs)==i'] + [e for _, e in sub(TVH('nbrs'), 'old(_nbrs)')[1:]], decreases='this._num_nodes-i')],
                 ensures=sub(TVH('result'), 'old(_nbrs)')))
    a, b = A + '[%s]', Bs + '[%s]'

    def lists_of(U, rvec, vecs):
        """what the neighbourhood lists hold when the four maps are U(0..3, x)"""
        nz = lambda i, x: '%s!=0' % U(i, x)
        z = lambda i, x: '%s==0' % U(i, x)
        out = lambda e: '(%s and %s and %s)' % (nz(3, a % e), z(0, b % e), z(1, a % e))      # the first end lists the second
        inn = lambda e: '(%s and %s and %s)' % (nz(3, a % e), z(0, a % e), z(1, b % e))
        lists = lambda e, p, q: '(({o} and {ra}=={p} and {rb}=={q}) or ({n} and {rb}=={p} and {ra}=={q}))'.format(o=out(e), n=inn(e), ra=U(2, a % e), rb=U(2, b % e), p=p, q=q)
        req = GOK + ['len(%s)==this._num_nodes' % v for v in vecs] + ['forall(x, trig({0}[x], imp(0<=x and x<this._num_nodes, 0<={0}[x] and {0}[x]<this._num_nodes)))'.format(v) for v in rvec]
        ONLY = 'forall(p,q, trig(q in _nbrs[p], imp(0<=p and p<this._num_nodes and q in _nbrs[p], 0<=q and q<this._num_nodes and exists(e, i<=e and e<len({A}) and {l}))))'
        EV = 'forall(e, trig({A}[e], imp(i<=e and e<len({A}), imp({o}, {rb} in _nbrs[{ra}]) and imp({n}, {ra} in _nbrs[{rb}]))))'
        fm = lambda t: t.format(A=A, l=lists('e', 'p', 'q'), o=out('e'), n=inn('e'), ra=U(2, a % 'e'), rb=U(2, b % 'e'))
        ens = [('one-list-per-node', 'len(result)==this._num_nodes'),
               ('only-edges', 'forall(p,k, trig(result[p][k], imp(0<=p and p<len(result) and 0<=k and k<len(result[p]), result[p][k]!=p and 0<=result[p][k] and result[p][k]<this._num_nodes and exists(e, 0<=e and e<len(%s) and %s))))' % (A, lists('e', 'p', 'result[p][k]'))),
               ('every-edge', 'forall(e, trig({A}[e], imp(0<=e and e<len({A}) and {ra}!={rb}, imp({o}, exists(k, 0<=k and k<len(result[{ra}]) and result[{ra}][k]=={rb})) and imp({n}, exists(k, 0<=k and k<len(result[{rb}]) and result[{rb}][k]=={ra})))))'.format(A=A, o=out('e'), n=inn('e'), ra=U(2, a % 'e'), rb=U(2, b % 'e'))),
               ('once', 'forall(p,k,l, trig((result[p][k], result[p][l]), imp(0<=p and p<len(result) and 0<=k and k<l and l<len(result[p]), result[p][k]<result[p][l])))')]
        return req, ['0<=i and i<=len(%s)' % A, 'len(_nbrs)==this._num_nodes', fm(ONLY), fm(EV)], ens

    for f in [f for f in P.byname.get('input_graph::__get_neighbors', []) if f.body]:
        NM = [p.get('name') for p in f.params]
        ks = [{'vector<int>': 'vector_int'}.get(k, k) for k in [t.strip().replace('std::', '') for t in f.targs.split(',')]]
        req, inv, ens = lists_of(lambda i, x: uval(ks[i], NM[i], x), ['relabel.b'] if ks[2] == 'vector_int' else [], [NM[i] + '.b' for i in range(4) if ks[i] == 'vector_int'])
        add(Contract('input_graph::__get_neighbors', sig=f.sig(), tag='input_graph::__get_neighbors<%s>' % f.targs, requires=req, loops=[Loop(inv=inv, decreases='i')], ensures=ens))
    # the wrappers: the same, with the values they are given
    uv = lambda k, o, x: {'bool': 'b2i(%s)' % o, 'int': 'b2i(%s<=%s)' % (o, x), 'void*': x}.get(k, '%s[%s]' % (o, x))
    for w, vals in (('_get_neighbors', None), ('get_neighbors_sources', (0, None, 2, None)), ('get_neighbors_sinks', (None, 0, 2, None)), ('get_neighbors', (None, None, 0, None))):
        for g in [g for g in P.byname.get('input_graph::' + w, []) if g.body]:
            ts = [re.sub(r'const|[&]|std::|, *allocator<int>|\s', '', tstr(p['type'])) for p in g.params]
            nm = [p.get('name') for p in g.params]
            if vals is not None:        # None: not given, the default (no sources, no sinks, no renaming, everything)
                order = [v for v in ((0, 2) if w == 'get_neighbors_sources' else (1, 2) if w == 'get_neighbors_sinks' else (2,))]
            else:
                order = [0, 1, 2, 3]
            given = {order[j]: j for j in range(len(nm))}
            U = lambda i, x, given=given, ts=ts, nm=nm: uv(ts[given[i]], nm[given[i]], x) if i in given else ('0', '0', x, '1')[i]
            isv = lambda i, given=given, ts=ts: i in given and ts[given[i]] == 'vector<int>'
            req, inv, ens = lists_of(U, [nm[given[2]]] if isv(2) else [], [nm[given[i]] for i in range(4) if isv(i)])
            add(Contract('input_graph::' + w, sig=g.sig(), tag='input_graph::%s<%s>' % (w, ','.join(ts)), requires=req, ensures=ens))
    # components: translating between the labels of the whole graph and of one component
    OUT = lambda n, f: [('appended', 'len(nodes_out)==old(len(nodes_out))+%s and forall(i, trig(nodes_out[i], imp(0<=i and i<old(len(nodes_out)), nodes_out[i]==old(nodes_out)[i])))' % n),
                        ('translated', 'forall(i, trig(nodes_in[i], imp(0<=i and i<%s, nodes_out[old(len(nodes_out))+i]==%s)))' % (n, f))]
    inv = lambda f: [e for _, e in OUT('_k', f)] + ['len(nodes_in)==old(len(nodes_in))']
    inside = lambda i: '(0<=nodes_in[{0}] and nodes_in[{0}]<len(this.index) and this.index[nodes_in[{0}]]==c)'.format(i)
    add(Contract('components::into_component', requires=['len(this.label)==len(this.index)'], modifies=['nodes_out'],
                 loops=[Loop(inv=inv('this.label[nodes_in[i]]') + ['forall(i, trig(nodes_in[i], imp(0<=i and i<_k, %s)))' % inside('i')])],
                 ensures=[('refused-only-outside', 'imp(not result, exists(i, 0<=i and i<len(nodes_in) and not %s))' % inside('i')), ('accepted-only-inside', 'imp(result, forall(i, trig(nodes_in[i], imp(0<=i and i<len(nodes_in), %s))))' % inside('i'))]
                 + [(n, 'imp(result, %s)' % e) for n, e in OUT('len(nodes_in)', 'this.label[nodes_in[i]]')]))
    add(Contract('components::from_component', requires=['0<=c and c<len(this.component)', 'forall(i, trig(nodes_in[i], imp(0<=i and i<len(nodes_in), 0<=nodes_in[i] and nodes_in[i]<len(this.component[c]))))'], modifies=['nodes_out'],
                 loops=[Loop(inv=inv('this.component[c][nodes_in[i]]'))], ensures=OUT('len(nodes_in)', 'this.component[c][nodes_in[i]]')))
    comp_contracts(P, add, lists_of)
    return C, L


RELAB = z3.Function('relab', z3.ArraySort(I, I), I, I, I, z3.ArraySort(I, I))
IDA = z3.Const('identity', z3.ArraySort(I, I))
EQV = z3.Function('EQV', I, I, B)


def comp_axioms():
    R = z3.Const('rl', z3.ArraySort(I, I))
    p, q, w, x, y, t = z3.Ints('p q w x y t')
    r = z3.Select(RELAB(R, p, q, w), x)
    return [z3.ForAll([R, p, q, w, x], r == z3.If(z3.Or(R[x] == p, R[x] == q), w, R[x]), patterns=[r]),
            z3.ForAll([x], IDA[x] == x, patterns=[IDA[x]]),
            # any equivalence relation
            z3.ForAll([x], EQV(x, x)), z3.ForAll([x, y], z3.Implies(EQV(x, y), EQV(y, x)), patterns=[EQV(x, y)]),
            z3.ForAll([x, y, t], z3.Implies(z3.And(EQV(x, y), EQV(y, t)), EQV(x, t)), patterns=[z3.MultiPattern(EQV(x, y), EQV(y, t))])]


def comp_contracts(P, add, lists_of):
    UF = ['len(this.index)==len(this.label) and len(this.index)<=2147483647 and 0<=this.KB',
          'forall(x, trig(this.index[x], imp(0<=x and x<len(this.index), 0<=this.index[x] and this.index[x]<len(this.index) and this.ROOT[this.index[x]]==this.ROOT[x] and imp(this.index[x]!=x, this.label[this.index[x]]>this.label[x]) and imp(this.index[x]==x, this.ROOT[x]==x))))',
          'forall(x, trig(this.ROOT[x], imp(0<=x and x<len(this.index), 0<=this.ROOT[x] and this.ROOT[x]<len(this.index) and this.index[this.ROOT[x]]==this.ROOT[x])))',
          'forall(x, trig(this.label[x], imp(0<=x and x<len(this.index), 0<=this.label[x] and this.label[x]<=this.KB)))']
    IN = '0<=x and x<len(this.index)'
    uf = [('forest%d' % i, e) for i, e in enumerate(UF)]
    add(Contract('components::__init_find', requires=UF + [IN], modifies=['this.index'], variant='this.KB-this.label[x]',
                 ensures=uf + [('root', 'result==this.ROOT[x]'), ('rank', 'this.label[result]>=this.label[x]'), ('size', 'len(this.index)==old(len(this.index))')]))
    rx, ry = 'old(this.ROOT[x])', 'old(this.ROOT[y])'
    add(Contract('components::__init_union', requires=UF + [IN, IN.replace('x', 'y').replace('indey', 'index'), 'this.KB<2147483647'], modifies=['this.index', 'this.label', 'this.ROOT', 'this.KB'],
                 ghost_exit=['this.ROOT := relab(this.ROOT, %s, %s, ite(this.index[%s]==%s, %s, %s))' % (rx, ry, rx, rx, rx, ry), 'this.KB := this.KB+1'],
                 ensures=uf + [('bound', 'this.KB==old(this.KB)+1'), ('size', 'len(this.index)==old(len(this.index))'),
                               ('merged', 'forall(q, trig(this.ROOT[q], imp(0<=q and q<len(this.index), this.ROOT[q]==ite(old(this.ROOT)[q]==%s or old(this.ROOT)[q]==%s, ite(this.index[%s]==%s, %s, %s), old(this.ROOT)[q]))))' % (rx, ry, rx, rx, rx, ry))]))


    ct = [f for f in P.byname.get('components::components', []) if f.body and 'vector' in f.targs]
    m, n = 'len(g.edges_aside)', 'g._num_nodes'
    ea, eb = 'g.edges_aside[%s]', 'g.edges_bside[%s]'
    SZ = 'len(this.index)==%s and len(this.label)==%s and len(this.component)==%s' % (n, n, n)
    SAME = 'forall(e, trig({a}, imp({{lo}}<=e and e<{m}, this.ROOT[{a}]==this.ROOT[{b}])))'.format(a=ea % 'e', b=eb % 'e', m=m)
    CONN = 'forall(q, trig(this.ROOT[q], imp(0<=q and q<%s, EQV(q,this.ROOT[q]))))' % n
    HASE = 'forall(q,r, trig((this.ROOT[q], this.ROOT[r]), imp(0<=q and q<{n} and 0<=r and r<{n} and q!=r and this.ROOT[q]==this.ROOT[r], {{lo}}<=g_e[q] and g_e[q]<{m} and ({a}==q or {b}==q))))'.format(n=n, m=m, a=ea % 'g_e[q]', b=eb % 'g_e[q]')
    CLS = [SAME.format(lo=0), CONN, HASE.format(lo=0)]
    BK = lambda lo: ['forall(q, trig(g_pos[q], imp({lo}<=q and q<{n}, 0<=g_pos[q] and g_pos[q]<len(this.component[this.ROOT[q]]) and this.component[this.ROOT[q]][g_pos[q]]==q)))'.format(lo=lo, n=n),
                     'forall(r,k, trig(this.component[r][k], imp(0<=r and r<{n} and 0<=k and k<len(this.component[r]), {lo}<=this.component[r][k] and this.component[r][k]<{n} and this.ROOT[this.component[r][k]]==r and g_pos[this.component[r][k]]==k)))'.format(lo=lo, n=n)]
    # after sorting: the class with root r is at position _perminv[r]
    at = '_perminv[this.ROOT[%s]]'
    RNGP = 'forall(q, trig(this.ROOT[q], imp(0<=q and q<{n}, 0<={a} and {a}<{n})))'.format(n=n, a=at % 'q')
    def BK2(lo, c=None):      # the classes at positions lo..: as listed
        up = '%s<=r and r<%s' % (lo, n)
        return ['forall(q, trig(this.ROOT[q], g_pos[q], imp(0<=q and q<{n} and {lo}<={at}, 0<=g_pos[q] and g_pos[q]<len(this.component[{at}]) and this.component[{at}][g_pos[q]]==q)))'.format(lo=lo, n=n, at=at % 'q'),
                'forall(r,k, trig(this.component[r][k], imp({up} and 0<=k and k<len(this.component[r]), 0<=this.component[r][k] and this.component[r][k]<{n} and {at}==r and g_pos[this.component[r][k]]==k)))'.format(up=up, n=n, at=at % 'this.component[r][k]')]
    ORD = 'forall(r,k, trig((len(this.component[r]), len(this.component[k])), imp(0<=r and r<k and k<%s, len(this.component[r])>=len(this.component[k]))))' % n
    LENS = lambda: 'len(this.component)==%s' % n
    CNT = 'len(this.component_g)==c and len(this._num_reserved)==c'
    DONE = ['forall(r,k, trig(this.component[r][k], imp(0<=r and r<{c} and 0<=k and k<len(this.component[r]), 0<=this.component[r][k] and this.component[r][k]<{n} and this.index[this.component[r][k]]==r and this.label[this.component[r][k]]==k and {at}==r)))',
            'forall(q, trig(this.index[q], this.ROOT[q], imp(0<=q and q<{n} and {at2}<{c}, this.index[q]=={at2} and 0<=this.label[q] and this.label[q]<len(this.component[this.index[q]]) and this.component[this.index[q]][this.label[q]]==q)))',
            'forall(r, trig(this._num_reserved[r], imp(0<=r and r<{c}, 0<=this._num_reserved[r] and this._num_reserved[r]<=len(this.component[r]))))',
            'forall(r,k, trig(this.component[r][k], imp(0<=r and r<{c} and 0<=k and k<len(this.component[r]), (reserve.b[this.component[r][k]]!=0)==(k>=len(this.component[r])-this._num_reserved[r]))))',
            'forall(r, trig(len(this.component[r]), imp(0<=r and r<{c}, len(this.component[r])>=1)))',
            'forall(r, trig(this.component_g[r]._num_nodes, len(this.component_g[r].edges_aside), imp(0<=r and r<{c}, this.component_g[r]._num_nodes==0 and len(this.component_g[r].edges_aside)==0 and len(this.component_g[r].edges_bside)==0)))']
    DN = lambda c: [e.format(c=c, n=n, at=at % 'this.component[r][k]', at2=at % 'q') for e in DONE]
    PART = 'forall(k, trig(this.component[c][k], imp(offset(back)<=k and k<len(this.component[c]), reserve.b[this.component[c][k]]!=0))) and forall(k, trig(this.component[c][k], imp(0<=k and k<offset(front) and k<offset(back), reserve.b[this.component[c][k]]==0)))'
    POSF = '0<=offset(front) and offset(front)<=offset(back) and offset(back)<=len(this.component[c]) and 0<=c and c<%s' % n
    LN = 'forall(r, trig(len(this.component[r]), imp(0<=r and r<{n}, 0<=len(this.component[r]) and len(this.component[r])<={n}{lo})))'
    base = [LN.format(n=n, lo='')] + ['len(this.index)==%s and len(this.label)==%s' % (n, n), LENS(), ORD, RNGP] + CLS
    loops = [
        Loop(inv=['0<=x and x<=%s' % n, SZ, 'forall(q, trig(this.index[q], imp(x<=q and q<%s, this.index[q]==q)))' % n], decreases='x'),
        Loop(ghost_init=['this.ROOT := identity()', 'this.KB := 0'], inv=['0<=i and i<=%s' % m, SZ, 'this.KB==%s-i' % m] + UF + [SAME.format(lo='i'), CONN, HASE.format(lo='i'), 'forall(r, trig(len(this.component[r]), imp(0<=r and r<%s, len(this.component[r])==0)))' % n],
             ghost_end=['g_e := store(store(g_e, %s, i), %s, i)' % (ea % 'i', eb % 'i')], decreases='i'),
        Loop(inv=['0<=x and x<=%s' % n, SZ] + [LN.format(n=n, lo='-x')] + UF + CLS + BK('x'), ghost_end=['g_pos := store(g_pos, x, len(this.component[this.ROOT[x]])-1)'], decreases='x'),
        Loop(inv=['0<=c and c<=%s' % n, CNT] + base + BK2('c') + DN('c'), decreases='%s-c' % n),
        Loop(inv=[POSF.replace('offset(front)<=offset(back)', 'offset(front)<=offset(back)+1'), '0<=offset(back)', PART, CNT] + base + BK2('c') + DN('c'), decreases='offset(back)-offset(front)'),
        Loop(inv=[POSF, 'offset(back)<=entry(offset(back))', PART, CNT] + base + BK2('c') + DN('c'), decreases='offset(back)-offset(front)',
             ghost_end=['g_pos := store(store(g_pos, this.component[c][offset(front)], offset(front)), this.component[c][offset(back)], offset(back))']),
        Loop(inv=['0<=j and j<=len(this.component[c]) and 0<=c and c<%s' % n, '0<=offset(back) and offset(back)<=len(this.component[c])', 'forall(k, trig(this.component[c][k], imp(0<=k and k<len(this.component[c]), (reserve.b[this.component[c][k]]!=0)==(k>=offset(back)))))', CNT,
                  'forall(k, trig(this.component[c][k], imp(j<=k and k<len(this.component[c]), this.label[this.component[c][k]]==k and this.index[this.component[c][k]]==c)))'] + base + BK2('c') + DN('c'), decreases='j'),
    ]
    N2 = 'len(this.component)'
    ALLIN = 'forall(q, trig(this.index[q], imp(0<=q and q<{n}, 0<=this.index[q] and this.index[q]<{N2} and 0<=this.label[q] and this.label[q]<len(this.component[this.index[q]]) and this.component[this.index[q]][this.label[q]]==q)))'.format(n=n, N2=N2)
    BACK = 'forall(r,k, trig(this.component[r][k], imp(0<=r and r<{c} and 0<=k and k<len(this.component[r]), 0<=this.component[r][k] and this.component[r][k]<{n} and this.index[this.component[r][k]]==r and this.label[this.component[r][k]]==k)))'.format(c=N2, n=n)
    NR = [e.format(c=N2) for e in DONE[2:5]]
    ORD2 = ORD.replace('k<%s' % n, 'k<%s' % N2)
    CON2 = 'forall(q,r, trig((this.index[q], this.index[r]), imp(0<=q and q<{n} and 0<=r and r<{n} and this.index[q]==this.index[r], EQV(q,r))))'.format(n=n)
    INS = 'forall(e, trig({a}, imp(0<=e and e<{m}, this.index[{a}]==this.index[{b}])))'.format(a=ea % 'e', b=eb % 'e', m=m)
    HAS2 = 'forall(q,r, trig((this.index[q], this.index[r]), imp(0<=q and q<{n} and 0<=r and r<{n} and q!=r and this.index[q]==this.index[r], 0<=g_e[q] and g_e[q]<{m} and ({a}==q or {b}==q))))'.format(n=n, m=m, a=ea % 'g_e[q]', b=eb % 'g_e[q]')
    CG = 'this.component_g[%s]'
    SHAPE = 'len(this.index)=={n} and len(this.label)=={n} and 0<={N2} and {N2}<={n} and len(this.component_g)=={N2} and len(this._num_reserved)=={N2}'.format(n=n, N2=N2)
    GS = 'forall(r, trig({g}._num_nodes, len({g}.edges_aside), imp(0<=r and r<{N2}, 0<={g}._num_nodes and {g}._num_nodes<=len(this.component[r]) and len({g}.edges_aside)==len({g}.edges_bside) and len({g}.edges_aside)<={m}-i)))'.format(g=CG % 'r', N2=N2, m=m)
    NODES = 'forall(r, trig(len(this.component[r]), imp(0<=r and r<{N2}, 1<=len(this.component[r]) and len(this.component[r])<={n})))'.format(N2=N2, n=n)
    GD = 'forall(e, trig({a}, imp(i<=e and e<{m}, 0<=g_dst[e] and g_dst[e]<len({g}.edges_aside) and {g}.edges_aside[g_dst[e]]==this.label[{a}] and {g}.edges_bside[g_dst[e]]==this.label[{b}] and this.label[{a}]<{g}._num_nodes and this.label[{b}]<{g}._num_nodes)))'.format(a=ea % 'e', b=eb % 'e', m=m, g=CG % ('this.index[%s]' % (ea % 'e')))
    GSRC = 'forall(r,k, trig({g}.edges_aside[k], imp(0<=r and r<{N2} and 0<=k and k<len({g}.edges_aside), i<=g_src[r][k] and g_src[r][k]<{m} and this.index[{a}]==r and {g}.edges_aside[k]==this.label[{a}] and {g}.edges_bside[k]==this.label[{b}])))'.format(g=CG % 'r', N2=N2, m=m, a=ea % 'g_src[r][k]', b=eb % 'g_src[r][k]')
    PRT = [ALLIN, BACK] + NR + [ORD2, CON2, INS, HAS2]
    loops.append(Loop(inv=['0<=i and i<=%s' % m, SHAPE, NODES, GS, GD, GSRC] + PRT, decreases='i',
                      ghost_end=['g_dst := store(g_dst, i, len({g}.edges_aside)-1)'.format(g=CG % 'this.index[a]'), 'g_src := store(g_src, this.index[a], store(g_src[this.index[a]], len({g}.edges_aside)-1, i))'.format(g=CG % 'this.index[a]')]))
    g = CG % 'r'
    ENS = [('shape', SHAPE), ('every-node-in-its-component', ALLIN), ('components-list-their-nodes', BACK), ('reserved-last', NR[1]), ('no-empty-component', NODES), ('largest-first', ORD2), ('same-component-only-if-connected', CON2), ('edges-stay-inside', INS),
           ('every-edge-kept', 'forall(e, trig({a}, imp(0<=e and e<{m}, exists(k, 0<=k and k<len({g}.edges_aside) and {g}.edges_aside[k]==this.label[{a}] and {g}.edges_bside[k]==this.label[{b}]))))'.format(a=ea % 'e', b=eb % 'e', m=m, g=CG % ('this.index[%s]' % (ea % 'e')))),
           ('only-its-edges', 'forall(r,k, trig({g}.edges_aside[k], imp(0<=r and r<{N2} and 0<=k and k<len({g}.edges_aside), exists(e, 0<=e and e<{m} and this.index[{a}]==r and {g}.edges_aside[k]==this.label[{a}] and {g}.edges_bside[k]==this.label[{b}]))))'.format(g=g, N2=N2, m=m, a=ea % 'e', b=eb % 'e')),
           ('sizes', 'forall(r, trig(len(this.component[r]), imp(0<=r and r<{N2}, {g}._num_nodes<=len(this.component[r]) and imp(len(this.component[r])>=2, {g}._num_nodes==len(this.component[r])))))'.format(N2=N2, g=g))]
    for f in ct:
        add(Contract('components::components', sig=f.sig(), tag='components::components', requires=[e.replace('this.', 'g.') for e in GOK] + ['len(reserve.b)==%s' % n, 'forall(e, trig({a}, imp(0<=e and e<{m}, EQV({a},{b}))))'.format(a=ea % 'e', b=eb % 'e', m=m)],
                     modifies=['this'], ghosts={'g_e': AI, 'g_pos': AI, 'g_dst': AI, 'g_src': TZ3(z3.ArraySort(I, z3.ArraySort(I, I)))}, loops=loops, ensures=ENS,
                     hints=['forall(r, trig(len(this.component[r]), imp(0<=r and r<{N2} and len(this.component[r])>=2, this.index[this.component[r][0]]==r and this.component[r][0]!=this.component[r][len(this.component[r])-1] and this.label[this.component[r][len(this.component[r])-1]]==len(this.component[r])-1 and this.index[this.component[r][len(this.component[r])-1]]==r)))'.format(N2=N2)]))


    add(Contract('components::nodes', requires=['0<=c and c<len(this.component)'], returns_ref='this.component[c]'))
    add(Contract('components::component_graph', requires=['0<=c and c<len(this.component_g)'], returns_ref='this.component_g[c]'))
    add(Contract('components::num_reserved', requires=['0<=c and c<len(this._num_reserved)'], ensures=[('value', 'result==ite(this._num_reserved[c]<0, this._num_reserved[c]+18446744073709551616, this._num_reserved[c])')]))
    for f in [f for f in P.byname.get('components::size', []) if f.body]:
        add(Contract('components::size', sig=f.sig(), tag='components::size', requires=['0<=c and c<len(this.component_g)'] if f.params else [], ensures=[('value', 'result==' + ('this.component_g[c]._num_nodes' if f.params else 'len(this.component_g)'))]))
    gc = lambda e: e.replace('this.', 'this.component_g[c].')
    req, _, ens = lists_of(lambda i, x: ('b2i(this.component_g[c]._num_nodes-this._num_reserved[c]<=%s)' % x, '0', x, '1')[i], [], [])
    # lists_of speaks of `this`; here the graph is that of the component
    own = lambda e: re.sub(r'this\.(edges_aside|edges_bside|_num_nodes)', r'this.component_g[c].\1', e.replace('this.component_g[c].', '@@')).replace('@@', 'this.component_g[c].')
    add(Contract('components::component_neighbors', requires=['0<=c and c<len(this.component_g) and c<len(this._num_reserved)', '0<=this._num_reserved[c]'] + [own(e) for e in req], ensures=[(n, own(e)) for n, e in ens]))


def make_graph():
    P = gprog()
    C, L = graph_contracts(P)
    reg = Registry()
    reg.ghost['components'] = [('ROOT', TZ3(z3.ArraySort(I, I))), ('KB', TZ3(I))]
    ex = Exec(P, reg, C, axioms=comp_axioms())
    sp = ex.spec
    sp.funcs['relab'], sp.funcs['EQV'] = spec_fn(RELAB), spec_fn(EQV)
    sp.funcs['identity'] = lambda ctx: IDA
    return ex, L
