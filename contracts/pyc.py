"""the Python sources under contract, through the mechanical translation of engine/py2cxx.py: minorminer/utils/diagnostic.py
(C19) and the label dictionaries of _minorminer_h.pxi and subgraph.pyx (C21)"""
from common import *
from core import card, fin
import ast
import re
import py2cxx
from core import *
from py2cxx import INT, BOOL, VEC, SET, DICT, CH, GRAPH, EDGES

PRELUDE = '''
#include <map>
#include <set>
#include <vector>
#include <utility>
namespace pyv {
'''


def piece(path, head):
    """the text of one top-level block of a Cython file"""
    src = open(REPO + '/' + path).read()
    m = re.search(r'^%s.*\n(?:(?:[ \t].*)?\n)+' % head, src, re.M)
    if not m:
        raise ExtractError('%s: no %s' % (path, head))
    return ast.parse(py2cxx.cython(m.group(0)))


def ld_text(path, cls):
    t = piece(path, r'cdef class %s\(dict\):' % cls)
    F = {'_label': VEC}
    ty = {'l': INT, 'k': INT, 'random': 'rng', 'self': 'labeldict'}
    c = [n for n in t.body if isinstance(n, ast.ClassDef)][0]
    names = [n.name for n in c.body if isinstance(n, ast.FunctionDef)]
    if set(names) - {'__init__', '__missing__', 'label', 'shuffle'} or not {'__missing__', 'label'} <= set(names):
        raise ExtractError('%s: methods of %s: %s' % (path, cls, names))
    ms = [py2cxx.function(t, '__missing__', ty, {}, [], 'int', cls=cls, fields=F), py2cxx.function(t, 'label', ty, {}, [], 'int', cls=cls, fields=F)]
    if 'shuffle' in names:
        ms.append(py2cxx.function(t, 'shuffle', ty, {}, [], 'void', cls=cls, fields=F))
    body = ''.join(ms)
    return '''
void py_shuffle(std::vector<int> &v);
struct %s {
std::map<int,int> self; std::vector<int> _label;
int getitem(int v_l) { if (self.count(v_l) != 0) return self.at(v_l); return __missing__(v_l); }
%s};
inline int force(%s &a) { %s return a.__missing__(0) + a.getitem(1) + a.label(0); }
''' % (cls, body, cls, 'a.shuffle();' if 'shuffle' in names else '')


BIJ = ['len(this._label)<2147483647', 'len(this.self)==len(this._label)', 'forall(i, trig(this._label[i], imp(0<=i and i<len(this._label), this._label[i] in this.self and this.self[this._label[i]]==i)))',
       'forall(l, trig(l in this.self, imp(l in this.self, 0<=this.self[l] and this.self[l]<len(this._label) and this._label[this.self[l]]==l)))']


def ld_contracts(cls, add):
    old = [('others-keep', 'forall(i, trig(this._label[i], imp(0<=i and i<old(len(this._label)), this._label[i]==old(this._label)[i]))) and forall(q, trig(q in this.self, imp(old(q in this.self), (q in this.self) and this.self[q]==old(this.self)[q])))'),
           ('no-other-label', 'forall(q, trig(q in this.self, imp(q in this.self and q!=v_l, old(q in this.self))))')]
    add(Contract(cls + '::__missing__', params=['v_l'], requires=BIJ + ['not (v_l in this.self)', 'len(this._label)<2147483646'], modifies=['this'],
                 ensures=[('next-number', 'result==old(len(this._label)) and (v_l in this.self) and this.self[v_l]==result and len(this._label)==old(len(this._label))+1 and this._label[result]==v_l')] + old
                 + [('bijection', ' and '.join(BIJ))]))
    add(Contract(cls + '::getitem', requires=BIJ + ['len(this._label)<2147483646'], modifies=['this'],
                 ensures=[('same-label-same-number', 'imp(old(v_l in this.self), result==old(this.self)[v_l] and len(this._label)==old(len(this._label)))'),
                          ('new-label-next-number', 'imp(not old(v_l in this.self), result==old(len(this._label)) and len(this._label)==old(len(this._label))+1)'),
                          ('known', '(v_l in this.self) and this.self[v_l]==result and this._label[result]==v_l')] + old + [('bijection', ' and '.join(BIJ))]))
    add(Contract(cls + '::label', params=['v_k'], requires=BIJ + ['0<=v_k and v_k<len(this._label)'], ensures=[('inverse', '(result in this.self) and this.self[result]==v_k')]))
    add(Contract('py_shuffle', trusted=True, modifies=['v'], params=['v'],
                 ensures=[('permutation', 'len(v)==old(len(v)) and forall(i, trig(v[i], imp(0<=i and i<len(v), 0<=PI(i) and PI(i)<len(v) and v[i]==old(v)[PI(i)] and PINV(PI(i))==i))) and forall(i, trig(PINV(i), imp(0<=i and i<len(v), 0<=PINV(i) and PINV(i)<len(v) and PI(PINV(i))==i and v[PINV(i)]==old(v)[i])))')]))
    lab = 'entry(this._label)'
    add(Contract(cls + '::shuffle', requires=BIJ, modifies=['this'],
                 loops=[Loop(inv=['0<=v_i and v_i<=len(this._label) and len(this._label)==old(len(this._label))', 'forall(q, trig(q in this.self, (q in this.self)==old(q in this.self)))',
                                  'forall(i, trig(this._label[i], imp(0<=i and i<len(this._label), 0<=PI(i) and PI(i)<len(this._label) and this._label[i]==old(this._label)[PI(i)] and PINV(PI(i))==i)))',
                                  'forall(i, trig(PINV(i), imp(0<=i and i<len(this._label), 0<=PINV(i) and PINV(i)<len(this._label) and PI(PINV(i))==i and this._label[PINV(i)]==old(this._label)[i])))',
                                  'forall(i, trig(this._label[i], imp(0<=i and i<v_i, this.self[this._label[i]]==i)))'], decreases='len(this._label)-v_i')],
                 hints=['forall(q, trig(q in this.self, imp(q in this.self, 0<=PINV(old(this.self)[q]) and PINV(old(this.self)[q])<len(this._label) and this._label[PINV(old(this.self)[q])]==q)))'],
                 ensures=[('same-labels', 'len(this._label)==old(len(this._label)) and forall(q, trig(q in this.self, (q in this.self)==old(q in this.self)))'), ('bijection', ' and '.join(BIJ))]))


def make_ld(path, cls):
    P = program('py:' + path, PRELUDE + ld_text(path, cls) + '}\n', filters=('pyv::',))
    C, L = {}, []

    def add(c):
        C[c.fn] = c
        L.append(c)
    ld_contracts(cls, add)
    ex = Exec(P, Registry(), C)
    ex.spec.funcs.update(PI=spec_fn(z3.Function('PI', I, I)), PINV=spec_fn(z3.Function('PINV', I, I)))
    return ex, [c for c in L if not c.trusted and c.fn in P.byname]


def make_main():
    return make_ld('minorminer/_minorminer_h.pxi', 'labeldict')


def make_sub():
    return make_ld('minorminer/subgraph.pyx', '_labeldict')


# the graphs and chains that reach the C++ code, with labels turned into numbers
READ = '''
struct input_graph { std::vector<int> edges_aside, edges_bside; int _num_nodes; void push_back(int a, int b); };
struct Graph { std::set<int> nodes; std::map<int,std::set<int>> adj; };
std::vector<std::pair<int,int>> nx_edges(const Graph &g);
'''
SUBQ = z3.Function('subq', z3.ArraySort(I, B), z3.ArraySort(I, B), B)      # d is a subset of e, which then has at least as many members
_d, _e = z3.Consts('sd se', z3.ArraySort(I, B))
_w = z3.Function('subq_w', z3.ArraySort(I, B), z3.ArraySort(I, B), I)
SUBAX = [z3.ForAll([_d, _e], z3.Implies(z3.And(fin(_d), fin(_e), SUBQ(_d, _e)), card(_d) <= card(_e)), patterns=[SUBQ(_d, _e)]),
         z3.ForAll([_d, _e], z3.Implies(z3.Not(SUBQ(_d, _e)), z3.And(_d[_w(_d, _e)], z3.Not(_e[_w(_d, _e)]))), patterns=[SUBQ(_d, _e)])]


def read_text():
    f = 'minorminer/_minorminer.pyx'
    t = piece(f, r'cdef _read_graph\(')
    c = piece(f, r'cdef int _get_chainmap\(')
    return ld_text('minorminer/_minorminer_h.pxi', 'labeldict') + READ + py2cxx.function(t, '_read_graph', {'g': 'input_graph', 'E': EDGES}, {}, [], 'labeldict').replace('_read_graph(', '_read_list(', 1) \
        + py2cxx.function(t, '_read_graph', {'g': 'input_graph', 'E': GRAPH}, {}, [], 'labeldict') \
        + py2cxx.function(c, '_get_chainmap', {'C': CH, 'CMap': CH, 'SL': 'labeldict', 'TL': 'labeldict'}, {}, [], 'void', mut=('CMap',), skip=('parameter',))


def make_read():
    P = program('py:read', PRELUDE + read_text() + '}\n', filters=('pyv::',))
    C, L = {}, []

    def add(c):
        C[c.fn] = c
        L.append(c)
    ld_contracts('labeldict', add)
    own = []
    A, Bs = 'this.edges_aside', 'this.edges_bside'
    add(Contract('input_graph::push_back', trusted=True, params=['a', 'b'], modifies=['this'], requires=['0<=a and 0<=b and a<2147483647 and b<2147483647 and len({0})<2147483647 and len({0})==len({1}) and 0<=this._num_nodes'.format(A, Bs)],
                 ensures=[('edge', 'len({0})==old(len({0}))+1 and len({1})==old(len({1}))+1 and {0}[old(len({0}))]==a and {1}[old(len({1}))]==b'.format(A, Bs)),
                          ('others', 'forall(i, trig({0}[i], imp(0<=i and i<old(len({0})), {0}[i]==old({0})[i]))) and forall(i, trig({1}[i], imp(0<=i and i<old(len({1})), {1}[i]==old({1})[i])))'.format(A, Bs)),
                          ('nodes', 'this._num_nodes>=old(this._num_nodes) and this._num_nodes>a and this._num_nodes>b and (this._num_nodes==old(this._num_nodes) or this._num_nodes==a+1 or this._num_nodes==b+1)')]))
    SM = 536870912
    add(Contract('nx_edges', trusted=True, params=['g'], ensures=[('networkx', 'len(result)<%d and forall(k, trig(result[k].first, imp(0<=k and k<len(result), EDGE(g,result[k].first,result[k].second))))' % SM),
                          ('networkx2', 'forall(x,y, trig(y in g.adj[x], imp(EDGE(g,x,y), exists(k, 0<=k and k<len(result) and ((result[k].first==x and result[k].second==y) or (result[k].first==y and result[k].second==x))))))')]))
    bij = lambda o: [e.replace('this.', o + '.') for e in BIJ]
    ga, gb = 'v_g.edges_aside', 'v_g.edges_bside'
    num = lambda l, o='v_L': '(%s in %s.self) and %s.self[%s]' % (l, o, o, l)
    pair = lambda src, o, k: 'forall(i, trig(%s[i], %s[i].first, imp(0<=i and i<%s, (%s.first in %s.self) and (%s.second in %s.self) and %s[i]==%s.self[%s.first] and %s[i]==%s.self[%s.second])))' % (
        ga, src, k, src + '[i]', o, src + '[i]', o, ga, o, src + '[i]', gb, o, src + '[i]')
    EMPTY = ['len(%s)==0 and len(%s)==0 and v_g._num_nodes==0' % (ga, gb)]
    base = ['len(%s)==len(%s)' % (ga, gb), 'v_g._num_nodes==len(v_L._label)']
    E1 = lambda src: bij('v_L') + base + ['len(%s)==_k' % ga, pair(src, 'v_L', '_k'), 'len(v_L._label)<=2*_k',
                                          'forall(i, trig(v_L._label[i], imp(0<=i and i<len(v_L._label), exists(j, 0<=j and j<_k and (%s[j].first==v_L._label[i] or %s[j].second==v_L._label[i])))))' % (src, src)]
    add(Contract('_read_list', params=['v_g', 'v_E'], requires=EMPTY + ['len(v_E)<%d' % SM], modifies=['v_g'], loops=[Loop(inv=E1('s_0') + ['same(s_0,v_E)'])],
                 ensures=[('edges-by-number', 'len(%s)==len(v_E) and len(%s)==len(v_E) and %s' % (ga, gb, pair('v_E', 'result', 'len(v_E)'))), ('bijection', ' and '.join(bij('result'))), ('one-node-per-label', 'v_g._num_nodes==len(result._label)'),
                          ('only-ends', 'forall(i, trig(result._label[i], imp(0<=i and i<len(result._label), exists(j, 0<=j and j<len(v_E) and (v_E[j].first==result._label[i] or v_E[j].second==result._label[i])))))')]))
    own.append('_read_list')
    GOOD = 'forall(x,y, trig(y in v_E.adj[x], imp(EDGE(v_E,x,y), EDGE(v_E,y,x) and (x in v_E.nodes) and (y in v_E.nodes))))'
    n1 = 'len(s_1)'
    ENDS = 'forall(i, trig(v_L._label[i], imp(0<=i and i<len(v_L._label), v_L._label[i] in v_E.nodes)))'
    EV = 'forall(i, trig(%s[i], imp(%s<=i and i<len(%s), %s[i]==%s[i] and %s[i]==i-%s+v_last and v_last<=%s[i] and %s[i]<len(v_L._label))))' % (ga, n1, ga, ga, gb, ga, n1, ga, ga)
    both = 'forall(i, trig(%s[i], imp(%s<=i and i<len(%s), %s[i]==%s[i])))' % (ga, n1, ga, ga, gb)
    add(Contract('_read_graph', params=['v_g', 'v_E'], requires=EMPTY + [GOOD, 'len(v_E.nodes)<%d' % SM], modifies=['v_g'],
                 loops=[Loop(inv=E1('s_1') + ['%s<%d' % (n1, SM), ENDS]),
                        Loop(inv=bij('v_L') + ['len(%s)==%s and len(%s)==%s' % (ga, n1, gb, n1), pair('s_1', 'v_L', n1), 'v_g._num_nodes==v_last', 'v_last<=len(v_L._label)', 'len(v_L._label)<=v_last+card(_done)', ENDS, 'subq(_done,dom(s_4))', 'v_last<=2*%s and %s<%d' % (n1, n1, SM),
                                               'forall(x, trig(_done[x], imp(_done[x], x in v_L.self)))', 'forall(x, trig(x in s_4, (x in s_4)==(x in v_E.nodes)))', 'card(dom(s_4))==len(v_E.nodes)']),
                        Loop(inv=['v_last<=v_i and v_i<=n_5', 'len({0})=={2}+v_i-v_last and len({0})==len({1})'.format(ga, gb, n1), pair('s_1', 'v_L', n1), both, EV, 'v_g._num_nodes==v_i'], decreases='n_5-v_i')],
                 ensures=[('every-edge', 'forall(x,y, trig(y in v_E.adj[x], imp(EDGE(v_E,x,y), exists(k, 0<=k and k<len(%s) and (x in result.self) and (y in result.self) and ((%s[k]==result.self[x] and %s[k]==result.self[y]) or (%s[k]==result.self[y] and %s[k]==result.self[x]))))))' % (ga, ga, gb, ga, gb)),
                          ('only-edges', 'forall(k, trig(%s[k], imp(0<=k and k<len(%s) and %s[k]!=%s[k], 0<=%s[k] and %s[k]<len(result._label) and 0<=%s[k] and %s[k]<len(result._label) and EDGE(v_E,result._label[%s[k]],result._label[%s[k]]))))' % ((ga, ga, ga, gb, ga, ga, gb, gb, ga, gb))),
                          ('every-node-and-no-other', 'forall(x, trig(x in result.self, x in v_E.nodes, (x in result.self)==(x in v_E.nodes)))'), ('bijection', ' and '.join(bij('result'))), ('one-node-per-label', 'v_g._num_nodes==len(result._label)')]))
    own.append('_read_graph')
    C2 = 'forall(a, trig(a in v_C, imp(%s (a in v_C) and len(v_C[a])>0, (a in v_SL.self) and (v_SL.self[a] in v_CMap) and len(v_CMap[v_SL.self[a]])==len(v_C[a]) and forall(i, trig(v_CMap[v_SL.self[a]][i], v_C[a][i], imp(0<=i and i<len(v_C[a]), (v_C[a][i] in v_TL.self) and v_CMap[v_SL.self[a]][i]==v_TL.self[v_C[a][i]]))))))'
    C3 = 'forall(k, trig(k in v_CMap, imp(k in v_CMap, 0<=k and k<len(v_SL._label) and %s (v_SL._label[k] in v_C) and len(v_C[v_SL._label[k]])>0)))'
    BB = bij('v_SL') + bij('v_TL')
    add(Contract('_get_chainmap', params=['v_C', 'v_CMap', 'v_SL', 'v_TL'], requires=BB + ['len(v_SL._label)<2147483646 and len(v_TL._label)<2147483646'], modifies=['v_CMap', 'v_SL', 'v_TL'],
                 throws='exists(a, (a in v_C) and len(v_C[a])>0 and (not (a in v_SL.self) or exists(i, 0<=i and i<len(v_C[a]) and not (v_C[a][i] in v_TL.self))))',
                 loops=[Loop(inv=BB + ['same(v_SL,old(v_SL)) and same(v_TL,old(v_TL))', C2 % '_done[a] and', C3 % '_done[v_SL._label[k]] and']),
                        Loop(inv=BB + ['same(v_SL,old(v_SL)) and same(v_TL,old(v_TL))', 'len(v_chain)==_k', 'forall(i, trig(v_chain[i], v_C[v_a][i], imp(0<=i and i<_k, (v_C[v_a][i] in v_TL.self) and v_chain[i]==v_TL.self[v_C[v_a][i]])))'])],
                 ensures=[('every-chain-by-number', C2 % ''), ('only-those', C3 % ''), ('labels-keep-their-numbers', 'same(v_SL,old(v_SL)) and same(v_TL,old(v_TL))')]))
    own.append('_get_chainmap')
    ex = Exec(P, Registry(), C, axioms=SUBAX)
    ex.spec.funcs.update(card=lambda ctx, d: card(ctx.rv(d)), subq=spec_fn(SUBQ))
    ex.spec.define('EDGE(g,x,y)', '(x in g.adj) and (y in g.adj[x])')
    return ex, [C[n] for n in own if n in P.byname]


# ------------------------------------------------------------------------------------ C19: diagnostic.py
NX = '''
struct Graph { std::set<int> nodes; std::map<int,std::set<int>> adj; int key; };
struct Diag { std::set<int> missing, disconnected, codes; std::map<int,std::set<int>> invalid, overlap, noedge; };
typedef std::map<int,std::vector<int>> Emb;
std::vector<std::pair<int,int>> nx_edges(const Graph &g);
Graph nx_subgraph(const Graph &g, const std::vector<int> &l);
Graph nx_subgraph_d(const Graph &g, const std::map<int,std::set<int>> &l);
bool nx_is_connected(const Graph &g);
bool nx_has_edge(const Graph &g, int x, int y);
Graph nx_empty();
Graph nx_graph(const Graph &g);
void nx_add_edge(Graph &g, int x, int y);
std::set<int> py_single(int x);
bool py_in(int x, const std::set<int> &s);
const std::set<int> &py_setdefault(std::map<int,std::set<int>> &d, int k, const std::set<int> &v);
std::vector<int> py_list(const std::set<int> &s);
std::vector<int> py_tail(const std::vector<int> &v, int n);
void yield_MissingChainError(Diag &out, const Emb &emb, const Graph &source, const Graph &target, int x);
void yield_ChainOverlapError(Diag &out, const Emb &emb, const Graph &source, const Graph &target, int q, int x, int y);
void yield_DisconnectedChainError(Diag &out, const Emb &emb, const Graph &source, const Graph &target, int x);
void yield_InvalidNodeError(Diag &out, const Emb &emb, const Graph &source, const Graph &target, int x, int q);
void yield_MissingEdgeError(Diag &out, const Emb &emb, const Graph &source, const Graph &target, int x, int y);
'''
CODES = {k: i for i, k in enumerate(['MissingChainError', 'ChainOverlapError', 'DisconnectedChainError', 'InvalidNodeError', 'MissingEdgeError'])}
DTY = {'emb': CH, 'source': GRAPH, 'target': GRAPH, 'ignore_errors': SET}


def diag_text():
    t = ast.parse(open(REPO + '/minorminer/utils/diagnostic.py').read())
    for n in ast.walk(t):
        if isinstance(n, ast.FunctionDef) and n.name in ('diagnose_embedding', 'is_valid_embedding', 'verify_embedding') and [a.arg for a in n.args.args][:3] != ['emb', 'source', 'target']:
            raise ExtractError('diagnostic.py: parameters of ' + n.name)
    return NX + py2cxx.function(t, 'diagnose_embedding', DTY, CODES, ['out', 'v_emb', 'v_source', 'v_target'], 'void', 'Diag &out') \
        + py2cxx.function(t, 'is_valid_embedding', DTY, CODES, [], 'bool') + py2cxx.function(t, 'verify_embedding', DTY, CODES, [], 'bool')


def diag_macros(sp):
    d = lambda n, a, t: sp.define('%s(%s)' % (n, ','.join(a)), t)
    d('EDGE', ['g', 'x', 'y'], '(x in g.adj) and (y in g.adj[x])')
    d('MEM', ['e', 'x', 'q'], '(x in e) and 0<=POS(x,q) and POS(x,q)<len(e[x]) and e[x][POS(x,q)]==q')
    d('MISSING', ['e', 's', 'x'], '(x in s.nodes) and (not (x in e) or len(e[x])==0)')
    d('INVALID', ['e', 's', 't', 'x', 'q'], '(x in s.nodes) and MEM(e,x,q) and not (q in t.nodes)')
    d('OKC', ['e', 's', 't', 'x'], '(x in s.nodes) and (x in e) and len(e[x])>0 and forall(i, trig(e[x][i], imp(0<=i and i<len(e[x]), e[x][i] in t.nodes)))')
    d('DISC', ['e', 's', 't', 'x'], 'OKC(e,s,t,x) and not CONN(KEY(t.key, arr(e[x],"[]"), len(e[x])))')
    d('OVER', ['e', 's', 't', 'q', 'x', 'y'], 'x!=y and (x in s.nodes) and (y in s.nodes) and MEM(e,x,q) and MEM(e,y,q) and (q in t.nodes)')
    d('NOEDGE', ['e', 's', 't', 'x', 'y'], 'x!=y and EDGE(s,x,y) and OKC(e,s,t,x) and OKC(e,s,t,y) and forall(i,j, trig((e[x][i], e[y][j]), imp(0<=i and i<len(e[x]) and 0<=j and j<len(e[y]), not EDGE(t,e[x][i],e[y][j]))))')


def make_diag():
    P = program('py:diagnostic', PRELUDE + diag_text() + '}\n', filters=('pyv::',))
    C, L = {}, []

    def add(c):
        C[c.fn] = c
        L.append(c)
    e, s, t = 'v_emb', 'v_source', 'v_target'
    same = lambda *fs: ' and '.join('same(out.%s,old(out.%s))' % (f, f) for f in ('missing', 'disconnected', 'invalid', 'overlap', 'noedge') if f not in fs)
    one = lambda f, x: 'forall(z, trig(z in out.{0}, (z in out.{0})==((z in old(out.{0})) or z=={1})))'.format(f, x)
    two = lambda f, x, y: 'forall(z,w, trig(w in out.{0}[z], ((z in out.{0}) and (w in out.{0}[z]))==(((z in old(out.{0})) and (w in old(out.{0})[z])) or (z=={1} and w=={2}))))'.format(f, x, y)
    code = lambda k: 'forall(z, trig(z in out.codes, (z in out.codes)==((z in old(out.codes)) or z==%d)))' % CODES[k]
    A = ['out', 'emb', 'source', 'target']
    y = lambda k, ps, req, ens: add(Contract('yield_' + k, trusted=True, params=A + ps, modifies=['out'], requires=[req], ensures=[('recorded', ens + ' and ' + code(k))]))
    y('MissingChainError', ['x'], 'MISSING(emb,source,x)', one('missing', 'x') + ' and ' + same('missing'))
    y('DisconnectedChainError', ['x'], 'DISC(emb,source,target,x)', one('disconnected', 'x') + ' and ' + same('disconnected'))
    y('InvalidNodeError', ['x', 'q'], 'INVALID(emb,source,target,x,q)', two('invalid', 'x', 'q') + ' and ' + same('invalid'))
    y('ChainOverlapError', ['q', 'x', 'y'], 'OVER(emb,source,target,q,x,y)', 'forall(z,w, trig(w in out.overlap[z], ((z in out.overlap) and (w in out.overlap[z]))==(((z in old(out.overlap)) and (w in old(out.overlap)[z])) or (z==q and (w==x or w==y))))) and ' + same('overlap'))
    y('MissingEdgeError', ['x', 'y'], 'NOEDGE(emb,source,target,x,y)', two('noedge', 'x', 'y') + ' and ' + same('noedge'))
    T = lambda fn, params, ens, req=(), mod=(), **kw: add(Contract(fn, trusted=True, params=params, requires=list(req), modifies=list(mod), ensures=[('networkx', x) for x in ens], **kw))
    T('nx_edges', ['g'], ['forall(k, trig(result[k].first, imp(0<=k and k<len(result), EDGE(g,result[k].first,result[k].second))))',
                          'forall(x,y, trig(y in g.adj[x], imp(EDGE(g,x,y), exists(k, 0<=k and k<len(result) and ((result[k].first==x and result[k].second==y) or (result[k].first==y and result[k].second==x))))))'])
    T('nx_subgraph', ['g', 'l'], ['result.key==KEY(g.key, arr(l,"[]"), len(l))'], req=['len(l)>0', 'forall(i, trig(l[i], imp(0<=i and i<len(l), l[i] in g.nodes)))'])
    T('nx_subgraph_d', ['g', 'l'], ['forall(x,y, trig(y in result.adj[x], EDGE(result,x,y)==(EDGE(g,x,y) and (x in l) and (y in l))))', 'forall(x,y, trig(y in g.adj[x], EDGE(result,x,y)==(EDGE(g,x,y) and (x in l) and (y in l))))'])
    T('nx_is_connected', ['g'], ['result==CONN(g.key)'])
    T('nx_has_edge', ['g', 'x', 'y'], ['result==EDGE(g,x,y)'])
    T('nx_empty', [], ['forall(x,y, trig(y in result.adj[x], not EDGE(result,x,y)))'])
    T('nx_graph', ['g'], ['same(result,g)'])
    T('nx_add_edge', ['g', 'x', 'y'], ['forall(a,b, trig(b in g.adj[a], EDGE(g,a,b)==(((a in old(g.adj)) and (b in old(g.adj)[a])) or (a==x and b==y) or (a==y and b==x))))', 'EDGE(g,x,y) and EDGE(g,y,x)'], mod=['g'])
    T('py_single', ['x'], ['forall(z, trig(z in result, (z in result)==(z==x)))'])
    T('py_in', ['x', 's'], ['result==(x in s)'])
    T('py_list', ['s'], ['forall(k, trig(result[k], imp(0<=k and k<len(result), result[k] in s)))', 'forall(x, trig(x in s, imp(x in s, exists(k, 0<=k and k<len(result) and result[k]==x))))',
                         'forall(i,j, trig((result[i], result[j]), imp(0<=i and i<j and j<len(result), result[i]!=result[j])))'])
    T('py_tail', ['v', 'n'], ['len(result)==ite(len(v)<n, 0, len(v)-n)', 'forall(k, trig(result[k], imp(0<=k and k<len(result), result[k]==v[k+n])))', 'forall(k, trig(v[k], imp(n<=k and k<len(v), result[k-n]==v[k])))'], req=['0<=n'])
    T('py_setdefault', ['d', 'k', 'v'], ['forall(z, trig(z in result, (z in result)==ite(k in old(d), z in old(d)[k], z in v)))', 'forall(z, trig(z in d, (z in d)==((z in old(d)) or z==k)))',
                                         'forall(z,w, trig(w in d[z], (w in d[z])==ite(z==k and not (k in old(d)), w in v, w in old(d)[z])))'], mod=['d'])
    POSOK = 'forall(x,i, trig(v_emb[x][i], imp((x in v_emb) and 0<=i and i<len(v_emb[x]), 0<=POS(x,v_emb[x][i]) and POS(x,v_emb[x][i])<len(v_emb[x]) and v_emb[x][POS(x,v_emb[x][i])]==v_emb[x][i])))'
    GOOD = lambda g: 'forall(x,y, trig(y in {0}.adj[x], imp(EDGE({0},x,y), EDGE({0},y,x) and (x in {0}.nodes) and (y in {0}.nodes))))'.format(g)
    DEF = ['forall(x, trig(x in v_source.nodes, imp(MISSING(v_emb,v_source,x), DEFECT(%d))))' % CODES['MissingChainError'],
           'forall(x, trig(x in v_source.nodes, imp(DISC(v_emb,v_source,v_target,x), DEFECT(%d))))' % CODES['DisconnectedChainError'],
           'forall(x,q, trig(POS(x,q), imp(INVALID(v_emb,v_source,v_target,x,q), DEFECT(%d))))' % CODES['InvalidNodeError'],
           'forall(q,x,y, trig((POS(x,q),POS(y,q)), imp(OVER(v_emb,v_source,v_target,q,x,y), DEFECT(%d))))' % CODES['ChainOverlapError'],
           'forall(x,y, trig(y in v_source.adj[x], imp(NOEDGE(v_emb,v_source,v_target,x,y), DEFECT(%d))))' % CODES['MissingEdgeError']]
    REQ = [POSOK, GOOD('v_source'), GOOD('v_target')] + DEF
    EMPTY = ['forall(x, trig(x in out.%s, not (x in out.%s)))' % (f, f) for f in ('missing', 'disconnected', 'codes')] + ['forall(x, trig(x in out.%s, not (x in out.%s)))' % (f, f) for f in ('invalid', 'overlap', 'noedge')]
    CODEOK = 'forall(k, trig(k in out.codes, imp(k in out.codes, DEFECT(k) and 0<=k and k<5)))'
    in2 = lambda f, x, y: '((%s in out.%s) and (%s in out.%s[%s]))' % (x, f, y, f, x)
    c_ = lambda k: '(%d in out.codes)' % CODES[k]
    full = lambda c, name: {
        'missing': 'forall(x, trig(x in v_source.nodes, imp(%s MISSING(v_emb,v_source,x), (x in out.missing) and %s)))' % (c, c_('MissingChainError')),
        'disc': 'forall(x, trig(x in v_source.nodes, imp(%s DISC(v_emb,v_source,v_target,x), (x in out.disconnected) and %s)))' % (c, c_('DisconnectedChainError')),
        'invalid': 'forall(x,i, trig(v_emb[x][i], imp(%s (x in v_source.nodes) and (x in v_emb) and 0<=i and i<len(v_emb[x]) and not (v_emb[x][i] in v_target.nodes), %s and %s)))' % (c, in2('invalid', 'x', 'v_emb[x][i]'), c_('InvalidNodeError'))}[name]
    LS = lambda c: 'forall(q,x, trig(x in v_labels[q], imp((q in v_labels) and (x in v_labels[q]), MEM(v_emb,x,q) and (x in v_source.nodes) and (q in v_target.nodes) and (%s))))' % c
    LC = lambda c: 'forall(x,i, trig(v_emb[x][i], imp(%s (x in v_source.nodes) and (x in v_emb) and 0<=i and i<len(v_emb[x]) and (v_emb[x][i] in v_target.nodes), (v_emb[x][i] in v_labels) and (x in v_labels[v_emb[x][i]]))))' % c
    OV = ['forall(q,x,y, trig((x in v_labels[q], y in v_labels[q]), imp((q in v_labels) and (x in v_labels[q]) and (y in v_labels[q]) and x!=y, q in v_overlaps)))',
          'forall(q, trig(q in v_overlaps, imp(q in v_overlaps, (q in v_labels) and exists(x, x in v_labels[q]))))']
    EM = lambda c: 'forall(x, trig(x in v_embedded, (x in v_embedded)==(%s OKC(v_emb,v_source,v_target,x))))' % c
    OUT0 = [CODEOK]
    OVQ = lambda c: 'forall(q,x,y, trig((x in v_labels[q], y in v_labels[q]), imp(%s (q in v_labels) and (x in v_labels[q]) and (y in v_labels[q]) and x!=y, %s and %s and %s)))' % (c, in2('overlap', 'q', 'x'), in2('overlap', 'q', 'y'), c_('ChainOverlapError'))
    ONCE = [full('', n) for n in ('missing', 'disc', 'invalid')]
    d1 = '_done[x] and'
    l1 = [LS('_done[x]'), LC(d1), EM(d1)] + OV + [full(d1, n) for n in ('missing', 'disc', 'invalid')] + OUT0
    cur = '(_done[x] or x==v_x)'
    CI = lambda c: 'forall(i, trig(v_embx[i], imp(0<=i and i<_k, %s)))' % c
    SAMEX = '(v_x in v_emb) and same(v_embx,v_emb[v_x]) and (v_x in v_source.nodes) and len(v_embx)>0'
    l2 = [LS(cur), LC(d1)] + OV + [full(d1, n) for n in ('missing', 'disc', 'invalid')] + OUT0 + \
        [CI('imp(v_embx[i] in v_target.nodes, (v_embx[i] in v_labels) and (v_x in v_labels[v_embx[i]])) and imp(not (v_embx[i] in v_target.nodes), %s and %s)' % (in2('invalid', 'v_x', 'v_embx[i]'), c_('InvalidNodeError'))),
         'imp(v_all_present, %s)' % CI('v_embx[i] in v_target.nodes'), 'imp(not v_all_present, exists(i, 0<=i and i<_k and not (v_embx[i] in v_target.nodes)))']
    l3 = ONCE + OUT0 + [OVQ('_done[q] and')]
    l4 = ONCE + OUT0 + [OVQ('_done[q] and')] + ['forall(i, trig(s_0[i], imp(0<=i and i<_k, %s and %s and %s)))' % (in2('overlap', 'v_q', 's_0[i]'), in2('overlap', 'v_q', 'v_root'), c_('ChainOverlapError'))]
    YS = 'forall(x,y, trig(y in v_yielded.adj[x], imp(EDGE(v_yielded,x,y), EDGE(v_yielded,y,x) and exists(p,q, (p in v_labels) and (q in v_labels) and (x in v_labels[p]) and (y in v_labels[q]) and EDGE(v_target,p,q)))))'
    YC = 'forall(k,x,y, trig((s_1[k].first, x in v_labels[s_1[k].first], y in v_labels[s_1[k].second]), imp(0<=k and k<%s and (x in v_labels[s_1[k].first]) and (y in v_labels[s_1[k].second]), EDGE(v_yielded,x,y))))'
    Y1 = 'forall(x,y, trig((x in v_labels[v_p], y in v_labels[v_q]), imp(%s (x in v_labels[v_p]) and (y in v_labels[v_q]), EDGE(v_yielded,x,y))))'
    l5 = [YS, YC % '_k']
    l6 = [YS, YC % 'entry(_k)', Y1 % '_done[x] and']
    l7 = [YS, 'forall(x,y, trig(y in v_yielded.adj[x], imp(entry(EDGE(v_yielded,x,y)), EDGE(v_yielded,x,y))))', 'forall(y, trig(y in v_labels[v_q], imp(_done[y] and (y in v_labels[v_q]), EDGE(v_yielded,v_x,y))))']
    NE = 'forall(k, trig(s_2[k].first, imp(0<=k and k<%s and NOEDGE(v_emb,v_source,v_target,s_2[k].first,s_2[k].second), ' + in2('noedge', 's_2[k].first', 's_2[k].second') + ' and ' + c_('MissingEdgeError') + ')))'
    KEEP = ONCE + OUT0 + [OVQ('')]
    ENS = [('every-missing-chain', full('', 'missing')), ('every-disconnected-chain', full('', 'disc')), ('every-invalid-node', full('', 'invalid')),
           ('every-overlap', 'forall(q,x,y, trig((POS(x,q), POS(y,q)), imp(OVER(v_emb,v_source,v_target,q,x,y), %s and %s and %s)))' % (in2('overlap', 'q', 'x'), in2('overlap', 'q', 'y'), c_('ChainOverlapError'))),
           ('every-missing-edge', 'forall(x,y, trig(y in v_source.adj[x], imp(NOEDGE(v_emb,v_source,v_target,x,y), (%s or %s) and %s)))' % (in2('noedge', 'x', 'y'), in2('noedge', 'y', 'x'), c_('MissingEdgeError'))),
           ('only-defects', CODEOK)]
    add(Contract('diagnose_embedding', requires=REQ + EMPTY, modifies=['out'],
                 loops=[Loop(inv=l1), Loop(inv=l2), Loop(inv=l3), Loop(inv=l4, step_hints=['OVER(v_emb,v_source,v_target,v_q,v_root,v_x)']), Loop(inv=l5), Loop(inv=l6, step_hints=['forall(y, trig(y in v_labels[v_q], imp(y in v_labels[v_q], EDGE(v_yielded,v_x,y))))', 'forall(x,y, trig((x in v_labels[v_p], y in v_labels[v_q]), imp(x!=v_x and _done[x] and (x in v_labels[v_p]) and (y in v_labels[v_q]), EDGE(v_yielded,x,y))))']), Loop(inv=l7), Loop(inv=[NE % '_k'] + KEEP)], ensures=ENS))
    VALID = ['forall(x, trig(x in v_source.nodes, not MISSING(v_emb,v_source,x) and not DISC(v_emb,v_source,v_target,x)))', 'forall(x,q, trig(POS(x,q), not INVALID(v_emb,v_source,v_target,x,q)))',
             'forall(q,x,y, trig((POS(x,q),POS(y,q)), not OVER(v_emb,v_source,v_target,q,x,y)))', 'forall(x,y, trig(y in v_source.adj[x], not NOEDGE(v_emb,v_source,v_target,x,y)))']
    add(Contract('is_valid_embedding', requires=REQ, loops=[Loop(inv=['forall(k, trig(_done[k], not _done[k]))'])],
                 ensures=[('no-only-with-a-defect', 'imp(not result, exists(k, 0<=k and k<5 and DEFECT(k)))')] + [('yes-only-when-valid', 'imp(result, %s)' % v) for v in VALID]))
    ig = lambda k: '(not (%d in v_ignore_errors) and ' % CODES[k]
    VI = [('missing-chain-raises', 'forall(x, trig(x in v_source.nodes, not (%s MISSING(v_emb,v_source,x))))' % (ig('MissingChainError')+'1==1) and')),
          ('disconnected-chain-raises', 'forall(x, trig(x in v_source.nodes, not (%s DISC(v_emb,v_source,v_target,x))))' % (ig('DisconnectedChainError')+'1==1) and')),
          ('invalid-node-raises', 'forall(x,q, trig(POS(x,q), not (%s INVALID(v_emb,v_source,v_target,x,q))))' % (ig('InvalidNodeError')+'1==1) and')),
          ('overlap-raises', 'forall(q,x,y, trig((POS(x,q),POS(y,q)), not (%s OVER(v_emb,v_source,v_target,q,x,y))))' % (ig('ChainOverlapError')+'1==1) and')),
          ('missing-edge-raises', 'forall(x,y, trig(y in v_source.adj[x], not (%s NOEDGE(v_emb,v_source,v_target,x,y))))' % (ig('MissingEdgeError')+'1==1) and'))]
    add(Contract('verify_embedding', requires=REQ, loops=[Loop(inv=['forall(k, trig(_done[k], imp(_done[k], k in v_ignore_errors)))'])], throws='exists(k, 0<=k and k<5 and DEFECT(k) and not (k in v_ignore_errors))',
                 ensures=[('returns-true', 'result')] + VI))
    ex = Exec(P, Registry(), C)
    ZI = lambda n, *d: spec_fn(z3.Function(n, *d))
    ex.spec.funcs.update(POS=ZI('POS', I, I, I), KEY=ZI('KEY', I, z3.ArraySort(I, I), I, I), CONN=ZI('CONN', I, B), DEFECT=ZI('DEFECT', I, B))
    diag_macros(ex.spec)
    return ex, [c for c in L if not c.trusted and c.fn in P.byname]
