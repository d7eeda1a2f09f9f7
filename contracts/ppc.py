"""contracts on the renumbering in find_embedding.hpp: parameter_processor and pathfinder_wrapper"""
from common import *
import graphc
from graphc import AI, GOK, comp_axioms, RELAB, EQV, IDA

PDRIVER = '''
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <random>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <future>
#include "find_embedding/find_embedding.hpp"
'''


def pprog():
    return program('pp', PDRIVER, filters=('find_embedding::parameter_processor', 'find_embedding::pathfinder_wrapper', 'graph::', 'find_embedding::optional_parameters', 'find_embedding::pathfinder_public_interface'), split=('unaryint',))


CF = z3.Function('CF', z3.ArraySort(I, I), I, I)


def cf_axioms():
    a = z3.Const('cfa', z3.ArraySort(I, I))
    i, j, k = z3.Ints('cfi cfj cfk')
    st = z3.Store(a, k, z3.IntVal(1))
    return [z3.ForAll([a], CF(a, 0) == 0, patterns=[CF(a, 0)]),
            z3.ForAll([a, i], z3.Implies(i >= 0, CF(a, i + 1) == CF(a, i) + z3.If(a[i] != 0, 1, 0)), patterns=[z3.MultiPattern(CF(a, i), a[i])]),
            z3.ForAll([a, i, j], z3.Implies(z3.And(0 <= i, i <= j), z3.And(0 <= CF(a, i), CF(a, i) <= CF(a, j), CF(a, j) - CF(a, i) <= j - i)), patterns=[z3.MultiPattern(CF(a, i), CF(a, j))]),
            z3.ForAll([a, k, j], z3.Implies(z3.And(0 <= k, k < j), CF(st, j) == CF(a, j) + z3.If(a[k] != 0, 0, 1)), patterns=[CF(st, j)]),
            z3.ForAll([j], z3.Implies(j >= 0, CF(z3.K(I, z3.IntVal(0)), j) == 0), patterns=[CF(z3.K(I, z3.IntVal(0)), j)])]


CNU = z3.Function('CNU', z3.ArraySort(I, I), z3.ArraySort(I, I), I, I)


def cnu_axioms():
    V, X = z3.Consts('cnv cnx', z3.ArraySort(I, I))
    i, j = z3.Ints('cni cnj')
    c = lambda k: CNU(V, X, k)
    mk = z3.Function('mark', I, I)
    return [z3.ForAll([i], mk(i) == i, patterns=[mk(i)]), z3.ForAll([V, X], c(0) == 0, patterns=[c(0)]),
            z3.ForAll([V, X, i], z3.Implies(i >= 0, c(i + 1) == c(i) + z3.If(X[V[i]] == 0, 1, 0)), patterns=[z3.MultiPattern(c(i), V[i])]),
            z3.ForAll([V, X, i, j], z3.Implies(z3.And(0 <= i, i <= j), z3.And(0 <= c(i), c(i) <= c(j))), patterns=[z3.MultiPattern(c(i), c(j))])]


FX, QR = 'this.var_fixed_unscrewed', 'this.qub_reserved_unscrewed'


def pp_contracts(P):
    C, L = graphc.graph_contracts(P)
    C = dict(C)
    L = []

    def add(c):
        C[c.sig or c.fn] = c
        L.append(c)
    N = ['len(%s)==this.num_vars and len(%s)==this.num_qubits and this.num_vars<=2147483647 and this.num_qubits<=2147483647' % (FX, QR)]
    FC = 'params_.fixed_chains'
    inq = 'forall(u,k, trig({f}[u][k], imp(u in {f} and 0<=k and k<len({f}[u]), 0<={f}[u][k] and {f}[u][k]<this.num_qubits)))'.format(f=FC)
    inu = 'forall(u, trig(u in {f}, imp(u in {f}, 0<=u and u<this.num_vars)))'.format(f=FC)
    ZERO = ['forall(u, trig({0}[u], imp(0<=u and u<this.num_vars, {0}[u]==0)))'.format(FX), 'forall(q, trig({0}[q], imp(0<=q and q<this.num_qubits, {0}[q]==0)))'.format(QR), "CF(arr(%s,'[]'), this.num_vars)==0" % FX]
    V1 = lambda d: 'forall(u, trig({0}[u], imp(0<=u and u<this.num_vars, {0}[u]==b2i(u in {d}))))'.format(FX, d=d)
    Q1 = lambda d, cur=None: ['forall(q, trig({0}[q], imp(0<=q and q<this.num_qubits, 0<={0}[q] and {0}[q]<=1 and imp({0}[q]==1, ({c}) and g_u[q] in {f} and 0<=g_k[q] and g_k[q]<len({f}[g_u[q]]) and {f}[g_u[q]][g_k[q]]==q))))'.format(QR, c='g_u[q] in %s' % d + (' or g_u[q]==_key' if cur else ''), f=FC),
                    'forall(u,k, trig({f}[u][k], imp(u in {d} and u in {f} and 0<=k and k<len({f}[u]), {0}[{f}[u][k]]==1)))'.format(QR, d=d, f=FC)]
    add(Contract('parameter_processor::_reserved', requires=N + ZERO + [inq, inu], modifies=[FX, QR], ghosts={'g_u': AI, 'g_k': AI},
                 loops=[Loop(inv=N + [V1('_done'), "CF(arr(%s,'[]'), this.num_vars)==card(_done)" % FX] + Q1('_done')),
                        Loop(inv=N + [V1('_done or u==_key'), "CF(arr(%s,'[]'), this.num_vars)==card(_done)+1" % FX] + Q1('_done', True) + ['forall(k, trig({f}[_key][k], imp(0<=k and k<_k, {0}[{f}[_key][k]]==1)))'.format(QR, f=FC)],
                             ghost_start=['g_{0} := ite({Q}[{c}]==0, store(g_{0}, {c}, {v}), g_{0})'.format(x, Q=QR, c=FC + '[_key][_k]', v=v) for x, v in (('u', '_key'), ('k', '_k'))])],
                 ensures=[('fixed-are-the-keys', V1(FC)), ('as-many-as-keys', "CF(arr(%s,'[]'), this.num_vars)==len(%s)" % (FX, FC)), ('reserved-are-in-chains', 'forall(q, trig({0}[q], imp(0<=q and q<this.num_qubits and {0}[q]!=0, exists(u,k, u in {f} and 0<=k and k<len({f}[u]) and {f}[u][k]==q))))'.format(QR, f=FC)),
                          ('chains-are-reserved', Q1(FC)[1]), ('sizes', N[0])]))
    PERM = lambda f, n: ['len(%s)==%s' % (f, n), 'forall(k, trig({f}[k], imp(0<=k and k<{n}, 0<={f}[k] and {f}[k]<{n})))'.format(f=f, n=n), 'forall(k,l, trig(({f}[k], {f}[l]), imp(0<=k and k<l and l<{n}, {f}[k]!={f}[l])))'.format(f=f, n=n)]
    ONTO = lambda f, n: 'forall(x, trig(mark(x), imp(0<=x and x<{n}, exists(k, 0<=k and k<{n} and {f}[k]==x))))'.format(f=f, n=n)
    cf = "CF(arr(%s,'[]'), %%s)" % FX
    nf = 'this.num_vars-this.num_fixed'
    FF = lambda f: 'forall(k, trig({f}[k], imp(0<=k and k<this.num_vars, ({X}[{f}[k]]!=0)==(k>={nf}))))'.format(f=f, X=FX, nf=nf)
    filled = '(0<=k and k<front or {nf}<=k and k<back)'.format(nf=nf)
    add(Contract('parameter_processor::_filter_fixed_vars', requires=N + [cf % 'this.num_vars' + '==this.num_fixed', 'this.num_fixed<this.num_vars'], ghosts={'g_at': AI},
                 loops=[Loop(inv=['0<=i and i<=this.num_vars and len(unscrew)==this.num_vars', 'front==i-' + cf % 'i', 'back==%s+' % nf + cf % 'i',
                                  'forall(x, trig(mark(x), g_at[x], imp(0<=x and x<i, (0<=g_at[x] and g_at[x]<front or {nf}<=g_at[x] and g_at[x]<back) and unscrew[g_at[x]]==x)))'.format(nf=nf),
                                  'forall(k, trig(unscrew[k], imp({fl}, 0<=unscrew[k] and unscrew[k]<i and g_at[unscrew[k]]==k and ({X}[unscrew[k]]!=0)==(k>={nf}))))'.format(fl=filled, X=FX, nf=nf)],
                             ghost_start=['g_at := store(g_at, i, ite(%s[i]!=0, back, front))' % FX], decreases='this.num_vars-i', hints=[cf % 'this.num_vars' + '-' + cf % 'i' + '>=0'])],
                 ensures=[('permutation%d' % i, e) for i, e in enumerate(PERM('result', 'this.num_vars'))] + [('onto', ONTO('result', 'this.num_vars')), ('fixed-last', FF('result'))]))
    add(Contract('parameter_processor::_inverse_permutation', requires=['len(f)<=2147483647'] + PERM('f', 'len(f)')[1:] + [ONTO('f', 'len(f)')],
                 loops=[Loop(inv=['0<=i and i<=n and n==len(f) and len(r)==n', 'forall(k, trig(f[k], imp(i<=k and k<n, r[f[k]]==k)))'], decreases='i')],
                 ensures=[('size', 'len(result)==len(f)'), ('undoes', 'forall(k, trig(f[k], imp(0<=k and k<len(f), result[f[k]]==k)))'),
                          ('undone', 'forall(x, trig(result[x], imp(0<=x and x<len(f), 0<=result[mark(x)] and result[mark(x)]<len(f) and f[result[mark(x)]]==x)))')]))
    # between the caller's labels and the solver's
    INV = ['len(this.screw_vars)==this.num_vars and len(this.unscrew_vars)==this.num_vars and 0<=this.num_vars and this.num_vars<=2147483647',
           'forall(u, trig(this.screw_vars[u], imp(0<=u and u<this.num_vars, 0<=this.screw_vars[u] and this.screw_vars[u]<this.num_vars and this.unscrew_vars[this.screw_vars[u]]==u)))',
           'forall(v, trig(this.unscrew_vars[v], imp(0<=v and v<this.num_vars, 0<=this.unscrew_vars[v] and this.unscrew_vars[v]<this.num_vars and this.screw_vars[this.unscrew_vars[v]]==v)))']
    ok = '(0<=V[{0}] and V[{0}]<this.num_vars)'
    cn = "CNU(arr(V,'[]'), arr(%s,'[]'), %%s)" % FX
    res = lambda r, n: [('as-many-as-are-not-fixed', 'len(%s)==' % r + cn % n), ('renumbered-in-order', 'forall(k, trig(V[k], imp(0<=k and k<%s, %s and imp(%s[V[k]]==0, 0<=%s and %s<len(%s) and %s[%s]==this.screw_vars[V[k]]))))' % (n, ok.format('k'), FX, cn % 'k', cn % 'k', r, r, cn % 'k'))]
    add(Contract('parameter_processor::input_vars', requires=INV + ['len(%s)==this.num_vars' % FX], throws='exists(k, 0<=k and k<len(V) and not %s)' % ok.format('k'),
                 loops=[Loop(inv=[e for _, e in res('U', '_k')])], ensures=res('result', 'len(V)')))
    QC = 'this.qub_components'
    inside = '(0<=m[{u}][{i}] and m[{u}][{i}]<len(%s.index) and %s.index[m[{u}][{i}]]==0)' % (QC, QC)
    chain = lambda n, u: 'this.screw_vars[{u}] in {n} and len({n}[this.screw_vars[{u}]])==len(m[{u}])'.format(n=n, u=u)
    per = lambda n, d: [('every-key-is-a-variable', 'forall(u, trig(u in m, imp(%s, 0<=u and u<this.num_vars and %s)))' % (d, chain(n, 'u'))),
                        ('no-other-chains', 'forall(v, trig(v in {n}, imp(v in {n}, 0<=v and v<this.num_vars and this.unscrew_vars[v] in {d})))'.format(n=n, d='m' if d == 'u in m' else '_done')),
                        ('labels-within-the-component', 'forall(u, i, trig(m[u][i], imp(%s and 0<=i and i<len(m[u]), %s and %s[this.screw_vars[u]][i]==%s.label[m[u][i]])))' % (d, inside.format(u='u', i='i'), n, QC))]
    add(Contract('parameter_processor::input_chains', requires=INV + ['len(%s.label)==len(%s.index)' % (QC, QC)],
                 throws='exists(u, u in m and (u<0 or u>=this.num_vars)) or exists(u, i, u in m and 0<=i and i<len(m[u]) and not %s)' % inside.format(u='u', i='i'),
                 loops=[Loop(inv=[e for _, e in per('n', 'u in _done')])], ensures=per('result', 'u in m')))
    return C, L


def make_pp():
    P = pprog()
    C, L = pp_contracts(P)
    reg = Registry()
    reg.ghost['components'] = [('ROOT', TZ3(z3.ArraySort(I, I))), ('KB', TZ3(I))]
    ex = Exec(P, reg, C, axioms=comp_axioms() + cf_axioms() + cnu_axioms())
    sp = ex.spec
    sp.funcs['relab'], sp.funcs['EQV'], sp.funcs['CF'] = spec_fn(RELAB), spec_fn(EQV), spec_fn(CF)
    sp.funcs['CNU'] = spec_fn(CNU)
    sp.funcs['mark'] = spec_fn(z3.Function('mark', I, I))
    sp.funcs['card'] = lambda ctx, d: card(ctx.rv(d))
    sp.funcs['identity'] = lambda ctx: IDA
    return ex, L
