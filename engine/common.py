"""shared pieces used by the contract files"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from core import *
from cxx import load_program, ExtractError
from exec_cxx import Exec

REPO = os.environ.get('VERIF_REPO', '/repo')
INC = [REPO + '/include']
_progs = {}


def program(key, src, lang='c++', includes=None, filters=('',), inst=None, defines=(), split=()):
    if key not in _progs:
        _progs[key] = load_program(src, lang, includes or INC, filters, inst, defines, split)
    return _progs[key]


class Unit:
    """one verification unit: an Exec plus the contracts to verify in it"""

    def __init__(self, name, make, only=None, drop=()):
        self.name, self.make, self.only = name, make, only
        self.drop = tuple('ensures:' + d for d in drop)     # postconditions that belong to another property


def counting(name):
    """cnt(dom, key->value array, v): number of keys k in dom with arr[k] == v  (finite dom).
    Axioms proved in /verif/lemmas (Lean)."""
    D = z3.ArraySort(I, B)
    A = z3.ArraySort(I, I)
    f = z3.Function(name, D, A, I, I)
    d, a = z3.Consts('d_%s a_%s' % (name, name), D, A) if False else (z3.Const('d', D), z3.Const('a', A))
    k, v, q = z3.Ints('k v q')
    bb = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
    T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
    dt, df, ak = z3.Store(d, k, T_), z3.Store(d, k, F_), z3.Store(a, k, v)
    wit = z3.Function(name + '_wit', D, A, I, I)
    cnt = [0]

    def fa(vs, b, patterns):
        cnt[0] += 1
        return z3.ForAll(vs, b, patterns=patterns, qid='%s_ax%d' % (name, cnt[0]))
    FIN = lambda x: fin(x)
    ax = [
        fa([a, q], f(z3.K(I, F_), a, q) == 0, patterns=[f(z3.K(I, F_), a, q)]),
        fa([d, a, q], f(d, a, q) >= 0, patterns=[f(d, a, q)]),
        # value update
        fa([d, a, k, v, q], z3.Implies(FIN(d), f(d, ak, q) == f(d, a, q) + z3.If(d[k], bb(v == q) - bb(a[k] == q), 0)),
           patterns=[f(d, ak, q)]),
        # insert / erase key
        fa([d, a, k, q], z3.Implies(FIN(d), f(dt, a, q) == f(d, a, q) + z3.If(d[k], 0, bb(a[k] == q))),
           patterns=[f(dt, a, q)]),
        fa([d, a, k, q], z3.Implies(FIN(d), f(df, a, q) == f(d, a, q) - z3.If(d[k], bb(a[k] == q), 0)),
           patterns=[f(df, a, q)]),
        # witness and positivity
        fa([d, a, q], z3.Implies(z3.And(FIN(d), f(d, a, q) > 0), z3.And(d[wit(d, a, q)], a[wit(d, a, q)] == q)),
           patterns=[f(d, a, q)]),
        fa([d, a, k, q], z3.Implies(z3.And(FIN(d), d[k], a[k] == q), f(d, a, q) >= 1),
           patterns=[z3.MultiPattern(f(d, a, q), a[k])]),
    ]
    return f, ax


def spec_fn(f, *which):
    """expose an SMT function in specifications"""
    def g(ctx, *args):
        vs = [ctx.rv(a) for a in args]
        vs = [coerce(v if z3.is_expr(v) else (z3.BoolVal(v) if isinstance(v, bool) else z3.IntVal(v)), f.domain(i))
              for i, v in enumerate(vs)]
        return f(*vs)
    return g
