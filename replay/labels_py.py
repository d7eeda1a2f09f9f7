from pybuild import *
import re
tree()
build('minorminer/_minorminer.pyx', 'c++')
src = open(os.path.join(WD, 'py', 'minorminer', 'subgraph.pyx')).read()
m = re.search(r'^cdef class _labeldict\(dict\):\n(?:(?:[ \t].*)?\n)+', src, re.M)
second = None
os.rename(os.path.join(WD, 'py', 'minorminer', '__init__.py'), os.path.join(WD, 'py', 'minorminer', 'init.txt'))
open(os.path.join(WD, 'py', 'minorminer', '__init__.py'), 'w').close()
if m:
    with open(os.path.join(WD, 'py', 'sublabel.pyx'), 'w') as f:
        f.write(m.group(0))
    build('sublabel.pyx', 'c++')
    import sublabel
    second = sublabel._labeldict
import minorminer._minorminer as M
import networkx as nx

KINDS = [lambda i: i, lambda i: 'v%d' % i, lambda i: (i, 'x'), lambda i: frozenset([i, -1]), lambda i: i / 2, lambda i: None if i == 3 else i, lambda i: -i, lambda i: bytes([i % 250])]


def dicts():
    cls = R.choice([M.labeldict] + [second] * (second is not None))
    f = R.choice(KINDS)
    ops = [f(R.randint(0, R.choice((3, 20)))) for _ in range(R.randint(0, 30))]
    case('%s: lookups %r' % (cls.__name__, ops))
    L, num = cls(), {}
    for o in ops:
        want = num.setdefault(o, len(num))
        if L[o] != want:
            fail('label %r got number %r instead of %d' % (o, L[o], want))
        if o not in L or len(L) != len(num):
            fail('%d labels recorded after %d' % (len(L), len(num)))
        i = R.randrange(len(num))
        if L.label(i) != [k for k, v in num.items() if v == i][0]:
            fail('number %d belongs to %r' % (i, L.label(i)))
        if hasattr(L, 'shuffle') and R.random() < .1:
            L.shuffle(random.Random(R.random()))
            if sorted(L[x] for x in num) != list(range(len(num))):
                fail('after shuffling the numbers are %r' % [L[x] for x in num])
            num = {x: L[x] for x in num}
            for x in num:
                if L.label(L[x]) != x:
                    fail('after shuffling number %d belongs to %r, not %r' % (L[x], L.label(L[x]), x))
    absent = object()
    if absent in L or len(L) != len(num):
        fail('a label nobody asked for is recorded')


def check(what, emb, S, T, fixed=()):
    if set(emb) != set(S):
        fail('%s: chains for %r, the source has %r' % (what, list(emb), list(S)))
    used = set()
    for x, c in emb.items():
        if not c or len(set(c)) != len(c) or not set(c) <= set(T) or used & set(c):
            fail('%s: the chain of %r is %r' % (what, x, c))
        used |= set(c)
        if not nx.is_connected(T.subgraph(c)):
            fail('%s: the chain of %r is not connected: %r' % (what, x, c))
    for x, y in S.edges():
        if x != y and not (x in fixed and y in fixed) and not any(T.has_edge(p, q) for p in emb[x] for q in emb[y]):
            fail('%s: the edge %r,%r has no coupler' % (what, x, y))
    for x in fixed:
        if set(emb[x]) != set(fixed[x]):
            fail('%s: the fixed chain of %r became %r' % (what, x, emb[x]))


def problem():
    n, r, c = R.randint(1, 5), R.randint(2, 4), R.randint(2, 5)
    f, g = [R.choice([k for k in KINDS if k(3) is not None]) for _ in '12']
    S, T = nx.Graph(), nx.Graph()
    V, Q = [f(i + R.choice((0, 7))) for i in range(n)], [g(i) for i in range(r * c)]
    R.shuffle(V)
    R.shuffle(Q)
    S.add_nodes_from(V)
    V = list(S)
    for i in range(len(V)):
        for j in range(i):
            if R.random() < .5:
                S.add_edge(V[i], V[j])
    T.add_nodes_from(R.sample(Q, len(Q)))
    for a in range(r):
        for b in range(c):
            for u, v in ((a, b + 1), (a + 1, b), (a + 1, b + 1)):
                if u < r and v < c:
                    T.add_edge(Q[a * c + b], Q[u * c + v])
    if R.random() < .3:
        T.add_node('extra')
    kw = dict(random_seed=R.randrange(2**32), tries=3, timeout=5)
    fixed = {}
    if R.random() < .4 and len(V) > 1:
        fixed = {x: [q] for x, q in zip(R.sample(V, R.randint(1, len(V) - 1)), R.sample(Q, min(len(V), len(Q))))}
        kw['fixed_chains'] = fixed
    init = {x: [R.choice(Q)] for x in R.sample(V, R.randint(0, len(V)))} if R.random() < .3 else {}
    if init:
        kw['initial_chains'] = init
    case('source %r %r\ntarget %r\n%r' % (V, list(S.edges()), list(T.edges()), kw))
    s, t = (list(S.edges()) if R.random() < .3 and not list(nx.isolates(S)) and len(S) > 1 else S), (T if R.random() < .7 else list(T.edges()))
    S2, T2 = nx.Graph(s) if isinstance(s, list) else s, nx.Graph(t) if isinstance(t, list) else t
    if not isinstance(s, list) or s:
        emb = M.find_embedding(s, t, **kw)
        if emb:
            check('find_embedding', emb, S2, T2, fixed)
        if {q for c in fixed.values() for q in c} >= set(T2) - set(nx.isolates(T2)):
            return      # no qubit left: the constructor refuses
        mi = M.miner(s, t, **kw)
        e = mi.find_embedding()
        if e:
            check('miner.find_embedding', e, S2, T2, fixed)
            mi.set_initial_chains({x: list(c) for x, c in e.items() if R.random() < .8})
            e = mi.find_embedding()
            if e:
                check('miner.find_embedding after set_initial_chains', e, S2, T2, fixed)
        order = R.sample(list(S2), len(S2))
        e = mi.quickpass(varorder=order)
        if set(e) == set(S2) and not any(set(e[x]) & set(e[y]) for x in e for y in e if x != y):
            check('miner.quickpass', e, S2, T2, fixed)
        if not set(e) <= set(S2) or not all(set(c) <= set(T2) for c in e.values()):
            fail('quickpass answers with labels of nobody: %r' % e)


def one():
    if R.random() < .7:
        return dicts()
    try:
        problem()
    except RuntimeError as e:
        if 'Failed during initialization' not in str(e) and 'too few nodes or edges' not in str(e):     # over-constrained: refused
            raise


run(one)
