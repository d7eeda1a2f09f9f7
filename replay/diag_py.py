from pybuild import *
import collections, itertools
tree(bare=True)
import networkx as nx
from minorminer.utils import diagnostic as D
from minorminer.utils.exceptions import *
from minorminer.utils.exceptions import EmbeddingError

LABELS = [lambda i: i, lambda i: 'n%d' % i, lambda i: (i // 3, i % 3), lambda i: i if i % 2 else str(i), lambda i: frozenset([i]), lambda i: -i]


class Odd(dict):
    """a mapping whose missing keys raise a subclass of KeyError"""
    class Gone(KeyError):
        pass

    def __missing__(self, k):
        raise Odd.Gone(k)


def graph(n, p, f, edges_only):
    E = [(f(i), f(j)) for i in range(n) for j in range(i + 1) if (R.random() < p if i != j else R.random() < .05)]
    if edges_only:
        return E
    G = nx.Graph()
    V = [f(i) for i in range(n)]
    R.shuffle(V)
    G.add_nodes_from(V)
    R.shuffle(E)
    G.add_edges_from(E)
    return G


def one():
    n, m = R.choice((0, 1, 2, 3, 4, 5, 6)), R.choice((0, 1, 3, 5, 8, 12))
    f, g = R.choice(LABELS), R.choice(LABELS)
    S, T = graph(n, R.random(), f, R.random() < .2), graph(m, R.choice((.2, .5, .9)), g, R.random() < .2)
    Sg, Tg = nx.Graph(S), nx.Graph(T)
    emb, free = {}, list(Tg.nodes())
    R.shuffle(free)
    mode = R.random()
    for x in Sg:
        if R.random() < .06:
            continue
        if mode < .5 and free:        # grow a connected chain of unused nodes
            c = [free.pop()]
            for _ in range(R.randint(0, 3)):
                nb = [q for p in c for q in Tg.neighbors(p) if q in free]
                if nb:
                    q = R.choice(nb)
                    free.remove(q)
                    c.append(q)
        else:
            c = [R.choice(list(Tg.nodes()) or [g(0)]) for _ in range(R.randint(1, 4))]
        if R.random() < .08:
            c.append(R.choice(['absent', g(m), None, g(0)]))
        if R.random() < .05:
            c = []
        if R.random() < .1 and c:
            c.append(R.choice(c))
        R.shuffle(c)
        emb[x] = R.choice((list, tuple))(c)
    if R.random() < .2:
        emb['nobody'] = ['absent']
    if R.random() < .3:
        emb = Odd(emb)
    case('diagnose_embedding(%r,\n source %s, target %s)' % (dict(emb), (list(Sg.nodes()), list(Sg.edges())) if isinstance(S, nx.Graph) else S, (list(Tg.nodes()), list(Tg.edges())) if isinstance(T, nx.Graph) else T))
    want = collections.Counter()
    ok = {}
    for x in Sg:
        c = emb[x] if x in emb else ()
        if not len(c):
            want[MissingChainError, x] += 1
            continue
        bad = [q for q in c if q not in Tg]
        for q in bad:
            want[InvalidNodeError, x, q] += 1
        if not bad:
            ok[x] = set(c)
            reach, todo = {c[0]}, [c[0]]
            while todo:
                p = todo.pop()
                for q in ok[x] - reach:
                    if Tg.has_edge(p, q):
                        reach.add(q)
                        todo.append(q)
            if reach != ok[x]:
                want[DisconnectedChainError, x] += 1
    for x, y in Sg.edges():
        if x != y and x in ok and y in ok and not any(Tg.has_edge(p, q) for p in ok[x] for q in ok[y]):
            want[MissingEdgeError, frozenset((x, y))] += 1
    users = collections.defaultdict(set)
    for x in Sg:
        for q in (emb[x] if x in emb else ()):
            if q in Tg:
                users[q].add(x)
    got, over, seq = collections.Counter(), collections.defaultdict(list), []
    for e in D.diagnose_embedding(emb, S, T):
        seq.append(e)
        if e[0] is ChainOverlapError:
            over[e[1]].append(e[2:])
        elif e[0] is MissingEdgeError:
            got[e[0], frozenset(e[1:])] += 1
        else:
            got[tuple(e)] += 1
    if got != want:
        fail('reported %r, expected %r' % (dict(got - want), dict(want - got)))
    for q, us in users.items():
        if (len(us) > 1) != (q in over):
            fail('target node %r is used by %r, overlap reported: %r' % (q, us, over.get(q)))
    for q, ps in over.items():
        if any(a == b or a not in users[q] or b not in users[q] for a, b in ps) or set(itertools.chain(*ps)) != users[q] or len(ps) != len(users[q]) - 1:
            fail('target node %r is used by %r, overlaps reported: %r' % (q, users[q], ps))
    if D.is_valid_embedding(emb, S, T) != (not seq):
        fail('is_valid_embedding disagrees with the diagnosis %r' % seq)
    ign = tuple(R.sample([MissingChainError, ChainOverlapError, DisconnectedChainError, InvalidNodeError, MissingEdgeError], R.choice((0, 0, 1, 2, 4))))
    first = [e for e in D.diagnose_embedding(emb, S, T) if e[0] not in ign]
    try:
        r = D.verify_embedding(emb, S, T, ign) if ign else D.verify_embedding(emb, S, T)
        if first or r is not True:
            fail('verify_embedding(ignore_errors=%r) accepts although %r' % (ign, first))
    except EmbeddingError as e:
        if not first or type(e) is not first[0][0] or str(e) != str(first[0][0](*first[0][1:])):
            fail('verify_embedding raised %r, the first error is %r' % (e, first[:1]))


run(one)
