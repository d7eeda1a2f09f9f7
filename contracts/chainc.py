"""contracts on include/find_embedding/chain.hpp"""
from common import *
import fe

cntP, axP = counting('cntP')     # parents: keys whose parent is q
cntL, axL = counting('cntL')     # links: labels whose linking qubit is q
GL = {'QW': TVec(TInt(32, True))}

D = 'dom(this.data)'
DP = "arr(this.data,'{}','first')"

WF = ['WF(this)']
# the delta form of qubit accounting: every operation on one chain changes a qubit's use count by exactly
# the change of that chain's membership
ACC = ('accounting', 'forall(q, imp(0<=q and q<len(QW), QW[q] - b2i(q in this.data) == old(QW[q]) - b2i(old(q in this.data))))')
LEN = ('weights-length', 'len(QW) == old(len(QW))')
SAMEQ = 'forall(q, imp(not (%s), (q in this.data)==old(q in this.data)))'


SETI = TZ3(z3.ArraySort(I, B))
ARRI = TZ3(z3.ArraySort(I, I))
PIN = 'forall(x, trig(dom(this.data)[x], imp(old(x in this.data) and old(this.data[x].second) > old(refs(this,x)), x in this.data)))'


def macros(sp):
    sp.funcs['cntP'] = spec_fn(cntP)
    sp.funcs['cntL'] = spec_fn(cntL)
    sp.define('parents_in(c)', "forall(q, trig(c.data[q].first, imp(q in c.data, c.data[q].first in c.data)))")
    sp.define('links_in(c)', "forall(x, trig(c.links[x], imp(x in c.links, c.links[x] in c.data)))")
    sp.define('refs(c,q)', "cntP(dom(c.data), arr(c.data,'{}','first'), q) + cntL(dom(c.links), arr(c.links,'{}'), q)")
    sp.define('refs_ok(c)', "forall(q, trig(c.data[q].second, imp(q in c.data, c.data[q].second == refs(c,q))))")
    sp.define('ranked(c)', "forall(q, trig(c.data[q].first, imp(q in c.data, c.data[q].first==q or c.rank[c.data[q].first] < c.rank[q])))")
    sp.define('inrange(c)', "forall(q, trig(dom(c.data)[q], imp(q in c.data, 0<=q and q<len(QW))))")
    sp.define('WF(c)', "parents_in(c) and links_in(c) and refs_ok(c) and ranked(c) and inrange(c)")
    # reference counts may exceed the references actually held (a caller pins a qubit); the excess is preserved
    sp.define('branch(c,q,g_T,g_b)', "g_b in c.data and not g_T[g_b] and ite(g_T[q], c.data[g_b].second>=2, q==g_b and c.data[g_b].second>=1 and forall(x, trig(g_T[x], not g_T[x]))) and "
              "forall(x, trig(g_T[x], imp(g_T[x], x in c.data and c.data[x].second==b2i(x!=q) and (g_T[c.data[x].first] or c.data[x].first==g_b) and c.rank[c.data[x].first]==c.rank[x]-1 and c.rank[x]<=c.rank[q] and c.rank[x]>c.rank[g_b]))) and "
              "forall(x, y, trig((g_T[x],g_T[y]), imp(g_T[x] and g_T[y] and c.rank[x]==c.rank[y], x==y)))")
    sp.define('slack_ok(c)', "forall(q, trig(c.data[q].second, imp(q in c.data, c.data[q].second >= refs(c,q))))")
    sp.define('WFS(c)', "parents_in(c) and links_in(c) and slack_ok(c) and ranked(c) and inrange(c)")
    sp.define('slack_kept(c)', "forall(q, trig(c.data[q].second, imp(q in c.data, c.data[q].second - refs(c,q) == old(c.data[q].second) - old(refs(c,q)))))")
    sp.define('sameparents(c)', "forall(q, trig(c.data[q].first, imp(q in c.data, c.data[q].first == old(c.data[q].first))))")
    sp.define('acc(c)', "forall(q, imp(0<=q and q<len(QW), QW[q] - b2i(q in c.data) == old(QW[q]) - b2i(old(q in c.data))))")


def contracts():
    C = {}

    def add(c):
        C[c.sig or c.fn] = c
    for f, post in [
        ('chain::size', 'result == len(this.data)'),
        ('chain::count', 'result == b2i(q in this.data)'),
        ('chain::get_link', 'result == ite(x in this.links, this.links[x], -1)'),
    ]:
        add(Contract(f, ensures=[('value', post)], nothrow=True))
    add(Contract('chain::parent', requires=['q in this.data'], ensures=[('value', 'result == this.data[q].first')]))
    add(Contract('chain::refcount', requires=['q in this.data'], ensures=[('value', 'result == this.data[q].second')]))
    add(Contract('chain::set_link', requires=WF + ['q in this.data', 'x not in this.links'], modifies=['this.data', 'this.links'],
                 ensures=[('well-formed', 'WF(this)'), ('link-set', 'x in this.links and this.links[x] == q'),
                          ('other-links', 'forall(y, imp(y != x, (y in this.links)==old(y in this.links) and this.links[y]==old(this.links[y])))'),
                          ('members', 'dom(this.data) == old(dom(this.data))'), ('parents', 'sameparents(this)'),
                          ('refs', 'forall(y, trig(this.data[y].second, imp(y in this.data, this.data[y].second == old(this.data[y].second) + b2i(y==q))))')]))
    add(Contract('chain::drop_link', requires=WF, modifies=['this.data', 'this.links'],
                 ensures=[('well-formed', 'WF(this)'), ('link-gone', 'x not in this.links'),
                          ('result', 'result == old(ite(x in this.links, this.links[x], -1))'),
                          ('other-links', 'forall(y, imp(y != x, (y in this.links)==old(y in this.links) and this.links[y]==old(this.links[y])))'),
                          ('members', 'dom(this.data) == old(dom(this.data))'), ('parents', 'sameparents(this)'),
                          ('refs', 'forall(y, trig(this.data[y].second, imp(y in this.data, this.data[y].second == old(this.data[y].second) - b2i(old(x in this.links) and y==old(this.links[x])))))')]))
    add(Contract('chain::set_root', requires=['len(this.data)==0', 'len(this.links)==0', '0<=q and q<len(QW)'],
                 modifies=['this', 'QW'],
                 ghost_exit=['this.rank := store(this.rank, q, 0)'],
                 ensures=[('well-formed', 'WF(this)'), ACC, LEN,
                          ('members', 'forall(x, (x in this.data) == (x==q))'),
                          ('root', 'forall(x, (x in this.links) == (x==this.label)) and this.links[this.label]==q'),
                          ('parent', 'this.data[q].first == q'), ('refs', 'this.data[q].second == 2'),
                          ('label', 'this.label == old(this.label)')]))
    add(Contract('chain::clear', requires=['inrange(this)'], modifies=['this', 'QW'],
                 loops=[Loop(inv=['len(QW)==old(len(QW))', 'forall(q, imp(0<=q and q<len(QW), QW[q] == old(QW[q]) - b2i(q in _done0)))'])],
                 ensures=[('well-formed', 'WF(this)'), ACC, LEN, ('empty', 'forall(q, q not in this.data)'),
                          ('nolinks', 'forall(q, q not in this.links)'), ('label', 'this.label == old(this.label)')]))
    add(Contract('chain::add_leaf', requires=WF + ['q not in this.data', 'parent in this.data', '0<=q and q<len(QW)'],
                 modifies=['this.data', 'this.rank', 'QW'],
                 ghost_exit=['this.rank := store(this.rank, q, this.rank[parent]+1)'],
                 ensures=[('well-formed', 'WF(this)'), ACC, LEN,
                          ('members', 'forall(x, (x in this.data) == (old(x in this.data) or x==q))'),
                          ('parent', 'this.data[q].first == parent'),
                          ('others-parents', 'forall(x, imp(old(x in this.data), this.data[x].first == old(this.data[x].first)))'),
                          ('refs', 'this.data[q].second == 0 and forall(x, trig(this.data[x].second, imp(old(x in this.data), this.data[x].second == old(this.data[x].second) + b2i(x==parent))))'),
                          ('rank', 'forall(x, imp(old(x in this.data), this.rank[x]==old(this.rank[x]))) and this.rank[q]==this.rank[parent]+1')]))
    add(Contract('chain::trim_leaf', requires=['WFS(this)'] + ['q in this.data'], modifies=['this.data', 'QW'],
                 ensures=[('well-formed', 'WFS(this)'), ('reference-counts-exact', 'slack_kept(this)'), ACC, LEN,
                          ('result-in', 'result in this.data'), ('size', 'len(this.data) == old(len(this.data)) - b2i(result!=q)'),
                          ('members', 'forall(x, (x in this.data) == (old(x in this.data) and not (x==q and result!=q)))'),
                          ('result', 'result == ite(old(this.data[q].second)==0, old(this.data[q].first), q)'),
                          ('parents', 'sameparents(this)'),
                          ('refs', 'forall(x, trig(this.data[x].second, imp(x in this.data, this.data[x].second == old(this.data[x].second) - b2i(result!=q and x==result))))')]))
    # g_T: a branch hanging off g_b whose qubits have no other reference; if it is one, exactly it is removed
    add(Contract('chain::trim_branch', requires=['WFS(this)'] + ['q in this.data'], modifies=['this.data', 'QW'],
                 ghosts={'g_T': SETI, 'g_b': 'Int'}, ghost_defaults={'g_T': 'emptyset()', 'g_b': '0'},
                 loops=[Loop(inv=['WFS(this)', 'slack_kept(this)', PIN, 'acc(this)', 'len(QW)==old(len(QW))', 'p in this.data', 'imp(p != q, q not in this.data)',
                                  'imp(p == q, this.data[q].second != 0)',
                                  'forall(x, imp(x in this.data, old(x in this.data)))', 'sameparents(this)',
                                                                    'forall(x, trig(this.data[x].second, imp(x in this.data and x!=p, this.data[x].second == old(this.data[x].second))))',
                                  'this.rank[p] <= old(this.rank[q])',
                                  "this.data[p].second == old(arr(this.data,'{}','second'))[p] - b2i(p != old(q))",
                                  'imp(old(branch(this,q,g_T,g_b)), g_T[p] or p==g_b)',
                                  'imp(old(branch(this,q,g_T,g_b)), forall(x, trig(g_T[x], imp(g_T[x], (x in this.data)==(this.rank[x]<=this.rank[p])))))',
                                  'imp(old(branch(this,q,g_T,g_b)) and p==g_b, forall(x, trig(g_T[x], imp(g_T[x], this.rank[x]>this.rank[p]))))',
                                  'imp(old(branch(this,q,g_T,g_b)), forall(x, trig(dom(this.data)[x], imp(old(x in this.data) and x not in this.data, g_T[x]))))',
                                  'forall(x, imp(old(x in this.data) and x not in this.data, this.rank[x] > this.rank[p]))'],
                             decreases='2*len(this.data) + b2i(p != q)')],
                 ensures=[('well-formed', 'WFS(this)'), ('reference-counts-exact', 'slack_kept(this)'), ACC, LEN, ('result-in', 'result in this.data'),
                          ('branch-removed', 'imp(old(branch(this,q,g_T,g_b)), result==g_b and forall(x, trig(dom(this.data)[x], (x in this.data)==(old(x in this.data) and not g_T[x]))))'),
                          ('result-refs', "this.data[result].second == old(arr(this.data,'{}','second'))[result] - b2i(result != q)"),
                          ('pinned-stay', PIN), ('subset', 'forall(x, imp(x in this.data, old(x in this.data)))'),
                          ('parents', 'sameparents(this)'),
                          ('stopped', 'this.data[result].second != 0'),
                          ('others-refs', 'forall(x, trig(this.data[x].second, imp(x in this.data and x!=result, this.data[x].second == old(this.data[x].second))))')]))
    add(Contract('chain::operator=', sig='chain::operator=(constvector<int>&)', returns_ref='this',
                 requires=['inrange(this)', 'forall(i, trig(c[i], imp(0<=i and i<len(c), 0<=c[i] and c[i]<len(QW))))'], modifies=['this', 'QW'],
                 loops=[Loop(inv=['len(QW)==old(len(QW))', 'acc(this)', 'this.label==old(this.label)', 'forall(x, x not in this.links)',
                                  'forall(x, trig(dom(this.data)[x], imp(x in this.data, exists(i, 0<=i and i<_k and c[i]==x))))',
                                  'forall(i, trig(c[i], imp(0<=i and i<_k, c[i] in this.data)))', 'inrange(this)',
                                  'forall(x, trig(this.data[x].first, imp(x in this.data, this.data[x].first==x)))',
                                  'forall(x, trig(this.data[x].second, imp(x in this.data, this.data[x].second==1)))',
                                  'refs_ok(this)'])],
                 ensures=[('well-formed', 'WF(this)'), ACC, LEN, ('label', 'this.label == old(this.label)'),
                          ('nolinks', 'forall(x, x not in this.links)'),
                          ('members', 'forall(x, trig(dom(this.data)[x], (x in this.data) == exists(i, 0<=i and i<len(c) and c[i]==x)))'),
                          ('self-parented', 'forall(x, trig(this.data[x].first, imp(x in this.data, this.data[x].first==x)))')]))
    add(Contract('chain::operator=', sig='chain::operator=(constchain&)', returns_ref='this',
                 requires=['inrange(this)', 'WF(c)'], modifies=['this', 'QW'], ghost_exit=['this.rank := c.rank'],
                 loops=[Loop(inv=['len(QW)==old(len(QW))', 'this.label==old(this.label)', 'forall(q, imp(0<=q and q<len(QW), QW[q] == old(QW[q]) - b2i(old(q in this.data)) + b2i(q in _done0)))',
                                  'same(this.data, c.data)', 'dom(this.data)==dom(c.data)'])],
                 ensures=[('well-formed', 'WF(this)'), ACC, LEN, ('label', 'this.label == old(this.label)'),
                          ('data', 'same(this.data, c.data)'), ('links', 'same(this.links, c.links)')]))
    return C


def make():
    reg = fe.registry()
    C = contracts()
    ex = Exec(fe.prog(), reg, C, globals=GL, iter_adapt={'chain': 'data'}, axioms=axP + axL)
    macros(ex.spec)
    return ex, list(C.values())


# ---------------------------------------------------------------- two chains: adopt, steal, link_path
def pair_contracts():
    C = contracts()

    def add(c):
        C[c.sig or c.fn] = c
    add(Contract('chain::adopt', requires=WF + ['p in this.data', 'q in this.data', 'p != q', 'this.data[q].first == q',
                                               'forall(x, trig(this.data[x].first, imp(x in this.data and this.data[x].first==q, x==q)))'],
                 modifies=['this.data', 'this.rank'], ghost_exit=['this.rank := store(this.rank, q, this.rank[p]+1)'],
                 ensures=[('well-formed', 'WF(this)'), ('parent', 'this.data[q].first == p'), ('members', 'dom(this.data)==old(dom(this.data))'),
                          ('other-parents', 'forall(x, trig(this.data[x].first, imp(x in this.data and x!=q, this.data[x].first==old(this.data[x].first))))'),
                          ('refs', 'forall(x, trig(this.data[x].second, imp(x in this.data, this.data[x].second==old(this.data[x].second)+b2i(x==p)-b2i(x==q))))')]))
    for h in ('universe', 'masked'):
        add(Contract('domain_handler_%s::accepts_qubit' % h, trusted='a fixed predicate of variable and qubit', params=['u', 'q'],
                     ensures=[('value', 'result == accepts(u,q)')]))
    TWO = ('forall(x, imp(0<=x and x<len(QW), QW[x] - b2i(x in this.data) - b2i(x in other.data) == '
           'old(QW[x]) - b2i(old(x in this.data)) - b2i(old(x in other.data))))')
    SAMELINKS = ['forall(x, trig(dom(this.links)[x], imp(x!=other.label, (x in this.links)==old(x in this.links))))',
                 'forall(x, trig(this.links[x], imp(x!=other.label and x in this.links, this.links[x]==old(this.links[x]))))',
                 'forall(x, trig(dom(other.links)[x], imp(x!=this.label, (x in other.links)==old(x in other.links))))',
                 'forall(x, trig(other.links[x], imp(x!=this.label and x in other.links, other.links[x]==old(other.links[x]))))',
                 'this.label==old(this.label)', 'other.label==old(other.label)', 'len(QW)==old(len(QW))']
    EDG = ['edges(this)', 'edges(other)']
    MEMB = ['forall(x, trig(dom(other.data)[x], imp(x in other.data, old(x in other.data))))',
            'forall(x, trig(dom(this.data)[x], imp(x in this.data, old(x in this.data) or (old(x in other.data) and accepts(this.label,x)))))']
    SELF = ['forall(x, trig(this.data[x].first, imp(x in this.data and this.data[x].first==x, old(x in this.data) and old(this.data[x].first)==x)))',
            'forall(x, trig(other.data[x].first, imp(x in other.data and other.data[x].first==x, old(x in other.data) and old(other.data[x].first)==x)))']
    for SIG in ('none,domain_handler_universe,output_handler<true>', 'hival,domain_handler_masked,output_handler<false>'):
      add(Contract('chain::steal', sig='chain::steal(chain&,embedding_problem<fixed_handler_%s>&,int)' % SIG, requires=['WF(this)', 'WF(other)', 'this.label != other.label', 'other.label in this.links', 'this.label in other.links',
                                           'joined(this.links[other.label], other.links[this.label])'] + EDG,
                 modifies=['this.data', 'this.links', 'this.rank', 'other.data', 'other.links', 'QW'],
                 loops=[Loop(inv=['WF(this)', 'WF(other)', 'q in this.data', 'p in other.data', 'joined(q,p)', 'other.label not in this.links', 'this.label not in other.links',
                                  TWO] + MEMB + SELF + EDG + SAMELINKS, decreases='len(other.data)')],
                 ensures=[('well-formed', 'WF(this) and WF(other)'), ('accounting', TWO), ('edges', 'edges(this) and edges(other)'),
                          ('linked', 'other.label in this.links and this.label in other.links'),
                          ('link-is-an-edge', 'joined(this.links[other.label], other.links[this.label])'),
                          ] + [('members%d' % i, m) for i, m in enumerate(MEMB)] + [('self%d' % i, m) for i, m in enumerate(SELF)] + [('links%d' % i, m) for i, m in enumerate(SAMELINKS)]))
    OLDM = 'forall(x, trig(dom(this.data)[x], imp(old(x in this.data), x in this.data)))'
    NEWM = 'forall(x, trig(dom(this.data)[x], imp(x in this.data and not old(x in this.data), g_P[x] and x not in other.data)))'
    add(Contract('chain::link_path', ghosts={'g_P': SETI, 'g_d': ARRI},
                 requires=['WF(this)', 'WF(other)', 'this.label != other.label', 'other.label not in this.links', 'this.label not in other.links', 'q in this.data',
                           'forall(x, trig(dom(this.data)[x], imp(x in this.data, this.data[x].second >= 1)))', 'path_info(parents, other, g_P, g_d)', 'g_P[q]'] + EDG,
                 modifies=['this.data', 'this.links', 'this.rank', 'other.data', 'other.links', 'QW'],
                 ghost_args={('chain::trim_branch', 'g_T'): 'setof(x, x in this.data and not old(x in this.data))', ('chain::trim_branch', 'g_b'): 'g_base'},
                 loops=[Loop(ghost_init=['g_base := q'], ghost_end=['g_base := ite(old(q in this.data), q, g_base)'.replace('old(q in this.data)', 'old(dom(this.data))[q]')],
                             inv=['WF(this)', 'len(QW)==old(len(QW))', 'this.label==old(this.label)', TWO, 'edges(this)', 'q in this.data', 'g_P[q]', 'g_P[p]', 'p==parents[q]', 'g_d[p]<g_d[q]', 'joined(q,p)', OLDM, NEWM,
                                  'g_base in this.data', 'old(dom(this.data))[g_base]', 'imp(old(dom(this.data))[q], q==g_base)',
                                  'forall(x, trig(this.data[x].first, imp(old(dom(this.data))[x], this.data[x].first==old(this.data[x].first))))',
                                  'forall(x, trig(this.data[x].second, imp(old(dom(this.data))[x], this.data[x].second==old(this.data[x].second)+b2i(x==g_base and q!=g_base))))',
                                  'imp(q==g_base, forall(x, trig(dom(this.data)[x], imp(x in this.data, old(dom(this.data))[x]))))',
                                  'forall(x, trig(this.data[x].first, this.data[x].second, imp(x in this.data and not old(dom(this.data))[x], this.data[x].second==b2i(x!=q) and (not old(dom(this.data))[this.data[x].first] or this.data[x].first==g_base) and this.rank[this.data[x].first]==this.rank[x]-1 and this.rank[x]<=this.rank[q] and this.rank[x]>this.rank[g_base])))',
                                  'forall(x, y, trig((dom(this.data)[x],dom(this.data)[y]), imp(x in this.data and y in this.data and not old(dom(this.data))[x] and not old(dom(this.data))[y] and this.rank[x]==this.rank[y], x==y)))',
                                  'forall(x, trig(dom(this.data)[x], imp(x in this.data and not old(dom(this.data))[x], g_d[x]>=g_d[q])))',
                                  ], decreases='g_d[p]')],
                 ensures=[('well-formed', 'WF(this) and WF(other)'), ('accounting', TWO), ('edges', 'edges(this) and edges(other)'),
                          ('linked', 'other.label in this.links and this.label in other.links'),
                          ('link-is-an-edge', 'joined(this.links[other.label], other.links[this.label])'),
                          ('members-stay', OLDM), ('new-members-on-path', NEWM), ('no-loose-qubit', 'forall(x, trig(dom(this.data)[x], imp(x in this.data, this.data[x].second >= 1)))'),
                          ('parents-stay', 'forall(x, trig(this.data[x].first, imp(old(x in this.data), this.data[x].first==old(this.data[x].first))))'),
                          ('new-parents', 'forall(x, trig(this.data[x].first, imp(x in this.data and not old(x in this.data), this.data[x].first != x)))'),
                          ('other-members', 'dom(other.data)==old(dom(other.data))'), ('other-parents', 'forall(x, trig(other.data[x].first, imp(x in other.data, other.data[x].first==old(other.data[x].first))))'),
                          ('other-refs', 'forall(x, trig(other.data[x].second, imp(x in other.data, other.data[x].second>=old(other.data[x].second))))'),
                          ] + [('links%d' % i, m) for i, m in enumerate(SAMELINKS)]))
    return C


adjF = z3.Function('adj', I, I, B)
_x, _y = z3.Ints('x y')
ADJ = [z3.ForAll([_x, _y], adjF(_x, _y) == adjF(_y, _x), patterns=[adjF(_x, _y)])]


def pmacros(sp):
    macros(sp)
    sp.funcs['adj'] = spec_fn(adjF)
    sp.funcs['accepts'] = spec_fn(z3.Function('accepts', I, I, B))
    # adj: the target graph's coupler relation (symmetric); two chains that share a qubit are joined at it
    # parents leads from every marked qubit to `other` along couplers; it stops (-1) only inside `other`
    sp.define('path_info(parents,other,g_P,g_d)', "forall(x, trig(g_P[x], imp(g_P[x], 0<=x and x<len(QW) and x<len(parents) and g_d[x]>=0 and "
              "ite(parents[x]==-1, x in other.data, g_P[parents[x]] and adj(x,parents[x]) and g_d[parents[x]]<g_d[x]))))")
    sp.define('joined(a,b)', 'a==b or adj(a,b)')
    sp.define('edges(c)', 'forall(q, trig(c.data[q].first, imp(q in c.data, joined(q, c.data[q].first))))')


def make_pair():
    reg = fe.registry()
    C = pair_contracts()
    ex = Exec(fe.prog(), reg, C, globals=GL, iter_adapt={'chain': 'data'}, axioms=axP + axL + ADJ)
    pmacros(ex.spec)
    ks = ('chain::adopt', 'chain::steal', 'chain::link_path')
    return ex, [c for c in C.values() if c.fn in ks]


# ---------------------------------------------------------------- freeze / thaw: a chain inside the vector of all chains
def emacros(sp):
    macros(sp)
    # well-formedness of every chain of a vector E, flattened
    sp.define('inr(E,v)', '0<=v and v<len(E)')
    sp.define('E_parents(E)', "forall(v, q, trig(E[v].data[q].first, imp(inr(E,v) and q in E[v].data, E[v].data[q].first in E[v].data)))")
    sp.define('E_links(E)', "forall(v, x, trig(E[v].links[x], imp(inr(E,v) and x in E[v].links, E[v].links[x] in E[v].data)))")
    sp.define('E_refs(E)', "forall(v, q, trig(E[v].data[q].second, imp(inr(E,v) and q in E[v].data, E[v].data[q].second == refs(E[v],q))))")
    sp.define('E_ranked(E)', "forall(v, q, trig(E[v].data[q].first, imp(inr(E,v) and q in E[v].data, E[v].data[q].first==q or E[v].rank[E[v].data[q].first] < E[v].rank[q])))")
    sp.define('E_inrange(E)', "forall(v, q, trig(dom(E[v].data)[q], imp(inr(E,v) and q in E[v].data, 0<=q and q<len(QW))))")
    sp.define('E_labels(E)', "forall(v, trig(E[v].label, imp(inr(E,v), E[v].label==v)))")
    sp.define('E_WF(E)', 'E_parents(E) and E_links(E) and E_refs(E) and E_ranked(E) and E_inrange(E) and E_labels(E)')
    # the chain of u is being refilled: facts about the others only
    sp.define('E_parents2(E,u)', "forall(v, q, trig(E[v].data[q].first, imp(inr(E,v) and v!=u and q in E[v].data, E[v].data[q].first in E[v].data)))")
    sp.define('E_refs2(E,u)', "forall(v, q, trig(E[v].data[q].second, imp(inr(E,v) and v!=u and q in E[v].data, E[v].data[q].second == refs(E[v],q))))")
    # K holds a chain set aside from u: its qubits, its links (keys >= 0) and the links of others to it (keys < 0)
    sp.define('KEPT(K,E,u)', "forall(q, trig(dom(K.data)[q], imp(q in K.data, 0<=q and q<len(QW)))) and "
              "forall(k, trig(dom(K.links)[k], imp(k in K.links and k>=0, inr(E,k) and K.links[k] in K.data and (k==u or -k-1 in K.links)))) and "
              "forall(k, trig(dom(K.links)[k], imp(k in K.links and k<0, inr(E,-k-1) and -k-1!=u and (-k-1) in K.links and K.links[k] in E[-k-1].data and u not in E[-k-1].links)))")
    # links are mutual and name chains of the embedding
    sp.define('E_mutual(E)', "forall(v, w, trig(dom(E[v].links)[w], imp(inr(E,v) and w in E[v].links, inr(E,w) and v in E[w].links)))")


def econtracts():
    C = contracts()

    def add(c):
        C[c.sig or c.fn] = c
    E = ['E_WF(others)']
    oth = [  # what a loop of freeze/thaw keeps about the other chains
        'len(others)==old(len(others))', 'len(QW)==old(len(QW))', 'E_labels(others)',
        "forall(v, q, trig(dom(others[v].data)[q], imp(inr(others,v) and v!=g_u, (q in others[v].data)==old(q in others[v].data))))",
        "forall(v, q, trig(others[v].data[q].first, imp(inr(others,v) and v!=g_u and q in others[v].data, others[v].data[q].first==old(others[v].data[q].first))))",
        "forall(v, x, trig(dom(others[v].links)[x], imp(inr(others,v) and v!=g_u and x!=g_u, (x in others[v].links)==old(x in others[v].links))))",
        "forall(v, x, trig(others[v].links[x], imp(inr(others,v) and v!=g_u and x!=g_u and x in others[v].links, others[v].links[x]==old(others[v].links[x]))))",
    ]
    KEYS = "forall(k, trig(dom(keep.links)[k], (k in keep.links) == %s))"
    add(Contract('chain::freeze', alias={'this': ('others', 'g_u')}, ghosts={'g_u': 'Int'},
                 requires=['inr(others,g_u)', 'E_WF(others)', 'E_mutual(others)'],
                 modifies=['others', 'keep', 'QW'],
                 loops=[Loop(inv=oth + [
                     'E_parents(others)', 'E_links(others)', 'E_refs(others)', 'E_inrange(others)', 'forall(v, trig(others[v].rank, imp(inr(others,v), others[v].rank==old(others[v].rank))))',
                     "same(others[g_u], old(others[g_u]))", 'len(keep.data)==0', "arr(others,'[]','data','?')==old(arr(others,'[]','data','?'))",
                     KEYS % "((k in _done0) or (k<0 and (-k-1) in _done0 and -k-1 != g_u))",
                     "forall(k, trig(keep.links[k], imp(k in _done0, keep.links[k]==old(others[g_u].links[k]))))",
                     "forall(k, trig(keep.links[k], imp(k<0 and (-k-1) in _done0 and -k-1!=g_u, keep.links[k]==old(others[-k-1].links[g_u]))))",
                     "forall(v, trig(dom(others[v].links)[g_u], imp(inr(others,v) and v!=g_u, (g_u in others[v].links)==(old(g_u in others[v].links) and v not in _done0))))",
                     "forall(v, trig(others[v].links[g_u], imp(inr(others,v) and v!=g_u and v not in _done0, others[v].links[g_u]==old(others[v].links[g_u]))))",
                     "forall(v, q, trig(others[v].data[q].second, imp(inr(others,v) and v!=g_u and q in others[v].data, others[v].data[q].second==old(others[v].data[q].second)-b2i(v in _done0 and q==old(others[v].links[g_u])))))",
                 ]), Loop(inv=['len(QW)==old(len(QW))', 'forall(q, imp(0<=q and q<len(QW), QW[q] == old(QW[q]) - b2i(q in _done1)))'])],
                 ensures=[('well-formed', 'E_WF(others)'), ('lengths', 'len(others)==old(len(others)) and len(QW)==old(len(QW))'),
                          ('empty', 'forall(q, q not in others[g_u].data) and forall(x, x not in others[g_u].links)'),
                          ('unlinked', "forall(v, trig(dom(others[v].links)[g_u], imp(inr(others,v), g_u not in others[v].links)))"),
                          ('free', 'forall(q, imp(0<=q and q<len(QW), QW[q] == old(QW[q]) - b2i(old(q in others[g_u].data))))'),
                          ('kept-data', "forall(q, trig(dom(keep.data)[q], (q in keep.data)==old(q in others[g_u].data)))"),
                          ('kept-values', "forall(q, trig(keep.data[q], imp(q in keep.data, keep.data[q]==old(others[g_u].data[q]))))"),
                          ('kept-links', KEYS % "(old(k in others[g_u].links) or (k<0 and old((-k-1) in others[g_u].links) and -k-1 != g_u))"),
                          ('kept-own-links', "forall(k, trig(keep.links[k], imp(old(k in others[g_u].links), keep.links[k]==old(others[g_u].links[k]))))"),
                          ('kept-their-links', "forall(k, trig(keep.links[k], imp(k<0 and old((-k-1) in others[g_u].links) and -k-1!=g_u, keep.links[k]==old(others[-k-1].links[g_u]))))"),
                          ('other-refs', "forall(v, q, trig(others[v].data[q].second, imp(inr(others,v) and v!=g_u and q in others[v].data, others[v].data[q].second==old(others[v].data[q].second)-b2i(old(v in others[g_u].links) and q==old(others[v].links[g_u])))))"),
                          ('size', 'result == old(len(others[g_u].data))'), ('mutual', 'E_mutual(others)'), ('chains', "arr(others,'[]','data','?')==store(old(arr(others,'[]','data','?')),g_u,emptyset())"), ('rank', "same(others[g_u].rank, old(others[g_u].rank))"),
                          ] + [('others%d' % i, o) for i, o in enumerate(oth)]))
    add(Contract('chain::thaw', alias={'this': ('others', 'g_u')}, ghosts={'g_u': 'Int'},
                 requires=['inr(others,g_u)', 'E_WF(others)', 'E_mutual(others)',
                           'forall(q, trig(dom(others[g_u].data)[q], q not in others[g_u].data))', 'forall(x, trig(dom(others[g_u].links)[x], x not in others[g_u].links))',
                           # keep is a chain that was set aside from g_u
                           'KEPT(keep, others, g_u)'],
                 modifies=['others', 'keep', 'QW'],
                 loops=[Loop(inv=['len(QW)==old(len(QW))', 'forall(q, imp(0<=q and q<len(QW), QW[q] == old(QW[q]) + b2i(q in _done0)))']),
                        Loop(inv=oth + [
                     'E_parents2(others,g_u)', 'E_links(others)', 'E_refs2(others,g_u)', 'E_inrange(others)', 'forall(v, trig(others[v].rank, imp(inr(others,v), others[v].rank==old(others[v].rank))))',
                     "forall(q, trig(dom(others[g_u].data)[q], (q in others[g_u].data)==old(q in keep.data)))",
                     "forall(q, trig(others[g_u].data[q], imp(old(q in keep.data), others[g_u].data[q]==old(keep.data[q]))))",
                     "same(keep.links, old(keep.links))", "arr(others,'[]','data','?')==store(old(arr(others,'[]','data','?')),g_u,old(dom(keep.data)))",
                     "forall(x, trig(dom(others[g_u].links)[x], (x in others[g_u].links)==(x>=0 and x in _done1)))",
                     "forall(x, trig(others[g_u].links[x], imp(x in others[g_u].links, others[g_u].links[x]==old(keep.links[x]))))",
                     "forall(v, trig(dom(others[v].links)[g_u], imp(inr(others,v) and v!=g_u, (g_u in others[v].links)==(-v-1 in _done1))))",
                     "forall(v, trig(others[v].links[g_u], imp(inr(others,v) and v!=g_u and g_u in others[v].links, others[v].links[g_u]==old(keep.links[-v-1]))))",
                     "forall(v, q, trig(others[v].data[q].second, imp(inr(others,v) and v!=g_u and q in others[v].data, others[v].data[q].second==old(others[v].data[q].second)+b2i((-v-1) in _done1 and q==old(keep.links[-v-1])))))",
                 ])],
                 ensures=[('lengths', 'len(others)==old(len(others)) and len(QW)==old(len(QW))'),
                          ('used', 'forall(q, imp(0<=q and q<len(QW), QW[q] == old(QW[q]) + b2i(old(q in keep.data))))'),
                          ('members', "forall(q, trig(dom(others[g_u].data)[q], (q in others[g_u].data)==old(q in keep.data)))"),
                          ('data', "forall(q, trig(others[g_u].data[q], imp(old(q in keep.data), others[g_u].data[q]==old(keep.data[q]))))"),
                          ('chains', "arr(others,'[]','data','?')==store(old(arr(others,'[]','data','?')),g_u,old(dom(keep.data)))"),
                          ('own-links', "forall(x, trig(dom(others[g_u].links)[x], (x in others[g_u].links)==(x>=0 and old(x in keep.links))))"),
                          ('own-link-values', "forall(x, trig(others[g_u].links[x], imp(x in others[g_u].links, others[g_u].links[x]==old(keep.links[x]))))"),
                          ('their-links', "forall(v, trig(dom(others[v].links)[g_u], imp(inr(others,v) and v!=g_u, (g_u in others[v].links)==old(-v-1 in keep.links))))"),
                          ('their-link-values', "forall(v, trig(others[v].links[g_u], imp(inr(others,v) and v!=g_u and g_u in others[v].links, others[v].links[g_u]==old(keep.links[-v-1]))))"),
                          ('other-refs', "forall(v, q, trig(others[v].data[q].second, imp(inr(others,v) and v!=g_u and q in others[v].data, others[v].data[q].second==old(others[v].data[q].second)+b2i(old(-v-1 in keep.links) and q==old(keep.links[-v-1])))))"),
                          ] + [('others%d' % i, o) for i, o in enumerate(oth)]))
    # composition lemma: a client that sets a chain aside and puts it back
    add(Contract('freeze_thaw', requires=['inr(others,u)', 'E_WF(others)', 'E_mutual(others)'], modifies=['others', 'keep', 'QW'],
                 ensures=[('members', "forall(v, q, imp(inr(others,v), (q in others[v].data)==old(q in others[v].data)))"),
                          ('parents', "forall(v, q, imp(inr(others,v) and old(q in others[v].data), others[v].data[q].first==old(others[v].data[q].first)))"),
                          ('refcounts', "forall(v, q, imp(inr(others,v) and old(q in others[v].data), others[v].data[q].second==old(others[v].data[q].second)))"),
                          ('links', "forall(v, x, imp(inr(others,v), (x in others[v].links)==old(x in others[v].links)))"),
                          ('link-values', "forall(v, x, imp(inr(others,v) and x!=u and v!=u and old(x in others[v].links), others[v].links[x]==old(others[v].links[x])))"),
                          ('link-values-own', "forall(x, imp(old(x in others[u].links), others[u].links[x]==old(others[u].links[x])))"),
                          ('link-values-theirs', "forall(v, imp(inr(others,v) and v!=u and old(u in others[v].links), others[v].links[u]==old(others[v].links[u])))"),
                          ('labels', 'E_labels(others)'), ('count', 'len(others)==old(len(others))'),
                          ('use-counts', 'forall(q, imp(0<=q and q<len(QW), QW[q]==old(QW[q])))')]))
    return C


def make_undo():
    reg = fe.registry()
    C = econtracts()
    ex = Exec(fe.prog(), reg, C, globals=GL, iter_adapt={'chain': 'data'}, axioms=axP + axL)
    emacros(ex.spec)
    ks = ['chain::freeze', 'chain::thaw', 'freeze_thaw', 'chain::clear', 'chain::set_link', 'chain::drop_link']
    return ex, [C[k] for k in ks if k in C]
