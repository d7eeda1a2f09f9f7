"""contracts on include/find_embedding/embedding_problem.hpp: variable orders, neighbour shuffles, handlers"""
from common import *
import fe, embc

GLE = dict(embc.GLE)


def macros(sp):
    # c[a..] are distinct nodes, exactly those that became visited since `old`
    sp.define('NBR_OK(nb,n)', 'len(nb)==n and forall(v, i, trig(nb[v][i], imp(0<=v and v<n and 0<=i and i<len(nb[v]), 0<=nb[v][i] and nb[v][i]<n)))')
    sp.define('BITS(vis)', 'forall(v, trig(vis[v], imp(0<=v and v<len(vis), vis[v]==0 or vis[v]==1)))')
    sp.define('PREFIX(c,oc)', 'len(c)>=len(oc) and forall(j, trig(c[j], oc[j], imp(0<=j and j<len(oc), c[j]==oc[j])))')
    sp.define('NEWRANGE(c,a,vis,ovis)', 'forall(j, trig(c[j], imp(a<=j and j<len(c), 0<=c[j] and c[j]<len(vis) and vis[c[j]]==1 and ovis[c[j]]==0)))')
    sp.define('DISTINCT(c,a)', 'forall(i, j, trig((c[i],c[j]), imp(a<=i and i<j and j<len(c), c[i]!=c[j])))')
    sp.define('ALLNEW(c,a,vis,ovis)', 'forall(y, trig(vis[y], imp(0<=y and y<len(vis) and vis[y]==1 and ovis[y]==0, exists(j, a<=j and j<len(c) and c[j]==y))))')
    sp.define('AT(c,a,g_pos,y)', 'a<=g_pos[y] and g_pos[y]<len(c) and c[g_pos[y]]==y')
    sp.define('MONO(vis,ovis)', 'len(vis)==len(ovis) and forall(y, trig(vis[y], imp(0<=y and y<len(vis) and ovis[y]==1, vis[y]==1)))')


def order_contracts():
    C = {}

    def add(c, k=None):
        C[k or c.sig or c.fn] = c
    REQ = ['BITS(visited)', 'NBR_OK(neighbors,len(visited))', '0<=x and x<len(visited) and visited[x]==0']
    ENS = [('bits', 'BITS(visited)'), ('monotone', 'MONO(visited,old(visited))'), ('prefix', 'PREFIX(component,old(component))'), ('only-new-nodes', 'NEWRANGE(component,old(len(component)),visited,old(visited))'),
           ('once', 'DISTINCT(component,old(len(component)))'), ('all-visited-nodes-listed', 'ALLNEW(component,old(len(component)),visited,old(visited))'), ('start-visited', 'visited[old(x)]==1')]
    INV = ['BITS(visited)', 'MONO(visited,old(visited))', 'PREFIX(component,old(component))', 'NEWRANGE(component,old(len(component)),visited,old(visited))',
           'DISTINCT(component,old(len(component)))', 'ALLNEW(component,old(len(component)),visited,old(visited))', 'visited[old(x)]==1']
    add(Contract('embedding_problem_base::dfs_component', requires=REQ, ensures=ENS, modifies=['component', 'visited'], this_fields=['params'], ghosts={'g_c': TZ3(z3.ArraySort(I, I)), 'g_n': 'Int'},
                 loops=[Loop(inv=INV + ['old(len(component))<=front and front<=len(component)']),
                        Loop(inv=INV + ['len(component)>=lastback', 'lastback>=front', 'forall(j, trig(component[j], imp(0<=j and j<lastback, component[j]==entry(component[j]))))'],
                             ghost_start=["g_c := arr(component,'[]')", 'g_n := len(component)'], step_hints=['forall(j, trig(g_c[j], imp(0<=j and j<g_n, component[j]==g_c[j])))'])]))
    AI = TZ3(z3.ArraySort(I, I))
    # breadth first: a newly visited node is listed or still queued, exactly once
    QN = 'forall(k, trig(pq[k].node, imp(k in pq, 0<=pq[k].node and pq[k].node<len(visited))))'
    QV = ['forall(k, trig(pq[k].node, imp(k in pq, visited[pq[k].node]==1 and old(visited)[pq[k].node]==0)))',
          'forall(k, l, trig((pq[k].node,pq[l].node), imp(k in pq and l in pq and k!=l, pq[k].node!=pq[l].node)))',
          'forall(k, j, trig((pq[k].node,component[j]), imp(k in pq and old(len(component))<=j and j<len(component), pq[k].node!=component[j])))',
          'forall(y, trig(visited[y], imp(0<=y and y<len(visited) and visited[y]==1 and old(visited)[y]==0, AT(component,old(len(component)),g_pos,y) or (g_key[y] in pq and pq[g_key[y]].node==y))))']
    SHUF = ['forall(y, trig(visited[y], imp(0<=y and y<len(visited) and visited[y]==0, y<len(shuffled))))']
    B = ['BITS(visited)', 'MONO(visited,old(visited))', 'PREFIX(component,old(component))', 'NEWRANGE(component,old(len(component)),visited,old(visited))',
         'DISTINCT(component,old(len(component)))', 'visited[old(x)]==1', QN] + QV + SHUF
    DB = 'forall(k, trig(pq[k].dist, imp(k in pq, 0<=pq[k].dist)))'
    add(Contract('embedding_problem_base::bfs_component', requires=REQ + SHUF, ensures=ENS, modifies=['component', 'visited'], this_fields=['params'],
                 ghosts={'g_pos': AI, 'g_key': AI, 'g_n': 'Int'},
                 loops=[Loop(inv=B, ghost_init=['g_key := store(g_key, x, lastkey(pq))']), Loop(inv=B + ['len(component)>=entry(len(component))', '0<=x and x<len(visited)'],
                             ghost_init=['g_pos := store(g_pos, x, len(component)-1)'], ghost_start=['g_n := len(pq)'], ghost_end=['g_key := ite(len(pq)>g_n, store(g_key, y, lastkey(pq)), g_key)'])]))
    AL = 'forall(y, trig(visited[y], imp(0<=y and y<len(visited) and visited[y]==1 and old(visited)[y]==0, AT(component,old(len(component)),g_pos,y))))'
    P = ['BITS(visited)', 'MONO(visited,old(visited))', 'PREFIX(component,old(component))', 'NEWRANGE(component,old(len(component)),visited,old(visited))',
         'DISTINCT(component,old(len(component)))', AL, QN, SHUF[0],
         'visited[old(x)]==1 or exists(k, k in pq and pq[k].node==old(x))']
    for q in ('min', 'max'):
        add(Contract('embedding_problem_base::pfs_component', requires=REQ + SHUF + ['forall(v, trig(len(neighbors[v]), imp(0<=v and v<len(neighbors), len(neighbors[v])<=1000000000)))'], ensures=ENS, modifies=['component', 'visited'], this_fields=['params'], sig='embedding_problem_base::pfs_component<%s>' % {'min': 'priority_node<int>', 'max': 'max_heap_tag'}[q], tag='pfs_component<%s_queue<int>>' % q,
                     ghosts={'g_pos': AI},
                     loops=[Loop(inv=P), Loop(inv=P + ['0<=x and x<len(visited)', 'visited[x]==1'], ghost_init=['g_pos := store(g_pos, x, len(component)-1)']), Loop(inv=['0-_k<=d and d<=0'])]))
    # the order itself: every free variable exactly once
    SH = ['len(this.var_order_shuffle)==this.num_v', 'forall(j, trig(this.var_order_shuffle[j], imp(0<=j and j<this.num_v, 0<=this.var_order_shuffle[j] and this.var_order_shuffle[j]<this.num_v)))',
          'forall(v, trig(mark(v), imp(0<=v and v<this.num_v, exists(j, 0<=j and j<this.num_v and this.var_order_shuffle[j]==v))))']
    VIS = ['len(this.var_order_visited)==this.num_v+this.num_f', 'BITS(this.var_order_visited)',
           'forall(v, trig(this.var_order_visited[v], imp(this.num_v<=v and v<this.num_v+this.num_f, this.var_order_visited[v]==1)))']
    add(Contract('embedding_problem_base::var_order', modifies=['this.var_order_space', 'this.var_order_shuffle', 'this.var_order_visited'], ghosts={'g_at': AI},
                 requires=['this.num_v>=0', 'this.num_f>=0', 'this.num_v+this.num_f<1000000000', 'NBR_OK(this.var_nbrs,this.num_v+this.num_f)',
                           'forall(v, trig(len(this.var_nbrs[v]), imp(0<=v and v<len(this.var_nbrs), len(this.var_nbrs[v])<=1000000000)))'],
                 loops=[Loop(inv=['0<=v and v<=this.num_v', 'len(this.var_order_shuffle)==this.num_v-v', 'forall(j, trig(this.var_order_shuffle[j], imp(0<=j and j<this.num_v-v, this.var_order_shuffle[j]==this.num_v-1-j)))',
                             'forall(w, trig(mark(w), imp(v<=w and w<this.num_v, g_at[w]==this.num_v-1-w and this.var_order_shuffle[g_at[w]]==w)))'], ghost_end=['g_at := store(g_at, v, len(this.var_order_shuffle)-1)']),
                        Loop(inv=SH + VIS + ['forall(j, trig(this.var_order_shuffle[j], imp(0<=j and j<_k, this.var_order_visited[this.var_order_shuffle[j]]==1)))',
                                                 'DISTINCT(this.var_order_space,0)', 'forall(j, trig(this.var_order_space[j], imp(0<=j and j<len(this.var_order_space), 0<=this.var_order_space[j] and this.var_order_space[j]<this.num_v and this.var_order_visited[this.var_order_space[j]]==1)))',
                                                 'forall(y, trig(this.var_order_visited[y], imp(0<=y and y<this.num_v and this.var_order_visited[y]==1, exists(j, 0<=j and j<len(this.var_order_space) and this.var_order_space[j]==y))))'])],
                 returns_ref='this.var_order_space',
                 ensures=[('keep-reuses-the-last-order', 'imp(order==5, same(this.var_order_space,old(this.var_order_space)))'),
                          ('only-free-variables', 'imp(order!=5, forall(j, trig(result[j], imp(0<=j and j<len(result), 0<=result[j] and result[j]<this.num_v))))'),
                          ('once', 'imp(order!=5, DISTINCT(result,0))'),
                          ('every-free-variable', 'imp(order!=5, forall(v, trig(mark(v), imp(0<=v and v<this.num_v, exists(j, 0<=j and j<len(result) and result[j]==v)))))')]))
    # shuffled neighbour lists: the list is rearranged, nothing is added, lost or repeated
    add(Contract('embedding_problem_base::randint', requires=['a<=b'], ensures=['a<=result', 'result<=b']))
    PERM = [('same-length', 'len(result)==len(old(this.var_nbrs)[u])'),
            ('nothing-new', 'forall(j, trig(result[j], imp(0<=j and j<len(result), exists(i, 0<=i and i<len(result) and old(this.var_nbrs)[u][i]==result[j]))))'),
            ('nothing-lost', 'forall(i, trig(old(this.var_nbrs)[u][i], imp(0<=i and i<len(result), exists(j, 0<=j and j<len(result) and result[j]==old(this.var_nbrs)[u][i]))))'),
            ('nothing-repeated', 'imp(forall(i, j, trig((old(this.var_nbrs)[u][i],old(this.var_nbrs)[u][j]), imp(0<=i and i<j and j<len(result), old(this.var_nbrs)[u][i]!=old(this.var_nbrs)[u][j]))), DISTINCT(result,0))'),
            ('others-unchanged', 'len(this.var_nbrs)==old(len(this.var_nbrs)) and forall(v, trig(this.var_nbrs[v], imp(0<=v and v<len(this.var_nbrs) and v!=u, same(this.var_nbrs[v],old(this.var_nbrs)[v]))))')]
    for t in ('shuffle_first', 'rndswap_first'):
        sg = 'embedding_problem_base::var_neighbors(int,%s)' % t
        add(Contract('embedding_problem_base::var_neighbors', sig=sg, tag='var_neighbors(%s)' % t, modifies=['this.var_nbrs[u]'],
                     requires=['0<=u and u<len(this.var_nbrs)', 'len(this.var_nbrs[u])<1000000000'], returns_ref='this.var_nbrs[u]', ensures=PERM))
    return C


def make(which='hm'):
    reg = embc.registry()
    C = order_contracts()
    ex = Exec(fe.prog2(which, 'int, find_embedding::min_heap_tag'), reg, C, globals=GLE, iter_adapt={'chain': 'data'})
    macros(ex.spec)
    ex.spec.funcs['mark'] = spec_fn(z3.Function('mark', I, I))     # uninterpreted; only steers instantiation
    return ex, list(C.values())
