"""contracts on include/find_embedding/pathfinder.hpp: the incumbent"""
from common import *
import fe, chainc, embc


def improvement():
    C = {}

    def add(c):
        C[c.sig or c.fn] = c
    S = embc.simple()
    C.update(S)
    st = S['embedding::statistics']
    REQ = [e.replace('this.', 'emb.') for _, e in st.requires]
    ENS = [(n, e.replace('this.', 'emb.').replace('stats', 'this.best_stats').replace('result', 'EP.embedded')) for n, e in st.ensures if n != 'yes-or-no']
    add(Contract('embedding::operator=', trusted=True, modifies=['this.var_embedding'], returns_ref='this', ensures=[('copied', 'same(this.var_embedding, other.var_embedding)')]))
    for f in ('major_info', 'minor_info'):
        add(Contract('output_handler::' + f, trusted=True))
    add(Contract('pathfinder_base::check_improvement', ghosts=st.ghosts, ghost_args={'g_cnt': 'g_cnt'}, requires=REQ + ['EP.embedded==0 or EP.embedded==1', 'len(this.best_stats)<2147483648',
                                                                                         'forall(i, trig(this.best_stats[i], imp(0<=i and i<len(this.best_stats), 0<=this.best_stats[i])))'],
                 modifies=['this.tmp_stats', 'this.best_stats', 'this.bestEmbedding', 'EP.embedded', 'EP.target_chainsize'],
                 ensures=[('kept-unless-better', 'imp(not result, same(this.best_stats, old(this.best_stats)) and same(this.bestEmbedding.var_embedding, old(this.bestEmbedding.var_embedding)) and EP.embedded==old(EP.embedded))'),
                          ('taken-when-better', 'imp(result, same(this.bestEmbedding.var_embedding, emb.var_embedding))'),
                          ('never-loses-validity', 'EP.embedded>=old(EP.embedded)'),
                          ('at-least-as-good', 'imp(result and EP.embedded==old(EP.embedded) and old(len(this.best_stats))>0, HBETTER(this.best_stats, old(this.best_stats)))'),
                          ('valid-beats-overlapping', 'imp(old(EP.embedded)==0 and not exists(q, 0<=q and q<len(QW) and QW[q]>1), result and EP.embedded==1)'),
                          ('better-is-taken', 'imp(not result and (old(EP.embedded)==1)==(not exists(q, 0<=q and q<len(QW) and QW[q]>1)), not HBETTER(this.tmp_stats, this.best_stats) and len(this.best_stats)>0)')]
                 + [('statistics:' + n, 'imp(result, %s)' % e) for n, e in ENS], loops=[
                     Loop(inv=['0<=i and i<=len(this.tmp_stats)', 'len(this.tmp_stats)==len(this.best_stats)', 'not better',
                               'forall(j, trig(this.tmp_stats[j], imp(i<=j and j<len(this.tmp_stats), this.tmp_stats[j]==this.best_stats[j])))'], decreases='i')]))
    return C


def macros(sp):
    chainc.macros(sp)
    # histogram order: shorter histogram (smaller maximum), then fewer at the maximum, then fewer at the largest size that differs
    sp.define('HBETTER(a,b)', 'len(a)<len(b) or (len(a)==len(b) and exists(i, 0<=i and i<len(a) and a[i]<b[i] and forall(j, trig(a[j], b[j], imp(i<j and j<len(a), a[j]==b[j])))))')


def make_improvement(which='hm'):
    C = chainc.contracts()
    S = improvement()
    C.update(S)
    ex = Exec(fe.prog2(which), embc.registry(), C, globals=embc.GLE, iter_adapt={'chain': 'data'}, axioms=chainc.axP + chainc.axL)
    macros(ex.spec)
    return ex, [S['embedding::chainsize'], S['embedding::statistics'], S['pathfinder_base::check_improvement']]
