import sys
sys.path.insert(0,'/verif/contracts')
from common import *
import importlib
mod=importlib.import_module(sys.argv[1]); fn=sys.argv[2]; name=sys.argv[3]
mk=getattr(mod,sys.argv[4]) if len(sys.argv)>4 else mod.make
ex,cons=mk()
c=[c for c in cons if (c.tag or c.sig or c.fn)==fn][0]
f,obs=ex.verify(c)
n=0
for o in obs:
    if name in o.name and o.res is None:
        s=z3.Solver(); s.set('auto_config',False); s.set('smt.mbqi',False); s.set('timeout',6000); 
        z3.set_param('smt.qi.profile',True); z3.set_param('smt.qi.profile_freq',5000)
        for h in ex.axioms+card_axioms()+o.hyps: s.add(h)
        s.add(z3.Not(o.goal)); print('GOAL',o.goal)
        print(s.check(), s.statistics().get_key_value('quant instantiations') if 'quant instantiations' in s.statistics().keys() else '')
        open('/tmp/o%d.smt2'%n,'w').write('(set-logic ALL)\n'+s.to_smt2()); n+=1
