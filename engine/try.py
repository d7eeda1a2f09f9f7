import sys, time, importlib
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif/contracts')
from common import *
import solve
mod = importlib.import_module(sys.argv[1])
only = sys.argv[2] if len(sys.argv) > 2 else None
sec = float(sys.argv[3]) if len(sys.argv) > 3 else 20
mk = getattr(mod, sys.argv[4]) if len(sys.argv) > 4 else mod.make
t=time.time()
ex, cons = mk()
print('load', time.time()-t)
import traceback
for c in cons:
    if only and only not in (c.tag or c.sig or c.fn): continue
    t=time.time()
    try:
        f, obs = ex.verify(c)
    except (SpecMismatch, Unsupported) as e:
        print('!!', c.tag or c.fn, type(e).__name__, e); 
        if only: print(chr(10).join(traceback.format_exc().splitlines()[-6:]))
        continue
    except Exception as e:
        print('!!', c.tag or c.fn, chr(10).join(traceback.format_exc().splitlines()[-9:])); continue
    tv=time.time()-t
    solve.discharge([(o, ex.axioms+card_axioms()) for o in obs], seconds=sec)
    bad=[o for o in obs if not solve.ok(o)]
    print('%-28s %3d obligations %3d ok  gen %.1fs solve %.1fs' % (c.tag or c.fn, len(obs), len(obs)-len(bad), tv, time.time()-t-tv))
    for o in bad: print('  BAD', o.res, o.backend, '%.1f'%o.time, o.kind, o.name, 'line', o.line)
    if only:
        for o in obs:
            if o.time>3: print('    slow', o.name, o.line, '%.1f'%o.time, o.backend)
