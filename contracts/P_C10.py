from common import *
import smallc
UNITS = [Unit('minima', smallc.make_minima)]
HARNESSES = [dict(name='queue_ops', cpp='queue_ops.cpp', budget=8, stress=60, thorough=240,
                  bound='random interleavings of <= 60 insertions and removals, value vectors of <= 12 entries',
                  rule='random histories on the real queue; every prefix counts, distinct by its operation log')]
EXPLANATION = 'collectMinima returns exactly the positions of the minimum'
ASSUMPTIONS = []
