from common import *
import smallc
UNITS = [Unit('rng', smallc.make_rng)]
HARNESSES = [dict(name='fe_e2e-det', cpp='fe_e2e.cpp', args=['det'], budget=12, stress=80, thorough=240, libassert=False, extra=['-fno-sanitize=signed-integer-overflow'],
                  bound='random source graphs <= 8 nodes, target graphs <= 20 nodes, random options, fixed/initial chains, quickpass sequences',
                  rule='random problems solved by the real find_embedding; a problem counts once by its full text')]
EXPLANATION = 'the generator state after seeding is a function of the seed alone, and the stream a function of the state'
ASSUMPTIONS = []
