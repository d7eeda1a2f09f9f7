from common import *
import chainc, embc
UNITS = [Unit('chain-pairs', chainc.make_pair), Unit('embedding', embc.make_ops)]
HARNESSES = [dict(name='fe_e2e-valid', cpp='fe_e2e.cpp', args=['valid'], budget=15, stress=80, thorough=240, libassert=False, extra=['-fno-sanitize=signed-integer-overflow'],
                  bound='random source graphs <= 8 nodes, target graphs <= 20 nodes, random options, fixed/initial chains, quickpass sequences',
                  rule='random problems solved by the real find_embedding; a problem counts once by its full text'),
             dict(name='fe_e2e-initial', cpp='fe_e2e.cpp', args=['initial'], budget=8, stress=50, thorough=240, libassert=False, extra=['-fno-sanitize=signed-integer-overflow'],
                  bound='random source graphs <= 8 nodes, target graphs <= 20 nodes, random options, fixed/initial chains, quickpass sequences',
                  rule='random problems solved by the real find_embedding; a problem counts once by its full text')]
EXPLANATION = 'path linking, adopting and stealing keep every chain a tree inside its own qubits and leave the linked chains joined by a target edge'
ASSUMPTIONS = []
