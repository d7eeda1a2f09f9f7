from common import *
import chainc, embc
UNITS = [Unit('chain-pairs', chainc.make_pair), Unit('embedding', embc.make_ops)]
HARNESSES = [dict(name='fe_e2e-fixed', cpp='fe_e2e.cpp', args=['fixed'], budget=15, stress=90, thorough=240, libassert=False, extra=['-fno-sanitize=signed-integer-overflow'],
                  bound='random source graphs <= 8 nodes, target graphs <= 20 nodes, random options, fixed/initial chains, quickpass sequences',
                  rule='random problems solved by the real find_embedding; a problem counts once by its full text')]
EXPLANATION = 'stealing never takes a reserved or masked qubit (contract of steal against accepts_qubit)'
ASSUMPTIONS = []
