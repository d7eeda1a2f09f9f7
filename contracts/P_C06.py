from common import *

import embc, pfc
UNITS = [Unit('statistics', embc.make), Unit('incumbent', pfc.make_improvement, only=('pathfinder_base::check_improvement',))]
HARNESSES = [dict(name='incumbent', cpp='incumbent.cpp', args=[], budget=10, stress=60, thorough=240, libassert=False, extra=['-fno-access-control', '-fno-sanitize=signed-integer-overflow'],
                  bound='<= 7 variables, <= 21 qubits, sequences of <= 10 candidate embeddings',
                  rule='random candidate sequences offered to the real check_improvement; a case counts once by its full text'),
             dict(name='fe_e2e-improve', cpp='fe_e2e.cpp', args=['improve'], budget=12, stress=90, thorough=240, libassert=False, extra=['-fno-sanitize=signed-integer-overflow'],
                  bound='random source graphs <= 8 nodes, target graphs <= 20 nodes, random options, fixed/initial chains, quickpass sequences',
                  rule='random problems solved by the real find_embedding; a problem counts once by its full text')]
EXPLANATION = 'statistics is exact for every embedding; check_improvement replaces the incumbent exactly when the candidate precedes it in the order, and then stores the candidate and its statistics'
ASSUMPTIONS = ['embedding::operator= copies every chain (assumed at this call; the assignment of one chain is under contract in C03)', 'printing has no effect on the embedding']
