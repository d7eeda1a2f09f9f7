from common import *
import chainc
UNITS = [Unit('chain', chainc.make, drop=('accounting',)), Unit('chain-pairs', chainc.make_pair, drop=('accounting', 'edges', 'link-is-an-edge'))]
HARNESSES = [dict(name='chain_ops', cpp='chain_ops.cpp', args=['tree'], budget=8, stress=60, thorough=240,
                  bound='random histories of <= 60 chain operations, <= 5 chains, <= 12 qubits',
                  rule='random operation histories on the real class; every prefix counts, distinct by its operation log')]
EXPLANATION = 'every operation preserves: parents inside the chain and ranked (no cycle), links inside, reference counts exact'
ASSUMPTIONS = []
