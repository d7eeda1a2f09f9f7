from common import *
import chainc, embc
UNITS = [Unit('chain', chainc.make), Unit('chain-pairs', chainc.make_pair, drop=('edges', 'link-is-an-edge', 'no-loose-qubit')), Unit('embedding', embc.make_ops)]
HARNESSES = [dict(name='chain_ops', cpp='chain_ops.cpp', args=['acc'], budget=8, stress=60, thorough=240,
                  bound='random histories of <= 60 chain operations, <= 5 chains, <= 12 qubits',
                  rule='random operation histories on the real class; every prefix counts, distinct by its operation log')]
EXPLANATION = 'each chain operation changes the use count of every qubit by exactly its own membership change'
ASSUMPTIONS = []
