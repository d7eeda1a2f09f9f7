from common import *
import chainc, embc
UNITS = [Unit('freeze-thaw', chainc.make_undo), Unit('freeze-out', embc.make_ops, only=('embedding::freeze_out',))]
HARNESSES = [dict(name='chain_ops', cpp='chain_ops.cpp', args=['undo'], budget=8, stress=60, thorough=240,
                  bound='random histories of <= 60 chain operations, <= 5 chains, <= 12 qubits',
                  rule='random operation histories on the real class; every prefix counts, distinct by its operation log')]
EXPLANATION = 'freeze records the whole chain and every mutual link and frees its qubits; thaw re-installs the record; the composition of the two contracts (lemma client) is the identity on chains, links, reference counts and use counts'
ASSUMPTIONS = []
