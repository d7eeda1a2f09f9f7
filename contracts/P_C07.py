from common import *
import epc
UNITS = [Unit('orders', epc.make)]
HARNESSES = [dict(name='order_ops', cpp='order_ops.cpp', args=[], budget=8, stress=60, thorough=240, libassert=False, extra=['-fno-sanitize=signed-integer-overflow'],
                  bound='<= 10 free and <= 3 fixed variables (every fiftieth case: a path of up to 120), <= 8 strategies in a row',
                  rule='random source graphs and strategy sequences on the real embedding_problem; a case counts once by its full text')]
EXPLANATION = 'dfs/bfs/pfs_component append every node they mark, once; var_order composes these contracts over a shuffled list of all free variables'
ASSUMPTIONS = ['std::shuffle permutes its range (standard library contract); std::uniform_int_distribution returns a value of its range',
               'the search queues are modelled as sets of entries whose top is an arbitrary member (the proof does not depend on the priorities)']
