from common import *
import pyc
UNITS = [Unit('diagnostic', pyc.make_diag)]
HARNESSES = [dict(name='diagnosis', py='diag_py.py', python='/usr/bin/python3', budget=25, stress=60, thorough=300, slack=150,
                  bound='random sources of at most 6 nodes, targets of at most 8 nodes, chains with every kind of defect; graphs and edge lists; networkx as installed',
                  rule='diagnose_embedding, is_valid_embedding and verify_embedding against an independent oracle; distinct by input')]
EXPLANATION = ('diagnose_embedding reports a missing chain, a disconnected chain, a chain node outside the target, a target node used by two chains, or an uncovered source edge exactly when there is one: a report needs the '
               'defect (precondition of every yield), and every defect is reported (postconditions); is_valid_embedding says yes exactly when nothing is reported, verify_embedding raises exactly when a defect of a class that is not ignored is reported')
ASSUMPTIONS = ['the Python text is translated mechanically (engine/py2cxx.py) on every run; dropped: labels become ints, dict/set/list become std::map/set/vector, a generator runs to its end, `hasattr(g, "edges")` is taken to be true (edge lists are only checked by the bounded harness)',
               'contracts assumed for networkx: edges, has_edge, add_edge, subgraph, is_connected (uninterpreted: connected means what networkx answers) and for list/set/dict operations of Python',
               'what an error object carries besides its class and the nodes is not checked']
