from common import *
import graphc
UNITS = [Unit('graph', graphc.make_graph)]
HARNESSES = [dict(name='graph_ops', cpp='graph_ops.cpp', budget=8, stress=40, thorough=240,
                  bound='random multigraphs with loops and repeated edges, mostly <= 11 nodes, some up to 200; random markings and renumberings',
                  rule='neighbourhood lists, components and label translation of the real code against a direct computation; distinct by graph, marking and renumbering')]
EXPLANATION = ('every neighbourhood list holds exactly the neighbours the edge list, the markings and the renumbering call for, each once and in order; the union-find forest is well-formed and its classes are '
               'exactly the connected classes (for every equivalence relation containing the edges, two nodes are put in one component only if it relates them, and both ends of an edge always are); '
               'every node appears once, at the label and component recorded for it, the marked nodes last, and every edge is kept in its component')
ASSUMPTIONS = ['fewer than 2^31 nodes and edges; edge ends are nodes of the graph']
