from common import *
import graphc
import ppc

UNITS = [Unit('renumbering', ppc.make_pp), Unit('components', graphc.make_graph, only=['components::into_component', 'components::from_component'])]
HARNESSES = [dict(name='fe_e2e-order', cpp='fe_e2e.cpp', args=['order'], budget=10, stress=60, thorough=240, libassert=False, extra=['-fno-sanitize=signed-integer-overflow'],
                  bound='random source graphs <= 8 nodes, target graphs <= 20 nodes, random options, fixed/initial chains, quickpass sequences',
                  rule='random problems solved by the real find_embedding; a problem counts once by its full text'),
             dict(name='fe_e2e-improve', cpp='fe_e2e.cpp', args=['improve'], budget=8, stress=50, thorough=240, libassert=False, extra=['-fno-sanitize=signed-integer-overflow'],
                  bound='random source graphs <= 8 nodes, target graphs <= 20 nodes, random options, fixed/initial chains, quickpass sequences',
                  rule='random problems solved by the real find_embedding; a problem counts once by its full text')]
EXPLANATION = ('the renumbering of the source variables is a bijection with the fixed ones last, its inverse undoes it both ways, exactly the variables with a fixed chain are marked fixed and exactly the qubits of fixed chains reserved; '
               'chains, variable orders and results are translated entry by entry through it, in order, and refused only where a label is out of range or outside the component')
ASSUMPTIONS = ['fewer than 2^31 variables and qubits; the chains given as fixed name variables and qubits of the graphs']
