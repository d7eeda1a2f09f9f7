from common import *
import busc
UNITS = [Unit('coordinates', busc.make_coord)]
HARNESSES = [dict(name='busclique_coords', cpp='busclique.cpp', args=['coords'], budget=12, stress=60, thorough=240, extra=['-fno-access-control'], opt='-O1',
                  bound='Chimera <= 6x6x4, Pegasus <= 6, Zephyr <= (6,4); all labels of a graph',
                  rule='random sizes; every label of the graph is converted both ways and its fragments compared with the geometry; distinct by size and label')]
EXPLANATION = ('label -> coordinates -> label and back are identities on the valid ranges (all three topologies, every size); every table index is inside its table; '
               'different cells, grid positions, line segments and fragments get different entries')
ASSUMPTIONS = ['sizes: products of dimensions stay below 2^64; shore at most 255 (uint8_t); Pegasus offsets in 0..6 and m >= 2, Zephyr m >= 1, t <= 4',
               'release configuration of coordinate_types.hpp (size_y, size_x, size_w, size_z are size_t)']
