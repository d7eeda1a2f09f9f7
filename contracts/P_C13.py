from common import *
import busc
UNITS = [Unit('tables-and-lines', busc.make_lines), Unit('chimera', busc.make_chimera), Unit('pegasus', busc.make_pegasus), Unit('zephyr', busc.make_zephyr)]
HARNESSES = [dict(name='busclique_masks', cpp='busclique.cpp', args=['masks'], budget=12, stress=60, thorough=240, extra=['-fno-access-control'], opt='-O1',
                  bound='Chimera <= 6x6x4, Pegasus <= 6, Zephyr <= (6,4); random missing qubits and couplers',
                  rule='every segment mask of a random yield against an independent geometric oracle; distinct by size and yield')]
EXPLANATION = ('cell masks hold exactly the present fragments, coupler masks exactly the present joints; the line mask of every segment is the recursion over them, which is proved to mean '
               'every fragment and every joint present (line_is_complete); inflating lists the qubits of the marked tracks, each track once')
ASSUMPTIONS = ['bit model: bit k of an integer is that of its two-complement form; & | ^ ~ act bit by bit', 'qubits and couplers handed to the caches are valid labels and couplers join present qubits',
               'release configuration of coordinate_types.hpp (size_y, size_x, size_w, size_z are size_t)',
               'sizes: products of dimensions stay below 2^64; shore at most 8; Pegasus offsets in 0..6 and m >= 2, Zephyr m >= 1, t <= 4']
