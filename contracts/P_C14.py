from common import *
import topoc
UNITS = [Unit('chimera', topoc.make_chimera), Unit('pegasus', topoc.make_pegasus), Unit('zephyr', topoc.make_zephyr)]
HARNESSES = [dict(name='busclique_variants', cpp='busclique.cpp', args=['variants'], budget=12, stress=60, thorough=240, extra=['-fno-access-control'], opt='-O1',
                  bound='Chimera <= 6x6x4, Pegasus <= 6, Zephyr <= (6,4); random missing qubits and couplers; three rounds of the sequence per graph',
                  rule='the whole sequence of variants of a random yield against an independent geometric oracle; distinct by size and yield')]
EXPLANATION = ('the list of missing couplers is exactly the marked (vertical, horizontal) pairs, in order and each once; next() steps the variant number by one and stops exactly at 2^n (or at the bound), '
               'the number of a variant is bit by bit the choice of the end given up, the child masks are the original masks less the qubits given up and the couplers that join them, and every missing '
               'coupler loses an end, also on the randomised path; reset() restarts at number 0 from the sorted list')
ASSUMPTIONS = ['bit model: bit k of an integer is that of its two-complement form; & | ^ ~ and 1<<i act bit by bit', 'std::shuffle and std::sort permute; the comparator only reads',
               'the masks and the child masks are different buffers when a coupler is missing (allocated so by _initialize)', 'the random generator is unmodelled: its values are arbitrary']
