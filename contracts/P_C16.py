from common import *
import biqc, busc
UNITS = [Unit('chimera', biqc.make_chimera), Unit('pegasus', biqc.make_pegasus), Unit('zephyr', biqc.make_zephyr),
         Unit('chimera/inflate', busc.make_chimera, only=['bundle_cache::inflate']), Unit('pegasus/inflate', busc.make_pegasus, only=['bundle_cache::inflate']), Unit('zephyr/inflate', busc.make_zephyr, only=['bundle_cache::inflate'])]
HARNESSES = [dict(name='busclique_biclique', cpp='busclique.cpp', args=['biclique'], budget=20, stress=60, thorough=300, extra=['-fno-access-control'], opt='-O1',
                  bound='Chimera <= 6x6x4, Pegasus <= 6, Zephyr <= (6,4); random missing qubits and couplers',
                  rule='every biclique of best_bicliques against an independent geometric oracle; distinct by size, yield and shape')]
EXPLANATION = ('the table of rectangles: sized, laid out and filled so that the entry of every rectangle is exactly the number of complete vertical (horizontal) lines crossing it, and score() reads the two '
               'counts of the rectangle it is asked about; inflate() then produces exactly that many chains, the vertical ones first, each the complete line of its columns and rows, all different. '
               'That crossing lines are coupled is C14; the walk over all shapes (biclique_yield_cache), best_bicliques and the Python glue are checked by the bounded harness')
ASSUMPTIONS = ['index functions of the rectangle table have the elementary properties of row-major addressing and prefix sums (ma, bix, bsz, tot, alloc)', 'lsum is the sum of the line counts of consecutive columns or rows',
               'bit model: bit k of an integer is that of its two-complement form', 'grid sides at most 4096']
