from common import *
import cliqc
UNITS = [Unit('chimera', cliqc.make_chimera), Unit('pegasus', cliqc.make_pegasus), Unit('zephyr', cliqc.make_zephyr), Unit('small', cliqc.make_find)]
HARNESSES = [dict(name='busclique_clique', cpp='busclique.cpp', args=['clique'], budget=20, stress=60, thorough=300, extra=['-fno-access-control'], opt='-O1',
                  bound='Chimera <= 6x6x4, Pegasus <= 6, Zephyr <= (6,4); random missing qubits and couplers; sizes up to one past the largest found',
                  rule='every embedding returned by find_clique, best_cliques and the small special cases against an independent geometric oracle; distinct by size, yield and clique size')]
EXPLANATION = ('the table of best rectangles is laid out and filled so that every corner it names is a rectangle inside the grid and every entry names one; extract_solution reads off ells whose vertical and '
               'horizontal lines are complete present lines that meet, all in one length, and any two of its chains use different lines and cross; the special cases return a node, an edge or the ells of one cell, or nothing. '
               'That crossing lines are coupled is C14; the search over sizes and variants and the choice of the best embedding are checked by the bounded harness')
ASSUMPTIONS = ['the length filter given to clique_cache only answers yes or no', 'index functions of the rectangle table have the elementary properties of row-major addressing and prefix sums (gix, gsz, psz)',
               'bit model: bit k of an integer is that of its two-complement form', 'grid sides at most 65535']
