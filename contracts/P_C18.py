from common import *
import rpackc
UNITS = [Unit('grid', rpackc.make)]
HARNESSES = [dict(name='rpack-grid', cpp='rpack_ops.cpp', extra=['-I$REPO/minorminer/_extern/rpack/include', '-x', 'c', '$REPO/minorminer/_extern/rpack/src/rpackcore.c', '-x', 'none'], defines=['NDEBUG'],
                  args=[], budget=10, stress=30, thorough=200,
                  bound='at most 14 rectangles of sides at most 40, in four orders, on grids of random size; the bounding box search and the packing it reports',
                  rule='every placed rectangle against the grid and every other one; the grid lists and marks against the placed rectangles; distinct by input'),
             dict(name='rpack-pack', py='rpack_py.py', python='/usr/bin/python3', budget=15, stress=40, thorough=200, slack=150,
                  bound='at most 12 rectangles through rpack.pack with and without bounds', rule='positions against sizes and the bounding box')]
EXPLANATION = ('the columns and rows of the grid partition its width and height (linked lists in the heap of cells), every placed rectangle lies inside the grid, no two overlap, marks cover the first row and column of every rectangle and '
               'lead right below a rectangle of the same column (GRID invariant, kept by grid_clear, grid_find_region and grid_split); a region found by grid_find_region is of the size asked for, inside the grid and meets no placed rectangle, '
               'grid_split makes it the next placed rectangle and keeps the others where they are. That the strategies of pack() return the positions of one such grid is checked by the bounded harness')
ASSUMPTIONS = ['every nonempty finite set of rectangles has one whose top is smallest, and one can choose among the rectangles ending above a point (axioms of two spec functions)',
               'the two cell arrays of a grid and the COL_FULL cell do not overlap (grid_alloc obtains them separately); the jump matrix is a matrix of its own',
               'sides and totals at most 2^30, at most 2^29 rectangles (the int result of grid_find_region does not truncate, long does not overflow)',
               'the Cython text of pack() (four strategies, qsort, rotation) is not under contract']
