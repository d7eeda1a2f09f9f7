"""contracts on minorminer/_extern/rpack/src/rpackcore.c: the grid that places rectangles"""
from common import *
from core import TAddr, TZ3

RP = REPO + '/minorminer/_extern/rpack/'
SRC = '#include "%ssrc/rpackcore.c"\n' % RP
AI = z3.ArraySort(I, I)
MARK = z3.Function('mark', I, I)
COLFULL = z3.Int('COL_FULL_addr')
ARGMIN = z3.Function('topmost', AI, AI, AI, AI, I, I, I, I, I, I)


def prog():
    return program('rpack', SRC, lang='c', includes=[RP + 'include', RP + 'src'], defines=('NDEBUG',))


SUPP = z3.Function('support', AI, AI, AI, I, I, I, I)


def supp_axioms():
    """a choice among the rectangles that end right above a point"""
    x0, x1, y1 = z3.Consts('sx0 sx1 sy1', AI)
    K, k, y, x = z3.Ints('sK sk sy sx')
    m = SUPP(y1, x0, x1, K, y, x)

    def under(q):
        return z3.And(0 <= q, q < K, y1[q] == y, x0[q] <= x, x < x1[q])
    return [z3.ForAll([y1, x0, x1, K, y, x, k], z3.Implies(under(k), under(m)), patterns=[z3.MultiPattern(m, x0[k])])]


def argmin_axioms():
    """a nonempty finite set of rectangles has one whose top is smallest"""
    x0, x1, y0, y1 = z3.Consts('ax0 ax1 ay0 ay1', AI)
    K, k, a, b, c, d = z3.Ints('aK ak aa ab ac ad')
    m = ARGMIN(x0, x1, y0, y1, K, a, b, c, d)

    def meets(q):
        return z3.And(0 <= q, q < K, x0[q] < b, a < x1[q], y0[q] < d, c < y1[q])
    return [z3.ForAll([x0, x1, y0, y1, K, a, b, c, d, k], z3.Implies(meets(k), z3.And(meets(m), y0[m] <= y0[k])), patterns=[z3.MultiPattern(m, x0[k])])]


def make():
    reg = Registry()
    A = TAddr('cell')
    JM = TArr(TArr(A, None), None)
    types = {'struct cell *': A, 'Cell *': A, 'Cell *const': A, 'Cell': TRec('cell'), 'CellLink': TRec('cell_link'), 'Grid': TRec('grid'), 'Region': TRec('region'),
             'Rectangle': TRec('rectangle'), 'BBoxRestrictions': TRec('bbox_restrictions'), 'Cell ***': TPtr(TArr(A, None)), 'Cell **': TPtr(A),
             ('grid', 'cols'): TRec('cell_link'), ('grid', 'rows'): TRec('cell_link'), ('grid', 'jump_matrix'): JM}
    reg.ghost['cell_link'] = [('S', TZ3(AI)), ('E', TZ3(AI))]        # where every cell starts and ends
    reg.ghost['grid'] = [(n, TZ3(AI)) for n in ('X0', 'X1', 'Y0', 'Y1', 'PC', 'PR', 'PD')] + [('K', TZ3(I))]
    C = []
    add = C.append
    add(Contract('start_pos', requires=[], ensures=[('value', 'result == SP0(self)')]))
    add(Contract('clear_cell_link', modifies=['self.jump_index', 'self.head', 'self.S', 'self.E', 'HEAP_cell'], ghost_exit=['self.S := store(self.S, 0, 0)', 'self.E := store(self.E, 0, self.end_pos)'], requires=['1 <= self.size and self.size <= 536870912', 'self.cells >= 1', '1 <= self.end_pos'], ensures=[
        ('one-cell', 'LINK(self)'), ('only-one', 'self.jump_index == 1'), ('whole', 'self.cells.end_pos == self.end_pos and self.cells.prev == 0'),
        ('others-kept', 'forall(p, trig(p.prev, p.next, p.end_pos, p.jump_index, imp(p != self.cells, KEPT(p))))')]))
    add(Contract('copy_row', modifies=['self'], requires=['jump_index_col >= 0', 'src_i >= 0', 'dest_i >= 0'],
                 ensures=[('copied', 'forall(i, j, trig(self[i][j], self[i][j] == ite(i == dest_i and 0 <= j and j < jump_index_col, old(self[src_i][j]), old(self[i][j]))))')],
                 loops=[Loop(inv=['0 <= index and index <= jump_index_col', 'forall(i, j, trig(self[i][j], self[i][j] == ite(i == dest_i and 0 <= j and j < index, old(self[src_i][j]), old(self[i][j]))))'],
                             decreases='jump_index_col - index')]))
    add(Contract('copy_col', modifies=['self'], requires=['jump_index_row >= 0', 'src_i >= 0', 'dest_i >= 0'],
                 ensures=[('copied', 'forall(i, j, trig(self[i][j], self[i][j] == ite(j == dest_i and 0 <= i and i < jump_index_row, old(self[i][src_i]), old(self[i][j]))))')],
                 loops=[Loop(inv=['0 <= index and index <= jump_index_row', 'forall(i, j, trig(self[i][j], self[i][j] == ite(j == dest_i and 0 <= i and i < index, old(self[i][src_i]), old(self[i][j]))))'],
                             decreases='jump_index_row - index')]))
    CUT = [('new-index', 'dest_i[0] == old(self.jump_index) and self.jump_index == old(self.jump_index) + 1'), ('old-index', 'src_i[0] == old(victim.jump_index)'),
           ('end-positions', 'arr(HEAP_cell,"[]","end_pos") == store(store(old(arr(HEAP_cell,"[]","end_pos")), NEWC(self), old(victim.end_pos)), victim, end_pos)'),
           ('indices', 'arr(HEAP_cell,"[]","jump_index") == store(old(arr(HEAP_cell,"[]","jump_index")), NEWC(self), old(self.jump_index))'),
           ('next', 'arr(HEAP_cell,"[]","next") == store(store(old(arr(HEAP_cell,"[]","next")), NEWC(self), old(victim.next)), victim, NEWC(self))'),
           ('prev', 'arr(HEAP_cell,"[]","prev") == ite(old(victim.next) == 0, store(old(arr(HEAP_cell,"[]","prev")), NEWC(self), victim), store(store(old(arr(HEAP_cell,"[]","prev")), NEWC(self), victim), old(victim.next), NEWC(self)))'),
           ('starts', 'self.S == store(old(self.S), old(self.jump_index), end_pos)'), ('ends', 'self.E == store(store(old(self.E), old(self.jump_index), old(victim.end_pos)), old(victim.jump_index), end_pos)'), ('list-kept', 'LINK(self)')]
    add(Contract('cut', modifies=['self.jump_index', 'self.S', 'self.E', 'HEAP_cell', 'src_i[0]', 'dest_i[0]'],
                 ghost_exit=['self.S := store(self.S, old(self.jump_index), end_pos)', 'self.E := store(store(self.E, old(self.jump_index), old(victim.end_pos)), old(victim.jump_index), end_pos)'],
                 requires=['LINK(self)', 'self.jump_index < self.size', 'ISC(self, victim)', 'self.S[victim.jump_index] < end_pos and end_pos < victim.end_pos'],
                 ensures=CUT))
    add(Contract('grid_clear', modifies=['self', 'HEAP_cell'], requires=['1 <= self.width', '1 <= self.height', 'SEP(self)', '1 <= self.size'],
                 ghost_exit=['self.K := 0'],
                 ensures=[('inside', 'GRID(self)'), ('empty', 'self.K == 0'), ('size', 'self.width == old(self.width) and self.height == old(self.height)')]))
    # ---- finding a place
    CI = 'col_cell_start.jump_index'
    FREECOL = 'forall(i, trig(grid.jump_matrix[i][%s], imp(INR(grid,i) and RS(grid, row_cell_start) <= grid.rows.S[i] and grid.rows.S[i] < RS(grid, row_cell), grid.jump_matrix[i][%s] == 0)))' % (CI, CI)
    FREECOL2 = FREECOL.replace('< RS(grid, row_cell)', '<= RS(grid, row_cell)')
    FREEROW = 'forall(j, trig(grid.jump_matrix[row_cell_start.jump_index][j], imp(INC(grid,j) and CS(grid, col_cell_start) <= grid.cols.S[j] and grid.cols.S[j] < CS(grid, col_cell), grid.jump_matrix[row_cell_start.jump_index][j] == 0)))'
    KEEP = ['JUMPS(grid)', 'MARKS(grid)']
    OUTER = KEEP + ['imp(col_cell_start != 0, ISC(grid.cols, col_cell_start) and rec_col_end_pos == CS(grid, col_cell_start) + rectangle.width and rec_col_end_pos <= grid.width)']
    MIDDLE = KEEP + ['ISC(grid.rows, row_cell_start) and ISC(grid.rows, row_cell) and RS(grid, row_cell_start) <= RS(grid, row_cell) and RS(grid, row_cell) < rec_row_end_pos',
                     'rec_row_end_pos == RS(grid, row_cell_start) + rectangle.height', 'RS(grid, row_cell_start) == 0 or UNDER(grid, RS(grid, row_cell_start), CS(grid, col_cell_start))', FREECOL,
                     'imp(jump_first != 0, ISC(grid.rows, jump_first) and grid.jump_matrix[jump_first.jump_index][%s] != 0 and RS(grid, jump_first) <= RS(grid, row_cell))' % CI]
    INNER = ['imp(col_cell != 0, ISC(grid.cols, col_cell) and CS(grid, col_cell_start) <= CS(grid, col_cell) and CS(grid, col_cell) < rec_col_end_pos)', 'imp(col_cell != 0, %s)' % FREEROW]
    MEET = '0 <= k and k < grid.K and grid.X0[k] < reg.col_end_pos and CS(grid, reg.col_cell_start) < grid.X1[k] and grid.Y0[k] < reg.row_end_pos and RS(grid, reg.row_cell_start) < grid.Y1[k]'
    TOP = 'topmost(grid.X0, grid.X1, grid.Y0, grid.Y1, grid.K, CS(grid, reg.col_cell_start), reg.col_end_pos, RS(grid, reg.row_cell_start), reg.row_end_pos)'
    add(Contract('grid_find_region', modifies=['grid.jump_matrix', 'reg'],
                 requires=['GRID(grid)', '1 <= rectangle.width and rectangle.width <= 1073741824', '1 <= rectangle.height and rectangle.height <= 1073741824',
                           'rectangle.width <= grid.width and grid.width <= 1073741824', 'rectangle.height <= grid.height and grid.height <= 1073741824'],
                 loops=[Loop(inv=OUTER, decreases='ite(col_cell_start == 0, 0, grid.width - CS(grid, col_cell_start))'),
                        Loop(inv=MIDDLE, decreases='grid.height - RS(grid, row_cell)'),
                        Loop(inv=INNER, decreases='ite(col_cell == 0, 0, grid.width - CS(grid, col_cell))')],
                 hints=['imp(reg.col_cell != 0, %s)' % FREECOL2.replace('row_cell', 'reg.row_cell').replace('col_cell_start', 'reg.col_cell_start'),
                        'imp(reg.col_cell != 0, %s)' % FREEROW.replace('row_cell', 'reg.row_cell').replace('col_cell', 'reg.col_cell').replace('< CS(grid, reg.col_cell)', '<= CS(grid, reg.col_cell)'),
                        'forall(k, trig(grid.Y0[k], mark(grid.jump_matrix[reg.row_cell_start.jump_index][reg.col_cell_start.jump_index]) == 0 and mark(grid.jump_matrix[grid.PR[k]][reg.col_cell_start.jump_index]) == 0 and mark(grid.jump_matrix[reg.row_cell_start.jump_index][grid.PC[k]]) == 0))',
                        'imp(reg.col_cell != 0, forall(k, trig(grid.Y0[k], imp(%s, grid.X0[k] > CS(grid, reg.col_cell_start)))))' % MEET,
                        'imp(reg.col_cell != 0, forall(k, trig(grid.Y0[k], imp(%s, grid.Y0[k] > RS(grid, reg.row_cell_start)))))' % MEET,
                        'imp(reg.col_cell != 0, forall(k, trig(grid.PD[k], imp(%s, %s))))' % (MEET, MEET.replace('[k]', '[grid.PD[k]]').replace(' k ', ' grid.PD[k] ').replace('<= k', '<= grid.PD[k]').replace('k <', 'grid.PD[k] <')),
                        'imp(reg.col_cell != 0, mark(grid.PD[%s]) == 0 and not (%s))' % (TOP, MEET.replace('[k]', '[%s]' % TOP).replace('<= k', '<= ' + TOP).replace('k <', TOP + ' <'))],
                 ensures=[('grid-kept', 'GRID(grid)'), ('place', 'imp(reg.col_cell != 0, PLACE(grid, reg, rectangle))'), ('free', 'imp(reg.col_cell != 0, FREE(grid, reg))')]))
    # ---- occupying it
    NJ = 'self.jump_matrix[i][j]'
    RC, CC = 'reg.row_cell_start', 'reg.col_cell_start'
    I0 = 'ite(i < old(self.rows.jump_index), i, reg.row_cell.jump_index)'
    J0 = 'ite(j < old(self.cols.jump_index), j, reg.col_cell.jump_index)'

    COPIED = 'forall(i, j, trig(%s, imp(INR(self,i) and INC(self,j), %s == old(self.jump_matrix)[%s][%s])))' % (NJ, NJ, I0, J0)
    # what holds between: the old rectangles, and marks that point past an old rectangle or past the new one
    TARGET = 'forall(i, j, trig(%s, imp(INR(self,i) and INC(self,j) and %s != 0 and %s != colfull(), ISC(self.rows, %s) and RS(self,%s) > self.rows.S[i])))' % ((NJ,) * 5)
    BELOW = ('forall(i, j, trig(%s, imp(INR(self,i) and INC(self,j) and %s != 0 and %s != colfull(), UNDER(self, RS(self,%s), self.cols.S[j]) or '
             '(RS(self,%s) == reg.row_end_pos and CS(self, reg.col_cell_start) <= self.cols.S[j] and self.cols.S[j] < reg.col_end_pos))))' % ((NJ,) * 5))
    BETWEEN = [TARGET, BELOW, 'MARKS(self)']
    TGT = 'jump_target != 0 and imp(jump_target != colfull(), ISC(self.rows, jump_target) and RS(self, jump_target) == reg.row_end_pos)'
    COLM = 'forall(i, trig(self.jump_matrix[i][%s.jump_index], imp(INR(self,i) and RS(self,%s) <= self.rows.S[i] and self.rows.S[i] < %%s, self.jump_matrix[i][%s.jump_index] != 0)))' % (CC, RC, CC)
    ROWM = 'forall(j, trig(self.jump_matrix[%s.jump_index][j], imp(INC(self,j) and CS(self,%s) <= self.cols.S[j] and self.cols.S[j] < %%s, self.jump_matrix[%s.jump_index][j] != 0)))' % (RC, CC, RC)
    MK = '''forall(i, j, k, trig((self.jump_matrix[i][j], self.Y0[k]), imp(%s and INR(self,i) and INC(self,j) and 0 <= k and self.Y0[k] <= self.rows.S[i] and self.rows.S[i] < self.Y1[k] and
        self.X0[k] <= self.cols.S[j] and self.cols.S[j] < self.X1[k] and (self.rows.S[i] == self.Y0[k] or self.cols.S[j] == self.X0[k]), self.jump_matrix[i][j] != 0)))'''
    add(Contract('grid_split', modifies=['self', 'HEAP_cell'],
                 requires=['GRID(self)', 'POS(self, reg)', 'FREE(self, reg)', 'self.cols.jump_index < self.size and self.rows.jump_index < self.size', 'self.width <= 1073741824 and self.height <= 1073741824'],
                 loops=[Loop(inv=['r_cell != 0', 'ISC(self.rows, r_cell) and RS(self,%s) <= RS(self, r_cell) and RS(self, r_cell) <= RS(self, reg.row_cell)' % RC, 'ALIGNED(self)', TGT] + BETWEEN + [COLM % 'RS(self, r_cell)'],
                             init_hints=[COPIED], decreases='self.height - RS(self, r_cell)'),
                        Loop(inv=['c_cell != 0', 'ISC(self.cols, c_cell) and CS(self,%s) < CS(self, c_cell) and CS(self, c_cell) <= CS(self, reg.col_cell)' % CC] + BETWEEN + [COLM % 'reg.row_end_pos', ROWM % 'CS(self, c_cell)'],
                             decreases='self.width - CS(self, c_cell)')],
                 ghost_exit=['self.PD := store(self.PD, self.K, support(self.Y1, self.X0, self.X1, self.K, RS(self, reg.row_cell_start), CS(self, reg.col_cell_start)))', 'self.X0 := store(self.X0, self.K, CS(self, reg.col_cell_start))', 'self.X1 := store(self.X1, self.K, reg.col_end_pos)', 'self.Y0 := store(self.Y0, self.K, RS(self, reg.row_cell_start))',
                             'self.Y1 := store(self.Y1, self.K, reg.row_end_pos)', 'self.PC := store(self.PC, self.K, reg.col_cell_start.jump_index)', 'self.PR := store(self.PR, self.K, reg.row_cell_start.jump_index)',
                             'self.K := self.K + 1'],
                 hints=['LINK(self.cols) and LINK(self.rows) and self.cols.end_pos == self.width and self.rows.end_pos == self.height and self.K >= 0', COLM % 'reg.row_end_pos', ROWM % 'reg.col_end_pos',
                        MK % 'k == self.K - 1', 'forall(k, trig(old(self.X0)[k], old(self.Y1)[k], imp(0 <= k and k < old(self.K), self.X0[k] == old(self.X0)[k] and self.X1[k] == old(self.X1)[k] and self.Y1[k] == old(self.Y1)[k])))',
                        'self.X0[self.K - 1] == CS(self, reg.col_cell_start) and self.X1[self.K - 1] == reg.col_end_pos and self.Y1[self.K - 1] == reg.row_end_pos'],
                 ensures=[('added', 'self.K == old(self.K) + 1 and forall(k, trig(self.X0[k], self.X1[k], self.Y0[k], self.Y1[k], imp(0 <= k and k < old(self.K), self.X0[k] == old(self.X0[k]) and self.X1[k] == old(self.X1[k]) and self.Y0[k] == old(self.Y0[k]) and self.Y1[k] == old(self.Y1[k]))))'),
                          ('at-its-place', 'self.X0[old(self.K)] == old(CS(self, reg.col_cell_start)) and self.Y0[old(self.K)] == old(RS(self, reg.row_cell_start)) and self.X1[old(self.K)] == reg.col_end_pos and self.Y1[old(self.K)] == reg.row_end_pos'),
                          ('cells-used', 'self.cols.jump_index <= old(self.cols.jump_index) + 1 and self.rows.jump_index <= old(self.rows.jump_index) + 1'),
                          ('size', 'self.width == old(self.width) and self.height == old(self.height) and self.size == old(self.size)')] +
                         [('grid-' + n.lower(), n + '(self)') for n in ('SEP', 'JUMPS', 'MARKS', 'ALIGNED', 'INSIDE', 'STACKED', 'APART')] +
                         [('grid-lists', 'LINK(self.cols) and LINK(self.rows) and self.cols.end_pos == self.width and self.rows.end_pos == self.height and self.K >= 0')]))
    ex = Exec(prog(), reg, {c.fn: c for c in C}, heap={'cell'}, types=types, axioms=argmin_axioms() + supp_axioms() + [COLFULL >= 1, z3.ForAll([z3.Int('mx')], MARK(z3.Int('mx')) == 0, patterns=[MARK(z3.Int('mx'))])], consts={'COL_FULL': COLFULL})
    for r in ('cell', 'cell_link', 'grid', 'region', 'rectangle', 'bbox_restrictions'):
        ex.build_record(r)
    sp = ex.spec
    D = sp.define
    D('SP(p)', 'ite(p.prev == 0, 0, p.prev.end_pos)')
    D('SP0(p)', 'ite(p == 0, 0, SP(p))')
    D('KEPT(p)', 'p.prev == old(p.prev) and p.next == old(p.next) and p.end_pos == old(p.end_pos) and p.jump_index == old(p.jump_index)')
    D('ISC(L,p)', 'L.cells <= p and p < L.cells + L.jump_index')
    D('NEWC(L)', 'L.cells + old(L.jump_index)')
    D('LINK(L)', '''L.cells >= 1 and L.head == L.cells and 1 <= L.jump_index and L.jump_index <= L.size and L.size <= 536870912 and
        forall(p, trig(p.prev, imp(ISC(L,p), p.jump_index == p - L.cells and (p.prev == 0) == (p == L.cells) and imp(p.prev != 0, ISC(L,p.prev) and p.prev.next == p) and SP(p) == L.S[p.jump_index]))) and
        forall(p, trig(p.next, imp(ISC(L,p) and p.next != 0, ISC(L,p.next) and p.next.prev == p))) and
        forall(p, trig(p.next, p.end_pos, imp(ISC(L,p), p.jump_index == p - L.cells and p.end_pos == L.E[p.jump_index] and (p.next == 0) == (p.end_pos == L.end_pos)))) and
        forall(p, trig(p.jump_index, imp(ISC(L,p), p.jump_index == p - L.cells))) and
        forall(i, trig(L.S[i], imp(0 <= i and i < L.jump_index, 0 <= L.S[i] and L.S[i] < L.E[i] and L.E[i] <= L.end_pos))) and
        forall(i, k, trig((L.S[i], L.S[k]), imp(0 <= i and i < L.jump_index and 0 <= k and k < L.jump_index and i != k, L.E[i] <= L.S[k] or L.E[k] <= L.S[i]))) and
        L.S[0] == 0''')
    D('SEP(g)', '''(g.cols.cells + g.cols.size <= g.rows.cells or g.rows.cells + g.rows.size <= g.cols.cells) and g.cols.cells >= 1 and g.rows.cells >= 1 and
        not (g.rows.cells <= colfull() and colfull() < g.rows.cells + g.rows.size) and g.cols.size == g.size and g.rows.size == g.size and g.size <= 536870912''')
    D('RS(g,p)', 'g.rows.S[p.jump_index]')
    D('CS(g,p)', 'g.cols.S[p.jump_index]')
    D('INR(g,i)', '0 <= i and i < g.rows.jump_index')
    D('INC(g,j)', '0 <= j and j < g.cols.jump_index')
    D('UNDER(g,y,x)', 'exists(k, 0 <= k and k < g.K and g.Y1[k] == y and g.X0[k] <= x and x < g.X1[k])')
    D('JUMPS(g)', '''forall(i, j, trig(g.jump_matrix[i][j], imp(INR(g,i) and INC(g,j) and g.jump_matrix[i][j] != 0 and g.jump_matrix[i][j] != colfull(),
        ISC(g.rows, g.jump_matrix[i][j]) and RS(g,g.jump_matrix[i][j]) > g.rows.S[i] and UNDER(g, RS(g,g.jump_matrix[i][j]), g.cols.S[j]))))''')
    D('MARKS(g)', '''forall(i, j, k, trig((g.jump_matrix[i][j], g.Y0[k]), imp(INR(g,i) and INC(g,j) and 0 <= k and k < g.K and g.Y0[k] <= g.rows.S[i] and g.rows.S[i] < g.Y1[k] and
        g.X0[k] <= g.cols.S[j] and g.cols.S[j] < g.X1[k] and (g.rows.S[i] == g.Y0[k] or g.cols.S[j] == g.X0[k]), g.jump_matrix[i][j] != 0)))''')
    D('ALIGNED(g)', '''forall(j, k, trig((g.cols.S[j], g.X0[k]), imp(INC(g,j) and 0 <= k and k < g.K, g.cols.E[j] <= g.X0[k] or g.X1[k] <= g.cols.S[j] or (g.X0[k] <= g.cols.S[j] and g.cols.E[j] <= g.X1[k])))) and
        forall(i, k, trig((g.rows.S[i], g.Y0[k]), imp(INR(g,i) and 0 <= k and k < g.K, g.rows.E[i] <= g.Y0[k] or g.Y1[k] <= g.rows.S[i] or (g.Y0[k] <= g.rows.S[i] and g.rows.E[i] <= g.Y1[k]))))''')
    D('INSIDE(g)', '''forall(k, trig(g.X0[k], imp(0 <= k and k < g.K, 0 <= g.X0[k] and g.X0[k] < g.X1[k] and g.X1[k] <= g.width and INC(g, g.PC[k]) and g.cols.S[g.PC[k]] == g.X0[k]))) and
        forall(k, trig(g.Y0[k], imp(0 <= k and k < g.K, 0 <= g.Y0[k] and g.Y0[k] < g.Y1[k] and g.Y1[k] <= g.height and INR(g, g.PR[k]) and g.rows.S[g.PR[k]] == g.Y0[k])))''')
    D('STACKED(g)', '''forall(k, trig(g.PD[k], imp(0 <= k and k < g.K and g.Y0[k] > 0, 0 <= g.PD[k] and g.PD[k] < g.K and g.Y1[g.PD[k]] == g.Y0[k] and g.X0[g.PD[k]] <= g.X0[k] and g.X0[k] < g.X1[g.PD[k]])))''')
    D('APART(g)', '''forall(k, l, trig((g.X0[k], g.X0[l]), imp(0 <= k and k < g.K and 0 <= l and l < g.K and k != l,
        g.X1[k] <= g.X0[l] or g.X1[l] <= g.X0[k] or g.Y1[k] <= g.Y0[l] or g.Y1[l] <= g.Y0[k])))''')
    D('GRID(g)', '''SEP(g) and LINK(g.cols) and LINK(g.rows) and g.cols.end_pos == g.width and g.rows.end_pos == g.height and g.K >= 0 and
        JUMPS(g) and MARKS(g) and ALIGNED(g) and INSIDE(g) and STACKED(g) and APART(g)''')
    D('PLACE(g,r,t)', 'POS(g,r) and r.col_end_pos == CS(g,r.col_cell_start) + t.width and r.row_end_pos == RS(g,r.row_cell_start) + t.height')
    D('POS(g,r)', '''ISC(g.cols, r.col_cell_start) and ISC(g.cols, r.col_cell) and ISC(g.rows, r.row_cell_start) and ISC(g.rows, r.row_cell) and
        CS(g,r.col_cell_start) <= CS(g,r.col_cell) and RS(g,r.row_cell_start) <= RS(g,r.row_cell) and
        CS(g,r.col_cell) < r.col_end_pos and r.col_end_pos <= r.col_cell.end_pos and RS(g,r.row_cell) < r.row_end_pos and r.row_end_pos <= r.row_cell.end_pos and
        (RS(g,r.row_cell_start) == 0 or UNDER(g, RS(g,r.row_cell_start), CS(g,r.col_cell_start)))''')
    D('FREE(g,r)', 'forall(k, trig(g.X0[k], imp(0 <= k and k < g.K, g.X1[k] <= CS(g,r.col_cell_start) or r.col_end_pos <= g.X0[k] or g.Y1[k] <= RS(g,r.row_cell_start) or r.row_end_pos <= g.Y0[k])))')
    sp.funcs['support'] = spec_fn(SUPP)
    sp.funcs['mark'] = spec_fn(MARK)
    sp.funcs['colfull'] = lambda ctx: COLFULL
    sp.funcs['topmost'] = spec_fn(ARGMIN)
    return ex, C
