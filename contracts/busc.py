"""contracts on include/busclique: coordinate arithmetic, masks, caches, small cliques"""
from common import *
from exec_cxx import BIT, BITF, bit_axioms

DRIVER = '''
#include <vector>
#include <map>
#include <set>
#include <string>
#include <iostream>
#include <limits>
#include <cstdint>
#include "busclique/util.hpp"
#include "busclique/cell_cache.hpp"
#include "busclique/bundle_cache.hpp"
namespace busclique {
// compositions: each is verified against the contracts of the functions it calls, not their bodies
size_t rt_chimera(size_t q, size_y dim_y, size_x dim_x, uint8_t shore) {
    size_y y; size_x x; bool u; uint8_t k;
    coordinate_converter::linear_chimera(q, y, x, u, k, dim_y, dim_x, shore);
    return coordinate_converter::chimera_linear(y, x, u, k, dim_y, dim_x, shore);
}
void rt_chimera_back(size_y y0, size_x x0, bool u0, uint8_t k0, size_y dim_y, size_x dim_x, uint8_t shore, size_y &y, size_x &x, bool &u, uint8_t &k) {
    size_t q = coordinate_converter::chimera_linear(y0, x0, u0, k0, dim_y, dim_x, shore);
    coordinate_converter::linear_chimera(q, y, x, u, k, dim_y, dim_x, shore);
}
size_t rt_pegasus(const pegasus_spec_base &t, size_t q) {
    bool u; size_w w; uint8_t k; size_z z;
    t.pegasus_coordinates(q, u, w, k, z);
    return t.pegasus_linear(u, w, k, z);
}
void rt_pegasus_back(const pegasus_spec_base &t, bool u0, size_w w0, uint8_t k0, size_z z0, bool &u, size_w &w, uint8_t &k, size_z &z) {
    size_t q = t.pegasus_linear(u0, w0, k0, z0);
    t.pegasus_coordinates(q, u, w, k, z);
}
size_t rt_zephyr(const zephyr_spec_base &t, size_t q) {
    bool u; size_w w; uint8_t k; size_z z;
    t.zephyr_coordinates(q, u, w, k, z);
    return t.zephyr_linear(u, w, k, z);
}
void rt_zephyr_back(const zephyr_spec_base &t, bool u0, size_w w0, uint8_t k0, size_z z0, bool &u, size_w &w, uint8_t &k, size_z &z) {
    size_t q = t.zephyr_linear(u0, w0, k0, z0);
    t.zephyr_coordinates(q, u, w, k, z);
}
bool two_cells(size_y y0, size_x x0, bool u0, size_y y1, size_x x1, bool u1, size_y dim_y, size_x dim_x) {
    return coordinate_converter::cell_index(y0, x0, u0, dim_y, dim_x) == coordinate_converter::cell_index(y1, x1, u1, dim_y, dim_x);
}
bool two_lines(bool u0, size_w w0, size_z z0, size_z t0, bool u1, size_w w1, size_z z1, size_z t1, size_y dim_y, size_x dim_x) {
    size_t stride[2] = {binom(dim_y), binom(dim_x)};
    size_t orth = dim_x*binom(dim_y);
    return coordinate_converter::bundle_cache_index(u0, w0, z0, t0, orth, stride[u0]) == coordinate_converter::bundle_cache_index(u1, w1, z1, t1, orth, stride[u1]);
}
template<typename topo_t>
bool two_fragments(const topo_t &t, size_t q0, size_t i, size_t q1, size_t j) {
    bool u0, u1; size_w w0, w1; uint8_t k0, k1; size_z z0, z1;
    t.first_fragment(q0, u0, w0, k0, z0);
    t.first_fragment(q1, u1, w1, k1, z1);
    return u0 == u1 && w0 == w1 && k0 == k1 && z0 + i == z1 + j;
}
template pegasus_spec_base::pegasus_spec_base(size_t, vector<uint8_t>, vector<uint8_t>, uint64_t);
template zephyr_spec_base::zephyr_spec_base(size_t, size_t, uint64_t);
template chimera_spec_base::chimera_spec_base(size_t, size_t, size_t, uint64_t);
template bool two_fragments<pegasus_spec_base>(const pegasus_spec_base &, size_t, size_t, size_t, size_t);
template bool two_fragments<zephyr_spec_base>(const zephyr_spec_base &, size_t, size_t, size_t, size_t);
uint8_t table_mask_bit(uint8_t k) { return mask_bit[k]; }
uint8_t table_first_bit(uint8_t x) { return first_bit[x]; }
uint8_t table_popcount(uint8_t x) { return popcount[x]; }
size_t line_entry_of(bool u0, size_w w0, size_z z0, size_z t0, size_y dim_y, size_x dim_x) {
    size_t stride[2] = {binom(dim_y), binom(dim_x)};
    size_t orth = dim_x*binom(dim_y);
    return coordinate_converter::bundle_cache_index(u0, w0, z0, t0, orth, stride[u0]);
}
void line_is_complete(size_t u, size_w w, size_t k, size_z z0, size_z z1) {
    for (size_z z = z0; z < z1; z++) { }
}
bool two_grid(size_y y0, size_x x0, size_y y1, size_x x1, size_y dim_y, size_x dim_x) {
    return coordinate_converter::grid_index(y0, x0, dim_y, dim_x) == coordinate_converter::grid_index(y1, x1, dim_y, dim_x);
}
template size_t coordinate_converter::chimera_linear<uint8_t>(size_y, size_x, bool, uint8_t, size_y, size_x, uint8_t);
template void bundle_cache<chimera_spec>::compute_line_masks();
template uint8_t &bundle_cache<chimera_spec>::get_line_mask(bool, size_w, size_z, size_z) const;
template bundle_cache<chimera_spec>::bundle_cache(const cell_cache<chimera_spec> &);
template void bundle_cache<chimera_spec>::inflate(size_y, size_x, size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template void bundle_cache<chimera_spec>::inflate(bool, size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template class cell_cache<chimera_spec>;
template void bundle_cache<pegasus_spec>::compute_line_masks();
template uint8_t &bundle_cache<pegasus_spec>::get_line_mask(bool, size_w, size_z, size_z) const;
template bundle_cache<pegasus_spec>::bundle_cache(const cell_cache<pegasus_spec> &);
template void bundle_cache<pegasus_spec>::inflate(size_y, size_x, size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template void bundle_cache<pegasus_spec>::inflate(bool, size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template class cell_cache<pegasus_spec>;
template void bundle_cache<zephyr_spec>::compute_line_masks();
template uint8_t &bundle_cache<zephyr_spec>::get_line_mask(bool, size_w, size_z, size_z) const;
template bundle_cache<zephyr_spec>::bundle_cache(const cell_cache<zephyr_spec> &);
template void bundle_cache<zephyr_spec>::inflate(size_y, size_x, size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template void bundle_cache<zephyr_spec>::inflate(bool, size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template class cell_cache<zephyr_spec>;
}
'''


def prog():
    return program('busclique', DRIVER, filters=('busclique::',))


CC = 'coordinate_converter::'
U8 = 'unsignedchar'
UL = 'unsignedlong'


TRI = z3.Function('tri', I, I)
_n = z3.Int('n')
# definition of the triangular numbers (n*n+n is even)
TRI_AX = [z3.ForAll([_n], z3.Implies(_n >= 0, 2 * TRI(_n) == _n * _n + _n), patterns=[TRI(_n)])]


CI = z3.Function('cell_of', I, I, I, I, I)
CINV = [z3.Function('cell_inv_' + c, I, I, I) for c in 'uwz']
LI = z3.Function('line_label', *([I] * 8))
LINV = [z3.Function('line_inv_' + c, I, I, I, I, I) for c in 'uwkz']
CQ = z3.Function('chimera_label', *([I] * 7))
CQINV = [z3.Function('chimera_inv_' + c, I, I, I, I) for c in 'uwkz']


LM = z3.Function('line_entry', *([I] * 7))
LMINV = [z3.Function('line_entry_inv_' + c, I, I, I, I) for c in ('u', 'w', 'z0', 'z1')]
FP = z3.Function('fragment_present', I, I, I, I, B)
JP = z3.Function('joint_present', I, I, I, I, B)
QZF = z3.Function('position_on_line', I, I, I, I, I)
LP = z3.Function('line_present', I, I, I, I, I, B)


def line_axioms(ends=True):
    """table entries of line segments (distinct and in range: two_lines), and presence of a segment by recursion on its length"""
    dy, dx, u, w, z0, z1, k = z3.Ints('dy dx u w z0 z1 k')
    l = LM(dy, dx, u, w, z0, z1)
    ok = z3.And(u >= 0, u <= 1, w >= 0, z0 >= 0, z0 <= z1, z3.If(u == 1, z3.And(w < dy, z1 < dx), z3.And(w < dx, z1 < dy)))
    val = u * (dx * TRI(dy)) + w * z3.If(u == 1, TRI(dx), TRI(dy)) + TRI(z1) + z0
    ax = [z3.ForAll([dy, dx, u, w, z0, z1], z3.Implies(ok, z3.And(l == val, 0 <= l, l < dx * TRI(dy) + dy * TRI(dx), *[f(dy, dx, l) == v for f, v in zip(LMINV, (u, w, z0, z1))])), patterns=[l])]
    p = LP(u, w, k, z0, z1)
    # consequences of the recursion (induction on the length of the segment; lemma line_is_complete)
    if ends:
        ax.append(z3.ForAll([u, w, k, z0, z1], z3.Implies(z3.And(z0 <= z1, p), z3.And(FP(u, w, k, z0), FP(u, w, k, z1))), patterns=[p]))
    ax.append(z3.ForAll([u, w, k, z0, z1], z3.Implies(z0 == z1, p == FP(u, w, k, z1)), patterns=[p]))
    z2 = z3.Int('z2')
    p2 = LP(u, w, k, z2, z1)
    ax.append(z3.ForAll([u, w, k, z0, z1, z2], z3.Implies(z3.And(z0 < z1, z2 == z0 + 1), p == z3.And(p2, JP(u, w, k, z2))), patterns=[z3.MultiPattern(p, p2)]))
    return ax


def index_axioms():
    dx, u, w, z, k, dw, s, dz = z3.Ints('dx u w z k dw s dz')
    cell = z3.If(u == 1, 1 + 2 * (z + dx * w), 0 + 2 * (w + dx * z))
    okc = z3.And(u >= 0, u <= 1, w >= 0, z >= 0, z3.If(u == 1, z < dx, w < dx))
    c = CI(dx, u, w, z)
    ax = [z3.ForAll([dx, u, w, z], z3.Implies(okc, z3.And(c == cell, *[f(dx, c) == v for f, v in zip(CINV, (u, w, z))])), patterns=[c])]
    l = LI(dw, s, dz, u, w, k, z)
    okl = z3.And(u >= 0, u <= 1, w >= 0, w < dw, k >= 0, k < s, z >= 0, z < dz)
    ax.append(z3.ForAll([dw, s, dz, u, w, k, z], z3.Implies(okl, z3.And(l == z + dz * (k + s * (w + dw * u)), *[f(dw, s, dz, l) == v for f, v in zip(LINV, (u, w, k, z))])), patterns=[l]))
    q = CQ(s, dx, u, w, k, z)
    okq = z3.And(okc, 0 <= k, k < s)
    ax.append(z3.ForAll([s, dx, u, w, k, z], z3.Implies(okq, z3.And(q == k + s * cell, *[f(s, dx, q) == v for f, v in zip(CQINV, (u, w, k, z))])), patterns=[q]))
    return ax


def macros(sp):
    sp.funcs['ci'] = spec_fn(CI)
    sp.funcs['li'] = spec_fn(LI)
    sp.funcs['cq'] = spec_fn(CQ)
    sp.funcs['bit'] = spec_fn(BIT)
    sp.funcs['tri'] = spec_fn(TRI)
    sp.define('PEGQ(t,u,w,k,z)', 'LINE(u,w//6,2*(w%6)+k,(z-t.offsets[u][w%6])//6,t.pdim,12,t.pdim-1)')
    sp.define('ZEPQ(t,u,w,k,z)', 'LINE(u,w,k,(z-k%2)//2,2*t.zdim+1,t.shore,t.zdim)')
    sp.define('QPEG(t,u,w,k,z)', 'li(t.pdim,12,t.pdim-1,u,w//6,2*(w%6)+k,(z-t.offsets[u][w%6])//6)')
    sp.define('QZEP(t,u,w,k,z)', 'li(2*t.zdim+1,t.shore,t.zdim,u,w,k,(z-k%2)//2)')
    sp.define('QCHI(t,u,w,k,z)', 'cq(t.shore,t.dim_x,u,w,k,z)')
    sp.define('NCELL(t)', '2*(t.dim_x*t.dim_y)')
    sp.define('NQ(t)', 't.shore*(2*(t.dim_x*t.dim_y))')
    sp.define('CELLW(u,w,z,dx)', 'ite(u==1, CELL(w,z,1,dx), CELL(z,w,0,dx))')
    sp.define('CELL(y,x,u,dx)', 'u + 2*(x+dx*y)')
    sp.define('CHIM(y,x,u,k,dx,s)', 'k + s*(u + 2*(x+dx*y))')
    sp.define('LINE(u,w,k,z,dw,s,dz)', 'z + dz*(k + s*(w + dw*u))')
    sp.define('INY(y,x,dy,dx)', '0<=y and y<dy and 0<=x and x<dx')
    sp.define('PEG(t)', 't.pdim>=2 and t.shore==2 and t.dim_y==6*t.pdim and t.dim_x==6*t.pdim and OFF(t)')
    sp.define('OFF(t)', 'forall(i, trig(t.offsets[0][i], imp(0<=i and i<6, 0<=t.offsets[0][i] and t.offsets[0][i]<=6))) and forall(i, trig(t.offsets[1][i], imp(0<=i and i<6, 0<=t.offsets[1][i] and t.offsets[1][i]<=6)))')
    sp.define('ZEP(t)', 't.zdim>=1 and 1<=t.zshore and t.zshore<=4 and t.shore==2*t.zshore and t.dim_y==2*t.zdim+1 and t.dim_x==2*t.zdim+1')


def coord_contracts():
    C = {}

    def add(c, k=None):
        C[k or c.sig or c.fn] = c
    # mixed-radix lemmas, each proved as an obligation where it is used
    def conv(fn, sig, *a, **k):
        add(Contract(CC + fn, sig=CC + fn + sig, **k))
    conv('cell_index', '(%s,%s,bool,%s,%s)' % (UL, UL, UL, UL), requires=['INY(y,x,dim_y,dim_x)'],
         hints=['imp(y<=dim_y-1, dim_x*y<=dim_x*(dim_y-1))'],
         ensures=[('value', 'result==CELL(y,x,b2i(u),dim_x)'), ('inside-the-table', '0<=result and result<2*(dim_x*dim_y)')])
    conv('cell_index', '(bool,%s,%s,%s,%s)' % (UL, UL, UL, UL), requires=['ite(u, INY(w,z,dim_y,dim_x), INY(z,w,dim_y,dim_x))'],
         ensures=[('value', 'result==ite(u, CELL(w,z,1,dim_x), CELL(z,w,0,dim_x))'), ('inside-the-table', '0<=result and result<2*(dim_x*dim_y)')])
    conv('grid_index', '(%s,%s,%s,%s)' % (UL, UL, UL, UL), requires=['INY(y,x,dim_y,dim_x)'], hints=['imp(y<=dim_y-1, dim_x*y<=dim_x*(dim_y-1))'],
         ensures=[('value', 'result==x+dim_x*y'), ('inside-the-table', '0<=result and result<dim_x*dim_y')])
    for t in (U8, 'int'):
        conv('chimera_linear', '(%s,%s,bool,%s,%s,%s,%s)' % (UL, UL, t, UL, UL, t), requires=['INY(y,x,dim_y,dim_x)', '0<=k and k<shore'],
             hints=['imp(y<=dim_y-1, dim_x*y<=dim_x*(dim_y-1))', 'b2i(u)+2*(x+dim_x*y)<=2*(dim_x*dim_y)-1', 'shore*(b2i(u)+2*(x+dim_x*y))<=shore*(2*(dim_x*dim_y)-1)'],
             ensures=[('value', 'result==CHIM(y,x,b2i(u),k,dim_x,shore)'), ('valid-label', '0<=result and result<shore*(2*(dim_x*dim_y))')])
    conv('linear_chimera', '(%s,size_y&,size_x&,bool&,%s&,%s,%s,%s)' % (UL, U8, UL, UL, U8), modifies=['y', 'x', 'u', 'k'],
         requires=['0<dim_y and 0<dim_x and 0<shore', '0<=q0 and q0<shore*(2*(dim_x*dim_y))'],
         ensures=[('valid-coordinates', 'INY(y,x,dim_y,dim_x) and 0<=k and k<shore'), ('value', 'q0==CHIM(y,x,b2i(u),k,dim_x,shore)')])
    conv('linemajor_linear', '(bool,%s,%s,%s,%s,%s,%s)' % (UL, U8, UL, UL, U8, UL), requires=['0<=w and w<dim_w and 0<=k and k<shore and 0<=z and z<dim_z'],
         hints=['w+dim_w*b2i(u)<=2*dim_w-1', 'shore*(w+dim_w*b2i(u))<=shore*(2*dim_w-1)', 'dim_z*(k+shore*(w+dim_w*b2i(u)))<=dim_z*(shore*(2*dim_w)-1)'],
         ensures=[('value', 'result==LINE(b2i(u),w,k,z,dim_w,shore,dim_z)'), ('valid-label', '0<=result and result<dim_z*(shore*(2*dim_w))')])
    conv('linear_linemajor', '(%s,bool&,size_w&,%s&,size_z&,%s,%s,%s)' % (UL, U8, UL, U8, UL), modifies=['u', 'w', 'k', 'z'],
         requires=['0<dim_w and 0<dim_z and 0<shore', '0<=q0 and q0<dim_z*(shore*(2*dim_w))'],
         ensures=[('valid-coordinates', '0<=w and w<dim_w and 0<=k and k<shore and 0<=z and z<dim_z'), ('value', 'q0==LINE(b2i(u),w,k,z,dim_w,shore,dim_z)')])
    conv('bundle_cache_index', '(bool,%s,%s,%s,%s,%s)' % (UL, UL, UL, UL, UL), requires=['0<=w and 0<=z0 and z0<=z1 and 0<=stride_u and 0<=stride_w'],
         ensures=[('value', 'result==b2i(u)*stride_u+w*stride_w+tri(z1)+z0')])
    add(Contract('binom', requires=['0<=x'], ensures=[('triangular', 'result==tri(x)')]), 'binom(unsignedlong)')
    # the topologies
    add(Contract('topo_spec_base::cell_index', sig='topo_spec_base::cell_index(%s,%s,bool)' % (UL, UL), requires=['INY(y,x,this.dim_y,this.dim_x)'],
                 ensures=[('value', 'result==CELL(y,x,b2i(u),this.dim_x)'), ('index', 'result==ci(this.dim_x,b2i(u),ite(u,y,x),ite(u,x,y))'), ('inside-the-table', '0<=result and result<NCELL(this)')]))
    add(Contract('topo_spec_base::cell_index', sig='topo_spec_base::cell_index(bool,%s,%s)' % (UL, UL), requires=['ite(u, INY(w,z,this.dim_y,this.dim_x), INY(z,w,this.dim_y,this.dim_x))'],
                 ensures=[('value', 'result==CELLW(b2i(u),w,z,this.dim_x)'), ('index', 'result==ci(this.dim_x,b2i(u),w,z)'), ('inside-the-table', '0<=result and result<NCELL(this)')]))
    add(Contract('topo_spec_base::num_cells', ensures=[('value', 'result==NCELL(this)')], requires=['0<=this.dim_y and 0<=this.dim_x']))
    for t in (U8, 'int'):
        add(Contract('topo_spec_base::chimera_linear', sig='topo_spec_base::chimera_linear(%s,%s,bool,%s)' % (UL, UL, t), requires=['INY(y,x,this.dim_y,this.dim_x)', '0<=k and k<this.shore and this.shore<=255'],
                     ensures=[('value', 'result==CHIM(y,x,b2i(u),k,this.dim_x,this.shore)'), ('index', 'result==cq(this.shore,this.dim_x,b2i(u),ite(u,y,x),k,ite(u,x,y))'), ('valid-label', '0<=result and result<NQ(this)')]))
    add(Contract('topo_spec_base::linear_chimera', sig='topo_spec_base::linear_chimera(%s,size_y&,size_x&,bool&,%s&)' % (UL, U8), modifies=['y', 'x', 'u', 'k'],
                 requires=['0<this.dim_y and 0<this.dim_x and 0<this.shore and this.shore<=255', '0<=q and q<NQ(this)'],
                 ensures=[('valid-coordinates', 'INY(y,x,this.dim_y,this.dim_x) and 0<=k and k<this.shore'), ('value', 'q==CHIM(y,x,b2i(u),k,this.dim_x,this.shore)'), ('index', 'q==cq(this.shore,this.dim_x,b2i(u),ite(u,y,x),k,ite(u,x,y))')]))
    P_IN = '0<=w and w<{0}.pdim and 0<=k and k<12 and 0<=z and z<{0}.pdim-1'
    P_V = 'LINE(b2i(u),w,k,z,{0}.pdim,12,{0}.pdim-1)'
    P_L = 'li({0}.pdim,12,{0}.pdim-1,b2i(u),w,k,z)'
    Z_L = 'li(2*{0}.zdim+1,{0}.shore,{0}.zdim,b2i(u),w,k,z)'
    P_N = '({0}.pdim-1)*(12*(2*{0}.pdim))'
    Z_IN = '0<=w and w<2*{0}.zdim+1 and 0<=k and k<{0}.shore and 0<=z and z<{0}.zdim'
    Z_V = 'LINE(b2i(u),w,k,z,2*{0}.zdim+1,{0}.shore,{0}.zdim)'
    Z_N = '{0}.zdim*({0}.shore*(2*(2*{0}.zdim+1)))'
    for nm, cls, ok, IN, V, N, LL in (('pegasus', 'pegasus_spec_base', 'PEG', P_IN, P_V, P_N, P_L), ('zephyr', 'zephyr_spec_base', 'ZEP', Z_IN, Z_V, Z_N, Z_L)):
        T = 'this'
        add(Contract('%s::%s_linear' % (cls, nm), requires=['%s(this)' % ok, IN.format(T)], ensures=[('value', 'result==' + V.format(T)), ('index', 'result==' + LL.format(T)), ('valid-label', '0<=result and result<' + N.format(T))]))
        add(Contract('%s::%s_coordinates' % (cls, nm), requires=['%s(this)' % ok, '0<=q and q<' + N.format(T)], modifies=['u', 'w', 'k', 'z'],
                     ensures=[('valid-coordinates', IN.format(T)), ('value', 'q==' + V.format(T)), ('index', 'q==' + LL.format(T))]))
        add(Contract('rt_' + nm, requires=['%s(t)' % ok, '0<=q and q<' + N.format('t')], ensures=[('label-to-coordinates-and-back', 'result==q')]))
        add(Contract('rt_%s_back' % nm, requires=['%s(t)' % ok, IN.format('t').replace('w', 'w0').replace('k', 'k0').replace('z', 'z0').replace('z0dim', 'zdim')], modifies=['u', 'w', 'k', 'z'], params=None,
                     hints=DM(*(('w', 'k', 'z', 'w0', 'k0', 'z0') + (('t.pdim', '12', 't.pdim-1') if nm == 'pegasus' else ('2*t.zdim+1', 't.shore', 't.zdim')))),
                     ensures=[('coordinates-to-label-and-back', 'u==u0 and w==w0 and k==k0 and z==z0')]))
    add(Contract('rt_chimera', requires=['0<dim_y and 0<dim_x and 0<shore', '0<=q and q<shore*(2*(dim_x*dim_y))'], ensures=[('label-to-coordinates-and-back', 'result==q')]))
    add(Contract('rt_chimera_back', requires=['INY(y0,x0,dim_y,dim_x)', '0<=k0 and k0<shore'], modifies=['y', 'x', 'u', 'k'],
                 hints=DM2('shore', '(b2i(u)+2*(x+dim_x*y))', '(b2i(u0)+2*(x0+dim_x*y0))') + ['u==u0', 'x+dim_x*y==x0+dim_x*y0'] + DM2('dim_x', 'y', 'y0'), ensures=[('coordinates-to-label-and-back', 'u==u0 and y==y0 and x==x0 and k==k0')]))
    # no two valid coordinates share a table entry
    add(Contract('two_cells', requires=['INY(y0,x0,dim_y,dim_x)', 'INY(y1,x1,dim_y,dim_x)'],
                 hints=['imp(result, b2i(u0)==b2i(u1))', 'imp(result, x0+dim_x*y0==x1+dim_x*y1)', 'imp(y0<y1, dim_x*(y0+1)<=dim_x*y1)', 'imp(y1<y0, dim_x*(y1+1)<=dim_x*y0)'],
                 ensures=[('distinct-cells-distinct-entries', 'result==(y0==y1 and x0==x1 and u0==u1)')]))
    add(Contract('two_grid', requires=['INY(y0,x0,dim_y,dim_x)', 'INY(y1,x1,dim_y,dim_x)'],
                 hints=['imp(y0<y1, dim_x*(y0+1)<=dim_x*y1)', 'imp(y1<y0, dim_x*(y1+1)<=dim_x*y0)'],
                 ensures=[('distinct-cells-distinct-entries', 'result==(y0==y1 and x0==x1)')]))
    LN = lambda i: 'ite(u%d, 0<=w%d and w%d<dim_y and t%d<dim_x, 0<=w%d and w%d<dim_x and t%d<dim_y) and 0<=z%d and z%d<=t%d' % ((i,) * 10)
    ST = lambda i: 'ite(u%d, tri(dim_x), tri(dim_y))' % i
    H = []
    for i in (0, 1):
        H += ['tri(t%d)+t%d+1==tri(t%d+1)' % (i, i, i)]
        H += ['imp(t%d+1<=%s, tri(t%d+1)<=tri(%s))' % (i, d, i, d) for d in ('dim_x', 'dim_y')]
        H += ['tri(t%d)+z%d<%s' % (i, i, ST(i))]
        H += ['imp(not u%d, (w%d+1)*tri(dim_y)<=dim_x*tri(dim_y))' % (i, i), 'imp(not u%d, w%d*tri(dim_y)+tri(t%d)+z%d<dim_x*tri(dim_y))' % (i, i, i, i)]
    H += ['imp(result, u0==u1)', 'imp(result, w0*%s+tri(t0)+z0==w1*%s+tri(t1)+z1)' % (ST(0), ST(0))]
    H += ['imp(w0<w1, (w0+1)*%s<=w1*%s)' % (ST(0), ST(0)), 'imp(w1<w0, (w1+1)*%s<=w0*%s)' % (ST(0), ST(0)), 'imp(result, w0==w1)', 'imp(result, tri(t0)+z0==tri(t1)+z1)',
          'imp(t0<t1, tri(t0+1)<=tri(t1))', 'imp(t1<t0, tri(t1+1)<=tri(t0))']
    add(Contract('two_lines', requires=[LN(0), LN(1)], hints=H, ensures=[('distinct-segments-distinct-entries', 'result==(u0==u1 and w0==w1 and z0==z1 and t0==t1)')]))
    add(Contract('line_entry_of', requires=[LN(0)], hints=[h for h in H if not re.search('[uwtz]1', h) and 'result' not in h],
                 ensures=[('inside-the-table', '0<=result and result<dim_x*tri(dim_y)+dim_y*tri(dim_x)')]))
    add(Contract('pegasus_spec_base::first_fragment', requires=['PEG(this)', '0<=q and q<' + P_N.format('this')], modifies=['u', 'w', 'k', 'z'], ensures=PF))
    add(Contract('zephyr_spec_base::first_fragment', requires=['ZEP(this)', '0<=q and q<' + Z_N.format('this')], modifies=['u', 'w', 'k', 'z'], ensures=ZF))
    for nm, cls, ok, N, n in (('pegasus', 'pegasus_spec_base', 'PEG', P_N, 6), ('zephyr', 'zephyr_spec_base', 'ZEP', Z_N, 2)):
        add(Contract('two_fragments', sig='two_fragments(const%s&,%s,%s,%s,%s)' % (cls, UL, UL, UL, UL), tag='two_fragments<%s>' % nm, requires=['%s(t)' % ok, '0<=q0 and q0<' + N.format('t'), '0<=q1 and q1<' + N.format('t'), '0<=i and i<%d and 0<=j and j<%d' % (n, n)],
                     ensures=[('fragments-of-different-qubits-differ', 'imp(result, q0==q1 and i==j)'), ('same', 'imp(q0==q1 and i==j, result)')]))
    for nm, cls, ok, N, n, F in (('pegasus', 'pegasus_spec_base', 'PEG', P_N, 6, PF), ('zephyr', 'zephyr_spec_base', 'ZEP', Z_N, 2, ZF)):
        FR = 'ite(u, CHIM(w,{0},1,k,this.dim_x,this.shore), CHIM({0},w,0,k,this.dim_x,this.shore))'
        add(Contract(cls + '::fragment_nodes', requires=['%s(this)' % ok, '0<=q and q<' + N.format('this')], ghosts={'g_w': 'Int', 'g_k': 'Int', 'g_z': 'Int', 'g_u': 'Bool'},
                     ghost_exit=['g_w := w', 'g_k := k', 'g_z := z0', 'g_u := u'],
                     loops=[Loop(inv=['z0<=z and z<=z0+%d' % n, 'len(fragments)==z0+%d-z' % n, 'forall(j, trig(fragments[j], imp(0<=j and j<len(fragments), fragments[j]==%s and 0<=fragments[j] and fragments[j]<NQ(this))))' % FR.format('(z0+%d-j)' % (n - 1))])],
                     ensures=[('one-per-cell', 'len(result)==%d' % n),
                              ('each-fragment', 'forall(j, trig(result[j], imp(0<=j and j<%d, result[j]==%s and 0<=result[j] and result[j]<NQ(this))))' % (n, FR.replace('(w', '(g_w').replace(',w', ',g_w').replace(',k,', ',g_k,').replace('ite(u', 'ite(g_u').format('(g_z+%d-j)' % (n - 1)))),
                              ('of-the-qubit', ' and '.join(t for _, t in F).replace('q==', 'q==').replace('(u)', '(g_u)').replace('this,b2i', 'this,b2i').replace('[w%', '[g_w%').replace(',w,k,z)', ',g_w,g_k,g_z)').replace('0<=w and w<', '0<=g_w and g_w<').replace('0<=k and k<', '0<=g_k and g_k<').replace('0<=z and z+', '0<=g_z and g_z+').replace('z>=', 'g_z>=').replace('(z-', '(g_z-').replace('k%2', 'g_k%2'))]))
    add(Contract('chimera_spec_base::fragment_nodes', ensures=[('itself', 'len(result)==1 and result[0]==q')]))
    add(Contract('topo_spec_base::topo_spec_base', modifies=['this'], sig='topo_spec_base::topo_spec_base(%s)' % ','.join([UL] * 4), ensures=[('fields', 'this.dim_y==dim_y and this.dim_x==dim_x and this.shore==s')]))
    add(Contract('pegasus_spec_base::pegasus_spec_base', modifies=['this'], sig='pegasus_spec_base::pegasus_spec_base(%s,vector<unsignedchar>,vector<unsignedchar>,%s)' % (UL, UL),
                 requires=['d>=2', 'len(voff)>=6 and len(hoff)>=6', 'forall(i, trig(voff[i], imp(0<=i and i<6, 0<=voff[i] and voff[i]<=6))) and forall(i, trig(hoff[i], imp(0<=i and i<6, 0<=hoff[i] and hoff[i]<=6)))'],
                 ensures=[('well-formed', 'PEG(this)'), ('size', 'this.pdim==d')]))
    add(Contract('zephyr_spec_base::zephyr_spec_base', modifies=['this'], sig='zephyr_spec_base::zephyr_spec_base(%s,%s,%s)' % (UL, UL, UL), requires=['d>=1', '1<=t and t<=4'],
                 ensures=[('well-formed', 'ZEP(this)'), ('size', 'this.zdim==d and this.zshore==t')]))
    return C


# first fragment of a qubit: the cell and track it starts in, from which its label can be recomputed
PF = [('inside-the-grid', '0<=w and w<6*this.pdim and 0<=k and k<2 and 0<=z and z+5<6*this.pdim'),
      ('starts-on-a-qubit-boundary', 'z>=this.offsets[b2i(u)][w%6] and (z-this.offsets[b2i(u)][w%6])%6==0 and (z-this.offsets[b2i(u)][w%6])//6<this.pdim-1'),
      ('its-qubit', 'q==PEGQ(this,b2i(u),w,k,z)'), ('its-label', 'q==QPEG(this,b2i(u),w,k,z)')]
ZF = [('inside-the-grid', '0<=w and w<2*this.zdim+1 and 0<=k and k<this.shore and 0<=z and z+1<2*this.zdim+1'),
      ('starts-on-a-qubit-boundary', 'z>=k%2 and (z-k%2)%2==0 and (z-k%2)//2<this.zdim'),
      ('its-qubit', 'q==ZEPQ(this,b2i(u),w,k,z)'), ('its-label', 'q==QZEP(this,b2i(u),w,k,z)')]


def DM(w, k, z, w0, k0, z0, dw, s, dz):
    """digit extraction in a mixed radix system, most significant digit last"""
    B, B0 = '(%s+%s*b2i(u))' % (w, dw), '(%s+%s*b2i(u0))' % (w0, dw)
    A, A0 = '(%s+%s*%s)' % (k, s, B), '(%s+%s*%s)' % (k0, s, B0)
    return DM2(dz, A, A0) + DM2(s, B, B0)


def DM2(d, x, y):
    return ['imp({1}<{2}, ({0})*({1}+1)<=({0})*{2})'.format(d, x, y), 'imp({2}<{1}, ({0})*({2}+1)<=({0})*{1})'.format(d, x, y), '%s==%s' % (x, y)]


def make_coord():
    reg = Registry()
    C = coord_contracts()
    ex = Exec(prog(), reg, C, axioms=TRI_AX + index_axioms())
    macros(ex.spec)
    return ex, list(C.values())


# the tables, entry by entry; table_axioms() holds of these definitions (checked here, exhaustively)
T_MASK = [1 << k for k in range(8)]
T_FIRST = [(x & -x).bit_length() - 1 if x else 0 for x in range(256)]
T_POP = [bin(x).count('1') for x in range(256)]
for _x in range(1, 256):
    assert 0 <= T_FIRST[_x] <= 7 and _x >> T_FIRST[_x] & 1 and all(T_FIRST[_x] <= k for k in range(8) if _x >> k & 1)
    assert T_POP[_x ^ T_MASK[T_FIRST[_x]]] == T_POP[_x] - 1 and 1 <= T_POP[_x] <= 8


def make_lines():
    """the tables against their definitions, and what the recursion of LP amounts to"""
    C = {}
    for nm, T, par in (('mask_bit', T_MASK, 'k'), ('first_bit', T_FIRST, 'x'), ('popcount', T_POP, 'x')):
        C['table_' + nm] = Contract('table_' + nm, requires=['0<=%s and %s<%d' % (par, par, len(T))], ensures=[('every-entry', ' and '.join('imp(%s==%d, result==%d)' % (par, i, v) for i, v in enumerate(T)))])
    JF = 'forall(zz, trig(JP(u,w,k,zz), imp(JP(u,w,k,zz), FP(u,w,k,zz-1) and FP(u,w,k,zz))))'
    C['line_is_complete'] = Contract('line_is_complete', requires=['0<=z0 and z0<=z1 and z1<1000000000000000000', JF],
        loops=[Loop(inv=['z0<=z and z<=z1', 'LP(u,w,k,z0,z1)==(LP(u,w,k,z,z1) and forall(x, trig(JP(u,w,k,x), imp(z0<x and x<=z, JP(u,w,k,x)))))'], hints=['imp(z<z1, LP(u,w,k,z,z1)==(LP(u,w,k,z+1,z1) and JP(u,w,k,z+1)))'])],
        ensures=[('a-line-is-its-fragments-and-joints', 'LP(u,w,k,z0,z1)==(FP(u,w,k,z1) and forall(x, trig(JP(u,w,k,x), imp(z0<x and x<=z1, JP(u,w,k,x)))))'),
                 ('both-ends', 'imp(LP(u,w,k,z0,z1), FP(u,w,k,z0) and FP(u,w,k,z1))')], hints=['imp(z0<z1 and LP(u,w,k,z0,z1), JP(u,w,k,z0+1))'])
    ex = Exec(prog(), Registry(), C, axioms=line_axioms(False))
    macros(ex.spec)
    for n, f in (('FP', FP), ('JP', JP), ('LP', LP)):
        ex.spec.funcs[n] = spec_fn(f)
    return ex, list(C.values())


# ---------------------------------------------------------------- masks
MDRIVER = '''
#include <vector>
#include <map>
#include <set>
#include <string>
#include <iostream>
#include <limits>
#include <cstdint>
#include "busclique/util.hpp"
#include "busclique/cell_cache.hpp"
#include "busclique/bundle_cache.hpp"
namespace busclique {
template class topo_spec_cellmask<TOPO_spec_base>;
template class cell_cache<TOPO_spec>;
template void bundle_cache<TOPO_spec>::compute_line_masks();
template uint8_t &bundle_cache<TOPO_spec>::get_line_mask(bool, size_w, size_z, size_z) const;
template bundle_cache<TOPO_spec>::bundle_cache(const cell_cache<TOPO_spec> &);
template void bundle_cache<TOPO_spec>::inflate(size_y, size_x, size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template void bundle_cache<TOPO_spec>::inflate(size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template void bundle_cache<TOPO_spec>::inflate(bool, size_y, size_y, size_x, size_x, vector<vector<size_t>> &) const;
template size_t bundle_cache<TOPO_spec>::score(size_y, size_x, size_y, size_y, size_x, size_x) const;
template uint8_t bundle_cache<TOPO_spec>::get_line_score(bool, size_w, size_z, size_z) const;
}
'''


def mprog(topo):
    return program('busc-' + topo, MDRIVER.replace('TOPO', topo), filters=('busclique::',))


U8T = TInt(8, False)
LSF = z3.Function('line_sum', z3.ArraySort(I, I), I, I, I, I, I, I, I, I)


def sum_axioms():
    """number of complete lines in columns (rows) a .. e-1 of direction u that span z0..z1"""
    A = z3.Const('lsA', z3.ArraySort(I, I))
    dy, dx, u, a, e, z, y = z3.Ints('dy dx u a e z y')
    t, n = LSF(A, dy, dx, u, a, e, z, y), LSF(A, dy, dx, u, a, e + 1, z, y)
    pc = lambda w: PC[A[LM(dy, dx, u, w, z, y)]]
    v = [A, dy, dx, u, a, e, z, y]
    return [z3.ForAll(v, z3.Implies(e <= a, t == 0), patterns=[t]),
            z3.ForAll(v, z3.Implies(a <= e, n == t + pc(e)), patterns=[z3.MultiPattern(t, A[LM(dy, dx, u, e, z, y)])]),
            z3.ForAll(v, z3.Implies(a < e, t == pc(a) + LSF(A, dy, dx, u, a + 1, e, z, y)), patterns=[z3.MultiPattern(t, A[LM(dy, dx, u, a, z, y)])]),
            z3.ForAll(v, t >= 0, patterns=[t])]


MB, FB, PC = [z3.Const('tbl_' + n, z3.ArraySort(I, I)) for n in ('mask_bit', 'first_bit', 'popcount')]


def table_axioms():
    x, k, j = z3.Ints('x k j')
    return [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= 7), z3.And(MB[j] >= 1, MB[j] <= 128)), patterns=[MB[j]]),
            z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j <= 7, k >= 0), BIT(MB[j], k) == (j == k)), patterns=[BIT(MB[j], k)]),
            z3.ForAll([x], z3.Implies(z3.And(1 <= x, x <= 255), z3.And(0 <= FB[x], FB[x] <= 7, BIT(x, FB[x]))), patterns=[FB[x]]),
            z3.ForAll([x, k], z3.Implies(z3.And(1 <= x, x <= 255, 0 <= k, BIT(x, k)), FB[x] <= k), patterns=[z3.MultiPattern(FB[x], BIT(x, k))]),
            z3.ForAll([x], z3.Implies(z3.And(0 <= x, x <= 255), z3.And(0 <= PC[x], PC[x] <= 8, (PC[x] == 0) == (x == 0))), patterns=[PC[x]]),
            z3.ForAll([x], z3.Implies(z3.And(1 <= x, x <= 255), PC[BITF['^'](x, MB[FB[x]])] == PC[x] - 1), patterns=[BITF['^'](x, MB[FB[x]])])]


NODEP = z3.Function('node_present', I, B)
EDGEP = z3.Function('coupler_present', I, I, B)
COV = {'chimera': '1==1', 'pegasus': 'z>=t.offsets[u][w%6] and (z-t.offsets[u][w%6])//6<=t.pdim-2', 'zephyr': 'z>=k%2 and (z-k%2)//2<=t.zdim-1'}
QN = {'chimera': 'QCHI', 'pegasus': 'QPEG', 'zephyr': 'QZEP'}
OK = {'chimera': 't.dim_y>=1 and t.dim_x>=1 and 1<=t.shore and t.shore<=8', 'pegasus': 'PEG(t)', 'zephyr': 'ZEP(t)'}
NQL = {'chimera': 'NQ(t)', 'pegasus': '(t.pdim-1)*(12*(2*t.pdim))', 'zephyr': 't.zdim*(t.shore*(2*(2*t.zdim+1)))'}


def mask_macros(sp, topo):
    sp.define('COV(t,u,w,k,z)', 'k<t.shore and ' + COV[topo])
    sp.define('QQ(t,u,w,k,z)', QN[topo] + '(t,u,w,k,z)')
    sp.define('OKT(t)', OK[topo])
    sp.define('NLAB(t)', NQL[topo])
    sp.define('RNG(t,u,w,z,k)', '0<=u and u<=1 and 0<=w and 0<=z and 0<=k and ite(u==1, w<t.dim_y and z<t.dim_x, w<t.dim_x and z<t.dim_y)')
    sp.define('NODEIN(nodes,n,q)', 'exists(i, 0<=i and i<n and nodes[i]==q)')
    sp.define('EDGEIN(edges,n,p,q)', 'exists(i, 0<=i and i<n and ((edges[i].first==p and edges[i].second==q) or (edges[i].first==q and edges[i].second==p)))')
    sp.define('RNGW(t,u,w,z)', '0<=w and 0<=z and ite(u==1, w<t.dim_y and z<t.dim_x, w<t.dim_x and z<t.dim_y)')
    sp.funcs['NODEP'] = spec_fn(NODEP)
    sp.funcs['EDGEP'] = spec_fn(EDGEP)
    # present fragment / present joint between the fragments at z-1 and z
    sp.define('FRAG(t,u,w,k,z)', 'COV(t,u,w,k,z) and NODEP(QQ(t,u,w,k,z))')
    sp.define('JOINT(t,u,w,k,z)', 'z>=1 and FRAG(t,u,w,k,z-1) and FRAG(t,u,w,k,z) and (QQ(t,u,w,k,z-1)==QQ(t,u,w,k,z) or EDGEP(QQ(t,u,w,k,z-1),QQ(t,u,w,k,z)))')
    sp.funcs['lsum'] = spec_fn(LSF)
    for n, f in (('FP', FP), ('JP', JP), ('LP', LP), ('lm', LM)):
        sp.funcs[n] = spec_fn(f)
    sp.funcs['mbit'] = lambda ctx, a: MB[ctx.num(a)]
    sp.funcs['fbit'] = lambda ctx, a: FB[ctx.num(a)]
    sp.funcs['popc'] = lambda ctx, a: PC[ctx.num(a)]
    sp.define('NODES_OK(t,nm)', 'forall(u,w,z,k, trig(bit(nm[ci(t.dim_x,u,w,z)],k), imp(RNG(t,u,w,z,k), bit(nm[ci(t.dim_x,u,w,z)],k)==FP(u,w,k,z))))')
    sp.define('EDGES_OK(t,em)', 'forall(u,w,z,k, trig(bit(em[ci(t.dim_x,u,w,z)],k), imp(RNG(t,u,w,z,k), bit(em[ci(t.dim_x,u,w,z)],k)==JP(u,w,k,z))))')
    sp.define('LINES(t)', 't.dim_x*tri(t.dim_y)+t.dim_y*tri(t.dim_x)')
    sp.define('LRNG(t,u,w,z0,z1)', '0<=u and u<=1 and 0<=w and 0<=z0 and z0<=z1 and ite(u==1, w<t.dim_y and z1<t.dim_x, w<t.dim_x and z1<t.dim_y)')
    # line masks of all segments satisfying `done` hold exactly the complete lines
    sp.define('LINES_OK(t,lmk)', 'forall(u,w,z0,z1,k, trig(bit(lmk[lm(t.dim_y,t.dim_x,u,w,z0,z1)],k), imp(LRNG(t,u,w,z0,z1) and 0<=k, bit(lmk[lm(t.dim_y,t.dim_x,u,w,z0,z1)],k)==LP(u,w,k,z0,z1))))')
    sp.define('LLEN(t,u,w,k,z0,z1)', 'QZ(t,u,w,k,z1)-QZ(t,u,w,k,z0)+1')
    sp.funcs['qz_'] = spec_fn(QZF)
    sp.define('QZ(t,u,w,k,z)', 'qz_(u,w,k,z)')
    sp.define('QZDEF(t)', 'forall(u,w,k,z, trig(qz_(u,w,k,z), qz_(u,w,k,z)==QZV(t,u,w,k,z)))')
    sp.define('QZV(t,u,w,k,z)', {'chimera': 'z', 'pegasus': '(z-t.offsets[u][w%6])//6', 'zephyr': '(z-k%2)//2'}[topo])
    sp.define('QL(t,u,w,k,j)', {'chimera': 'cq(t.shore,t.dim_x,u,w,k,j)', 'pegasus': 'li(t.pdim,12,t.pdim-1,u,w//6,2*(w%6)+k,j)', 'zephyr': 'li(2*t.zdim+1,t.shore,t.zdim,u,w,k,j)'}[topo])
    # what a node mask / edge mask holds after adding the first n nodes / edges
    sp.define('NBIT(t,nm,onm,nodes,n)', 'forall(u,w,z,k, trig(bit(nm[ci(t.dim_x,u,w,z)],k), imp(RNG(t,u,w,z,k), bit(nm[ci(t.dim_x,u,w,z)],k)==(bit(onm[ci(t.dim_x,u,w,z)],k) or (COV(t,u,w,k,z) and NODEIN(nodes,n,QQ(t,u,w,k,z)))))))')
    sp.define('NEBIT(t,em,oem,nodes,n)', 'forall(u,w,z,k, trig(bit(em[ci(t.dim_x,u,w,z)],k), imp(RNG(t,u,w,z,k), bit(em[ci(t.dim_x,u,w,z)],k)==(bit(oem[ci(t.dim_x,u,w,z)],k) or (z>=1 and COV(t,u,w,k,z-1) and COV(t,u,w,k,z) and QQ(t,u,w,k,z-1)==QQ(t,u,w,k,z) and NODEIN(nodes,n,QQ(t,u,w,k,z)))))))')
    sp.define('EBIT(t,em,oem,edges,n)', 'forall(u,w,z,k, trig(bit(em[ci(t.dim_x,u,w,z)],k), imp(RNG(t,u,w,z,k), bit(em[ci(t.dim_x,u,w,z)],k)==(bit(oem[ci(t.dim_x,u,w,z)],k) or (z>=1 and COV(t,u,w,k,z-1) and COV(t,u,w,k,z) and QQ(t,u,w,k,z-1)!=QQ(t,u,w,k,z) and EDGEIN(edges,n,QQ(t,u,w,k,z-1),QQ(t,u,w,k,z)))))))')


def mask_contracts(topo, mp=None):
    mp = mp or mprog(topo)
    C = coord_contracts()
    for k in [k for k in C if 'rt_' in k or 'two_' in k]:
        del C[k]
    M = {}

    def add(c, k=None):
        C[k or c.sig or c.fn] = c
        M[k or c.sig or c.fn] = c
    cls = topo + '_spec_base'
    B2 = {'nodemask': 'NCELL(this)', 'edgemask': 'NCELL(this)'}
    NODES = 'forall(i, trig(nodes[i], imp(0<=i and i<len(nodes), 0<=nodes[i] and nodes[i]<NLAB(this))))'
    EDGES = 'forall(i, trig(edges[i].first, imp(0<=i and i<len(edges), 0<=edges[i].first and edges[i].first<NLAB(this) and 0<=edges[i].second and edges[i].second<NLAB(this))))'
    if topo == 'chimera':
        add(Contract(cls + '::process_nodes', sig='%s::process_nodes(uint8_t*,uint8_t*,uint8_t*,constvector<size_t>&,ignore_badmask)' % cls, params=['nodemask', 'edgemask', 'badmask', 'nodes', '_'],
                     requires=['OKT(this)', NODES], modifies=['nodemask'], buflen={'nodemask': 'NCELL(this)'},
                     loops=[Loop(inv=['NBIT(this,nodemask,old(nodemask),nodes,_k)'])], ensures=[('bit-exactly-for-each-listed-node', 'NBIT(this,nodemask,old(nodemask),nodes,len(nodes))')]))
    else:
        BLK = 'forall(u2, w2, z2, k2, trig(bit(MM[ci(this.dim_x,u2,w2,z2)],k2), imp(RNG(this,u2,w2,z2,k2), bit(MM[ci(this.dim_x,u2,w2,z2)],k2)==(bit(entry(MM)[ci(this.dim_x,u2,w2,z2)],k2) or (u2==b2i(u) and w2==w and k2==k and entry(z)+1<=z2 and z2<=z)))))'
        add(Contract(cls + '::process_nodes', sig='%s::process_nodes(uint8_t*,uint8_t*,uint8_t*,constvector<size_t>&,ignore_badmask)' % cls,
                     requires=['OKT(this)', NODES], modifies=['nodemask', 'edgemask'], buflen=B2,
                     loops=[Loop(inv=['NBIT(this,nodemask,old(nodemask),nodes,_k)', 'NEBIT(this,edgemask,old(edgemask),nodes,_k)'])] + ([Loop(inv=['1<=i and i<=6', 'z==entry(z)+i-1', BLK.replace('MM', 'nodemask'), BLK.replace('MM', 'edgemask')])] if topo == 'pegasus' else []),
                     ensures=[('node-bit-exactly-for-each-listed-node', 'NBIT(this,nodemask,old(nodemask),nodes,len(nodes))'), ('internal-coupler-bits', 'NEBIT(this,edgemask,old(edgemask),nodes,len(nodes))')]))
    add(Contract(cls + '::process_edges', sig='%s::process_edges(uint8_t*,uint8_t*,constvector<pair<size_t,size_t>>&,ignore_badmask)' % cls,
                 requires=['OKT(this)', EDGES], modifies=['edgemask'], buflen={'edgemask': 'NCELL(this)'},
                 loops=[Loop(inv=['EBIT(this,edgemask,old(edgemask),edges,_k)'])], ensures=[('bit-exactly-for-each-listed-coupler', 'EBIT(this,edgemask,old(edgemask),edges,len(edges))')]))
    # the cell cache
    T = 'this.topo'
    CB = {'this.nodemask': 'NCELL(this.topo)', 'this.edgemask': 'NCELL(this.topo)'}
    INR = 'RNGW(this.topo,b2i(u),w,z)'
    add(Contract('cell_cache::qmask', requires=['OKT(this.topo)', INR], buflen=CB, ensures=[('the-byte', 'result==this.nodemask[ci(this.topo.dim_x,b2i(u),w,z)]')]))
    add(Contract('cell_cache::emask', requires=['OKT(this.topo)', INR], buflen=CB, ensures=[('the-byte', 'result==this.edgemask[ci(this.topo.dim_x,b2i(u),w,z)]')]))
    NP = ['forall(q, trig(NODEP(q), NODEP(q)==NODEIN(nodes,len(nodes),q)))', 'forall(p, q, trig(EDGEP(p,q), EDGEP(p,q)==EDGEIN(edges,len(edges),p,q)))',
          'forall(u,w,k,z, trig(FP(u,w,k,z), FP(u,w,k,z)==(FRAG(p,u,w,k,z))))', 'forall(u,w,k,z, trig(JP(u,w,k,z), JP(u,w,k,z)==(JOINT(p,u,w,k,z))))',
          NODES.replace('this', 'p'), EDGES.replace('this', 'p')]
    BOTH = 'forall(i, trig(edges[i].first, imp(0<=i and i<len(edges), NODEP(edges[i].first) and NODEP(edges[i].second))))'
    cc = [f for f in mp.byname.get('cell_cache::cell_cache', []) if len(f.params) == 3 and 'vector' in str(f.sig())]
    add(Contract('cell_cache::cell_cache', sig=cc[0].sig() if cc else None, tag='cell_cache::cell_cache(spec, nodes, edges)', requires=['OKT(p)'] + NP + [BOTH], modifies=['this'], buflen=CB,
                 ensures=[('own-buffers', 'not this.borrow'), ('topology', 'this.topo.dim_y==p.dim_y and this.topo.dim_x==p.dim_x and this.topo.shore==p.shore and OKT(this.topo)'),
                          ('node-masks', 'NODES_OK(this.topo,this.nodemask)'), ('coupler-masks', 'EDGES_OK(this.topo,this.edgemask)')]))
    # the qubits of a line, one per position along it
    LN = 'QZ(this,b2i(u),w,k,z1)-QZ(this,b2i(u),w,k,z0)+1'
    OLD = 'forall(j, trig(chain[j], imp(0<=j and j<len(old(chain)), chain[j]==old(chain)[j])))'
    def elemsj(n):
        return 'forall(j, trig(chain[j], imp(len(old(chain))<=j and j<len(old(chain))+%s, chain[j]==QL(this,b2i(u),w,k,QZ(this,b2i(u),w,k,z0)+j-len(old(chain))) and 0<=chain[j] and chain[j]<NLAB(this))))' % n
    cur = {'chimera': 'ite(u, x, y)', 'pegasus': 'qz', 'zephyr': 'qz'}[topo]
    IV = lambda c: ['QZ(this,b2i(u),w,k,z0)<=%s and %s<=QZ(this,b2i(u),w,k,z1)+1' % (c, c), 'len(chain)==len(old(chain))+%s-QZ(this,b2i(u),w,k,z0)' % c, OLD, elemsj('(%s-QZ(this,b2i(u),w,k,z0))' % c)]
    LPRE = ['OKT(this)', 'QZDEF(this)', 'LRNG(this,b2i(u),w,z0,z1) and 0<=k and k<this.shore', 'COV(this,b2i(u),w,k,z0) and COV(this,b2i(u),w,k,z1)']
    add(Contract(cls + '::construct_line', requires=LPRE, modifies=['chain'],
                 loops=[Loop(inv=IV('x')), Loop(inv=IV('y'))] if topo == 'chimera' else [Loop(inv=IV('qz'))],
                 ensures=[('one-qubit-per-position', 'len(chain)==len(old(chain))+' + LN), ('earlier-qubits-kept', OLD), ('the-qubits-of-the-line', elemsj('(%s)' % LN))]))
    # inflating: chain j is the vertical line on track g_v[j] followed by the horizontal line on track g_h[j]
    AI = TZ3(z3.ArraySort(I, I))
    def ell(yc, xc, y0, y1, x0, x1, K0, K1, T, hints=()):
        F = dict(yc=yc, xc=xc, y0=y0, y1=y1, x0=x0, x1=x1, K0=K0, K1=K1, T=T)
        VL = 'LLEN({T},0,{xc},g_v[j],{y0},{y1})'.format(**F)
        HL = 'LLEN({T},1,{yc},g_h[j],{x0},{x1})'.format(**F)
        J = 'len(old(emb))<=j and j<len(emb)'
        tracks = 'forall(j, trig(g_v[j], imp(%s, 0<=g_v[j] and g_v[j]<8 and bit(%s,g_v[j]))))' % (J, K0) + ' and ' + 'forall(j, trig(g_h[j], imp(%s, 0<=g_h[j] and g_h[j]<8 and bit(%s,g_h[j]))))' % (J, K1)
        incr = 'forall(i, j, trig((g_v[i], g_v[j]), imp(len(old(emb))<=i and i<j and j<len(emb), g_v[i]<g_v[j]))) and forall(i, j, trig((g_h[i], g_h[j]), imp(len(old(emb))<=i and i<j and j<len(emb), g_h[i]<g_h[j])))'
        size = 'forall(j, trig(len(emb[j]), imp(%s, len(emb[j])==%s+%s)))' % (J, VL, HL)
        vert = 'forall(j, i, trig(emb[j][i], imp(%s and 0<=i and i<%s, emb[j][i]==QL(%s,0,%s,g_v[j],QZ(%s,0,%s,g_v[j],%s)+i))))' % (J, VL, T, xc, T, xc, y0)
        horz = 'forall(j, i, trig(emb[j][i], imp(%s and g_l[j]<=i and i<len(emb[j]), emb[j][i]==QL(%s,1,%s,g_h[j],QZ(%s,1,%s,g_h[j],%s)+i-g_l[j]))))' % (J, T, yc, T, yc, x0)
        size += ' and forall(j, trig(g_l[j], imp(%s, g_l[j]==%s)))' % (J, VL)
        sh = [re.sub(r'\bj\b', '(len(emb)-1)', x) for x in ('len(emb[j])==%s+%s' % (VL, HL),
              'forall(i, trig(emb[j][i], imp(g_l[j]<=i and i<len(emb[j]), emb[j][i]==QL(%s,1,%s,g_h[j],QZ(%s,1,%s,g_h[j],%s)+i-g_l[j]))))' % (T, yc, T, yc, x0))]
        kept = 'forall(j, i, trig(emb[j][i], imp(0<=j and j<len(old(emb)), emb[j][i]==old(emb)[j][i]))) and forall(j, trig(len(emb[j]), imp(0<=j and j<len(old(emb)), len(emb[j])==len(old(emb)[j]))))'
        gk = ['forall(j, trig(%s[j], imp(0<=j and j<len(old(emb)), %s[j]==old(%s)[j])))' % (g, g, g) for g in ('g_v', 'g_h', 'g_l')]
        ens = [('as-many-as-the-smaller-side', 'len(emb)==len(old(emb))+ite(popc(%s)<popc(%s), popc(%s), popc(%s))' % (K0, K1, K0, K1)), ('earlier-chains-kept', kept),
               ('tracks-present', tracks), ('tracks-different', incr), ('chain-length', size), ('vertical-line', vert), ('horizontal-line', horz)] + [('earlier-tracks-kept', e) for e in gk]
        inv = ['0<=k0 and k0<=255 and 0<=k1 and k1<=255', 'len(old(emb))<=len(emb)', 'len(emb)-len(old(emb))+ite(popc(k0)<popc(k1), popc(k0), popc(k1))==ite(popc(%s)<popc(%s), popc(%s), popc(%s))' % (K0, K1, K0, K1),
               'forall(k, trig(bit(k0,k), imp(0<=k and bit(k0,k), bit(%s,k)))) and forall(k, trig(bit(k1,k), imp(0<=k and bit(k1,k), bit(%s,k))))' % (K0, K1),
               'forall(k, j, trig((bit(k0,k), g_v[j]), imp(0<=k and bit(k0,k) and %s, g_v[j]<k)))' % J, 'forall(k, j, trig((bit(k1,k), g_h[j]), imp(0<=k and bit(k1,k) and %s, g_h[j]<k)))' % J,
               kept, tracks, incr, size, vert, horz] + gk
        return dict(ensures=ens, ghosts={'g_v': AI, 'g_h': AI, 'g_l': AI}, modifies=['emb', 'g_v', 'g_h', 'g_l'], loops=[Loop(inv=inv, hints=hints, step_hints=sh, decreases='popc(k0)', ghost_start=['g_v := store(g_v, len(emb), fbit(k0))', 'g_h := store(g_h, len(emb), fbit(k1))', 'g_l := store(g_l, len(emb), LLEN(%s,0,%s,fbit(k0),%s,%s))' % (T, xc, y0, y1)])])
    COVF = 'forall(u,w,k,z, trig(FP(u,w,k,z), imp(FP(u,w,k,z), COV(%s,u,w,k,z))))'
    CK = 'this.nodemask[ci(this.topo.dim_x,%s)]'
    add(Contract('cell_cache::inflate', requires=['OKT(this.topo)', 'QZDEF(this.topo)', 'NODES_OK(this.topo,this.nodemask)', COVF % 'this.topo', 'INY(y,x,this.topo.dim_y,this.topo.dim_x)'], buflen=CB,
                 **ell('y', 'x', 'y', 'y', 'x', 'x', CK % '0,x,y', CK % '1,y,x', 'this.topo', ['imp(k0!=0, bit(k0,fbit(k0)))', 'imp(k1!=0, bit(k1,fbit(k1)))', 'imp(k0!=0, FP(0,x,fbit(k0),y))', 'imp(k1!=0, FP(1,y,fbit(k1),x))', 'imp(k0!=0, COV(this.topo,0,x,fbit(k0),y))', 'imp(k1!=0, COV(this.topo,1,y,fbit(k1),x))'])))
    # the bundle cache
    BT = 'CELLS.topo'
    DIMS = 'this.linestride[0]==tri(%s.dim_y) and this.linestride[1]==tri(%s.dim_x) and this.orthstride==%s.dim_x*tri(%s.dim_y)' % ((BT,) * 4)
    BB = {'this.line_mask': 'LINES(CELLS.topo)', 'CELLS.nodemask': 'NCELL(CELLS.topo)', 'CELLS.edgemask': 'NCELL(CELLS.topo)'}
    LMX = 'lm(%s.dim_y,%s.dim_x,' % (BT, BT)
    CELLOK = ['OKT(CELLS.topo)', 'NODES_OK(CELLS.topo,CELLS.nodemask)', 'EDGES_OK(CELLS.topo,CELLS.edgemask)']
    add(Contract('bundle_cache::get_line_mask', requires=['OKT(%s)' % BT, DIMS, 'LRNG(%s,b2i(u),w,z0,z1)' % BT], buflen=BB,
                 hints=['index==%sb2i(u),w,z0,z1)' % LMX, '0<=index and index<LINES(%s)' % BT],
                 returns_ref='this.line_mask[%sb2i(u),w,z0,z1)]' % LMX, ensures=[('the-byte', 'result==this.line_mask[%sb2i(u),w,z0,z1)]' % LMX)]))
    DIMW = 'ite(side.u, CELLS.topo.dim_y, CELLS.topo.dim_x)'
    def done(c):
        return 'forall(u2,w2,a,b,k, trig(bit(this.line_mask[%su2,w2,a,b)],k), imp(LRNG(%s,u2,w2,a,b) and 0<=k and (%s), bit(this.line_mask[%su2,w2,a,b)],k)==LP(u2,w2,k,a,b))))' % (LMX, BT, c, LMX)
    SU = 'b2i(side.u)'
    BASE = '%s*(CELLS.topo.dim_x*tri(CELLS.topo.dim_y))+w*tri(side.dim_z)' % SU
    L1 = 'offset(mask)==ite(_k==0, 0, ite(_k==1, CELLS.topo.dim_x*tri(CELLS.topo.dim_y), LINES(CELLS.topo)))'
    SIDE = 'ite(side.u, side.dim_w==CELLS.topo.dim_y and side.dim_z==CELLS.topo.dim_x, side.dim_w==CELLS.topo.dim_x and side.dim_z==CELLS.topo.dim_y)'
    add(Contract('bundle_cache::compute_line_masks', requires=CELLOK + [DIMS], modifies=['this.line_mask'], buflen=BB,
                 loops=[Loop(inv=[L1, done('u2<_k')]),
                        Loop(inv=['0<=w and w<=side.dim_w', 'offset(mask)==' + BASE, done('u2<%s or (u2==%s and w2<w)' % (SU, SU))], hints=['(w+1)*tri(side.dim_z)==w*tri(side.dim_z)+tri(side.dim_z)', SIDE]),
                        Loop(inv=['0<=z and z<=side.dim_z', 'offset(mask)==%s+tri(z)-z' % BASE, done('u2<%s or (u2==%s and (w2<w or (w2==w and b<z)))' % (SU, SU))],
                             hints=['tri(z+1)==tri(z)+z+1', 'imp(z<side.dim_z, lm(%s.dim_y,%s.dim_x,%s,w,z,z)==offset(mask)+z+z)' % (BT, BT, SU)]),
                        Loop(inv=['0<=z0 and z0<=z', 'offset(mask)==%s+tri(z)' % BASE, '0<=m and m<=255', 'forall(k, trig(bit(m,k), imp(0<=k, bit(m,k)==LP(%s,w,k,z0,z))))' % SU,
                                  done('u2<%s or (u2==%s and (w2<w or (w2==w and (b<z or (b==z and z0<=a)))))' % (SU, SU))],
                             hints=['imp(z0>=1, lm(%s.dim_y,%s.dim_x,%s,w,z0-1,z)==offset(mask)+z0-1)' % (BT, BT, SU)])],
                 ensures=[('line-masks', 'LINES_OK(CELLS.topo,this.line_mask)')]))
    BOK = ['OKT(CELLS.topo)', 'QZDEF(CELLS.topo)', DIMS, 'LINES_OK(CELLS.topo,this.line_mask)', COVF % BT]
    ct = [f for f in mp.byname.get('bundle_cache::bundle_cache', []) if f.body and 'cell_cache' in str(f.sig())]
    add(Contract('bundle_cache::bundle_cache', sig=ct[0].sig() if ct else None, tag='bundle_cache::bundle_cache(cells)', params=['c'], alias={'c': 'CELLS'}, requires=CELLOK, modifies=['this'], buflen=BB,
                 ensures=[('table-layout', DIMS), ('line-masks', 'LINES_OK(CELLS.topo,this.line_mask)')]))
    LK = 'this.line_mask[' + LMX + '%s)]'
    i7 = [f for f in mp.byname.get('bundle_cache::inflate', []) if f.body]
    sg = {len(f.params): f.sig() for f in i7}
    KV, KH = LK % '0,xc,y0,y1', LK % '1,yc,x0,x1'
    HV, HH = 'imp(k0!=0, %s)', 'imp(k1!=0, %s)'
    add(Contract('bundle_cache::inflate', sig=sg.get(7), tag='bundle_cache::inflate(ell bundle)', requires=BOK + ['LRNG(CELLS.topo,0,xc,y0,y1) and LRNG(CELLS.topo,1,yc,x0,x1)'], buflen=BB,
                 **ell('yc', 'xc', 'y0', 'y1', 'x0', 'x1', KV, KH, BT, [HV % 'bit(k0,fbit(k0))', HH % 'bit(k1,fbit(k1))', HV % 'LP(0,xc,fbit(k0),y0,y1)', HH % 'LP(1,yc,fbit(k1),x0,x1)',
                     HV % 'FP(0,xc,fbit(k0),y0)', HV % 'FP(0,xc,fbit(k0),y1)', HH % 'FP(1,yc,fbit(k1),x0)', HH % 'FP(1,yc,fbit(k1),x1)',
                     HV % 'COV(CELLS.topo,0,xc,fbit(k0),y0) and COV(CELLS.topo,0,xc,fbit(k0),y1)', HH % 'COV(CELLS.topo,1,yc,fbit(k1),x0) and COV(CELLS.topo,1,yc,fbit(k1),x1)'])))
    # every complete line of a direction, once
    A2 = TZ3(z3.ArraySort(I, z3.ArraySort(I, I)))
    U = 'b2i(u)'
    Z0, Z1, W0, W1 = 'ite(u, x0, y0)', 'ite(u, x1, y1)', 'ite(u, y0, x0)', 'ite(u, y1, x1)'
    J = 'len(old(emb))<=j and j<len(emb)'
    LEN = 'LLEN(%s,%s,g_w[j],g_v[j],%s,%s)' % (BT, U, Z0, Z1)
    is_line = 'forall(j, trig(g_v[j], imp(%s, 0<=g_v[j] and g_v[j]<8 and %s<=g_w[j] and g_w[j]<=%s and bit(this.line_mask[%s%s,g_w[j],%s,%s)],g_v[j]) and LP(%s,g_w[j],g_v[j],%s,%s))))' % (J, W0, W1, LMX, U, Z0, Z1, U, Z0, Z1)
    size = 'forall(j, trig(len(emb[j]), imp(%s, len(emb[j])==%s)))' % (J, LEN)
    cont = 'forall(j, i, trig(emb[j][i], imp(%s and 0<=i and i<%s, emb[j][i]==QL(%s,%s,g_w[j],g_v[j],QZ(%s,%s,g_w[j],g_v[j],%s)+i))))' % (J, LEN, BT, U, BT, U, Z0)
    kept = 'forall(j, i, trig(emb[j][i], imp(0<=j and j<len(old(emb)), emb[j][i]==old(emb)[j][i]))) and forall(j, trig(len(emb[j]), imp(0<=j and j<len(old(emb)), len(emb[j])==len(old(emb)[j]))))'
    def once(c):    # the chain made for a line is g_at[w][k]
        return 'forall(j, trig(g_v[j], imp(%s, g_at[g_w[j]][g_v[j]]==j)))' % J + ' and ' + 'forall(w2, k2, trig(g_at[w2][k2], imp(0<=k2 and %s<=w2 and %s and bit(this.line_mask[%s%s,w2,%s,%s)],k2), len(old(emb))<=g_at[w2][k2] and g_at[w2][k2]<len(emb) and g_w[g_at[w2][k2]]==w2 and g_v[g_at[w2][k2]]==k2)))' % (W0, c, LMX, U, Z0, Z1)
    base = ['len(old(emb))<=len(emb)', kept, is_line, size, cont]
    ZW = 'z0==%s and z1==%s and w0==%s and w1==%s' % (Z0, Z1, W0, W1)
    LKW = LK % (U + ',w,z0,z1')
    LSU = "lsum(arr(this.line_mask,'[]'),%s.dim_y,%s.dim_x,%%s)" % (BT, BT)
    gk = ['forall(j, trig(%s[j], imp(0<=j and j<len(old(emb)), %s[j]==old(%s)[j])))' % (g, g, g) for g in ('g_w', 'g_v')]
    cnt = lambda e, more='0': 'len(emb)+%s==len(old(emb))+%s' % (more, LSU % ('%s,%s,%s,%s,%s' % (U, W0, e, Z0, Z1)))
    DIST = 'forall(i, j, trig((g_v[i], g_v[j]), imp(len(old(emb))<=i and i<j and j<len(emb), g_w[i]!=g_w[j] or g_v[i]!=g_v[j])))'
    ORD = 'forall(j, trig(g_w[j], imp(%s, g_w[j]<%s)))'
    add(Contract('bundle_cache::inflate', sig=sg.get(6), tag='bundle_cache::inflate(one direction)', requires=BOK + ['LRNG(%s,%s,%s,%s,%s) and 0<=%s and %s<=%s' % (BT, U, W1, Z0, Z1, W0, W0, W1)], buflen=BB, modifies=['emb', 'g_w', 'g_v', 'g_at'],
                 ghosts={'g_w': AI, 'g_v': AI, 'g_at': A2},
                 loops=[Loop(inv=[ZW, 'w0<=w and w<=w1+1', ORD % (J, 'w'), cnt('w')] + gk + base + [once('w2<w')]),
                        Loop(inv=['0<=k and k<=255', 'forall(b, trig(bit(k,b), imp(0<=b and bit(k,b), bit(%s,b))))' % LKW, 'forall(b, j, trig((bit(k,b), g_v[j]), imp(0<=b and bit(k,b) and %s and g_w[j]==w, g_v[j]<b)))' % J,
                                  ORD % (J, 'w+1'), cnt('w+1', 'popc(k)')] + gk + base + [once('(w2<w or (w2==w and not bit(k,k2)))')],
                             hints=['imp(k!=0, bit(k,fbit(k)))', 'imp(k!=0, LP(%s,w,fbit(k),z0,z1))' % U, 'imp(k!=0, FP(%s,w,fbit(k),z0) and FP(%s,w,fbit(k),z1))' % (U, U), 'imp(k!=0, COV(CELLS.topo,%s,w,fbit(k),z0) and COV(CELLS.topo,%s,w,fbit(k),z1))' % (U, U)],
                             decreases='popc(k)', step_hints=['g_w[len(emb)-1]==w and z0==%s and z1==%s' % (Z0, Z1), 'len(emb[len(emb)-1])==LLEN(%s,%s,w,g_v[len(emb)-1],z0,z1)' % (BT, U)], ghost_start=['g_w := store(g_w, len(emb), w)', 'g_v := store(g_v, len(emb), fbit(k))', 'g_at := store(g_at, w, store(g_at[w], fbit(k), len(emb)))'])],
                 ensures=[('earlier-chains-kept', kept), ('each-is-a-complete-line', is_line), ('length', size), ('its-qubits', cont), ('every-complete-line-exactly-once', once('w2<=%s' % W1)),
                          ('as-many-as-complete-lines', cnt(W1 + '+1')), ('different-lines', DIST)] + [('earlier-lines-kept', e) for e in gk]))
    # both directions: a biclique
    N0 = LSU % '0,x0,x1+1,y0,y1'
    N1 = LSU % '1,y0,y1+1,x0,x1'
    def part(u, lo, hi):
        z0, z1, w0, w1 = ('x0', 'x1', 'y0', 'y1') if u else ('y0', 'y1', 'x0', 'x1')
        JJ = '%s<=j and j<%s' % (lo, hi)
        ll = 'LLEN(%s,%d,g_w[j],g_v[j],%s,%s)' % (BT, u, z0, z1)
        n = 'horizontal' if u else 'vertical'
        return [(n + '-lines-complete', 'forall(j, trig(g_v[j], imp(%s, 0<=g_v[j] and g_v[j]<8 and %s<=g_w[j] and g_w[j]<=%s and LP(%d,g_w[j],g_v[j],%s,%s))))' % (JJ, w0, w1, u, z0, z1)),
                (n + '-length', 'forall(j, trig(len(emb[j]), imp(%s, len(emb[j])==%s)))' % (JJ, ll)),
                (n + '-qubits', 'forall(j, i, trig(emb[j][i], imp(%s and 0<=i and i<%s, emb[j][i]==QL(%s,%d,g_w[j],g_v[j],QZ(%s,%d,g_w[j],g_v[j],%s)+i))))' % (JJ, ll, BT, u, BT, u, z0)),
                (n + '-different', 'forall(i, j, trig((g_v[i], g_v[j]), imp(%s<=i and i<j and j<%s, g_w[i]!=g_w[j] or g_v[i]!=g_v[j])))' % (lo, hi))]
    LO = 'len(old(emb))'
    G2 = {'g_w': AI, 'g_v': AI, 'g_at': A2}
    add(Contract('bundle_cache::inflate', sig=sg.get(5), tag='bundle_cache::inflate(both directions)', requires=BOK + ['0<=y0 and y0<=y1 and y1<%s.dim_y and 0<=x0 and x0<=x1 and x1<%s.dim_x' % (BT, BT)], buflen=BB, modifies=['emb', 'g_w', 'g_v', 'g_at'],
                 ghosts=G2, ghost_args={g: g for g in G2}, ensures=[('earlier-chains-kept', kept), ('as-many-as-complete-lines', 'len(emb)==%s+%s+%s' % (LO, N0, N1))] + part(0, LO, '%s+%s' % (LO, N0)) + part(1, '%s+%s' % (LO, N0), 'len(emb)')))
    add(Contract('bundle_cache::get_line_score', requires=['OKT(CELLS.topo)', DIMS, 'LRNG(%s,%s,w,z0,z1)' % (BT, U)], buflen=BB, ensures=[('number-of-tracks', 'result==popc(%s)' % (LK % (U + ',w,z0,z1')))]))
    add(Contract('bundle_cache::score', requires=['OKT(CELLS.topo)', DIMS, 'LRNG(CELLS.topo,0,xc,y0,y1) and LRNG(CELLS.topo,1,yc,x0,x1)'], buflen=BB, ensures=[('the-smaller-side', 'result==ite(popc(%s)<popc(%s), popc(%s), popc(%s))' % (KV, KH, KV, KH))]))
    add(Contract('cell_cache::score', requires=['OKT(this.topo)', 'INY(y,x,this.topo.dim_y,this.topo.dim_x)'], buflen=CB, ensures=[('the-smaller-side', 'result==ite(popc(%s)<popc(%s), popc(%s), popc(%s))' % ((CK % '0,x,y', CK % '1,y,x') * 2))]))
    return C, M


def make_masks(topo):
    def make():
        C, M = mask_contracts(topo)
        reg = Registry()
        reg.alias[('bundle_cache', 'cells')] = 'CELLS'
        ex = Exec(mprog(topo), reg, C, globals={'CELLS': TRec('cell_cache')}, axioms=TRI_AX + index_axioms() + bit_axioms() + table_axioms() + line_axioms() + sum_axioms(), bits=True,
                  consts={'mask_bit': Val(TArr(U8T, 8), {('[]',): MB}), 'first_bit': Val(TArr(U8T, 256), {('[]',): FB}), 'popcount': Val(TArr(U8T, 256), {('[]',): PC})})
        macros(ex.spec)
        mask_macros(ex.spec, topo)
        return ex, list(M.values())
    return make


make_chimera, make_pegasus, make_zephyr = make_masks('chimera'), make_masks('pegasus'), make_masks('zephyr')
