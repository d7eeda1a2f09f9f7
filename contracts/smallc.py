"""contracts on the small utilities: fastrng.hpp, collectMinima, pairing_queue.hpp"""
from common import *

DRIVER = '''
#include <algorithm>
#include <cstdint>
#include <limits>
#include <vector>
#include "fastrng.hpp"
'''


def rng_prog():
    return program('rng', DRIVER, filters=('fastrng::',))


BV = lambda n: z3.BitVecSort(n)


def make_rng():
    reg = Registry()
    types = {k: TBV(64) for k in ('uint64_t', 'unsigned long', 'std::uint64_t', 'result_type', 'fastrng::fastrng::result_type', '__uint64_t')}
    types.update({k: TBV(32) for k in ('uint32_t', 'unsigned int', '__uint32_t')})
    C = {}

    def add(c):
        C[c.sig or c.fn] = c
    n0 = z3.Function('it_s0', I, BV(64), BV(64), BV(64))
    n1 = z3.Function('it_s1', I, BV(64), BV(64), BV(64))
    mixf = z3.Function('mixf', BV(64), BV(64))
    a, b, x = z3.BitVecs('a b x', 64)
    k = z3.Int('k')

    def nxt(a, b):
        y = a ^ (a << 23)
        return y ^ b ^ z3.LShR(y, 17) ^ z3.LShR(b, 26)
    it = [z3.ForAll([a, b], z3.And(n0(0, a, b) == a, n1(0, a, b) == b), patterns=[n0(0, a, b)]),
          z3.ForAll([a, b], z3.And(n0(0, a, b) == a, n1(0, a, b) == b), patterns=[n1(0, a, b)])]
    for f in (n0, n1):
        it.append(z3.ForAll([k, a, b], z3.Implies(k >= 0, z3.And(n0(k + 1, a, b) == n1(k, a, b), n1(k + 1, a, b) == nxt(n0(k, a, b), n1(k, a, b)))),
                            patterns=[f(k, a, b)]))
    add(Contract('fastrng::splitmix64', modifies=['x'], ensures=[('stepped', 'x == old(x) + golden()'), ('value', 'result == mix64(old(x) + golden())')]))
    add(Contract('fastrng::operator()', modifies=['this'], ensures=[
        ('s0', 'this.S0 == old(this.S1)'), ('s1', 'this.S1 == nxt(old(this.S0), old(this.S1))'),
        ('value', 'result == nxt(old(this.S0), old(this.S1)) + old(this.S1)')]))
    add(Contract('fastrng::discard', modifies=['this'], requires=['n >= 0'],
                 loops=[Loop(inv=['0 <= n and n <= old(n)', 'this.S0 == it0(old(n) - n, old(this.S0), old(this.S1))',
                                  'this.S1 == it1(old(n) - n, old(this.S0), old(this.S1))'], decreases='n')],
                 ensures=[('s0', 'this.S0 == it0(n, old(this.S0), old(this.S1))'), ('s1', 'this.S1 == it1(n, old(this.S0), old(this.S1))')]))
    SEED = [('state-depends-on-the-seed-only-s0', 'this.S0 == it0(64, mix64({0}+golden()), mix64({0}+golden()+golden()))'),
            ('state-depends-on-the-seed-only-s1', 'this.S1 == it1(64, mix64({0}+golden()), mix64({0}+golden()+golden()))')]
    add(Contract('fastrng::seed', sig='fastrng::seed(unsignedlong)', modifies=['this'], ensures=[(n, e.format('x')) for n, e in SEED]))
    ex = Exec(rng_prog(), reg, C, axioms=it, types=types)
    sp = ex.spec
    sp.funcs['golden'] = lambda ctx: z3.BitVecVal(0x9E3779B97F4A7C15, 64)

    def mix(ctx, e):
        z = ctx.rv(e)
        z = (z ^ z3.LShR(z, 30)) * z3.BitVecVal(0xBF58476D1CE4E5B9, 64)
        z = (z ^ z3.LShR(z, 27)) * z3.BitVecVal(0x94D049BB133111EB, 64)
        return z ^ z3.LShR(z, 31)
    sp.funcs['mix64'] = mix
    sp.funcs['nxt'] = lambda ctx, p, q: nxt(ctx.rv(p), ctx.rv(q))
    sp.funcs['it0'] = spec_fn(n0)
    sp.funcs['it1'] = spec_fn(n1)
    return ex, list(C.values())


QDRIVER = '''
#include <memory>
#include <iostream>
#include "find_embedding/util.hpp"
#include "find_embedding/pairing_queue.hpp"
namespace find_embedding {
typedef priority_node<distance_t, min_heap_tag> PN;
template class pairing_queue<PN>;
template void pairing_queue<PN>::emplace<int, int, distance_t>(int, int, distance_t);
template void pairing_node<PN>::refresh<int, int, distance_t>(int, int, distance_t);
template void collectMinima<distance_t>(const vector<distance_t> &, vector<int> &);
template void collectMinima<int>(const vector<int> &, vector<int> &);
}
'''


def q_prog():
    return program('queue', QDRIVER, filters=('find_embedding::',))


def make_minima():
    reg = Registry()
    C = {}
    for t in ('longlong', 'int'):
        s = 'collectMinima(constvector<%s>&,vector<int>&)' % t
        C[s] = Contract('collectMinima', sig=s, requires=['len(input) > 0', 'len(input) < 2147483647'], modifies=['output'], ghosts={'g_pos': TZ3(z3.ArraySort(I, I))},
                        loops=[Loop(ghost_end=['g_pos := store(g_pos, _k-1, len(output)-1)'], inv=['index == _k', 'imp(_k==0, lowest_value==input[0] and len(output)==0)',
                                         'forall(j, trig(output[j], imp(0<=j and j<len(output), 0<=output[j] and output[j]<_k and input[output[j]]==lowest_value)))',
                                         'forall(i, trig(input[i], imp(0<=i and i<_k, input[i]>=lowest_value)))',
                                         'forall(i, trig(input[i], imp(0<=i and i<_k and input[i]==lowest_value, 0<=g_pos[i] and g_pos[i]<len(output) and output[g_pos[i]]==i)))',
                                         'forall(i, j, trig((output[i],output[j]), imp(0<=i and i<j and j<len(output), output[i]<output[j])))',
                                         'imp(_k>0, len(output)>0 and input[output[0]]==lowest_value)'])],
                        ensures=[('every-entry-is-a-minimum', 'forall(i, j, imp(0<=i and i<len(input) and 0<=j and j<len(output), 0<=output[j] and output[j]<len(input) and input[output[j]]<=input[i]))'),
                                 ('every-minimum-is-listed', 'forall(m, imp(0<=m and m<len(input) and forall(i, trig(input[i], imp(0<=i and i<len(input), input[m]<=input[i]))), exists(j, 0<=j and j<len(output) and output[j]==m)))'),
                                 ('listed-once', 'forall(i, j, imp(0<=i and i<j and j<len(output), output[i]<output[j]))'),
                                 ('nonempty', 'len(output)>0')])
    C['priority_node::operator<'] = Contract('priority_node::operator<', ensures=[('smaller-distance-first', 'imp(this.dist!=b.dist, result==(this.dist>b.dist))'), ('ties-by-permutation-rank', 'imp(this.dist==b.dist, result==(this.dirt>b.dirt))')])
    ex = Exec(q_prog(), reg, C)
    return ex, list(C.values())
