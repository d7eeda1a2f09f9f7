"""Symbolic state, values, types, obligations and the specification language."""
import ast, re, itertools
import z3
z3.set_param('warning', False)

I = z3.IntSort()
B = z3.BoolSort()


class Unsupported(Exception):
    """The source uses a construct outside the verified subset (=> out of reach, bounded stand-in)."""


class SpecMismatch(Exception):
    """An annotation no longer lines up with the source (renamed local, extra loop...)."""


# ---------------------------------------------------------------- types
class T:
    def __eq__(self, o):
        return type(self) is type(o) and self.__dict__ == o.__dict__

    def __hash__(self):
        return hash(repr(self))

    def __repr__(self):
        return type(self).__name__ + repr(sorted((k, v) for k, v in self.__dict__.items() if k not in ('reg',)))


class TInt(T):
    def __init__(self, bits=32, signed=True):
        self.bits, self.signed = bits, signed

    def lo(self):
        return -(1 << (self.bits - 1)) if self.signed else 0

    def hi(self):
        return (1 << (self.bits - 1)) - 1 if self.signed else (1 << self.bits) - 1


class TOff(TInt):
    """a pointer member known to point into the global buffer `buf`: stored as the offset"""

    def __init__(self, buf):
        self.bits, self.signed, self.buf = 64, False, buf


class TBV(T):
    def __init__(self, bits):
        self.bits = bits


class TBool(T):
    pass


class TReal(T):
    pass


class TVoid(T):
    pass


class TOpaque(T):
    def __init__(self, name):
        self.name = name


class TRec(T):
    def __init__(self, name):
        self.name = name


class TVec(T):
    def __init__(self, elem):
        self.elem = elem


class TArr(T):
    """fixed-size array of statically known size, or a raw buffer (size None)"""

    def __init__(self, elem, n=None):
        self.elem, self.n = elem, n


class TMap(T):
    def __init__(self, key, val):
        self.key, self.val = key, val


class TPQ(TMap):
    """priority queue: entries under arbitrary identifiers (the domain), `^` identifies the one top() returns"""

    def __init__(self, val):
        self.key, self.val = TInt(64, True), val


class TSet(T):
    def __init__(self, key):
        self.key = key


class TPair(T):
    def __init__(self, a, b):
        self.a, self.b = a, b


class TPtr(T):
    def __init__(self, to):
        self.to = to


class TAddr(T):
    """pointer into a per-class heap, modelled by an integer address, 0 = null"""

    def __init__(self, cls):
        self.cls = cls


class TZ3(T):
    """ghost value of an arbitrary SMT sort"""

    def __init__(self, sort):
        self.sort = sort

    def __repr__(self):
        return 'TZ3(%s)' % self.sort


SORTS = {'Int': I, 'Bool': B}


class Registry:
    """record layouts + how leaves are laid out"""

    def __init__(self):
        self.records = {}       # name -> [(field, T)]
        self.alias = {}         # (rec, field) -> spec path string (reference members)
        self.ghost = {}         # rec -> [(field, T)]

    def fields(self, name):
        if name not in self.records:
            raise Unsupported('unknown record ' + name)
        return self.records[name] + self.ghost.get(name, [])

    def ftype(self, name, f):
        for n, t in self.fields(name):
            if n == f:
                return t
        return None

    def leaves(self, t):
        """list of (relpath tuple, sort, [dims]) ; sort already lifted by dims inside"""
        if isinstance(t, (TInt, TAddr)):
            return [((), I)]
        if isinstance(t, TBV):
            return [((), z3.BitVecSort(t.bits))]
        if isinstance(t, TBool):
            return [((), B)]
        if isinstance(t, TReal):
            return [((), z3.RealSort())]
        if isinstance(t, TZ3):
            return [((), t.sort)]
        if isinstance(t, TOpaque):
            return [((), opaque_sort(t.name))]
        if isinstance(t, TVoid):
            return []
        if isinstance(t, TPair):
            return [(('first',) + p, s) for p, s in self.leaves(t.a)] + \
                   [(('second',) + p, s) for p, s in self.leaves(t.b)]
        if isinstance(t, TRec):
            out = []
            for f, ft in self.fields(t.name):
                out += [((f,) + p, s) for p, s in self.leaves(ft)]
            return out
        if isinstance(t, TVec):
            return [(('#',), I)] + [(('[]',) + p, z3.ArraySort(I, s)) for p, s in self.leaves(t.elem)]
        if isinstance(t, TArr):
            return [(('[]',) + p, z3.ArraySort(I, s)) for p, s in self.leaves(t.elem)]
        if isinstance(t, TPQ):
            return [(('?',), z3.ArraySort(I, B)), (('^',), I), (('+',), I)] + [(('{}',) + p, z3.ArraySort(I, s)) for p, s in self.leaves(t.val)]
        if isinstance(t, TMap):
            ks = self.leaves(t.key)
            if len(ks) != 1:
                raise Unsupported('composite map key')
            k = ks[0][1]
            return [(('?',), z3.ArraySort(k, B))] + \
                   [(('{}',) + p, z3.ArraySort(k, s)) for p, s in self.leaves(t.val)]
        if isinstance(t, TSet):
            k = self.leaves(t.key)[0][1]
            return [(('?',), z3.ArraySort(k, B))]
        if isinstance(t, TPtr):
            raise Unsupported('pointer stored in memory')
        raise Unsupported('leaves of %r' % t)


_opq = {}


def opaque_sort(name):
    if name not in _opq:
        _opq[name] = z3.DeclareSort('Opq_' + re.sub(r'\W', '_', name))
    return _opq[name]


_fresh = itertools.count()


def fresh(name, sort):
    return z3.Const('%s!%d' % (re.sub(r'[^\w.#?]', '_', name), next(_fresh)), sort)


# ---------------------------------------------------------------- values
class Ref:
    """an lvalue: root + steps (field name, or ('[]',term), or ('{}',term))"""
    __slots__ = ('root', 'steps', 'T')

    def __init__(self, root, steps, T):
        self.root, self.steps, self.T = root, tuple(steps), T

    def marker(self):
        return tuple(s if isinstance(s, str) else s[0] for s in self.steps)

    def idx(self):
        return [s[1] for s in self.steps if not isinstance(s, str)]

    def __repr__(self):
        o = self.root
        for s in self.steps:
            o += '.' + s if isinstance(s, str) else '[%s]' % s[1]
        return o


class Val:
    """composite rvalue"""
    __slots__ = ('T', 'd')

    def __init__(self, T, d):
        self.T, self.d = T, d


class Special:
    pass


class Addr(Special):
    """address of an lvalue (non-null pointer)"""

    def __init__(self, ref):
        self.ref = ref


class BufPtr(Special):
    """pointer into the buffer of a vector/array lvalue at an element offset"""

    def __init__(self, ref, off):
        self.ref, self.off = ref, off


class NewBuf(Special):
    """result of new T[n]"""

    def __init__(self, elem, n, zero):
        self.elem, self.n, self.zero = elem, n, zero


class MapIter(Special):
    def __init__(self, ref, key, isend):
        self.ref, self.key, self.isend = ref, key, isend


class VecIter(Special):
    def __init__(self, ref, idx, rev=False):
        self.ref, self.idx, self.rev = ref, idx, rev


class MapEntry(Special):
    """*it for a map: pair<const K, V>&"""

    def __init__(self, ref, key):
        self.ref, self.key = ref, key


class Lambda(Special):
    def __init__(self, node, env):
        self.node, self.env = node, env


class Str(Special):
    def __init__(self, s):
        self.s = s


class Opaque(Special):
    def __init__(self, what=''):
        self.what = what


class NullPtr(Special):
    pass


class PyObj(Special):
    """arbitrary front-end object (tuples etc.)"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


# ---------------------------------------------------------------- finite-set cardinality (theory of finite maps)
_card = {}


def card(domarr):
    s = domarr.sort().domain()
    k = str(s)
    if k not in _card:
        _card[k] = z3.Function('card_' + re.sub(r'\W', '_', k), domarr.sort(), I)
    return _card[k](domarr)


_fin = {}


def fin(domarr):
    """finiteness of a set given by its characteristic array; assumed of every container's key set"""
    card(domarr)
    k = str(domarr.sort().domain())
    if k not in _fin:
        _fin[k] = z3.Function('fin_' + re.sub(r'\W', '_', k), domarr.sort(), B)
    return _fin[k](domarr)


def card_axioms():
    out = []
    for k, f in _card.items():
        asort = f.domain(0)
        d = z3.Const('d', asort)
        x = z3.Const('x', asort.domain())
        fin(d)
        F = _fin[k]
        out.append(F(z3.K(asort.domain(), z3.BoolVal(False))))
        for bv in (True, False):
            out.append(z3.ForAll([d, x], F(z3.Store(d, x, bv)) == F(d), patterns=[F(z3.Store(d, x, bv))]))
            out.append(z3.ForAll([d, x], F(z3.Store(d, x, bv)) == F(d), patterns=[f(z3.Store(d, x, bv))]))
        out.append(z3.ForAll([d], z3.Implies(F(d), f(d) >= 0), patterns=[f(d)]))
        out.append(f(z3.K(asort.domain(), z3.BoolVal(False))) == 0)
        st = z3.Store(d, x, True)
        out.append(z3.ForAll([d, x], z3.Implies(F(d), f(st) == f(d) + z3.If(d[x], 0, 1)), patterns=[f(st)]))
        sf = z3.Store(d, x, False)
        out.append(z3.ForAll([d, x], z3.Implies(F(d), f(sf) == f(d) - z3.If(d[x], 1, 0)), patterns=[f(sf)]))
        out.append(z3.ForAll([d, x], z3.Implies(z3.And(F(d), d[x]), f(d) >= 1),
                             patterns=[z3.MultiPattern(f(d), d[x])]))
        w = z3.Function('cardwit_' + k, asort, asort.domain())
        out.append(z3.ForAll([d], z3.Implies(z3.And(F(d), f(d) > 0), d[w(d)]), patterns=[f(d)]))
    return out


# ---------------------------------------------------------------- state
class State:
    def __init__(self, reg):
        self.reg = reg
        self.mem = {}        # (root, leafpath) -> term
        self.objs = {}       # root -> Special
        self.rootT = {}      # root -> T
        self.pc = []         # list of (formula, is_decision)
        self.env = {}        # decl id / name -> Ref or value
        self.names = {}      # source name -> Ref/value, for specs
        self.guards = []
        self.dead = False
        self.rec = None      # write recorder (list) shared

    def copy(self):
        s = State.__new__(State)
        s.reg = self.reg
        s.mem = dict(self.mem)
        s.objs = dict(self.objs)
        s.rootT = dict(self.rootT)
        s.pc = list(self.pc)
        s.env = dict(self.env)
        s.names = dict(self.names)
        s.guards = list(self.guards)
        s.dead = self.dead
        s.rec = self.rec
        return s

    # -- path condition
    def assume(self, f, decision=False):
        f = z3.BoolVal(f) if isinstance(f, bool) else f
        if self.guards:
            f = z3.Implies(z3.And(*self.guards), f)
        if z3.is_true(f):
            return
        self.pc.append((f, decision))

    def hyps(self):
        return [f for f, _ in self.pc] + list(self.guards)

    # -- roots
    def newroot(self, name, T, init=None, fresh_values=True):
        self.rootT[name] = T
        if fresh_values:
            for p, s in self.reg.leaves(T):
                self.mem[(name, p)] = fresh(name + ''.join('.' + x for x in p), s)
        r = Ref(name, (), T)
        if fresh_values:
            self.typing(r)
        return r

    def typing(self, ref):
        """assume the type invariants of the value at ref (lengths >= 0, integer ranges)"""
        for f in self.typing_facts(ref.T, self.read(ref)):
            self.assume(f)

    def typing_facts(self, T, val):
        out = []
        d = val.d if isinstance(val, Val) else {(): val}
        for p, t in leaf_types(self.reg, T):
            term = d[p]
            doms = []
            s = term.sort()
            cur = term
            if p and p[-1] == '?':
                while isinstance(s.range(), z3.ArraySortRef):
                    v = z3.Const('ti!%d' % len(doms), s.domain())
                    doms.append(v)
                    cur = z3.Select(cur, v)
                    s = s.range()
                out.append(z3.ForAll(doms, fin(cur), patterns=[cur]) if doms else fin(cur))
                continue
            while isinstance(s, z3.ArraySortRef):
                v = z3.Const('ti!%d' % len(doms), s.domain())
                doms.append(v)
                cur = z3.Select(cur, v)
                s = s.range()
            fs = []
            if p and p[-1] == '#':
                fs = [cur >= 0, cur <= (1 << 62)]
            elif isinstance(t, TInt):
                fs = [cur >= t.lo(), cur <= t.hi()]
            for f in fs:
                if doms:
                    f = z3.ForAll(doms, f, patterns=[cur])
                out.append(f)
        return out

    # -- read/write
    def read(self, ref):
        if ref.root in self.objs and not ref.steps:
            return self.objs[ref.root]
        m = ref.marker()
        idx = ref.idx()
        d = {}
        for p, _ in self.reg.leaves(ref.T):
            key = (ref.root, m + p)
            if key not in self.mem:
                raise Unsupported('read of unmodelled location %s %s' % (ref, p))
            t = self.mem[key]
            for i in idx:
                t = select(t, i)
            d[p] = t
        if list(d.keys()) == [()]:
            return d[()]
        return Val(ref.T, d)

    def write(self, ref, val):
        if isinstance(val, Special):
            if ref.steps:
                raise Unsupported('storing %s into %s' % (type(val).__name__, ref))
            self.objs[ref.root] = val
            return
        if ref.root in self.objs and not ref.steps:
            del self.objs[ref.root]
        d = val.d if isinstance(val, Val) else {(): val}
        m = ref.marker()
        idx = ref.idx()
        for p, sort in self.reg.leaves(ref.T):
            if p not in d:
                raise Unsupported('write: missing leaf %s of %s' % (p, ref))
            v = coerce(d[p], sort)
            key = (ref.root, m + p)
            if self.rec is not None:
                self.rec.append((key, tuple(idx)))
            old = self.mem.get(key)
            if old is None and idx:
                raise Unsupported('write of unmodelled location %s' % (ref,))
            self.mem[key] = nested_store(old, idx, v)

    def havoc(self, ref, name='h'):
        d = {p: fresh(name, s) for p, s in self.reg.leaves(ref.T)}
        if ref.root in self.objs and not ref.steps:
            del self.objs[ref.root]
        v = d[()] if list(d.keys()) == [()] else Val(ref.T, d)
        self.write(ref, v)
        self.typing(ref)


def select(t, i):
    # light simplification of select-over-store with syntactically equal index
    while z3.is_store(t):
        if t.arg(1).eq(i):
            return t.arg(2)
        a, b = t.arg(1), i
        if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() != b.as_long():
            t = t.arg(0)
            continue
        break
    if z3.is_const_array(t):
        return t.arg(0)
    return z3.Select(t, i)


def nested_store(old, idx, v):
    if not idx:
        return v
    return z3.Store(old, idx[0], nested_store(select(old, idx[0]), idx[1:], v))


def coerce(v, sort):
    if isinstance(v, bool):
        v = z3.BoolVal(v)
    elif isinstance(v, int):
        v = z3.IntVal(v) if sort == I else (z3.BitVecVal(v, sort) if isinstance(sort, z3.BitVecSortRef)
                                            else (z3.RealVal(v) if sort == z3.RealSort() else v))
    if v.sort() == sort:
        return v
    if sort == I and v.sort() == B:
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if sort == B and v.sort() == I:
        return v != 0
    if sort == z3.RealSort() and v.sort() == I:
        return z3.ToReal(v)
    if isinstance(sort, z3.BitVecSortRef) and v.sort() == I:
        return int2bv(v, sort.size())
    if isinstance(sort, z3.BitVecSortRef) and isinstance(v.sort(), z3.BitVecSortRef):
        a, b = v.sort().size(), sort.size()
        return z3.Extract(b - 1, 0, v) if b < a else z3.ZeroExt(b - a, v)
    if sort == I and isinstance(v.sort(), z3.BitVecSortRef):
        return z3.BV2Int(v)
    raise Unsupported('cannot coerce %s to %s' % (v.sort(), sort))


def int2bv(v, n):
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_BV2INT:
        b = v.arg(0)
        k = b.size()
        return b if k == n else (z3.Extract(n - 1, 0, b) if n < k else z3.ZeroExt(n - k, b))
    if z3.is_int_value(v):
        return z3.BitVecVal(v.as_long(), n)
    return z3.Int2BV(v, n)


def leaf_types(reg, t):
    """[(relpath, leaf T or None)]"""
    if isinstance(t, TPair):
        return [(('first',) + p, x) for p, x in leaf_types(reg, t.a)] + \
               [(('second',) + p, x) for p, x in leaf_types(reg, t.b)]
    if isinstance(t, TRec):
        out = []
        for f, ft in reg.fields(t.name):
            out += [((f,) + p, x) for p, x in leaf_types(reg, ft)]
        return out
    if isinstance(t, TVec):
        return [(('#',), None)] + [(('[]',) + p, x) for p, x in leaf_types(reg, t.elem)]
    if isinstance(t, TArr):
        return [(('[]',) + p, x) for p, x in leaf_types(reg, t.elem)]
    if isinstance(t, TPQ):
        return [(('?',), None), (('^',), None), (('+',), None)] + [(('{}',) + p, x) for p, x in leaf_types(reg, t.val)]
    if isinstance(t, TMap):
        return [(('?',), None)] + [(('{}',) + p, x) for p, x in leaf_types(reg, t.val)]
    if isinstance(t, TSet):
        return [(('?',), None)]
    if isinstance(t, TVoid):
        return []
    return [((), t)]


def merge_states(base_n, states, ex=None):
    """join sibling states (all forked from a state whose pc had base_n entries)"""
    if len(states) == 1:
        return states[0]
    out = states[0].copy()
    out.pc = out.pc[:base_n]
    conds = []
    for s in states:
        dec = [f for f, d in s.pc[base_n:] if d]
        conds.append(z3.And(*dec) if len(dec) > 1 else (dec[0] if dec else z3.BoolVal(True)))
    c0 = []
    for s, c in zip(states, conds):
        for f, d in s.pc[base_n:]:
            if not d:
                c0.append(z3.Implies(c, f))
    out.pc.append((z3.simplify(z3.Or(*conds)), True))
    for f in c0:
        out.pc.append((f, False))
    keys = set()
    for s in states:
        keys |= set(s.mem)
    for k in keys:
        vals = [s.mem.get(k) for s in states]
        if any(v is None for v in vals):
            # location local to some branch only
            out.mem.pop(k, None)
            continue
        v = vals[-1]
        for c, x in zip(conds[-2::-1], vals[-2::-1]):
            if not x.eq(v):
                v = z3.If(c, x, v)
        out.mem[k] = v
    for r in list(out.objs):
        os = [s.objs.get(r) for s in states]
        if any(o is not os[0] for o in os):
            m = merge_obj(os, conds)
            if m is None:
                out.objs.pop(r)
            else:
                out.objs[r] = m
    out.env = {k: v for k, v in states[0].env.items() if all(s.env.get(k) is v or k in s.env for s in states)}
    out.names = {k: v for k, v in states[0].names.items() if all(k in s.names for s in states)}
    return out


def merge_obj(os, conds):
    if any(o is None for o in os):
        return None
    if all(isinstance(o, MapIter) for o in os) and all(repr(o.ref) == repr(os[0].ref) for o in os):
        key, e = os[-1].key, os[-1].isend
        for c, o in zip(conds[-2::-1], os[-2::-1]):
            key, e = z3.If(c, o.key, key), z3.If(c, o.isend, e)
        return MapIter(os[0].ref, key, e)
    if all(isinstance(o, VecIter) for o in os) and all(repr(o.ref) == repr(os[0].ref) for o in os):
        i = os[-1].idx
        for c, o in zip(conds[-2::-1], os[-2::-1]):
            i = z3.If(c, o.idx, i)
        return VecIter(os[0].ref, i, os[0].rev)
    if all(isinstance(o, BufPtr) for o in os) and all(repr(o.ref) == repr(os[0].ref) for o in os):
        i = os[-1].off
        for c, o in zip(conds[-2::-1], os[-2::-1]):
            i = z3.If(c, o.off, i)
        return BufPtr(os[0].ref, i)
    return None


# ---------------------------------------------------------------- obligations
class Obligation:
    __slots__ = ('name', 'hyps', 'goal', 'func', 'kind', 'line', 'res', 'time', 'backend', 'model', 'expect', 'path', 'timeout')

    def __init__(self, name, hyps, goal, func, kind, line, expect='unsat', path=''):
        self.name, self.hyps, self.goal, self.func, self.kind, self.line = name, hyps, goal, func, kind, line
        self.res = None
        self.time = 0.0
        self.backend = None
        self.model = None
        self.expect = expect
        self.path = path
        self.timeout = None


# ---------------------------------------------------------------- contracts
class Loop:
    def __init__(self, inv=(), decreases=None, ghost_start=(), ghost_end=(), ghost_init=(), unroll=None, hints=(),
                 lemmas=(), havoc_extra=(), step_hints=(), init_hints=()):
        self.inv = [x if isinstance(x, tuple) else (None, x) for x in inv]
        self.decreases = decreases
        self.ghost_start, self.ghost_end, self.ghost_init = ghost_start, ghost_end, ghost_init
        self.unroll = unroll
        self.hints = list(hints)
        self.havoc_extra = list(havoc_extra)
        self.step_hints = list(step_hints)
        self.init_hints = list(init_hints)      # intermediate assertions proved at the loop's entry


def _nm(xs):
    return [x if isinstance(x, tuple) else (None, x) for x in xs]


class Contract:
    def __init__(self, fn, requires=(), ensures=(), modifies=(), loops=(), ghost_exit=(), ghost_entry=(), returns_ref=None,
                 trusted=False, alias=None, ghosts=None, pure=None, nothrow=False, throws=None, hints=(),
                 inline=False, hyp=(), result_T=None, sig=None, bv=False, tag=None, local_ghosts=None, timeout=None,
                 bounds=True, params=None, split=(), variant=None, overflow=False, ghost_returns=None, ghost_args=None, ghost_defaults=None, this_fields=None, buflen=None):
        self.buflen = buflen or {}           # lengths of raw buffers: path -> spec expression
        self.this_fields = this_fields       # the only fields of *this the function touches itself (checked on the source)
        self.ghost_args, self.ghost_defaults = ghost_args or {}, ghost_defaults or {}
        self.fn = fn
        self.requires, self.ensures = _nm(requires), _nm(ensures)
        self.modifies = list(modifies)
        self.loops = list(loops)
        self.ghost_exit, self.ghost_entry = list(ghost_exit), list(ghost_entry)
        self.returns_ref = returns_ref
        self.trusted = trusted
        self.alias = alias or {}
        self.ghosts = ghosts or {}
        self.pure = pure
        self.nothrow = nothrow
        self.throws = throws
        self.hints = list(hints)
        self.inline = inline
        self.result_T = result_T
        self.sig = sig
        self.tag = tag
        self.local_ghosts = local_ghosts or {}
        self.timeout = timeout
        self.bounds = bounds
        self.params = params
        self.split = list(split)
        self.variant = variant
        self.overflow = overflow


# ---------------------------------------------------------------- spec language
class Spec:
    """evaluates contract expressions (Python syntax) in a state"""

    def __init__(self, ex):
        self.ex = ex
        self.macros = {}      # name -> (params, ast)
        self.funcs = {}       # name -> callable(evalctx, *argobjs)
        self.cache = {}

    def define(self, head, body):
        m = re.match(r'(\w+)\((.*)\)$', head.strip())
        ps = [p.strip() for p in m.group(2).split(',') if p.strip()]
        self.macros[m.group(1)] = (ps, self.parse(body))

    def parse(self, s):
        s = ' '.join(s.split())
        if s not in self.cache:
            self.cache[s] = ast.parse(s, mode='eval').body
        return self.cache[s]

    def ev(self, s, st, names, old=None, entry=None):
        c = SpecCtx(self, st, names, old or st, entry)
        r = c.ev(self.parse(s) if isinstance(s, str) else s)
        return r

    def formula(self, s, st, names, old=None, entry=None):
        c = SpecCtx(self, st, names, old or st, entry)
        r = c.rv(self.parse(s))
        if isinstance(r, bool):
            return z3.BoolVal(r)
        if isinstance(r, list):
            return z3.And(*r)
        return coerce(r, B)


class SpecCtx:
    def __init__(self, sp, st, names, old, entry=None):
        self.sp, self.st, self.names, self.old, self.entry = sp, st, names, old, entry

    def sub(self, names=None, st=None):
        return SpecCtx(self.sp, st or self.st, names if names is not None else self.names, self.old, self.entry)

    def oldnames(self):
        """a local that shadows a parameter does not exist yet in the old state: there the name is the parameter"""
        o = self.old
        if o is None:
            return self.names
        r = None
        for k, v in self.names.items():
            if isinstance(v, Ref) and v.root not in o.rootT and k in o.names:
                r = r or dict(self.names)
                r[k] = o.names[k]
        return r or self.names

    def load(self, o):
        if isinstance(o, Ref):
            return self.st.read(o)
        return o

    def rv(self, e):
        return self.load(self.ev(e))

    def num(self, e):
        r = self.rv(e)
        if isinstance(r, bool):
            return z3.IntVal(1 if r else 0)
        if isinstance(r, int):
            return z3.IntVal(r)
        return r

    def boolean(self, e):
        r = self.rv(e)
        if isinstance(r, bool):
            return z3.BoolVal(r)
        if isinstance(r, int):
            return z3.BoolVal(r != 0)
        if isinstance(r, (Val, Special)):
            raise SpecMismatch('not a boolean: ' + ast.dump(e))
        return coerce(r, B)

    def field(self, o, f):
        reg = self.sp.ex.reg
        if isinstance(o, Addr):
            o = o.ref
        if isinstance(o, Ref):
            t = o.T
            if isinstance(t, TAddr):
                return self.sp.ex.heapref(t.cls, self.st.read(o)), f
            if isinstance(t, TRec):
                if (t.name, f) in reg.alias:
                    return self.sp.ex.alias_ref(o, f, self.st)
                ft = reg.ftype(t.name, f)
                if ft is None:
                    raise SpecMismatch('no field %s in %s' % (f, t.name))
                return Ref(o.root, o.steps + (f,), ft)
            if isinstance(t, TPair):
                return Ref(o.root, o.steps + (f,), t.a if f == 'first' else t.b)
        if isinstance(o, Val):
            t = o.T
            ft = reg.ftype(t.name, f) if isinstance(t, TRec) else (t.a if f == 'first' else t.b)
            return project(reg, o, f, ft)
        if isinstance(o, PyObj) and hasattr(o, f):
            return getattr(o, f)
        if isinstance(o, (VecIter,)) and f == 'idx':
            return o.idx
        if isinstance(o, (BufPtr,)) and f == 'off':
            return o.off
        if isinstance(o, BufPtr) and f == 'buf':
            return o.ref
        if isinstance(o, MapIter) and f in ('key', 'isend'):
            return getattr(o, f)
        raise SpecMismatch('field %s of %r' % (f, o))

    def ev(self, e):
        ex = self.sp.ex
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            n = e.id
            if n in self.names:
                return self.names[n]
            r = ex.spec_name(n, self.st, self.names)
            if r is not None:
                return r
            raise SpecMismatch('unknown name %s in specification' % n)
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value)
            if isinstance(o, Ref) and o.root in self.st.objs and not o.steps:
                o = self.st.objs[o.root]
            if isinstance(o, Ref) and isinstance(o.T, TAddr):
                h = ex.heapref(o.T.cls, self.st.read(o))
                return self.field(h, e.attr)
            if z3.is_expr(o) and o.sort() == I and ex.default_heap:
                return self.field(ex.heapref(ex.default_heap, o), e.attr)
            return self.field(o, e.attr)
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value)
            if isinstance(e.slice, ast.Slice):
                raise SpecMismatch('slice')
            if isinstance(o, Ref) and o.root in self.st.objs and not o.steps:
                o = self.st.objs[o.root]
            i = self.num(e.slice) if not isinstance(e.slice, ast.Tuple) else None
            if isinstance(o, Ref) and isinstance(o.T, (TVec, TArr)):
                return Ref(o.root, o.steps + (('[]', i),), o.T.elem)
            if isinstance(o, BufPtr):
                return Ref(o.ref.root, o.ref.steps + (('[]', i + o.off),), o.ref.T.elem)
            if isinstance(o, Ref) and isinstance(o.T, TMap):
                k = coerce(i, ex.reg.leaves(o.T.key)[0][1])
                return Ref(o.root, o.steps + (('{}', k),), o.T.val)
            if isinstance(o, Ref) and isinstance(o.T, (TInt, TBool, TBV, TAddr)) and z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0:
                return o        # *p for a pointer to a scalar
            o = self.load(o)
            if isinstance(o, Val) and isinstance(o.T, (TVec, TArr)):
                return subval(ex.reg, o, '[]', i)
            if isinstance(o, Val) and isinstance(o.T, TMap):
                return subval(ex.reg, o, '{}', i)
            if isinstance(o, (list, tuple)):
                return o[e.slice.value]
            if z3.is_expr(o) and isinstance(o.sort(), z3.ArraySortRef):
                return select(o, coerce(i, o.sort().domain()))
            raise SpecMismatch('subscript of %r' % (o,))
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return z3.Not(self.boolean(e.operand))
            if isinstance(e.op, ast.USub):
                r = self.rv(e.operand)
                return -r
            if isinstance(e.op, ast.Invert):
                return ~self.rv(e.operand)
        if isinstance(e, ast.BoolOp):
            vs = [self.boolean(v) for v in e.values]
            return z3.And(*vs) if isinstance(e.op, ast.And) else z3.Or(*vs)
        if isinstance(e, ast.BinOp):
            a, b = self.rv(e.left), self.rv(e.right)
            a, b = unify(a, b)
            return binop(e.op, a, b)
        if isinstance(e, ast.Compare):
            out = []
            left = e.left
            for op, right in zip(e.ops, e.comparators):
                out.append(self.compare(left, op, right))
                left = right
            return out[0] if len(out) == 1 else z3.And(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in out])
        if isinstance(e, ast.IfExp):
            c = self.boolean(e.test)
            a, b = unify(self.rv(e.body), self.rv(e.orelse))
            return z3.If(c, a, b)
        if isinstance(e, ast.Tuple) or isinstance(e, ast.List):
            return [self.rv(x) for x in e.elts]
        if isinstance(e, ast.Call):
            return self.call(e)
        raise SpecMismatch('spec syntax ' + ast.dump(e))

    def compare(self, l, op, r):
        if isinstance(op, (ast.In, ast.NotIn)):
            k = self.num(l)
            o = self.ev(r)
            f = self.member(k, o)
            return z3.Not(f) if isinstance(op, ast.NotIn) else f
        a, b = self.rv(l), self.rv(r)
        if isinstance(a, NullPtr):
            a = z3.IntVal(0)
        if isinstance(b, NullPtr):
            b = z3.IntVal(0)
        if isinstance(a, Val) or isinstance(b, Val):
            if not (isinstance(a, Val) and isinstance(b, Val)):
                raise SpecMismatch('compare composite')
            f = val_eq(self.sp.ex.reg, a, b)
            return f if isinstance(op, ast.Eq) else z3.Not(f)
        a, b = unify(a, b)
        if isinstance(op, ast.Eq):
            return a == b
        if isinstance(op, ast.NotEq):
            return a != b
        bv = z3.is_expr(a) and isinstance(a.sort(), z3.BitVecSortRef)
        if isinstance(op, ast.Lt):
            return z3.ULT(a, b) if bv else a < b
        if isinstance(op, ast.LtE):
            return z3.ULE(a, b) if bv else a <= b
        if isinstance(op, ast.Gt):
            return z3.UGT(a, b) if bv else a > b
        if isinstance(op, ast.GtE):
            return z3.UGE(a, b) if bv else a >= b
        raise SpecMismatch('cmp op')

    def member(self, k, o):
        ex = self.sp.ex
        if isinstance(o, Ref) and o.root in self.st.objs and not o.steps:
            o = self.st.objs[o.root]
        if isinstance(o, Ref) and isinstance(o.T, (TMap, TSet)):
            t = self.st.mem[(o.root, o.marker() + ('?',))]
            for i in o.idx():
                t = select(t, i)
            return select(t, coerce(k, t.sort().domain()))
        if isinstance(o, Val) and isinstance(o.T, (TMap, TSet)):
            t = o.d[('?',)]
            return select(t, coerce(k, t.sort().domain()))
        o = self.load(o)
        if z3.is_expr(o) and isinstance(o.sort(), z3.ArraySortRef) and o.sort().range() == B:
            return select(o, coerce(k, o.sort().domain()))
        raise SpecMismatch('membership in %r' % (o,))

    def call(self, e):
        ex = self.sp.ex
        if not isinstance(e.func, ast.Name):
            raise SpecMismatch('call form')
        n = e.func.id
        A = e.args
        if n == 'old':
            return self.sub(st=self.old, names=self.oldnames()).rv(A[0])
        if n == 'oldref':
            return self.sub(st=self.old).ev(A[0])
        if n == 'lastkey':          # identifier of the entry inserted last
            o = self.ev(A[0])
            return self.st.read(Ref(o.root, o.steps + ('+',), TInt(64, True)))
        if n == 'entry':
            if self.entry is None:
                raise SpecMismatch('entry() outside loop')
            return self.sub(st=self.entry).rv(A[0])
        if n in ('forall', 'exists', 'forall_t'):
            vs, pats = [], []
            names = dict(self.names)
            body = A[-1]
            for v in A[:-1]:
                if isinstance(v, ast.Name):
                    s, vn = I, v.id
                elif isinstance(v, ast.Attribute):
                    vn = v.value.id
                    a = v.attr
                    s = B if a == 'bool' else (z3.BitVecSort(int(a[2:])) if a.startswith('bv') else ex.sorts[a])
                else:
                    raise SpecMismatch('binder')
                c = z3.Const('%s!b%d' % (vn, next(_fresh)), s)
                names[vn] = c
                vs.append(c)
            c = self.sub(names=names)
            if isinstance(body, ast.Call) and isinstance(body.func, ast.Name) and body.func.id == 'trig':
                for p in body.args[:-1]:
                    if isinstance(p, (ast.Tuple, ast.List)):
                        mp = [c.rv(x) for x in p.elts]
                        if all(okpat(x) for x in mp):
                            pats.append(z3.MultiPattern(*mp))
                    else:
                        pats.append(c.rv(p))
                body = body.args[-1]
            b = c.boolean(body)
            if n == 'exists':
                return canon_names(z3.Exists(vs, b), ast.unparse(e))
            return mkforall(vs, b, pats, ast.unparse(e))
        if n == 'imp':
            return z3.Implies(self.boolean(A[0]), self.boolean(A[1]))
        if n == 'iff':
            return self.boolean(A[0]) == self.boolean(A[1])
        if n == 'ite':
            a, b = unify(self.rv(A[1]), self.rv(A[2]))
            return z3.If(self.boolean(A[0]), a, b)
        if n == 'len' or n == 'size':
            o = self.ev(A[0])
            if isinstance(o, Ref) and o.root in self.st.objs and not o.steps:
                o = self.st.objs[o.root]
            mp = isinstance(getattr(o, 'T', None), (TMap, TSet))
            lf = '?' if mp else '#'
            if isinstance(o, Ref) and isinstance(o.T, TArr):
                return z3.IntVal(o.T.n)
            if isinstance(o, Ref):
                t = self.st.mem[(o.root, o.marker() + (lf,))]
                for i in o.idx():
                    t = select(t, i)
                return card(t) if mp else t
            if isinstance(o, Val):
                return card(o.d[(lf,)]) if mp else o.d[(lf,)]
            raise SpecMismatch('len of %r' % (o,))
        if n == 'dom':
            o = self.ev(A[0])
            if isinstance(o, Val):
                return o.d[('?',)]
            t = self.st.mem[(o.root, o.marker() + ('?',))]
            for i in o.idx():
                t = select(t, i)
            return t
        if n == 'arr':     # arr(path, 'leaf', ...) : raw SMT array of a leaf below a container
            o = self.ev(A[0])
            p = tuple(x.value for x in A[1:])
            if isinstance(o, Val):
                return o.d[p]
            t = self.st.mem[(o.root, o.marker() + p)]
            for i in o.idx():
                t = select(t, i)
            return t
        if n == 'store':
            a = self.rv(A[0])
            i = coerce(self.num(A[1]), a.sort().domain())
            return z3.Store(a, i, coerce(self.rv(A[2]), a.sort().range()))
        if n == 'val':
            return self.rv(A[0])
        if n == 'offset':    # position of a pointer local inside the buffer it walks over
            o = self.ev(A[0])
            if isinstance(o, Ref) and o.root in self.st.objs and not o.steps:
                o = self.st.objs[o.root]
            if isinstance(o, VecIter):
                return o.idx
            if not hasattr(o, 'off'):
                raise SpecMismatch('offset of %r' % (o,))
            return o.off
        if n == 'b2i':
            return z3.If(self.boolean(A[0]), z3.IntVal(1), z3.IntVal(0))
        if n == 'bv2int':
            return z3.BV2Int(self.rv(A[0]))
        if n == 'same':   # deep pointwise equality of two composite values
            return val_eq(ex.reg, self.rv(A[0]), self.rv(A[1]))
        if n == 'lshr':
            a, b = unify(self.rv(A[0]), self.rv(A[1]))
            return z3.LShR(a, b)
        if n == 'setof':   # comprehension: a fresh set with its definition assumed
            c = z3.Const('%s!b%d' % (A[0].id, next(_fresh)), I)
            S = fresh('setof', z3.ArraySort(I, B))
            b = self.sub(names={**self.names, A[0].id: c}).boolean(A[1])
            self.st.assume(z3.ForAll([c], z3.Select(S, c) == b, patterns=[z3.Select(S, c)]))
            return S
        if n == 'emptyset':
            return z3.K(I, z3.BoolVal(False))
        if n in self.names and callable(self.names[n]):
            return self.names[n](*[self.rv(a) for a in A])
        if n in self.sp.macros:
            ps, body = self.sp.macros[n]
            if len(ps) != len(A):
                raise SpecMismatch('macro %s arity' % n)
            names = {p: self.ev(a) for p, a in zip(ps, A)}
            for k in ex.global_names:
                if k in self.names:
                    names.setdefault(k, self.names[k])
            return self.sub(names=names).ev(body)
        if n in self.sp.funcs:
            return self.sp.funcs[n](self, *A)
        raise SpecMismatch('unknown spec function ' + n)


def okpat(p):
    bad = []

    def w(e):
        if bad:
            return
        if z3.is_app(e):
            k = e.decl().kind()
            if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE,
                     z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                bad.append(1)
            for c in e.children():
                w(c)
    if z3.is_pattern(p):
        for i in range(p.num_args()):
            w(p.arg(i))
    else:
        w(p)
    return not bad


_height = {}


def qheight(e):
    """nesting depth of quantifiers in e"""
    k = e.get_id()
    r = _height.get(k)
    if r is None:
        r = (1 + qheight(e.body())) if z3.is_quantifier(e) else max([qheight(c) for c in e.children()], default=0)
        _height[k] = r
        _keep.append(e)
    return r


_keep = []


def canon_names(q, qid=''):
    """bound-variable names made canonical so that alpha-equivalent formulas are identical terms"""
    n = q.num_vars()
    ctx = q.ctx
    h = qheight(q.body())
    pats = (z3.Pattern * q.num_patterns())(*[q.pattern(i).ast for i in range(q.num_patterns())])
    sorts = (z3.Sort * n)(*[q.var_sort(i).ast for i in range(n)])
    names = (z3.Symbol * n)(*[z3.to_symbol('_b%d_%d' % (h, i), ctx) for i in range(n)])
    r = z3.Z3_mk_quantifier_ex(ctx.ref(), q.is_forall(), 1, z3.to_symbol(re.sub(r'[^A-Za-z0-9_.]+', '_', qid)[:60], ctx), z3.to_symbol('', ctx),
                               len(pats), pats, 0, None, n, sorts, names, q.body().as_ast())
    return z3.QuantifierRef(r, ctx)


def mkforall(vs, b, pats, qid=''):
    return canon_names(mkforall0(vs, b, pats), qid)


def mkforall0(vs, b, pats):
    pats = [p for p in pats if okpat(p)]
    if pats:
        try:
            return z3.ForAll(vs, b, patterns=pats)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, b)


def unify(a, b):
    if isinstance(a, NullPtr):
        a = z3.IntVal(0)
    if isinstance(b, NullPtr):
        b = z3.IntVal(0)
    if not z3.is_expr(a) and not z3.is_expr(b):
        return a, b
    if not z3.is_expr(a):
        if isinstance(a, (Val, Special)):
            raise SpecMismatch('unify')
        return coerce(a, b.sort()), b
    if not z3.is_expr(b):
        if isinstance(b, (Val, Special)):
            raise SpecMismatch('unify')
        return a, coerce(b, a.sort())
    if a.sort() == b.sort():
        return a, b
    order = lambda s: 0 if s == B else 1 if isinstance(s, z3.BitVecSortRef) else 2 if s == I else 3
    if order(a.sort()) < order(b.sort()):
        return coerce(a, b.sort()), b
    return a, coerce(b, a.sort())


def tdiv(a, b):
    """C truncated division"""
    q = a / b
    return z3.If(z3.Or(a >= 0, a == b * q), q, z3.If(b > 0, q + 1, q - 1))


def binop(op, a, b):
    if isinstance(op, ast.Add):
        return a + b
    if isinstance(op, ast.Sub):
        return a - b
    if isinstance(op, ast.Mult):
        return a * b
    if isinstance(op, ast.FloorDiv):
        return z3.UDiv(a, b) if isinstance(a.sort(), z3.BitVecSortRef) else a / b
    if isinstance(op, ast.Mod):
        return z3.URem(a, b) if z3.is_expr(a) and isinstance(a.sort(), z3.BitVecSortRef) else a % b
    if isinstance(op, ast.BitAnd):
        return a & b if a.sort() != B else z3.And(a, b)
    if isinstance(op, ast.BitOr):
        return a | b if a.sort() != B else z3.Or(a, b)
    if isinstance(op, ast.BitXor):
        return a ^ b
    if isinstance(op, ast.LShift):
        return a << b
    if isinstance(op, ast.RShift):
        return z3.LShR(a, b)
    raise SpecMismatch('binop')


def project(reg, val, f, ft):
    d = {}
    for p, _ in reg.leaves(ft):
        d[p] = val.d[(f,) + p]
    return d[()] if list(d) == [()] else Val(ft, d)


def subval(reg, val, mk, i):
    et = val.T.elem if mk == '[]' else val.T.val
    d = {}
    for p, _ in reg.leaves(et):
        d[p] = select(val.d[(mk,) + p], i)
    return d[()] if list(d) == [()] else Val(et, d)


def val_eq(reg, a, b):
    if not isinstance(a, Val):
        a, b = unify(a, b)
        return a == b
    t = a.T
    if isinstance(t, (TRec,)):
        fs = [val_eq(reg, project(reg, a, f, ft), project(reg, b, f, ft)) for f, ft in reg.fields(t.name)]
        return z3.And(*fs)
    if isinstance(t, TPair):
        return z3.And(val_eq(reg, project(reg, a, 'first', t.a), project(reg, b, 'first', t.a)),
                      val_eq(reg, project(reg, a, 'second', t.b), project(reg, b, 'second', t.b)))
    if isinstance(t, (TVec, TArr)):
        i = z3.Const('ve!%d' % next(_fresh), I)
        f = val_eq(reg, subval(reg, a, '[]', i), subval(reg, b, '[]', i))
        n = a.d.get(('#',))
        if n is None:
            return z3.ForAll([i], f)
        return z3.And(n == b.d[('#',)], z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), f)))
    if isinstance(t, TSet):
        k = z3.Const('ve!%d' % next(_fresh), reg.leaves(t.key)[0][1])
        return z3.ForAll([k], select(a.d[('?',)], k) == select(b.d[('?',)], k))
    if isinstance(t, TMap):
        k = z3.Const('ve!%d' % next(_fresh), reg.leaves(t.key)[0][1])
        f = val_eq(reg, subval(reg, a, '{}', k), subval(reg, b, '{}', k))
        da, db = select(a.d[('?',)], k), select(b.d[('?',)], k)
        return z3.ForAll([k], z3.And(da == db, z3.Implies(da, f)))
    return z3.And(*[a.d[p] == b.d[p] for p in a.d])
