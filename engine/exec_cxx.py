"""Symbolic execution of clang AST functions against contracts (verification-condition generator)."""
import json
import re, itertools, ast as pyast
import z3
from core import *
from cxx import tstr, strip_targs, Func, mangle
from core import _fresh

PRIMS = {
    'int': (32, True), 'signed int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
    'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
    'short': (16, True), 'unsigned short': (16, False), 'char': (8, True), 'signed char': (8, True),
    'unsigned char': (8, False), 'size_t': (64, False), 'uint8_t': (8, False), 'uint16_t': (16, False),
    'uint32_t': (32, False), 'uint64_t': (64, False), 'int64_t': (64, True), 'std::size_t': (64, False),
    'ptrdiff_t': (64, True), 'long int': (64, True), 'long long int': (64, True), 'int8_t': (8, True),
    'size_type': (64, False), 'difference_type': (64, True), 'std::ptrdiff_t': (64, True),
}
WRAPPERS = ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
            'SubstNonTypeTemplateParmExpr', 'FullExpr', 'CXXRewrittenBinaryOperator')
ANY = z3.Const('__ANY__', I)
# bit masks as integers: & | ^ ~ are functions whose meaning is given bit by bit (infinite two's complement)
BITF = {'&': z3.Function('bit_and', I, I, I), '|': z3.Function('bit_or', I, I, I), '^': z3.Function('bit_xor', I, I, I)}
NOTF = z3.Function('bit_not', I, I)
SHLC = z3.Function('shl_const', I, I, I)     # a << n, n constant
SHL1 = z3.Function('shl_one', I, I)      # 1 << i
BIT = z3.Function('bit', I, I, z3.BoolSort())
BITNAMES = ('bit_and', 'bit_or', 'bit_xor', 'bit_not')


def bit_axioms():
    x, y, k = z3.Ints('x y k')
    n, r = BIT, []
    for op, c in (('&', z3.And), ('|', z3.Or), ('^', z3.Xor)):
        f = BITF[op]
        r.append(z3.ForAll([x, y, k], z3.Implies(k >= 0, n(f(x, y), k) == c(n(x, k), n(y, k))), patterns=[n(f(x, y), k)]))
        r.append(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= 255, *([] if op == '&' else [0 <= y, y <= 255])), z3.And(0 <= f(x, y), f(x, y) <= 255)), patterns=[f(x, y)]))
    f = BITF['&']
    r.append(z3.ForAll([x, y], z3.Implies(z3.And(0 <= y, y <= 255), z3.And(0 <= f(x, y), f(x, y) <= 255)), patterns=[f(x, y)]))
    r.append(z3.ForAll([x, k], z3.Implies(k >= 0, n(NOTF(x), k) == z3.Not(n(x, k))), patterns=[n(NOTF(x), k)]))
    r.append(z3.ForAll([x, k], z3.Implies(z3.And(k >= 0, k <= 63), z3.And(n(SHL1(k), x) == z3.And(x == k), SHL1(k) >= 1, SHL1(k) < 2 ** 64)), patterns=[n(SHL1(k), x)]))
    r.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k <= 63), z3.And(SHL1(k) >= 1, SHL1(k) < 2 ** 64)), patterns=[SHL1(k)]))
    r.append(z3.ForAll([x, k], z3.Implies(z3.And(k >= 0, k <= 63, x >= 0), (f(x, SHL1(k)) != 0) == n(x, k)), patterns=[f(x, SHL1(k))]))
    r.append(z3.ForAll([k], z3.Not(n(0, k)), patterns=[n(0, k)]))
    r.append(z3.ForAll([x, y, k], z3.Implies(z3.And(0 <= k, k < y), z3.Not(n(SHLC(x, y), k))), patterns=[n(SHLC(x, y), k)]))
    r.append(z3.ForAll([k], z3.Implies(0 <= k, n(255, k) == (k <= 7)), patterns=[n(255, k)]))
    return r


def split_targs(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            depth += 1
        if ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Return(Exception):
    pass


class Exec:
    def __init__(self, program, reg, contracts, spec=None, globals=None, heap=None, bv8=False, iter_adapt=None,
                 consts=None, sorts=None, ptr_buf=None, skip_calls=(), axioms=None, builtins=None, opaque_ok=True,
                 split_ifs=True, rec_alias=None, types=None, opaque_fields=(), bits=False):
        self.bits = bits
        self.P = program
        self.reg = reg
        self.C = contracts
        self.spec = spec or Spec(self)
        self.spec.ex = self
        self.globals = globals or {}
        self.global_names = set(self.globals)
        self.heap = heap or set()
        self.default_heap = list(self.heap)[0] if self.heap else None
        self.bv8 = bv8
        self.iter_adapt = iter_adapt or {}
        self.consts = consts or {}
        self.sorts = dict(SORTS)
        self.sorts.update(sorts or {})
        self.skip_calls = set(skip_calls)
        self.axioms = axioms or []
        self.pq_order = None
        self.builtins = builtins or {}
        self.types = types or {}
        self.obls = []
        self.suppress = 0
        self.uid = itertools.count()
        self.cur = None
        self.curname = ''
        self.loopord = {}
        self.callpath = ()
        self.throws = []
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = set()
        self.rec_built = set()
        self.opaque_fields = set(opaque_fields)
        self.rec_alias = rec_alias or {}
        self.rtypes = []
        self.unsup_fields = {}
        self.maxpaths = 48
        self.covers = []

    # ------------------------------------------------------------ types
    def ptype(self, s):
        s = s.strip()
        if s in self.types:
            return self.types[s]
        for kw in ('const ', 'volatile ', 'typename ', 'class ', 'struct ', 'mutable '):
            if s.startswith(kw):
                return self.ptype(s[len(kw):])
        if s.endswith(' const'):
            return self.ptype(s[:-6])
        if '(&)(' in s or '(*)(' in s:
            return TOpaque('function')
        if s.endswith('&&'):
            return self.ptype(s[:-2])
        if s.endswith('&'):
            return self.ptype(s[:-1])
        if s.endswith('*') or s.endswith('*const') or s.endswith('* const') or s.endswith('*__restrict'):
            t = re.sub(r'\*\s*(const|__restrict)?$', '', s).strip()
            base = strip_targs(t.replace('const ', '').strip()).split('::')[-1]
            if base in self.heap:
                return TAddr(base)
            try:
                return TPtr(self.ptype(t))
            except Unsupported:
                return TPtr(TOpaque(t))
        m = re.match(r'^(.*?)\s*\[(\d*)\]((\[\d+\])*)$', s)
        if m:
            inner = m.group(1) + m.group(3)
            return TArr(self.ptype(inner), int(m.group(2)) if m.group(2) else None)
        if s == 'bool' or s == '_Bool':
            return TBool()
        if s == 'void':
            return TVoid()
        if s in ('double', 'float', 'long double'):
            return TReal()
        if s in PRIMS:
            b, sg = PRIMS[s]
            if b == 8 and not sg and self.bv8:
                return TBV(8)
            return TInt(b, sg)
        base = s
        targs = []
        if '<' in s and s.endswith('>'):
            i = s.index('<')
            base, targs = s[:i], split_targs(s[i + 1:-1])
        name = base.split('::')[-1].strip()
        if name in ('vector', 'deque'):
            return TVec(self.ptype(targs[0]))
        if name == 'priority_queue':
            return TPQ(self.ptype(targs[0]))
        if name in ('unordered_map', 'map'):
            return TMap(self.ptype(targs[0]), self.ptype(targs[1]))
        if name in ('unordered_set', 'set'):
            return TSet(self.ptype(targs[0]))
        if name == 'pair':
            return TPair(self.ptype(targs[0]), self.ptype(targs[1]))
        if name == 'array':
            return TArr(self.ptype(targs[0]), int(re.sub(r'\D', '', targs[1])))
        if name in ('string', 'basic_string', 'mutex', 'thread', 'future', 'function', 'shared_ptr', 'uniform_int_distribution',
                    'time_point', 'duration', 'ostream', 'default_random_engine'):
            return TOpaque(name)
        if name in ('unique_ptr', 'fat_pointer'):
            return TPtr(self.ptype(targs[0].replace('[]', '')))
        if name in self.P.typedefs and name not in self.P.records:
            return self.ptype(self.P.typedefs[name])
        if name in self.P.split and targs:
            name = mangle(name, targs)
        rn = self.rec_alias.get(name, name)
        self.build_record(rn)
        if rn in self.reg.records:
            return TRec(rn)
        if 'enum' in s or name.isupper():
            return TInt(32, True)
        raise Unsupported('type ' + s)

    def find_record(self, name):
        c = self.P.records.get(name, [])
        if not c:
            return None
        return c[0]

    def build_record(self, name):
        if name in self.reg.records or name in self.rec_built:
            return
        rec = self.find_record(name)
        if rec is None:
            return
        self.rec_built.add(name)
        fields = []
        for b in rec.bases:
            bn = strip_targs(b).split('::')[-1].strip()
            self.build_record(bn)
            if bn in self.reg.records:
                for ff in self.reg.records[bn]:
                    if any(g[0] == ff[0] for g in fields):
                        self.assumed.add('the members named %s of the bases of %s hold the same value (both are set from the same constructor argument)' % (ff[0], name))
                    else:
                        fields.append(ff)
                for (rn, f), a in list(self.reg.alias.items()):
                    if rn == bn:
                        self.reg.alias.setdefault((name, f), a)
        self.reg.records[name] = fields      # allow self reference through pointers
        out = list(fields)
        for f, ts, node in rec.fields:
            if (name, f) in self.reg.alias:
                continue
            if (name, f) in self.opaque_fields:
                continue
            if (name, f) in self.types:
                out.append((f, self.types[(name, f)]))
                continue
            try:
                if ts.strip().endswith('&'):
                    raise Unsupported('reference member %s::%s without alias' % (name, f))
                t = self.ptype(ts)
                if isinstance(t, TPtr):
                    # scalar buffer owned by the object: modelled as an array reached through the field
                    t = TArr(t.to, None)
                self.reg.leaves(t)
                out.append((f, t))
            except Unsupported as e:
                self.unsup_fields[(name, f)] = str(e)
        self.reg.records[name] = out

    def heapref(self, cls, addr):
        return Ref('HEAP_' + cls, (('[]', coerce(addr, I)),), TRec(cls))

    def alias_ref(self, o, f, st):
        a = self.reg.alias[(o.T.name, f)]
        if callable(a):
            return a(self, o, st)
        steps = a.split('.')
        r = Ref(steps[0], (), self.globals[steps[0]])
        for s in steps[1:]:
            r = Ref(r.root, r.steps + (s,), self.reg.ftype(r.T.name, s))
        return r

    # ------------------------------------------------------------ spec names
    def spec_name(self, n, st, names):
        th = names.get('this')
        if isinstance(th, Addr):
            th = th.ref
        if isinstance(th, Ref) and isinstance(th.T, TRec):
            if (th.T.name, n) in self.reg.alias:
                return self.alias_ref(th, n, st)
            ft = self.reg.ftype(th.T.name, n)
            if ft is not None:
                return Ref(th.root, th.steps + (n,), ft)
        if n in self.globals:
            return Ref(n, (), self.globals[n])
        if n in self.consts:
            return self.consts[n]
        if n == 'null':
            return z3.IntVal(0)
        if n.startswith('HEAP_') and n[5:] in self.heap:
            return Ref(n, (), TArr(TRec(n[5:]), None))
        return None

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, kind, node=None, name=None):
        if self.suppress or st.dead:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_and(goal):
            cs = []

            def flat(g):
                for c in g.children():
                    if z3.is_and(c):
                        flat(c)
                    else:
                        cs.append(c)
            flat(goal)
            for i, c in enumerate(cs):
                self.oblige(st, c, kind, node, '%s#%d' % (name or kind, i + 1))
            return
        goal = z3.simplify(goal) if z3.is_app(goal) and not has_quant(goal) else goal
        if z3.is_true(goal):
            self.obls.append(Obligation(name or kind, None, None, self.curname, kind, self.line(node)))
            self.obls[-1].res = 'unsat'
            self.obls[-1].backend = 'simplifier'
            return
        hy = st.hyps()
        o = Obligation(name or kind, hy, goal, self.curname, kind, self.line(node))
        self.obls.append(o)
        if is_hyp(goal, hy):
            o.res, o.backend = 'unsat', 'hypothesis'

    def line(self, node):
        if not node:
            return None
        for l in (node.get('range', {}).get('begin', {}), node.get('loc', {})):
            if 'expansionLoc' in l:
                l = l['expansionLoc']
            if 'line' in l:
                return l['line']
            if 'offset' in l and self.curfile:
                return self.off2line(l['offset'])
        return None

    curfile = None
    _offs = {}
    _pathids = {}

    def off2line(self, off):
        try:
            if self.curfile not in self._offs:
                self._offs[self.curfile] = open(self.curfile, 'rb').read()
            return self._offs[self.curfile][:off].count(b'\n') + 1
        except Exception:
            return None

    def is_same(self, n):
        """std::is_same<A, B>::value, with the template parameters of the function and class at hand"""
        r = n.get('range', {})
        b, e = r.get('begin', {}), r.get('end', {})
        f = getattr(self, 'curfunc', None)
        if 'offset' not in b or 'offset' not in e or f is None or not f.file:
            return None
        if f.file not in self._offs:
            self._offs[f.file] = open(f.file, 'rb').read()
        txt = self._offs[f.file][b['offset']:e['offset'] + e.get('tokLen', 5)].decode('utf-8', 'replace')
        m = re.match(r'\s*(?:std\s*::\s*)?is_same\s*<(.*)>\s*::\s*value\s*$', txt, re.S)
        if not m:
            return None
        ab = split_targs(m.group(1))
        if len(ab) != 2:
            return None
        ab = [f.tmap.get(x, x).split('::')[-1].strip() for x in ab]
        return ab[0] == ab[1]

    # ------------------------------------------------------------ verify one function
    def verify(self, con, func=None):
        fs = [func] if func else self.P.find(con.sig or con.fn)
        if len(fs) == 0:
            raise SpecMismatch('function %s not found in the source' % (con.sig or con.fn))
        if len(fs) > 1:
            fs2 = [f for f in fs if not has_dependent(f)]
            if len(fs2) >= 1:
                fs = fs2[:1]
        f = fs[0]
        self.cur, self.curname, self.curfile = con, con.tag or con.fn, f.file
        self.curfunc = f
        self.loopord = {}
        self.callpath = ()
        self.throws = []
        n0 = len(self.obls)
        st = State(self.reg)
        for g, t in self.globals.items():
            if isinstance(t, TRec):
                self.build_record(t.name)
            st.newroot(g, t)
        for h in self.heap:
            self.build_record(h)
            ht = TVec(TRec(h))
            st.newroot('HEAP_' + h, TArr(TRec(h), None))
        names = {}
        for g, s in con.ghosts.items():
            if isinstance(s, T):
                names[g] = st.newroot(g, s)
            else:
                names[g] = z3.Const(g, self.sorts[s] if isinstance(s, str) else s)
        byval = {}
        cps = self.cparams(f, con)
        if len(cps) != len(f.params):
            raise SpecMismatch('%s has %d parameters, the contract names %d' % (f.qname, len(f.params), len(cps)))
        for i, p in enumerate(f.params):
            ts = tstr(p['type'])
            pn = cps[i]
            if pn in con.alias and isinstance(con.alias[pn], str):
                r = self.spec.ev(con.alias[pn], st, names)
                st.env[p['id']] = r
                names[pn] = r
                continue
            t = self.ptype(ts)
            if isinstance(t, TPtr):
                if isinstance(t.to, (TRec,)):
                    r = st.newroot(pn, t.to)
                    st.env[p['id']] = Ref(pn + '&', (), t)
                    st.rootT[pn + '&'] = t
                    st.objs[pn + '&'] = Addr(r)
                    names[pn] = r
                else:
                    r = st.newroot(pn, TArr(t.to, None))
                    st.objs[pn + '&'] = BufPtr(r, z3.IntVal(0))
                    st.rootT[pn + '&'] = t
                    st.env[p['id']] = Ref(pn + '&', (), t)
                    names[pn] = r
                continue
            r = st.newroot(pn, t)
            st.env[p['id']] = r
            if is_ref(ts):
                names[pn] = r
            else:
                names[pn] = r
                byval[pn] = st.read(r)
        if f.cls and not f.static and f.node['kind'] != 'FunctionDecl':
            if 'this' in con.alias:
                a = con.alias['this']
                r = self.spec.ev(a if isinstance(a, str) else '%s[%s]' % a, st, names)
            elif f.cls in self.heap:
                self.build_record(f.cls)
                a = z3.Int('this_addr')
                names['this_addr'] = a
                st.assume(a != 0)
                r = self.heapref(f.cls, a)
            else:
                self.build_record(f.cls)
                r = st.newroot('this', TRec(f.cls))
            names['this'] = r
            st.env['this'] = r
        st.names = dict(names)
        # preconditions
        old0 = st.copy()
        for nm, e in con.requires:
            st.assume(self.spec.formula(e, st, names, old0))
        for h in con.hints:
            pass
        self.obls.append(Obligation('precondition-reachable', st.hyps() + [], z3.BoolVal(False), self.curname,
                                    'vacuity', f.line, expect='notunsat'))
        old = st.copy()
        self.oldst = old
        self.entrynames = dict(names)
        self.entrynames.update(byval)
        for g in con.ghost_entry:
            self.ghost_assign(g, st, dict(st.names), old)
        # body
        if con.this_fields is not None:
            used = self.this_used(f, set())
            # a scalar member cannot be what a container parameter refers to
            def scalar(t):
                return isinstance(t, (TInt, TBool, TReal))
            if f.cls in self.reg.records and not any(is_ref(tstr(p['type'])) and scalar(self.ptype(tstr(p['type']))) for p in f.params):
                used = {u for u in used if not scalar(self.reg.ftype(f.cls, u) if re.match(r'^\w+$', u) else None)}
            if not used <= set(con.this_fields):
                raise SpecMismatch('%s touches member(s) %s' % (f.qname, ', '.join(sorted(used - set(con.this_fields)))))
        outs = self.run_body(f, st)
        any_norm = False
        for kind, s, pay in outs + [('throw', s, None) for s in self.throws]:
            if kind in ('norm', 'return'):
                any_norm = True
                if not s.dead:
                    self.obls.append(Obligation('exit-reachable', s.hyps(), z3.BoolVal(False), self.curname,
                                                'cover', f.line, expect='notunsat'))
                self.check_exit(con, s, pay, old, byval, f)
            elif kind == 'throw':
                if con.nothrow:
                    self.oblige(s, z3.BoolVal(False), 'nothrow', f.body, 'no-exception')
                elif con.throws is not None:
                    nm = dict(self.entrynames)
                    self.oblige(s, self.spec.formula(con.throws, old, nm, old), 'throws', f.body, 'throws-only-if')
            else:
                raise Unsupported('stray ' + kind)
        if con.loops and len(self.loopord) != len([1 for l in con.loops]):
            raise SpecMismatch('%s: %d loop(s) in the source, %d loop annotation(s)' % (con.fn, len(self.loopord),
                                                                                       len(con.loops)))
        if not any_norm and con.ensures:
            self.obls.append(Obligation('normal-exit-exists', [], z3.BoolVal(False), self.curname, 'vacuity', f.line))
        return f, self.obls[n0:]

    def exit_names(self, con, s, pay, byval):
        names = dict(s.names)
        names.update(self.entrynames)
        for k, v in s.names.items():
            if k not in names or k.startswith('g_'):
                names[k] = v
        names.update(byval)
        if pay is not None:
            names['result'] = pay
        return names

    def check_exit(self, con, s, pay, old, byval, f):
        names = self.exit_names(con, s, pay, byval)
        for g in con.ghost_exit:
            self.ghost_assign(g, s, names, old)
        for h in con.hints:
            self.lemma(s, self.hint(h, s, names, old), f.body, h)
        for i, (nm, e) in enumerate(con.ensures):
            g = self.spec.formula(e, s, names, old)
            self.oblige(s, g, 'ensures', f.body, 'ensures:' + (nm or str(i)))
        if con.returns_ref is not None:
            want = self.spec.ev(con.returns_ref, old, names, old)
            ok = isinstance(pay, Ref) and pay.root == want.root and pay.marker() == want.marker()
            if not ok:
                self.oblige(s, z3.BoolVal(False), 'ensures', f.body, 'returns-reference')
            else:
                self.oblige(s, z3.And(*([a == b for a, b in zip(pay.idx(), want.idx())] or [z3.BoolVal(True)])),
                            'ensures', f.body, 'returns-reference')
        self.check_frame(con, s, old, names, f)

    def lemma(self, s, g, node, txt):
        """intermediate assertion: proved, then available"""
        self.oblige(s, g, 'assert', node, 'assert:' + short(txt))
        s.assume(g)

    def hint(self, h, s, names, old):
        return self.spec.formula(h, s, names, old)

    def mod_refs(self, mods, st, names, old=None):
        out = []
        nm = dict(names)
        nm['ANY'] = ANY
        for m in mods:
            r = self.spec.ev(m.replace('[*]', '[ANY]'), st, nm, old or st)
            if isinstance(r, Addr):
                r = r.ref
            if isinstance(r, BufPtr):
                r = r.ref
            if not isinstance(r, Ref):
                raise SpecMismatch('modifies clause %s is not a location' % m)
            out.append(r)
        return out

    def check_frame(self, con, s, old, names, f):
        mods = self.mod_refs(con.modifies, old, names, old)
        for key, pre in old.mem.items():
            cur = s.mem.get(key)
            root, lp = key
            if cur is None or cur.eq(pre):
                continue
            if root in self.entrynames and self.is_local_copy(root, f):
                continue
            if root in con.ghosts and not re.search(r'\b%s\b' % re.escape(root), ' '.join(x for _, x in list(con.requires) + list(con.ensures)) + ' ' + str(con.modifies)):
                continue        # a ghost local of the proof: callers never see it
            full = False
            parts = []
            for m in mods:
                mk = m.marker()
                if m.root == root and lp[:len(mk)] == mk:
                    ix = m.idx()
                    while ix and ix[-1].eq(ANY):
                        ix.pop()
                    if not ix:
                        full = True
                    else:
                        parts.append(ix)
            if full:
                continue
            if not parts:
                self.oblige(s, cur == pre, 'frame', f.body, 'frame:%s.%s' % (root, '.'.join(lp)))
            else:
                depth = min(len(p) for p in parts)
                vs, c, p = [], cur, pre
                for i in range(depth):
                    v = z3.Const('fr!%d' % next(_fresh), c.sort().domain())
                    vs.append(v)
                    c, p = z3.Select(c, v), z3.Select(p, v)
                excl = [z3.And(*[v == x for v, x in zip(vs, ix) if not x.eq(ANY)]) for ix in parts]
                self.oblige(s, z3.ForAll(vs, z3.Or(c == p, *excl)), 'frame', f.body,
                            'frame:%s.%s' % (root, '.'.join(lp)))

    def is_local_copy(self, root, f):
        for p in f.params:
            if p.get('name') == root:
                ts = tstr(p['type'])
                t = self.ptype(ts)
                return not is_ref(ts) and not isinstance(t, TPtr)
        return False

    def run_body(self, f, st):
        self.rtypes.append(f)
        try:
            if f.inits:
                for ci in f.inits:
                    self.ctor_init(ci, st, f)
            outs = self.exec(f.body, st)
        finally:
            self.rtypes.pop()
        return outs

    def ctor_init(self, ci, st, f):
        th = st.env['this']
        if isinstance(th, Addr):
            th = th.ref
        ex = ci.get('inner', [])
        if 'anyInit' in ci:
            fld = ci['anyInit'].get('name')
            rn = th.T.name
            if (rn, fld) in self.reg.alias:
                if ex and unwrap(ex[0]).get('kind') == 'CXXNewExpr':     # the buffer is modelled by a global
                    r = self.alias_ref(th, fld, st)
                    self.write_new(r, self.ev(ex[0], st), st, ex[0])
                return
            ft = self.reg.ftype(rn, fld)
            if ft is None:
                if self.spec_skip_field(rn, fld):
                    return
                raise Unsupported('initialiser of unmodelled field ' + str(fld))
            r = Ref(th.root, th.steps + (fld,), ft)
            v = self.ev(ex[0], st) if ex else self.default(ft, st)
            if isinstance(v, Ref):
                v = st.read(v)
            if isinstance(v, Special):
                if isinstance(ft, TOff):
                    v = self.conv(v, ft)
                elif isinstance(ft, TArr) and isinstance(v, BufPtr):
                    if not (z3.is_int_value(v.off) and v.off.as_long() == 0):
                        raise Unsupported('member initialised with the middle of a buffer')
                    v = st.read(v.ref)
                elif isinstance(ft, TArr) and isinstance(v, NewBuf):
                    self.write_new(r, v, st, ex[0])
                    return
                elif isinstance(v, NullPtr) and isinstance(ft, TAddr):
                    v = z3.IntVal(0)
                elif isinstance(v, NullPtr):
                    return
                else:
                    raise Unsupported('special ctor init')
            st.write(r, self.conv(v, ft))
        elif 'baseInit' in ci or 'delegatingInit' in ci:
            if ex:
                e = unwrap(ex[0])
                if e.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    self.construct_at(e, th, st)
        else:
            raise Unsupported('ctor initialiser')

    def spec_skip_field(self, rn, fld):
        return (rn, fld) in self.opaque_fields or (rn, fld) in self.unsup_fields

    # ------------------------------------------------------------ ghost assignments
    def ghost_assign(self, g, st, names, old):
        lhs, rhs = g.split(':=', 1)
        lhs = lhs.strip()
        nm = dict(names)
        cond = None
        if rhs.strip().startswith('if '):
            pass
        v = self.spec.ev(rhs, st, nm, old)
        if isinstance(v, Ref):
            v = st.read(v)
        if re.match(r'^\w+$', lhs) and lhs not in nm and self.spec_name(lhs, st, nm) is None:
            v = v if z3.is_expr(v) else z3.IntVal(v)
            st.names[lhs] = v
            names[lhs] = v
            return
        r = self.spec.ev(lhs, st, nm, old)
        if isinstance(r, Ref):
            if not is_ghost_ref(self.reg, r):
                raise SpecMismatch('ghost assignment to program state ' + lhs)
            st.write(r, v)
        else:
            st.names[lhs] = v
            names[lhs] = v

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        if st.dead:
            return []
        k = n.get('kind')
        if k is None:
            return [('norm', st, None)]
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, st)
        # expression statement
        self.ev(n, st)
        return [('norm', st, None)] if not st.dead else []

    def exec_seq(self, nodes, st):
        live = [st]
        outs = []
        for n in nodes:
            nxt = []
            base = None
            for s in live:
                for kd, s2, pay in self.exec(n, s):
                    if kd == 'norm':
                        nxt.append(s2)
                    else:
                        outs.append((kd, s2, pay))
            live = nxt
            if len(live) > self.maxpaths:
                live = [self.join(live)]
            if not live:
                # labels may follow
                if any(k2 == 'goto' for k2, _, _ in outs):
                    pass
                break
        outs += [('norm', s, None) for s in live]
        return outs

    def join(self, states):
        n = 0
        pcs = [s.pc for s in states]
        while all(len(p) > n for p in pcs) and all(p[n][0].eq(pcs[0][n][0]) for p in pcs):
            n += 1
        return merge_states(n, states)

    def s_CompoundStmt(self, n, st):
        inner = n.get('inner', [])
        # goto support: forward gotos to a label in this block
        labels = {}
        for i, c in enumerate(inner):
            if c.get('kind') == 'LabelStmt':
                labels[c.get('declId')] = i
        saved = dict(st.names)
        if not labels:
            outs = self.exec_seq(inner, st)
        else:
            outs = self.exec_seq(inner, st)
            work = [(kd, s, p) for kd, s, p in outs if kd == 'goto' and p in labels]
            outs = [(kd, s, p) for kd, s, p in outs if not (kd == 'goto' and p in labels)]
            for kd, s, p in work:
                outs += self.exec_seq(inner[labels[p]:], s)
        for kd, s, p in outs:       # names hidden by a declaration of this block come back
            for k, v in saved.items():
                if isinstance(v, Ref):
                    s.names[k] = v
        return outs

    def s_LabelStmt(self, n, st):
        return self.exec(n['inner'][0], st)

    def s_GotoStmt(self, n, st):
        return [('goto', st, n.get('targetLabelDeclId'))]

    def s_NullStmt(self, n, st):
        return [('norm', st, None)]

    def s_DeclStmt(self, n, st):
        for c in n.get('inner', []):
            if c.get('kind') == 'CXXRecordDecl':
                self.local_record(c, n)
            if c.get('kind') == 'VarDecl':
                self.declare(c, st)
        return [('norm', st, None)]

    def local_record(self, c, n):
        """a struct declared inside a function: plain fields, methods are found as for other classes"""
        name = c.get('name') or 'unnamed_%s' % c['id'][-6:]
        if name in self.reg.records:
            return
        if c.get('bases'):
            raise Unsupported('local class with bases')
        self.rec_built.add(name)
        self.reg.records[name] = [(f['name'], self.ptype(tstr(f['type']))) for f in c.get('inner', []) if f.get('kind') == 'FieldDecl']
        if not c.get('name'):
            for v in n.get('inner', []):
                if v.get('kind') == 'VarDecl':
                    for m in re.findall(r'\((?:unnamed|anonymous)[^()]*\)', ' '.join(x for x in v['type'].values() if isinstance(x, str))):
                        self.types[m] = TRec(name)
                        self.types['struct ' + m] = TRec(name)

    def declare(self, c, st):
        name = c.get('name', '_anon')
        ts = tstr(c['type'])
        init = [x for x in c.get('inner', []) if 'kind' in x and not x['kind'].endswith('Attr')]
        init = init[0] if init and c.get('init') else None
        if c.get('storageClass') == 'static':
            if init is None:
                raise Unsupported('static local')
        if is_ref(ts) and init is not None:
            v = self.ev(init, st)
            if isinstance(v, (Ref, Special)):
                st.env[c['id']] = v
                st.names[name] = v
                return
            t = self.ptype(ts)
        else:
            try:
                t = self.ptype(ts)
            except Unsupported:
                t = None
            v = None
            if init is not None:
                v = self.ev(init, st)
                if isinstance(v, Ref):
                    v = st.read(v)
            elif isinstance(t, (TInt, TBool, TReal, TBV, TArr, TPtr, TAddr)):
                v = None
            else:
                v = self.default(t, st) if t is not None else None
        root = '%s#%s' % (name, c['id'][-5:])
        if self.callpath:
            root += '@%d' % (self.pathid(self.callpath))
        if isinstance(v, Special):
            st.rootT[root] = t
            st.objs[root] = v
            r = Ref(root, (), t)
            if st.rec is not None:
                st.rec.append((('obj', root), ()))
        else:
            if t is None:
                raise Unsupported('type ' + ts)
            if isinstance(t, TPtr) and v is None:
                st.rootT[root] = t
                r = Ref(root, (), t)
            else:
                st.rootT[root] = t
                r = Ref(root, (), t)
                if v is None:
                    for p, s in self.reg.leaves(t):
                        st.mem[(root, p)] = fresh(root, s)
                else:
                    st.write(r, self.conv(v, t))
        st.env[c['id']] = r
        st.names[name] = r

    def s_IfStmt(self, n, st):
        inner = list(n.get('inner', []))
        if n.get('hasInit'):
            self.exec(inner.pop(0), st)
        if n.get('hasVar'):
            self.exec(inner.pop(0), st)
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        if n.get('isConstexpr'):
            pass
        c = self.cond(cond, st)
        if st.dead:
            return []
        out = []
        cs = z3.simplify(c)
        if not z3.is_false(cs):
            s1 = st.copy()
            if not z3.is_true(cs):
                s1.assume(c, True)
            out += self.exec(then, s1)
        if not z3.is_true(cs):
            s2 = st.copy()
            if not z3.is_false(cs):
                s2.assume(z3.Not(c), True)
            out += self.exec(els, s2) if els is not None else [('norm', s2, None)]
        return out

    def s_ReturnStmt(self, n, st):
        inner = n.get('inner', [])
        if not inner:
            return [('return', st, None)]
        f = self.rtypes[-1] if self.rtypes else None
        v = self.ev(inner[0], st)
        if st.dead:
            return []
        rt = f.type.split('(')[0].strip() if f else ''
        if f is not None and isinstance(v, Ref) and not is_ref(rt) and not rt.startswith('auto'):
            v = st.read(v)
        if f is not None and z3.is_expr(v):
            try:
                v = self.conv(v, self.ptype(rt))
            except Unsupported:
                pass
        return [('return', st, v)]

    def s_BreakStmt(self, n, st):
        return [('break', st, None)]

    def s_ContinueStmt(self, n, st):
        return [('continue', st, None)]

    def s_CXXThrowExpr(self, n, st):
        return [('throw', st, None)]

    def s_ExprWithCleanups(self, n, st):
        e = n['inner'][0]
        if e.get('kind') == 'CXXThrowExpr':
            return [('throw', st, None)]
        self.ev(e, st)
        return [('norm', st, None)] if not st.dead else []

    def s_StaticAssertDecl(self, n, st):
        return [('norm', st, None)]

    def s_SwitchStmt(self, n, st):
        inner = n['inner']
        cond, body = inner[-2], inner[-1]
        v = self.rv(cond, st)
        # flatten cases
        items = []       # (caseexprs list or 'default' or None, stmt)

        def flat(x):
            if x.get('kind') == 'CaseStmt':
                items.append(('case', x['inner'][0]))
                flat(x['inner'][-1])
            elif x.get('kind') == 'DefaultStmt':
                items.append(('default', None))
                flat(x['inner'][-1])
            else:
                items.append(('stmt', x))
        for c in body.get('inner', []):
            flat(c)
        outs = []
        conds = []
        caseidx = [(i, it) for i, it in enumerate(items) if it[0] in ('case', 'default')]
        alls = []
        for i, it in caseidx:
            if it[0] == 'case':
                cv = self.rv(it[1], st)
                a, b = unify(v, cv)
                alls.append((i, a == b))
        nocase = z3.And(*[z3.Not(c) for _, c in alls]) if alls else z3.BoolVal(True)
        starts = list(alls)
        hasdef = False
        for i, it in caseidx:
            if it[0] == 'default':
                starts.append((i, nocase))
                hasdef = True
        for i, c in starts:
            s = st.copy()
            cs = z3.simplify(c)
            if z3.is_false(cs):
                continue
            s.assume(c, True)
            for kd, s2, p in self.exec_seq([x for t, x in items[i:] if t == 'stmt'], s):
                outs.append(('norm', s2, None) if kd == 'break' else (kd, s2, p))
        if not hasdef:
            s = st.copy()
            s.assume(nocase, True)
            outs.append(('norm', s, None))
        return outs

    def s_CXXTryStmt(self, n, st):
        # normal path of the block; any handler may run from a havocked state of what the block writes
        blk = n['inner'][0]
        outs = []
        nth = len(self.throws)
        if self.only_at_throws(blk) and len(n['inner']) == 2:
            h = n['inner'][1]
            ct = ' '.join(json.dumps(c.get('type', {})) for c in h.get('inner', []) if c.get('kind') == 'VarDecl')
            if 'out_of_range' in ct or 'exception' in ct or not ct:
                prev, self.at_throws = getattr(self, 'at_throws', None), []
                try:
                    outs = self.exec(blk, st.copy())
                    bad = self.at_throws
                finally:
                    self.at_throws = prev
                for s in bad:
                    outs += self.exec(h['inner'][-1], s)
                return outs
        for kd, s, p in self.exec(blk, st.copy()):
            outs.append((kd, s, p))
        self.throws = self.throws[:nth]
        rec = []
        s0 = st.copy()
        s0.rec = rec
        self.suppress += 1
        try:
            self.exec(blk, s0)
        finally:
            self.suppress -= 1
        res = [o for o in outs if o[0] != 'throw']
        for h in n['inner'][1:]:
            s = st.copy()
            self.havoc_keys(s, rec, next(_fresh))
            s.assume(z3.Bool('caught!%d' % next(_fresh)), True)
            body = h['inner'][-1]
            res += self.exec(body, s)
        return res

    # ------------------------------------------------------------ loops
    def loop_spec(self, n):
        f = self.rtypes[-1] if self.rtypes else None
        key = (self.callpath, n['id'])
        con = self.loopcon[-1] if getattr(self, 'loopcon', None) else None
        if con is not None:
            base, tab = con
            tab.setdefault(n['id'], len(tab))
            o = tab[n['id']]
            if o < len(base.loops):
                return base.loops[o], o
            return None, o
        self.loopord.setdefault(key, len(self.loopord))
        o = self.loopord[key]
        if o < len(self.cur.loops):
            return self.cur.loops[o], o
        return None, o

    def s_WhileStmt(self, n, st):
        inner = n['inner']
        return self.loop(n, st, cond=inner[-2], body=inner[-1], inc=None)

    def s_DoStmt(self, n, st):
        inner = n['inner']
        return self.loop(n, st, cond=inner[1], body=inner[0], inc=None, do=True)

    def s_ForStmt(self, n, st):
        init, cv, cond, inc, body = (n['inner'] + [{}] * 5)[:5]
        if init.get('kind'):
            outs = self.exec(init, st)
            st = outs[0][1]
        return self.loop(n, st, cond=cond if cond.get('kind') else None, body=body, inc=inc if inc.get('kind') else None)

    def loop(self, n, st, cond, body, inc, do=False):
        sp, o = self.loop_spec(n)
        if sp is None or sp.unroll:
            return self.unroll(n, st, cond, body, inc, do, (sp.unroll if sp else None))
        kname = '_k%d' % o

        def guard(s):
            return self.cond(cond, s) if cond is not None else z3.BoolVal(True)

        def step(s):
            outs = []
            for kd, s2, p in self.exec(body, s):
                if kd in ('norm', 'continue'):
                    if inc is not None:
                        self.ev(inc, s2)
                    outs.append(('norm', s2, p))
                else:
                    outs.append((kd, s2, p))
            return outs
        return self.loop_core(n, st, sp, o, guard, step, do=do)

    def unroll(self, n, st, cond, body, inc, do, limit):
        limit = limit or 70
        live = [st]
        outs = []
        first = do
        for it in range(limit + 1):
            nxt = []
            for s in live:
                if not first:
                    c = z3.simplify(self.cond(cond, s)) if cond is not None else z3.BoolVal(True)
                    if z3.is_false(c):
                        outs.append(('norm', s, None))
                        continue
                    if not z3.is_true(c):
                        c2 = self.decide(s, c)
                        if c2 is False:
                            outs.append(('norm', s, None))
                            continue
                        if c2 is None:
                            if sp_unroll_sym(self.cur):
                                s_exit = s.copy()
                                s_exit.assume(z3.Not(c), True)
                                outs.append(('norm', s_exit, None))
                                s.assume(c, True)
                            else:
                                raise SpecMismatch('loop at line %s has no invariant annotation' % self.line(n))
                if it == limit:
                    raise SpecMismatch('loop at line %s exceeds its unrolling limit' % self.line(n))
                for kd, s2, p in self.exec(body, s):
                    if kd in ('norm', 'continue'):
                        if inc is not None:
                            self.ev(inc, s2)
                        nxt.append(s2)
                    elif kd == 'break':
                        outs.append(('norm', s2, None))
                    else:
                        outs.append((kd, s2, p))
            first = False
            live = nxt
            if len(live) > self.maxpaths:
                live = [self.join(live)]
            if not live:
                return outs
        return outs

    def decide(self, s, c):
        sol = z3.Solver()
        sol.set('timeout', 1000)
        for h in s.hyps():
            if not has_quant(h):
                sol.add(h)
        sol.push()
        sol.add(c)
        if sol.check() == z3.unsat:
            return False
        sol.pop()
        sol.add(z3.Not(c))
        if sol.check() == z3.unsat:
            return True
        return None

    def havoc_keys(self, s, rec, n0):
        """havoc everything recorded as written; index prefixes that are loop-stable are kept"""
        byk = {}
        for key, idx in rec:
            byk.setdefault(key, []).append(idx)
        for key, idxs in byk.items():
            if key[0] == 'obj':
                root = key[1]
                ob = s.objs.get(root)
                if isinstance(ob, VecIter):
                    s.objs[root] = VecIter(ob.ref, fresh('it', I), ob.rev)
                elif isinstance(ob, BufPtr):
                    s.objs[root] = BufPtr(ob.ref, fresh('off', I))
                elif isinstance(ob, MapIter):
                    s.objs[root] = MapIter(ob.ref, fresh('itk', ob.key.sort()), fresh('ite', B))
                elif ob is not None:
                    s.objs.pop(root)
                continue
            if key not in s.mem:
                continue
            pre = []
            d = 0
            while all(len(ix) > d for ix in idxs) and all(ix[d].eq(idxs[0][d]) for ix in idxs) \
                    and stable(idxs[0][d], n0):
                pre.append(idxs[0][d])
                d += 1
            old = s.mem[key]
            t = old
            for i in pre:
                t = select(t, i)
            v = fresh('L' + key[0] + ''.join('.' + x for x in key[1]), t.sort())
            s.mem[key] = nested_store(old, pre, v)
            if s.rec is not None:
                s.rec.append((key, tuple(pre)))
            # typing facts of the havocked leaf
            lt = self.leaf_type(s, key)
            if lt is not None:
                cur = v
                doms = []
                while isinstance(cur.sort(), z3.ArraySortRef) and not (key[1] and key[1][-1] == '?' and
                                                                      cur.sort().range() == B):
                    x = z3.Const('ti!%d' % len(doms), cur.sort().domain())
                    doms.append(x)
                    cur = z3.Select(cur, x)
                if lt == 'dom':
                    f = fin(cur)
                elif lt == 'len':
                    f = z3.And(cur >= 0, cur <= (1 << 62))
                else:
                    f = z3.And(cur >= lt.lo(), cur <= lt.hi())
                s.assume(z3.ForAll(doms, f, patterns=[cur]) if doms else f)

    def leaf_type(self, s, key):
        root, lp = key
        t = s.rootT.get(root)
        if t is None:
            return None
        if lp and lp[-1] == '#':
            return 'len'
        if lp and lp[-1] == '?':
            return 'dom'
        try:
            for p, x in leaf_types(self.reg, t):
                if p == lp:
                    return x if isinstance(x, TInt) else None
        except Unsupported:
            return None
        return None

    def modset(self, st, run, n0):
        rec_all = []
        seen = set()
        for _ in range(6):
            s = st.copy()
            s.rec = None
            self.havoc_keys(s, rec_all, n0)
            s.rec = rec = []
            self.suppress += 1
            nt = len(self.throws)
            try:
                run(s)
            finally:
                self.suppress -= 1
                self.throws = self.throws[:nt]
            new = [(k, ix) for k, ix in rec if k[0] == 'obj' or k in st.mem]
            sig = set((k, tuple(i.sexpr() if stable(i, n0) else '?' for i in ix)) for k, ix in new)
            if sig <= seen:
                break
            seen |= sig
            rec_all += new
        return rec_all

    def name_stores(self, s):
        """give array values that are store terms a name of their own, so that patterns over them stay simple"""
        for d in (s.mem, s.names):
            for k, v in list(d.items()):
                if z3.is_expr(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_STORE:
                    a = fresh('at', v.sort())
                    s.assume(a == v)
                    d[k] = a

    def loop_core(self, n, st, sp, o, guard, step, do=False, auto_inv=None, post_exit=None):
        names0 = st.names
        entry = st.copy()
        for g in sp.ghost_init:
            self.ghost_assign_local(g, st, entry)

        def invs(s):
            nm = dict(self.specnames(s))
            out = []
            for nm_i, e in sp.inv:
                out.append((nm_i or e, self.spec.formula(e, s, nm, self.oldst, entry)))
            if auto_inv:
                out += [('auto', f) for f in auto_inv(s)]
            return out

        def body_once(s):
            for g in sp.ghost_start:
                self.ghost_assign_local(g, s, entry)
            outs = step(s)
            for kd, s2, p in outs:
                if kd == 'norm':
                    for g in sp.ghost_end:
                        self.ghost_assign_local(g, s2, entry)
            return outs

        n0 = next(_fresh)

        def dry(s):
            c = guard(s)
            s1 = s.copy()
            s1.assume(c, True)
            body_once(s1)
        pre_names = dict(st.names)
        exits = []
        if do:
            raise Unsupported('do-while with invariant')
        for h in sp.init_hints:
            self.lemma(st, self.spec.formula(h, st, self.specnames(st), self.oldst, entry), n, h)
        for nm, f in invs(st):
            self.oblige(st, f, 'invariant-init', n, 'loop%d-init:%s' % (o, short(nm)))
        rec = self.modset(st, dry, n0)
        ghostmods = self.ghost_mods(sp)
        s = st.copy()
        outer_rec = s.rec
        self.havoc_keys(s, rec, n0)
        for g in ghostmods:
            if g in s.names and z3.is_expr(s.names[g]):
                s.names[g] = fresh(g, s.names[g].sort())
        self.name_stores(s)
        for nm, f in invs(s):
            s.assume(f)
        for h in sp.hints:
            self.lemma(s, self.spec.formula(h, s, self.specnames(s), self.oldst, entry), n, h)
        head = s.copy()
        c = guard(s)
        outs = []
        s_exit = s.copy()
        s_exit.assume(z3.Not(c), True)
        if not z3.is_true(z3.simplify(c)):
            if post_exit:
                post_exit(s_exit)
            outs.append(('norm', s_exit, None))
        s_in = s
        s_in.assume(c, True)
        d0 = None
        if sp.decreases:
            d0 = self.spec.ev(sp.decreases, head, self.specnames(head), self.oldst, entry)
            d0 = head.read(d0) if isinstance(d0, Ref) else d0
        self.covers.append((self.curname, 'loop%d-body' % o, s_in.hyps()) if not self.suppress else None)
        for kd, s2, p in body_once(s_in):
            if kd == 'norm':
                for h in sp.step_hints:
                    self.lemma(s2, self.spec.formula(h, s2, self.specnames(s2), self.oldst, entry), n, h)
                for nm, f in invs(s2):
                    self.oblige(s2, f, 'invariant', n, 'loop%d-preserve:%s' % (o, short(nm)))
                if sp.decreases:
                    d1 = self.spec.ev(sp.decreases, s2, self.specnames(s2), self.oldst, entry)
                    d1 = s2.read(d1) if isinstance(d1, Ref) else d1
                    self.oblige(s2, z3.And(d0 >= 0, d1 < d0), 'decreases', n, 'loop%d-decreases' % o)
            elif kd == 'break':
                s2.rec = outer_rec
                outs.append(('norm', s2, None))
            else:
                s2.rec = outer_rec
                outs.append((kd, s2, p))
        for kd, s2, p in outs:
            s2.names = {k: v for k, v in s2.names.items() if k in pre_names or k.startswith('_k') or k.startswith('_done')
                        or k.startswith('g_')}
        return outs

    def ghost_mods(self, sp):
        out = set()
        for g in list(sp.ghost_start) + list(sp.ghost_end):
            l = g.split(':=')[0].strip()
            if re.match(r'^\w+$', l):
                out.add(l)
        return out

    def ghost_assign_local(self, g, st, entry):
        lhs, rhs = g.split(':=', 1)
        lhs = lhs.strip()
        v = SpecCtx(self.spec, st, self.specnames(st), self.oldst, entry).rv(self.spec.parse(rhs))
        if isinstance(v, bool):
            v = z3.BoolVal(v)
        elif isinstance(v, int):
            v = z3.IntVal(v)
        cur = self.specnames(st).get(lhs)
        if re.match(r'^\w+$', lhs) and isinstance(cur, Ref):
            # a ghost with storage: written like any other location, so that loops forget it
            if cur.root not in self.cur.ghosts or cur.steps:
                raise SpecMismatch('ghost assignment to program state ' + lhs)
            st.write(cur, v)
        elif re.match(r'^\w+$', lhs):
            st.names[lhs] = v
        else:
            r = self.spec.ev(lhs, st, self.specnames(st), self.oldst)
            if not is_ghost_ref(self.reg, r):
                raise SpecMismatch('ghost assignment to program state ' + lhs)
            st.write(r, v)

    def specnames(self, st):
        nm = dict(self.entry_ghosts())
        nm.update(st.names)
        return nm

    def entry_ghosts(self):
        return self.entrynames

    def s_CXXForRangeStmt(self, n, st):
        inner = n['inner']
        rng = inner[1]['inner'][0]
        initexpr = [x for x in rng['inner'] if 'kind' in x][0]
        loopvar = inner[-2]['inner'][0]
        body = inner[-1]
        obj = self.ev(initexpr, st)
        if isinstance(obj, Ref) and obj.root in st.objs and not obj.steps:
            obj = st.objs[obj.root]
        if isinstance(obj, (Val,)):
            root = 'range#%s' % n['id'][-5:]
            r = Ref(root, (), obj.T)
            st.rootT[root] = obj.T
            st.write(r, obj)
            obj = r
        return self.range_loop(n, st, obj, loopvar, body)

    def range_loop(self, n, st, obj, loopvar, body):
        by_ref = is_ref(tstr(loopvar['type']))
        keys_only = False
        if isinstance(obj, Ref) and isinstance(obj.T, TRec) and obj.T.name in self.iter_adapt:
            f = self.iter_adapt[obj.T.name]
            obj = Ref(obj.root, obj.steps + (f,), self.reg.ftype(obj.T.name, f))
            keys_only = True
            self.assumed.add('range-for over class %s visits exactly the keys of its member %s, each once'
                             % (n and loopvar and obj.root, f))
        if not isinstance(obj, Ref):
            raise Unsupported('range-for over %r' % (obj,))
        sp, o = self.loop_spec(n)
        if isinstance(obj.T, (TVec, TArr)):
            if isinstance(obj.T, TArr) and obj.T.n is None:
                raise Unsupported('range over raw buffer')
            kroot = '_k%d#%s' % (o, n['id'][-5:])
            kref = Ref(kroot, (), TInt(64, True))
            st.rootT[kroot] = kref.T
            st.write(kref, z3.IntVal(0))
            st.names['_k%d' % o] = kref
            st.names['_k'] = kref
            ln = lambda s: self.veclen(obj, s)
            if sp is None:
                L = z3.simplify(ln(st))
                if z3.is_int_value(L) and L.as_long() <= 70:
                    return self.unroll_range(n, st, obj, loopvar, body, kref, L.as_long(), by_ref)
                raise SpecMismatch('loop at line %s has no invariant annotation' % self.line(n))

            def guard(s):
                return s.read(kref) < ln(s)

            def step(s):
                k = s.read(kref)
                l0 = ln(s)
                self.bind_elem(s, loopvar, obj, k, by_ref)
                outs = []
                for kd, s2, p in self.exec(body, s):
                    s2.names['_k'] = s2.names['_k%d' % o] = kref      # a nested loop has its own
                    if kd in ('norm', 'continue'):
                        self.oblige(s2, ln(s2) == l0, 'iteration', n, 'loop%d-container-length-unchanged' % o)
                        s2.write(kref, s2.read(kref) + 1)
                        outs.append(('norm', s2, p))
                    else:
                        outs.append((kd, s2, p))
                return outs
            auto = lambda s: [z3.And(0 <= s.read(kref), s.read(kref) <= ln(s))]

            def sp_names(s):
                s.names['_k'] = kref
            return self.loop_core(n, st, sp, o, guard, step, auto_inv=auto)
        if isinstance(obj.T, (TMap, TSet)):
            if sp is None:
                raise SpecMismatch('loop at line %s has no invariant annotation' % self.line(n))
            ks = self.reg.leaves(obj.T.key)[0][1]
            dt = TZ3(z3.ArraySort(ks, B))
            droot = '_done%d#%s' % (o, n['id'][-5:])
            dref = Ref(droot, (), dt)
            st.rootT[droot] = dt
            st.write(dref, z3.K(ks, z3.BoolVal(False)))
            st.names['_done%d' % o] = dref
            st.names['_done'] = dref

            def domain(s):
                t = s.mem[(obj.root, obj.marker() + ('?',))]
                for i in obj.idx():
                    t = select(t, i)
                return t

            box = {}

            def guard(s):
                key = fresh('key', ks)
                box['k'] = key
                box['more'] = fresh('more', B)
                s.assume(z3.Implies(box['more'], z3.And(select(domain(s), key), z3.Not(select(s.read(dref), key)))))
                x = z3.Const('kx!%d' % next(_fresh), ks)
                d = domain(s)
                if isinstance(d, z3.ArrayRef) or True:
                    s.assume(z3.Implies(z3.Not(box['more']),
                                        z3.ForAll([x], z3.Implies(select(d, x), select(s.read(dref), x)))))
                return box['more']

            def step(s):
                key = box['k']
                if keys_only or isinstance(obj.T, TSet):
                    self.bind_value(s, loopvar, key, obj.T.key)
                else:
                    ent = MapEntry(obj, key)
                    if by_ref:
                        s.env[loopvar['id']] = ent
                        s.names[loopvar['name']] = PyObj('entry', first=key, second=Ref(
                            obj.root, obj.steps + (('{}', key),), obj.T.val))
                    else:
                        pt = TPair(obj.T.key, obj.T.val)
                        self.bind_value(s, loopvar, self.entry_val(ent, s), pt)
                s.names['_key%d' % o] = key
                s.names['_key'] = key
                d0 = domain(s)
                outs = []
                for kd, s2, p in self.exec(body, s):
                    s2.names['_done'] = s2.names['_done%d' % o] = dref
                    s2.names['_key'] = s2.names['_key%d' % o] = key
                    if kd in ('norm', 'continue'):
                        d1 = domain(s2)
                        if not d1.eq(d0):
                            self.oblige(s2, d1 == d0, 'iteration', n, 'loop%d-container-keys-unchanged' % o)
                        s2.write(dref, z3.Store(s2.read(dref), key, True))
                        outs.append(('norm', s2, p))
                    else:
                        outs.append((kd, s2, p))
                return outs

            def auto(s):
                x = z3.Const('kx!%d' % next(_fresh), ks)
                return [z3.ForAll([x], z3.Implies(select(s.read(dref), x), select(domain(s), x))), fin(s.read(dref))]
            return self.loop_core(n, st, sp, o, guard, step, auto_inv=auto)
        raise Unsupported('range-for over %r' % obj.T)

    def entry_val(self, ent, s):
        r = Ref(ent.ref.root, ent.ref.steps + (('{}', ent.key),), ent.ref.T.val)
        v = s.read(r)
        d = {('first',): ent.key}
        if isinstance(v, Val):
            for p, t in v.d.items():
                d[('second',) + p] = t
        else:
            d[('second',)] = v
        return Val(TPair(ent.ref.T.key, ent.ref.T.val), d)

    def unroll_range(self, n, st, obj, loopvar, body, kref, L, by_ref):
        live, outs = [st], []
        for i in range(L):
            nxt = []
            for s in live:
                self.bind_elem(s, loopvar, obj, z3.IntVal(i), by_ref)
                for kd, s2, p in self.exec(body, s):
                    if kd in ('norm', 'continue'):
                        nxt.append(s2)
                    elif kd == 'break':
                        outs.append(('norm', s2, p))
                    else:
                        outs.append((kd, s2, p))
            live = nxt
            if len(live) > self.maxpaths:
                live = [self.join(live)]
        return outs + [('norm', s, None) for s in live]

    def bind_elem(self, s, var, obj, k, by_ref):
        r = Ref(obj.root, obj.steps + (('[]', k),), obj.T.elem)
        if by_ref:
            s.env[var['id']] = r
            s.names[var['name']] = r
        else:
            self.bind_value(s, var, s.read(r), obj.T.elem)

    def bind_value(self, s, var, v, t=None):
        if t is None:
            t = self.ptype(tstr(var['type']))
        root = '%s#%s' % (var['name'], var['id'][-5:])
        s.rootT[root] = t
        r = Ref(root, (), t)
        s.write(r, self.conv(v, t))
        s.env[var['id']] = r
        s.names[var['name']] = r

    # ------------------------------------------------------------ expressions
    def veclen(self, r, st):
        if isinstance(r, Val):
            return r.d[('#',)]
        if isinstance(r.T, TArr):
            if r.T.n is None:
                raise Unsupported('length of raw buffer')
            return z3.IntVal(r.T.n)
        t = st.mem[(r.root, r.marker() + ('#',))]
        for i in r.idx():
            t = select(t, i)
        return t

    def setlen(self, r, st, n):
        st.write(Ref(r.root, r.steps + ('#',), TInt(64, False)), n)

    def rv(self, n, st):
        v = self.ev(n, st)
        if isinstance(v, Ref):
            v = st.read(v)
        return v

    def cond(self, n, st):
        v = self.rv(n, st)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, NullPtr):
            return z3.BoolVal(False)
        if isinstance(v, (Addr, BufPtr)):
            return z3.BoolVal(True)
        if isinstance(v, Special) or isinstance(v, Val):
            raise Unsupported('boolean of %r' % (v,))
        return coerce(v, B) if v.sort() != z3.RealSort() else v != 0

    def conv(self, v, t):
        """convert value v to type t (identity on composites)"""
        if isinstance(v, (Special,)):
            if isinstance(v, NullPtr) and isinstance(t, TAddr):
                return z3.IntVal(0)
            if isinstance(t, TOff):
                if isinstance(v, BufPtr) and v.ref.root == t.buf and not v.ref.steps:
                    return coerce(v.off, I)
                raise Unsupported('pointer into another buffer than ' + t.buf)
            return v
        if isinstance(v, Val):
            return v
        if isinstance(t, TBool):
            return coerce(v, B)
        if isinstance(t, TBV):
            return coerce(v, z3.BitVecSort(t.bits))
        if isinstance(t, (TInt, TAddr)):
            if v.sort() == z3.RealSort():
                return z3.ToInt(v)
            return coerce(v, I)
        if isinstance(t, TReal):
            return coerce(v, z3.RealSort())
        return v

    def default(self, t, st):
        if isinstance(t, (TInt, TAddr)):
            return z3.IntVal(0)
        if isinstance(t, TBool):
            return z3.BoolVal(False)
        if isinstance(t, TReal):
            return z3.RealVal(0)
        if isinstance(t, TBV):
            return z3.BitVecVal(0, t.bits)
        d = {}
        for p, s in self.reg.leaves(t):
            d[p] = zero_of(s)
        if isinstance(t, TOpaque):
            return fresh('opq', d[()].sort()) if d else Opaque()
        return Val(t, d)

    def ev(self, n, st):
        k = n['kind']
        if k in WRAPPERS:
            return self.ev(n['inner'][0], st)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression kind %s' % k)
        return m(n, st)

    def ntype(self, n):
        return self.ptype(tstr(n['type']))

    def e_IntegerLiteral(self, n, st):
        return z3.IntVal(int(n['value']))

    def e_CharacterLiteral(self, n, st):
        return z3.IntVal(int(n['value']))

    def e_CXXBoolLiteralExpr(self, n, st):
        return z3.BoolVal(bool(n['value']))

    def e_FloatingLiteral(self, n, st):
        return z3.RealVal(n['value'])

    def e_StringLiteral(self, n, st):
        return Str(n.get('value'))

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return NullPtr()

    def e_GNUNullExpr(self, n, st):
        return NullPtr()

    def e_CXXThisExpr(self, n, st):
        t = st.env['this']
        return t if isinstance(t, Addr) else Addr(t)

    def e_CXXDefaultArgExpr(self, n, st):
        if n.get('inner'):
            return self.ev(n['inner'][0], st)
        return Opaque('defaultarg')

    def e_CXXDefaultInitExpr(self, n, st):
        if n.get('inner'):
            return self.ev(n['inner'][0], st)
        raise Unsupported('default member init')

    def e_ImplicitValueInitExpr(self, n, st):
        return self.default(self.ntype(n), st)

    def e_UserDefinedLiteral(self, n, st):
        return self.e_CallExpr(n, st)

    def e_CXXScalarValueInitExpr(self, n, st):
        return self.default(self.ntype(n), st)

    def e_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            if d['id'] in self.P.enums:
                return z3.IntVal(self.P.enums[d['id']])
            raise Unsupported('enum ' + d.get('name', ''))
        if d['id'] in st.env:
            return st.env[d['id']]
        if d['kind'] in ('VarDecl',):
            nm = d.get('name')
            if nm in self.consts:
                return self.consts[nm]
            if nm in self.globals:
                return Ref(nm, (), self.globals[nm])
            v = self.P.vars.get(d['id'])
            if v is not None:
                init = [x for x in v.get('inner', []) if 'kind' in x and not x['kind'].endswith('Attr')]
                ts = tstr(v['type'])
                if init and ('const' in ts or v.get('constexpr')):
                    return self.const_global(v, init[0], st)
            if nm == 'value':
                r = self.is_same(n)
                if r is not None:
                    return z3.BoolVal(r)
            if nm in ('cout', 'cerr', 'clog'):
                return Opaque('ostream')
            raise Unsupported('global variable ' + str(nm))
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return PyObj('func', id=d['id'], name=d.get('name'))
        raise Unsupported('reference to ' + str(d))

    def const_global(self, v, init, st):
        t = self.ptype(tstr(v['type']))
        val = self.ev(init, st)
        if isinstance(val, Ref):
            val = st.read(val)
        if isinstance(t, TArr):
            root = 'const:' + v['name']
            if root not in st.rootT:
                st.rootT[root] = t
                r = Ref(root, (), t)
                st.mem_rec, rec = st.rec, None
                srec = st.rec
                st.rec = None
                st.write(r, val)
                st.rec = srec
            return Ref(root, (), t)
        return self.conv(val, t)

    def e_MemberExpr(self, n, st):
        base = n['inner'][0]
        name = n.get('name')
        b = self.ev(base, st)
        if isinstance(b, Ref) and b.root in st.objs and not b.steps:
            b = st.objs[b.root]
        if isinstance(b, Addr):
            b = b.ref
        elif n.get('isArrow') and isinstance(b, Ref) and isinstance(b.T, TAddr):
            b = st.read(b)
        if z3.is_expr(b) and b.sort() == I and n.get('isArrow'):
            cls = strip_targs(tstr(base['type']).replace('const ', '').replace('*', '').strip()).split('::')[-1].strip()
            if cls not in self.heap and self.default_heap:
                cls = self.default_heap
            self.oblige(st, b != 0, 'null-deref', n, 'non-null:' + str(name))
            b = self.heapref(cls, b)
        if isinstance(b, MapEntry):
            if name == 'first':
                return b.key
            return Ref(b.ref.root, b.ref.steps + (('{}', b.key),), b.ref.T.val)
        if isinstance(b, MapIter):
            ent = self.deref_mapiter(b, st, n)
            if name == 'first':
                return ent.key
            return Ref(b.ref.root, b.ref.steps + (('{}', ent.key),), b.ref.T.val)
        if isinstance(b, VecIter):
            b = Ref(b.ref.root, b.ref.steps + (('[]', b.idx),), b.ref.T.elem)
        if isinstance(b, Ref):
            t = b.T
            if isinstance(t, TRec):
                if (t.name, name) in self.reg.alias:
                    return self.alias_ref(b, name, st)
                ft = self.reg.ftype(t.name, name)
                if ft is None:
                    # static member / function / unmodelled
                    if (t.name, name) in self.unsup_fields or (t.name, name) in self.opaque_fields:
                        return PyObj('unmodelled', name=name, rec=t.name)
                    if name in self.consts:
                        return self.consts[name]
                    raise Unsupported('member %s::%s' % (t.name, name))
                return Ref(b.root, b.steps + (name,), ft)
            if isinstance(t, TPair):
                return Ref(b.root, b.steps + (name,), t.a if name == 'first' else t.b)
            if isinstance(t, TAddr):
                h = self.heapref(t.cls, st.read(b))
                return Ref(h.root, h.steps + (name,), self.reg.ftype(t.cls, name))
            if isinstance(t, TArr) and name == 'ptr':
                return b        # fat_pointer: an owning pointer
        if isinstance(b, Val):
            ft = self.reg.ftype(b.T.name, name) if isinstance(b.T, TRec) else (b.T.a if name == 'first' else b.T.b)
            if isinstance(ft, TOff):
                return BufPtr(Ref(ft.buf, (), self.globals[ft.buf]), project(self.reg, b, name, ft))
            return project(self.reg, b, name, ft)
        if isinstance(b, PyObj) and b.kind == 'unmodelled':
            return PyObj('unmodelled', name=b.name + '.' + str(name), rec=b.rec)
        if isinstance(b, PyObj) and hasattr(b, name):
            return getattr(b, name)
        raise Unsupported('member %s of %r' % (name, b))

    def deref_mapiter(self, it, st, n):
        self.oblige(st, z3.And(z3.Not(it.isend), self.mapdom(it.ref, st, it.key)), 'deref', n, 'iterator-valid')
        return MapEntry(it.ref, it.key)

    def mapdomarr(self, r, st):
        if isinstance(r, Val):
            return r.d[('?',)]
        t = st.mem[(r.root, r.marker() + ('?',))]
        for i in r.idx():
            t = select(t, i)
        return t

    def mapdom(self, r, st, k):
        t = self.mapdomarr(r, st)
        return select(t, coerce(k, t.sort().domain()))

    def setdom(self, r, st, k, b):
        t = self.mapdomarr(r, st)
        st.write(Ref(r.root, r.steps + ('?',), TZ3(t.sort())), z3.Store(t, k, z3.BoolVal(b)))

    def strip_index_cast(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr') and n.get('castKind', 'NoOp') in ('IntegralCast', 'NoOp'):
            n = n['inner'][0]
        return n

    def index(self, b, idxnode, st, n, check=True):
        i = self.rv(self.strip_index_cast(idxnode), st)
        i = coerce(i, I)
        if isinstance(b, Ref) and b.root in st.objs and not b.steps:
            b = st.objs[b.root]
        if isinstance(b, Addr):
            raise Unsupported('index of address')
        if isinstance(b, BufPtr):
            i = b.off + i
            b = b.ref
        if z3.is_expr(b) and b.sort() == I and self.default_heap:
            return self.heapref(self.default_heap, b + i)
        if isinstance(b, Ref):
            if isinstance(b.T, TVec):
                if check and self.cur.bounds:
                    self.oblige(st, z3.And(0 <= i, i < self.veclen(b, st)), 'bounds', n, 'index-in-bounds')
                return Ref(b.root, b.steps + (('[]', i),), b.T.elem)
            if isinstance(b.T, TArr):
                if b.T.n is not None and check and self.cur.bounds:
                    self.oblige(st, z3.And(0 <= i, i < b.T.n), 'bounds', n, 'index-in-bounds')
                elif b.T.n is None and self.cur.bounds and getattr(self.cur, 'buflen', None):
                    L = self.buf_len(b, st)
                    if L is not None:
                        self.oblige(st, z3.And(0 <= i, i < L), 'bounds', n, 'index-in-bounds')
                return Ref(b.root, b.steps + (('[]', i),), b.T.elem)
        if isinstance(b, Val) and isinstance(b.T, (TVec, TArr)):
            if isinstance(b.T, TArr) and b.T.n is not None and check and self.cur.bounds:
                self.oblige(st, z3.And(0 <= i, i < b.T.n), 'bounds', n, 'index-in-bounds')
            return subval(self.reg, b, '[]', i)
        raise Unsupported('index of %r' % (b,))

    def buf_len(self, b, st):
        bl = self.cur.buflen
        key = '.'.join([b.root] + [s if isinstance(s, str) else '[]' for s in b.steps])
        for pat, e in bl.items():
            if pat == key:
                r = self.spec.ev(e, st, {**self.specnames(st), **self.entrynames}, self.oldst)
                return st.read(r) if isinstance(r, Ref) else r
        return None

    def e_ArraySubscriptExpr(self, n, st):
        b = self.ev(n['inner'][0], st)
        return self.index(b, n['inner'][1], st, n)

    def e_ImplicitCastExpr(self, n, st):
        return self.cast(n, st)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    def cast(self, n, st):
        ck = n.get('castKind')
        sub = n['inner'][0]
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase',
                  'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BitCast', 'BaseToDerived'):
            v = self.ev(sub, st)
            if ck == 'ArrayToPointerDecay' and isinstance(v, Ref):
                return BufPtr(v, z3.IntVal(0))
            return v
        if ck == 'LValueToRValue':
            v = self.ev(sub, st)
            if isinstance(v, Ref):
                if isinstance(v.T, TOff):
                    return BufPtr(Ref(v.T.buf, (), self.globals[v.T.buf]), st.read(v))
                if isinstance(v.T, TArr) and v.T.n is None and '*' in tstr(n['type']):
                    return BufPtr(v, z3.IntVal(0))
                if isinstance(v.T, TArr) and '*' in tstr(n['type']):
                    return BufPtr(v, z3.IntVal(0))
                if isinstance(v.T, TRec) and '*' in tstr(n['type']):
                    return Addr(v)      # a pointer field modelled as the object it owns
                return st.read(v)
            return v
        if ck == 'ToVoid':
            self.ev(sub, st)
            return Opaque('void')
        if ck == 'NullToPointer':
            t = self.ntype(n)
            return z3.IntVal(0) if isinstance(t, TAddr) else NullPtr()
        v = self.rv(sub, st)
        t = self.ntype(n)
        if ck in ('IntegralCast', 'IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            if isinstance(t, TBool):
                return self.tobool(v)
            if isinstance(v, Special):
                return v
            ft = self.ntype(sub)
            return self.intcast(v, ft, t, st, n)
        if ck == 'IntegralToFloating':
            iv = coerce(v, I)
            try:
                big = self.ntype(sub).bits > 32
            except Exception:
                big = True
            if not big or z3.is_int_value(z3.simplify(iv)) and abs(z3.simplify(iv).as_long()) <= 1 << 53:
                return coerce(iv, z3.RealSort())
            # a wide integer is rounded: exact up to 2^53, unknown beyond
            r = z3.Function('dbl', I, z3.RealSort())(iv)
            st.assume(z3.Implies(z3.And(iv >= -(1 << 53), iv <= (1 << 53)), r == z3.ToReal(iv)))
            st.assume(z3.Implies(iv > (1 << 53), r >= (1 << 53)))
            st.assume(z3.Implies(iv < -(1 << 53), r <= -(1 << 53)))
            return r
        if ck == 'FloatingToIntegral':
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck == 'FloatingCast':
            return v
        if ck == 'PointerToIntegral' or ck == 'IntegralToPointer':
            raise Unsupported('pointer/integer cast')
        raise Unsupported('cast ' + str(ck))

    def intcast(self, v, ft, t, st, n=None):
        if isinstance(t, TBV):
            return coerce(v, z3.BitVecSort(t.bits))
        if isinstance(ft, TBV):
            return coerce(v, I)
        v = coerce(v, I)
        if not isinstance(t, TInt):
            return v
        if isinstance(ft, TBool):
            return v
        if isinstance(ft, TInt):
            if ft.lo() >= t.lo() and ft.hi() <= t.hi():
                return v
            if z3.is_int_value(v):
                x = v.as_long()
                m = 1 << t.bits
                x %= m
                if t.signed and x >= m // 2:
                    x -= m
                return z3.IntVal(x)
            if self.bits and v.decl().name() in BITNAMES and t.bits < ft.bits:
                self.oblige(st, z3.And(v >= t.lo(), v <= t.hi()), 'overflow', n, 'mask-fits')
                return v
            if self.cur.overflow and ft.bits > t.bits:
                self.oblige(st, z3.And(v >= t.lo(), v <= t.hi()), 'overflow', n, 'narrowing-cast-in-range')
                return v
            if not t.signed and t.bits >= ft.bits:
                # signed -> wide unsigned: exact wrap of negatives
                if nonneg(v):
                    return v
                return z3.If(v >= 0, v, v + (1 << t.bits))
            if t.signed and not ft.signed and t.bits == ft.bits or t.bits < ft.bits:
                if not self.cur.overflow and (t.bits >= 32):
                    self.assumed.add('values cast to a narrower/signed %d-bit type fit it (sizes < 2^31)' % t.bits)
                    return v
                m = 1 << t.bits
                r = v % m
                return z3.If(r >= m // 2, r - m, r) if t.signed else r
        return v

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get('name') == 'sizeof' and 'argType' in n:
            t = self.ptype(tstr(n['argType']))
            if isinstance(t, TInt):
                return z3.IntVal(t.bits // 8)
        raise Unsupported('sizeof')

    def e_CXXNoexceptExpr(self, n, st):
        return z3.BoolVal(bool(n.get('value')))

    def e_TypeTraitExpr(self, n, st):
        return z3.BoolVal(bool(n.get('value')))

    # -- operators
    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        l, r = n['inner']
        if op == ',':
            self.ev(l, st)
            return self.ev(r, st)
        if op in ('&&', '||'):
            a = self.cond(l, st)
            g = a if op == '&&' else z3.Not(a)
            sg = z3.simplify(g)
            if z3.is_false(sg):
                return z3.BoolVal(op == '||')
            b = self.guarded(st, g, lambda s: self.cond(r, s))
            return z3.And(a, b) if op == '&&' else z3.Or(a, b)
        if op == '=':
            rhs = self.ev(r, st)
            lhs = self.ev(l, st)
            if isinstance(rhs, Ref):
                rhs = st.read(rhs)
            return self.assign(lhs, rhs, st, n)
        a = self.ev(l, st)
        b = self.ev(r, st)
        return self.binary(op, a, b, n, st)

    def assign(self, lhs, rhs, st, n):
        if isinstance(lhs, PyObj) and lhs.kind == 'unmodelled':
            return lhs
        if not isinstance(lhs, Ref):
            raise Unsupported('assignment to %r' % (lhs,))
        if isinstance(rhs, Special):
            if isinstance(rhs, NullPtr) and isinstance(lhs.T, TAddr):
                rhs = z3.IntVal(0)
            elif isinstance(rhs, Addr) and isinstance(lhs.T, TAddr):
                rhs = self.addr_of_heap(rhs)
            elif isinstance(lhs.T, TArr) and lhs.T.n is None:
                if isinstance(rhs, NullPtr):
                    return lhs
                if isinstance(rhs, NewBuf):
                    self.write_new(lhs, rhs, st, n)
                    return lhs
                raise Unsupported('re-seating a buffer member')
            else:
                if st.rec is not None:
                    st.rec.append((('obj', lhs.root), ()))
                if lhs.steps:
                    raise Unsupported('storing pointer')
                st.objs[lhs.root] = rhs
                for k in [k for k in st.mem if k[0] == lhs.root]:
                    del st.mem[k]
                return lhs
        st.write(lhs, self.conv(rhs, lhs.T))
        return lhs

    def addr_of_heap(self, a):
        r = a.ref
        if r.root.startswith('HEAP_') and len(r.steps) == 1:
            return r.steps[0][1]
        raise Unsupported('address of non-heap object')

    def guarded(self, st, g, fn):
        before = dict(st.mem)
        bobjs = dict(st.objs)
        st.guards.append(g)
        v = fn(st)
        st.guards.pop()
        for k, t in st.mem.items():
            o = before.get(k)
            if o is not None and not o.eq(t):
                st.mem[k] = z3.If(g, t, o)
        for k, t in list(st.objs.items()):
            o = bobjs.get(k)
            if o is not None and o is not t:
                m = merge_obj([t, o], [g, z3.Not(g)])
                if m is None:
                    raise Unsupported('conditional pointer update')
                st.objs[k] = m
        return v

    def binary(self, op, a, b, n, st):
        if isinstance(a, Ref) and not (isinstance(a.T, TArr) and a.T.n is None):
            a = st.read(a)
        if isinstance(b, Ref) and not (isinstance(b.T, TArr) and b.T.n is None):
            b = st.read(b)
        # pointers
        if isinstance(a, (BufPtr,)) and op in ('+', '-') and z3.is_expr(b):
            return BufPtr(a.ref, a.off + b if op == '+' else a.off - b)
        if isinstance(a, BufPtr) and isinstance(b, BufPtr):
            if repr(a.ref) != repr(b.ref):
                raise Unsupported('comparison of pointers into different buffers')
            return self.cmpop(op, a.off, b.off) if op != '-' else a.off - b.off
        if isinstance(a, VecIter) and isinstance(b, VecIter):
            return self.cmpop(op, a.idx, b.idx) if op != '-' else a.idx - b.idx
        if isinstance(a, NullPtr) and isinstance(b, NullPtr):
            return z3.BoolVal(op == '==')
        if isinstance(a, NullPtr):
            a, b = b, a
        if isinstance(b, NullPtr):
            if z3.is_expr(a):
                return a == 0 if op == '==' else a != 0
            if isinstance(a, (Addr, BufPtr)):
                return z3.BoolVal(op == '!=')
        if isinstance(a, Addr) and isinstance(b, Addr) and op in ('==', '!='):
            ra, rb = a.ref, b.ref
            if ra.root != rb.root or ra.marker() != rb.marker():
                eq = z3.BoolVal(False)
            else:
                eq = z3.And(*([x == y for x, y in zip(ra.idx(), rb.idx())] or [z3.BoolVal(True)]))
            return eq if op == '==' else z3.Not(eq)
        if isinstance(a, Addr) and z3.is_expr(b):
            a = self.addr_of_heap(a)
        if isinstance(b, Addr) and z3.is_expr(a):
            b = self.addr_of_heap(b)
        if isinstance(a, (Special, Val)) or isinstance(b, (Special, Val)):
            raise Unsupported('operator %s on %r, %r' % (op, a, b))
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.cmpop(op, a, b)
        try:
            t = self.ntype(n)
        except Unsupported:
            t = TInt(64, True)
        return self.arith(op, a, b, t, st, n)

    def cmpop(self, op, a, b):
        a, b = unify(a, b)
        if a.sort() == B and op in ('<', '>', '<=', '>='):
            a, b = coerce(a, I), coerce(b, I)
        bv = isinstance(a.sort(), z3.BitVecSortRef)
        return {'==': lambda: a == b, '!=': lambda: a != b,
                '<': lambda: z3.ULT(a, b) if bv else a < b, '>': lambda: z3.UGT(a, b) if bv else a > b,
                '<=': lambda: z3.ULE(a, b) if bv else a <= b, '>=': lambda: z3.UGE(a, b) if bv else a >= b}[op]()

    def arith(self, op, a, b, t, st, n):
        if isinstance(t, TReal):
            a, b = coerce(a, z3.RealSort()), coerce(b, z3.RealSort())
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                return a / b
            raise Unsupported('float op ' + op)
        if isinstance(t, TAddr):
            return (coerce(a, I) + coerce(b, I)) if op == '+' else coerce(a, I) - coerce(b, I)
        bits = t.bits if isinstance(t, (TInt, TBV)) else 32
        signed = getattr(t, 'signed', False)
        if isinstance(t, TBV):
            a, b = coerce(a, z3.BitVecSort(bits)), coerce(b, z3.BitVecSort(bits))
            return self.bvop(op, a, b)
        if op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(op, a, b, bits, signed, st, n)
        a, b = coerce(a, I), coerce(b, I)
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif op in ('/', '%'):
            if self.cur.bounds:
                self.oblige(st, b != 0, 'div', n, 'divisor-non-zero')
            if not signed or (nonneg(a) and nonneg(b)):
                return a / b if op == '/' else a % b
            q = tdiv(a, b)
            return q if op == '/' else a - b * q
        else:
            raise Unsupported('int op ' + op)
        if not signed:
            if op == '-':
                if z3.is_int_value(a) and z3.is_int_value(b):
                    return z3.IntVal((a.as_long() - b.as_long()) % (1 << bits))
                return z3.If(a >= b, r, r + (1 << bits))
            if self.cur.overflow:
                self.oblige(st, z3.And(r >= 0, r < (1 << bits)), 'overflow', n, 'unsigned-%s-no-wrap' % op)
            else:
                self.assumed.add('unsigned + and * do not wrap (container sizes < 2^62)')
        elif self.cur.overflow:
            self.oblige(st, z3.And(r >= -(1 << (bits - 1)), r < (1 << (bits - 1))), 'overflow', n, 'signed-%s-no-overflow' % op)
        else:
            self.assumed.add('signed int arithmetic treated as mathematical (no overflow)')
        return r

    def bvop(self, op, a, b):
        return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b,
                '>>': lambda: z3.LShR(a, b), '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                '/': lambda: z3.UDiv(a, b), '%': lambda: z3.URem(a, b)}[op]()

    def bitop(self, op, a, b, bits, signed, st, n):
        if op in ('&', '|', '^'):
            ba, bb = as_bool(a), as_bool(b)
            if ba is not None and bb is not None:
                r = {'&': z3.And(ba, bb), '|': z3.Or(ba, bb), '^': z3.Xor(ba, bb)}[op]
                return z3.If(r, z3.IntVal(1), z3.IntVal(0))
        a, b = coerce(a, I), coerce(b, I)
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            return z3.IntVal({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op])
        if op == '<<' and z3.is_int_value(b):
            r = a * (1 << b.as_long())
            if self.cur.overflow:
                self.oblige(st, z3.And(a >= 0, r < (1 << (bits - (1 if signed else 0)))), 'overflow', n, 'shift-loses-no-bits')
            if self.bits:
                t = SHLC(a, b)
                st.assume(t == r)
                return t
            return r
        if op == '>>' and z3.is_int_value(b):
            w = as_bv(a, bits)
            if w is None or not is_bv2int(a):
                return a / (1 << b.as_long())
        if op == '&' and z3.is_int_value(b):
            m = b.as_long()
            if m >= 0 and (m & (m + 1)) == 0 and not is_bv2int(a) and not (self.bits and m == 255):
                return a % (m + 1)
        f = getattr(self, 'bitop_hook', None)
        if f:
            r = f(op, a, b, bits, signed, st, n)
            if r is not None:
                return r
        if op == '<<' and self.bits and z3.is_int_value(a) and a.as_long() == 1 and not is_bv2int(b):
            self.oblige(st, z3.And(0 <= b, b < bits - (1 if signed else 0)), 'overflow', n, 'shift-amount-in-range')
            return SHL1(b)
        if self.bits and op in ('&', '|', '^'):
            return BITF[op](a, b)
        A, Bv = as_bv(a, bits), as_bv(b, bits)
        if A is None or Bv is None:
            raise Unsupported('bit operation %s on general integers' % op)
        r = self.bvop(op, A, Bv)
        return z3.BV2Int(r, False)

    def e_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        l, r = n['inner']
        b = self.rv(r, st)
        lhs = self.ev(l, st)
        if isinstance(lhs, PyObj) and lhs.kind == 'unmodelled':
            return lhs
        a = st.read(lhs)
        if isinstance(a, BufPtr):
            st.objs[lhs.root] = BufPtr(a.ref, a.off + b if op == '+' else a.off - b)
            if st.rec is not None:
                st.rec.append((('obj', lhs.root), ()))
            return lhs
        ct = n.get('computeResultType')
        t = self.ptype(tstr(ct)) if ct else self.ntype(n)
        if isinstance(t, TInt) and isinstance(lhs.T, TBV):
            a = coerce(a, I)
        v = self.arith(op, a, b, t, st, n)
        if isinstance(lhs.T, TInt) and isinstance(t, TInt) and lhs.T != t:
            v = self.intcast(v, t, lhs.T, st, n)
        st.write(lhs, self.conv(v, lhs.T))
        return lhs

    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '*':
            v = self.ev(sub, st)
            if isinstance(v, Ref) and v.root in st.objs and not v.steps:
                v = st.objs[v.root]
            if isinstance(v, Addr):
                return v.ref
            if isinstance(v, BufPtr):
                return self.bufref(v, st, n)
            if isinstance(v, Ref) and isinstance(v.T, TAddr):
                v = st.read(v)
            if z3.is_expr(v):
                self.oblige(st, v != 0, 'null-deref', n, 'non-null')
                return self.heapref(self.default_heap, v)
            raise Unsupported('deref of %r' % (v,))
        if op == '&':
            v = self.ev(sub, st)
            if isinstance(v, Ref):
                if v.steps and not isinstance(v.steps[-1], str) and v.steps[-1][0] == '[]' and isinstance(
                        v.T, (TInt, TBV, TBool)):
                    return BufPtr(Ref(v.root, v.steps[:-1], TArr(v.T, None)), v.steps[-1][1])
                return Addr(v)
            raise Unsupported('address of %r' % (v,))
        if op in ('++', '--'):
            r = self.ev(sub, st)
            if isinstance(r, PyObj) and r.kind == 'unmodelled':
                return r
            old = st.read(r) if isinstance(r, Ref) else r
            post = n.get('isPostfix')
            if isinstance(old, (BufPtr, VecIter)):
                d = 1 if op == '++' else -1
                new = BufPtr(old.ref, old.off + d) if isinstance(old, BufPtr) else VecIter(old.ref, old.idx + d, old.rev)
                st.objs[r.root] = new
                if st.rec is not None:
                    st.rec.append((('obj', r.root), ()))
                return old if post else r
            if isinstance(r.T, TBV):
                new = old + 1 if op == '++' else old - 1
            elif isinstance(r.T, TReal):
                new = old + 1 if op == '++' else old - 1
            else:
                new = self.arith('+' if op == '++' else '-', old, z3.IntVal(1), r.T, st, n)
            st.write(r, new)
            return old if post else r
        if op == '!':
            return z3.Not(self.cond(sub, st))
        v = self.rv(sub, st)
        if op == '-':
            if v.sort() == z3.RealSort():
                return -v
            v = coerce(v, I)
            t = self.ntype(n)
            if isinstance(t, TInt) and not t.signed:
                return z3.If(v == 0, z3.IntVal(0), (1 << t.bits) - v)
            return z3.IntVal(-v.as_long()) if z3.is_int_value(v) else -v
        if op == '+':
            return v
        if op == '~':
            t = self.ntype(n)
            if isinstance(v.sort(), z3.BitVecSortRef):
                return ~v
            if isinstance(t, TInt) and not t.signed:
                return (1 << t.bits) - 1 - v
            if self.bits and not z3.is_int_value(v):
                return NOTF(v)
            return z3.IntVal(-1 - v.as_long()) if z3.is_int_value(v) else -1 - v
        raise Unsupported('unary ' + op)

    def bufref(self, p, st, n):
        if isinstance(p.ref.T, TVec) and self.cur.bounds:
            self.oblige(st, z3.And(0 <= p.off, p.off < self.veclen(p.ref, st)), 'bounds', n, 'pointer-in-bounds')
        if isinstance(p.ref.T, TArr) and p.ref.T.n is not None and self.cur.bounds:
            self.oblige(st, z3.And(0 <= p.off, p.off < p.ref.T.n), 'bounds', n, 'pointer-in-bounds')
        elif isinstance(p.ref.T, TArr) and self.cur.bounds and getattr(self.cur, 'buflen', None):
            L = self.buf_len(p.ref, st)
            if L is not None:
                self.oblige(st, z3.And(0 <= p.off, p.off < L), 'bounds', n, 'pointer-in-bounds')
        return Ref(p.ref.root, p.ref.steps + (('[]', p.off),), p.ref.T.elem)

    def e_ConditionalOperator(self, n, st):
        c, a, b = n['inner']
        cv = self.cond(c, st)
        cs = z3.simplify(cv)
        if z3.is_true(cs):
            return self.ev(a, st)
        if z3.is_false(cs):
            return self.ev(b, st)
        va = self.guarded(st, cv, lambda s: self.ev(a, s))
        vb = self.guarded(st, z3.Not(cv), lambda s: self.ev(b, s))
        if isinstance(va, Ref):
            va = st.read(va)
        if isinstance(vb, Ref):
            vb = st.read(vb)
        return self.ite(cv, va, vb)

    def ite(self, c, va, vb):
        if isinstance(va, Val):
            return Val(va.T, {k: z3.If(c, va.d[k], vb.d[k]) for k in va.d})
        if isinstance(va, Special) or isinstance(vb, Special):
            m = merge_obj([va, vb], [c, z3.Not(c)])
            if m is None:
                raise Unsupported('conditional of %r' % (va,))
            return m
        va, vb = unify(va, vb)
        return z3.If(c, va, vb)

    def e_InitListExpr(self, n, st):
        t = self.ntype(n)
        elems = [x for x in n.get('inner', n.get('array_filler', []))]
        if isinstance(t, TArr):
            vals = [self.rv(x, st) for x in n.get('inner', []) if x['kind'] != 'ImplicitValueInitExpr' or True]
            if 'array_filler' in n:
                vals = [self.rv(x, st) for x in n['array_filler'][1:]]
            d = {}
            for p, s in self.reg.leaves(t):
                arr = zero_of(s)
                for i, v in enumerate(vals):
                    pv = v.d[p[1:]] if isinstance(v, Val) else v
                    arr = z3.Store(arr, i, coerce(pv, s.range()))
                d[p] = arr
            return Val(t, d)
        if isinstance(t, TRec):
            d = self.default(t, st).d
            for (f, ft), x in zip(self.reg.fields(t.name), n.get('inner', [])):
                v = self.conv(self.rv(x, st), ft)
                if isinstance(v, Val):
                    for p, q in v.d.items():
                        d[(f,) + p] = q
                else:
                    d[(f,)] = v
            return Val(t, d)
        if isinstance(t, TPair):
            a, b = [self.rv(x, st) for x in n['inner']]
            return self.mkpair(t, a, b)
        inner = n.get('inner', [])
        if not inner:
            return self.default(t, st)
        if len(inner) == 1:
            return self.rv(inner[0], st)
        raise Unsupported('init list of %r' % t)

    def mkpair(self, t, a, b):
        d = {}
        for f, v, ft in (('first', a, t.a), ('second', b, t.b)):
            v = self.conv(v, ft)
            if isinstance(v, Val):
                for p, q in v.d.items():
                    d[(f,) + p] = q
            else:
                d[(f,)] = v
        return Val(t, d)

    def e_CXXStdInitializerListExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def e_LambdaExpr(self, n, st):
        return Lambda(n, dict(st.env))

    def e_CXXThrowExpr(self, n, st):
        s = st.copy()
        self.throws.append(s)
        st.dead_if_unguarded = True
        if not st.guards:
            st.dead = True
        else:
            st.pc.append((z3.Not(z3.And(*st.guards)), True))
        return Opaque('throw')

    def e_CXXNewExpr(self, n, st):
        if not n.get('isArray'):
            raise Unsupported('new')
        ins = [x for x in n.get('inner', []) if 'kind' in x]
        t = self.ptype(re.sub(r'\*\s*$', '', tstr(n['type'])))
        ln = coerce(self.rv(ins[0], st), I)
        zero = len(ins) > 1 and ins[1]['kind'] in ('InitListExpr', 'ImplicitValueInitExpr', 'ParenListExpr')
        if zero and ins[1]['kind'] == 'InitListExpr' and any(x.get('kind') != 'ImplicitValueInitExpr' for x in ins[1].get('inner', [])):
            raise Unsupported('new with an element list')
        return NewBuf(t, ln, zero)

    def write_new(self, r, v, st, n):
        L = self.buf_len(r, st)
        if L is not None:
            self.oblige(st, v.n >= L, 'bounds', n, 'allocation-covers-the-buffer')
        for p, srt in self.reg.leaves(r.T):
            a = z3.K(I, zero_of(srt.range())) if v.zero else fresh('new', srt)
            st.write(r, Val(r.T, {p: a})) if len(self.reg.leaves(r.T)) == 1 else None
        if len(self.reg.leaves(r.T)) != 1:
            raise Unsupported('new of a record array')

    def e_CXXDeleteExpr(self, n, st):
        return Opaque('delete')

    # -- construction
    def e_CXXConstructExpr(self, n, st):
        return self.construct(n, st)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, n, st):
        ts = tstr(n['type'])
        args = [a for a in n.get('inner', []) if a['kind'] != 'CXXDefaultArgExpr']
        try:
            t = self.ptype(ts)
        except Unsupported:
            t = None
        if len(args) == 1:
            ct = n.get('ctorType', {}).get('qualType', '')
            v0 = None
            a0t = tstr(args[0]['type'])
            same = strip_targs(a0t.replace('const ', '').rstrip('& ')).split('::')[-1] == \
                strip_targs(ts.replace('const ', '').rstrip('& ')).split('::')[-1]
            if same or t is None:
                v = self.ev(args[0], st)
                if isinstance(v, Ref):
                    v = st.read(v)
                if isinstance(v, MapEntry):
                    v = self.entry_val(v, st)
                return v
        if t is None:
            raise Unsupported('construct ' + ts)
        return self.construct_T(t, args, n, st)

    def construct_T(self, t, args, n, st):
        if isinstance(t, TVec):
            if not args:
                return self.default(t, st)
            vs = [self.ev(a, st) for a in args]
            vs = [st.read(v) if isinstance(v, Ref) and not isinstance(v.T, (TVec,)) else v for v in vs]
            if len(vs) == 1 and isinstance(vs[0], Ref):
                return st.read(vs[0])
            if len(vs) == 1 and isinstance(vs[0], Val) and isinstance(vs[0].T, TVec):
                return vs[0]
            if len(vs) == 1 and isinstance(vs[0], Val) and isinstance(vs[0].T, TArr):
                d = dict(vs[0].d)
                d[('#',)] = z3.IntVal(vs[0].T.n)
                return Val(t, d)
            if len(vs) >= 2 and isinstance(vs[0], VecIter):
                return self.vec_from_range(t, vs[0], vs[1], st)
            if len(vs) == 2 and isinstance(vs[0], MapIter):
                return self.vec_from_set(t, vs[0], vs[1], st)
            nlen = coerce(vs[0], I)
            fill = None
            if len(vs) >= 2:
                fill = vs[1]
                if isinstance(fill, Ref):
                    fill = st.read(fill)
                fill = self.conv(fill, t.elem)
            else:
                fill = self.default(t.elem, st)
            return self.vec_filled(t, nlen, fill)
        if isinstance(t, (TMap, TSet)):
            if not args:
                return self.default(t, st)
            raise Unsupported('map ctor')
        if isinstance(t, TPair):
            if not args:
                return self.default(t, st)
            vs = []
            for a in args:
                v = self.ev(a, st)
                vs.append(st.read(v) if isinstance(v, Ref) else v)
            if len(vs) == 1 and isinstance(vs[0], Val):
                return Val(t, vs[0].d)
            return self.mkpair(t, *vs)
        if isinstance(t, TOpaque):
            for a in args:
                self.ev(a, st)
            return fresh('opq', opaque_sort(t.name))
        if isinstance(t, TRec):
            root = 'tmp%d' % next(self.uid)
            st.rootT[root] = t
            r = Ref(root, (), t)
            for p, s in self.reg.leaves(t):
                st.mem[(root, p)] = fresh('uninit', s)
            self.construct_at(n, r, st, args)
            v = st.read(r)
            for p, s in self.reg.leaves(t):
                st.mem.pop((root, p), None)
            return v
        if isinstance(t, (TInt, TBool, TReal, TBV)):
            return self.conv(self.rv(args[0], st), t) if args else self.default(t, st)
        raise Unsupported('construct %r' % t)

    def vec_filled(self, t, nlen, fill):
        d = {('#',): nlen}
        for p, s in self.reg.leaves(t):
            if p == ('#',):
                continue
            x = fill.d[p[1:]] if isinstance(fill, Val) else fill
            d[p] = z3.K(I, coerce(x, s.range()))
        return Val(t, d)

    def vec_from_set(self, t, a, b, st):
        """the keys of a std::set in order"""
        if not (getattr(a, 'begin', False) and isinstance(b, MapIter) and z3.is_true(b.isend) and repr(a.ref) == repr(b.ref) and isinstance(t.elem, TInt)):
            raise Unsupported('range of set iterators')
        dom = self.mapdomarr(a.ref, st)
        ln, arr, pos = fresh('setsz', I), fresh('setseq', z3.ArraySort(I, I)), fresh('setpos', z3.ArraySort(I, I))
        i, j, q = (z3.Const('%s!%d' % (x, next(_fresh)), I) for x in ('si', 'sj', 'sq'))
        st.assume(ln >= 0)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), dom[arr[i]]), patterns=[arr[i]]))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < ln), arr[i] < arr[j]), patterns=[z3.MultiPattern(arr[i], arr[j])]))
        st.assume(z3.ForAll([q], z3.Implies(dom[q], z3.And(0 <= pos[q], pos[q] < ln, arr[pos[q]] == q)), patterns=[dom[q]]))
        return Val(t, {('#',): ln, ('[]',): arr})

    def vec_from_range(self, t, a, b, st):
        src = st.read(a.ref)
        ln = b.idx - a.idx
        d = {('#',): ln}
        i = z3.Const('cp!%d' % next(_fresh), I)
        for p, s in self.reg.leaves(t):
            if p == ('#',):
                continue
            arr = fresh('cpy', s)
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ln), arr[i] == src.d[p][a.idx + i]),
                                patterns=[arr[i]]))
            d[p] = arr
        return Val(t, d)

    def find_ctor(self, cls, n, nargs):
        ct = n.get('ctorType', {}).get('qualType', '') if n else ''
        cands = [f for f in self.P.byname.get(cls + '::' + cls, []) if f.node['kind'] == 'CXXConstructorDecl']
        ex = [f for f in cands if f.type.replace(' noexcept', '') == ct.replace(' noexcept', '')]
        if ex:
            return ex[0]
        ex = [f for f in cands if len(f.params) == nargs and f.body is not None]
        return ex[0] if len(ex) == 1 else None

    def construct_at(self, n, r, st, args=None):
        cls = strip_targs(tstr(n['type'])).split('::')[-1].strip()
        if cls in self.P.split:
            cls = self.ptype(tstr(n['type'])).name
        cls = self.rec_alias.get(cls, cls)
        if args is None:
            args = [a for a in n.get('inner', [])]
        f = self.find_ctor(cls, n, len(args))
        if f is None or (f.body is None and not f.inits):
            if not args:
                if f is None or f.node.get('isImplicit') or f.node.get('explicitlyDefaulted'):
                    v = self.default(TRec(cls), st)
                    st.write(Ref(r.root, r.steps, TRec(cls)) if r.T.name != cls else r, v)
                    return
            if len(args) == 1:
                v = self.ev(args[0], st)
                if isinstance(v, Ref):
                    v = st.read(v)
                if isinstance(v, Val) and v.T == r.T:
                    st.write(r, v)
                    return
            if cls in self.skip_calls:
                return
            raise Unsupported('constructor of ' + cls)
        self.call_func(f, r, args, st, n)

    # -- calls
    def e_CallExpr(self, n, st):
        callee = unwrap_casts(n['inner'][0])
        args = n['inner'][1:]
        if callee['kind'] == 'DeclRefExpr':
            d = callee['referencedDecl']
            name = d.get('name')
            f = self.P.funcs.get(d['id'])
            key = None
            if f is not None:
                key = f.qname
            if name in self.builtins:
                return self.builtins[name](self, n, args, st)
            if f is not None and self.contract_for(f) is not None:
                return self.call_func(f, None, args, st, n)
            b = getattr(self, 'b_' + str(name), None)
            if b is not None:
                return b(n, args, st)
            if f is not None and f.body is not None:
                return self.call_func(f, None, args, st, n)
            if name in self.skip_calls:
                return Opaque(name)
            raise Unsupported('call to ' + str(name))
        if callee['kind'] == 'MemberExpr':      # static member function called through an object
            f = self.P.funcs.get(callee.get('referencedMemberDecl'))
            if f is not None:
                return self.call_func(f, None, args, st, n)
        raise Unsupported('indirect call')

    def this_used(self, f, seen):
        """fields of *this named in the function or in member functions it calls on *this"""
        out = set()
        if f.id in seen:
            return out
        seen.add(f.id)

        def strip(n):
            while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and n.get('inner'):
                n = n['inner'][0]
            return n

        def w(n):
            if n.get('kind') == 'MemberExpr' and strip((n.get('inner') or [{}])[0]).get('kind') == 'CXXThisExpr':
                g = self.P.funcs.get(n.get('referencedMemberDecl'))
                if g is not None:
                    if g.body is None:
                        out.add(g.name + '()')
                    else:
                        out.update(self.this_used(g, seen))
                else:
                    out.add(n.get('name', '?'))
                return
            if n.get('kind') == 'CXXThisExpr':
                out.add('*this')
            for c in n.get('inner', []):
                w(c)
        w(f.body)
        return out

    def contract_for(self, f):
        c = self.C.get(f.sig()) or self.C.get('%s#%d' % (f.qname, len(f.params))) or self.C.get(f.qname)
        if c is None and f.targs:
            c = next((x for k, x in self.C.items() if k.startswith(f.qname + '<') and k[len(f.qname) + 1:-1] in f.targs), None)
        if c is not None and c.inline:
            return None
        return c

    def e_CXXMemberCallExpr(self, n, st):
        m = n['inner'][0]
        args = n['inner'][1:]
        while m['kind'] in WRAPPERS or m['kind'] == 'ImplicitCastExpr':
            m = m['inner'][0]
        if m['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + m['kind'])
        name = m.get('name')
        base = m['inner'][0]
        f = self.P.funcs.get(m.get('referencedMemberDecl'))
        if name in self.skip_calls:
            return Opaque(name)
        b = self.ev(base, st)
        if isinstance(b, Ref) and b.root in st.objs and not b.steps:
            b = st.objs[b.root]
        if isinstance(b, Addr):
            b = b.ref
        elif m.get('isArrow') and isinstance(b, Ref) and isinstance(b.T, TAddr):
            b = st.read(b)
        if z3.is_expr(b) and b.sort() == I and m.get('isArrow'):
            cls = f.cls if f is not None else self.default_heap
            self.oblige(st, b != 0, 'null-deref', n, 'non-null:' + str(name))
            b = self.heapref(self.default_heap if cls not in self.heap else cls, b)
        if f is not None and name in self.builtins:
            return self.builtins[name](self, n, args, st, b)
        if f is not None:
            # virtual/base redirection
            if f.body is None and isinstance(b, Ref) and isinstance(b.T, TRec):
                alt = [g for g in self.P.byname.get(b.T.name + '::' + name, []) if g.body is not None and
                       len(g.params) == len(f.params)]
                if alt:
                    f = alt[0]
            return self.call_func(f, b, args, st, n)
        if name in self.builtins:
            return self.builtins[name](self, n, args, st, b)
        if isinstance(b, Ref) and isinstance(b.T, TRec):
            # the class was read in another pass over the same file (one per filter): its only method of that name and arity
            alt = [g for g in self.P.byname.get(b.T.name + '::' + name, []) if g.body is not None and len(g.params) == len(args)]
            if len(alt) == 1:
                return self.call_func(alt[0], b, args, st, n)
        return self.stl_method(b, name, args, n, st)

    def e_CXXOperatorCallExpr(self, n, st):
        callee = unwrap_casts(n['inner'][0])
        args = n['inner'][1:]
        d = callee.get('referencedDecl', {})
        name = d.get('name', '')
        f = self.P.funcs.get(d.get('id'))
        if f is not None and (f.body is not None or self.contract_for(f) is not None):
            if f.cls:
                b = self.ev(args[0], st)
                if isinstance(b, Ref) and b.root in st.objs and not b.steps:
                    b = st.objs[b.root]
                if isinstance(b, Lambda):
                    return self.call_lambda(b, args[1:], st)
                if isinstance(b, Val):
                    root = 'tmp%d' % next(self.uid)
                    st.rootT[root] = b.T
                    r = Ref(root, (), b.T)
                    st.write(r, b)
                    b = r
                return self.call_func(f, b, args[1:], st, n)
            return self.call_func(f, None, args, st, n)
        a = self.ev(args[0], st)
        if isinstance(a, Ref) and a.root in st.objs and not a.steps and name not in ('operator=', 'operator++', 'operator--',
                                                                                   'operator+='):
            a = st.objs[a.root]
        if isinstance(a, Lambda) and name == 'operator()':
            return self.call_lambda(a, args[1:], st)
        if isinstance(a, Ref) and isinstance(a.T, TOpaque) and a.T.name == 'uniform_int_distribution' and name == 'operator()' and len(args) == 3:
            p = args[2]
            while p['kind'] not in ('CXXTemporaryObjectExpr', 'CXXConstructExpr') or len([x for x in p.get('inner', []) if 'kind' in x]) == 1:
                if len(p.get('inner', [])) != 1:
                    raise Unsupported('parameters of a distribution')
                p = p['inner'][0]
            lo, hi = [coerce(self.rv(x, st), I) for x in p['inner'][:2]]
            self.oblige(st, lo <= hi, 'requires', n, 'requires(uniform_int_distribution):range-not-empty')
            self.assumed.add('std::uniform_int_distribution returns a value of its range')
            r = fresh('drawn', I)
            st.assume(z3.Implies(lo <= hi, z3.And(lo <= r, r <= hi)))
            return r
        if isinstance(a, PyObj) and a.kind == 'unmodelled' and name == 'operator()' and len(args) == 1 and isinstance(self.ntype(n), TInt):
            t = self.ntype(n)       # calling an unmodelled generator: any value of the type
            r = fresh('anyval', I)
            st.assume(z3.And(t.lo() <= r, r <= t.hi()))
            return r
        if name == 'operator<<' and isinstance(a, Opaque) and a.what == 'ostream':
            return a         # text written to a stream is not modelled
        if name == 'operator[]':
            if isinstance(a, Ref) and isinstance(a.T, TMap):
                k = coerce(self.rv(args[1], st), self.reg.leaves(a.T.key)[0][1])
                if not isinstance(k, z3.ExprRef):
                    raise Unsupported('map key')
                inn = self.mapdom(a, st, k)
                r = Ref(a.root, a.steps + (('{}', k),), a.T.val)
                cur = st.read(r)
                dv = self.default(a.T.val, st)
                new = self.ite(inn, cur, dv)
                st.write(r, new)
                self.setdom(a, st, k, True)
                return r
            if isinstance(a, (Ref, BufPtr, Val)):
                return self.index(a, args[1], st, n)
            if isinstance(a, VecIter):
                i = coerce(self.rv(args[1], st), I)
                return Ref(a.ref.root, a.ref.steps + (('[]', a.idx + i),), a.ref.T.elem)
        if name == 'operator*' and len(args) == 1:
            if isinstance(a, MapIter):
                return self.deref_mapiter(a, st, n)
            if isinstance(a, VecIter):
                if self.cur.bounds and not isinstance(a.ref.T, TArr):
                    self.oblige(st, z3.And(0 <= a.idx, a.idx < self.veclen(a.ref, st)), 'bounds', n, 'iterator-in-bounds')
                return Ref(a.ref.root, a.ref.steps + (('[]', a.idx),), a.ref.T.elem)
        if name == 'operator->':
            if isinstance(a, (MapIter,)):
                return self.deref_mapiter(a, st, n)
            if isinstance(a, VecIter):
                return Addr(Ref(a.ref.root, a.ref.steps + (('[]', a.idx),), a.ref.T.elem))
            return a
        if name in ('operator==', 'operator!='):
            b = self.ev(args[1], st)
            if isinstance(b, Ref) and b.root in st.objs and not b.steps:
                b = st.objs[b.root]
            if isinstance(a, MapIter) and isinstance(b, MapIter):
                eq = z3.Or(z3.And(a.isend, b.isend), z3.And(z3.Not(a.isend), z3.Not(b.isend), a.key == b.key))
                return eq if name == 'operator==' else z3.Not(eq)
            if isinstance(a, VecIter) and isinstance(b, VecIter):
                return a.idx == b.idx if name == 'operator==' else a.idx != b.idx
            if isinstance(a, Ref):
                a = st.read(a)
            if isinstance(b, Ref):
                b = st.read(b)
            eq = val_eq(self.reg, a, b)
            return eq if name == 'operator==' else z3.Not(eq)
        if name in ('operator<', 'operator>', 'operator<=', 'operator>='):
            b = self.ev(args[1], st)
            if isinstance(b, Ref) and b.root in st.objs and not b.steps:
                b = st.objs[b.root]
            if isinstance(a, VecIter) and isinstance(b, VecIter):
                return self.cmpop(name[8:], a.idx, b.idx)
            a = st.read(a) if isinstance(a, Ref) else a
            b = st.read(b) if isinstance(b, Ref) else b
            if isinstance(a, Val) and isinstance(a.T, TPair) and isinstance(b, Val):
                return self.lex(name[8:], a, b)
        if name == 'operator+' and isinstance(a, VecIter):
            return VecIter(a.ref, a.idx + coerce(self.rv(args[1], st), I), a.rev)
        if name == 'operator-' and isinstance(a, VecIter):
            b = self.ev(args[1], st)
            if isinstance(b, Ref) and b.root in st.objs:
                b = st.objs[b.root]
            if isinstance(b, VecIter):
                return a.idx - b.idx
            b = st.read(b) if isinstance(b, Ref) else b
            return VecIter(a.ref, a.idx - coerce(b, I), a.rev)
        if name in ('operator++', 'operator--') and isinstance(a, Ref) and a.root in st.objs:
            ob = st.objs[a.root]
            if isinstance(ob, VecIter):
                d = 1 if name == 'operator++' else -1
                st.objs[a.root] = VecIter(ob.ref, ob.idx + d, ob.rev)
                if st.rec is not None:
                    st.rec.append((('obj', a.root), ()))
                return ob if len(args) == 2 else a
        if name == 'operator=':
            v = self.ev(args[1], st)
            if isinstance(v, Ref):
                v = st.read(v)
            return self.assign(a, v, st, n)
        raise Unsupported('operator call %s on %r' % (name, a))

    def lex(self, op, a, b):
        def parts(v):
            out = []
            for p in v.d:
                out.append(v.d[p])
            return out
        A, Bs = parts(a), parts(b)

        def lt(xs, ys):
            if not xs:
                return z3.BoolVal(False)
            return z3.Or(xs[0] < ys[0], z3.And(xs[0] == ys[0], lt(xs[1:], ys[1:])))
        if op == '<':
            return lt(A, Bs)
        if op == '>':
            return lt(Bs, A)
        if op == '<=':
            return z3.Not(lt(Bs, A))
        return z3.Not(lt(A, Bs))

    def call_lambda(self, lam, args, st):
        meth = None
        for c in lam.node.get('inner', []):
            if c.get('kind') == 'CXXRecordDecl':
                for d in c.get('inner', []):
                    if d.get('kind') == 'CXXMethodDecl' and d.get('name') == 'operator()':
                        meth = d
        body = [c for c in lam.node['inner'] if c.get('kind') == 'CompoundStmt']
        f = Func(meth, None, 'lambda', None)
        f.body = body[-1] if body else f.body
        return self.inline(f, st.env.get('this'), args, st, lam.node)

    def call_func(self, f, this, args, st, n):
        if f.name in self.skip_calls or f.qname in self.skip_calls:
            return Opaque(f.name)
        con = self.contract_for(f)
        if con is not None:
            return self.call_contract(f, con, this, args, st, n)
        if f.body is None:
            b = getattr(self, 'b_' + f.name, None)
            if b is not None:
                return b(n, args, st)
            if this is not None and not isinstance(this, Ref):
                return self.stl_method(this, f.name, args, n, st)
            if f.node.get('explicitlyDefaulted') and f.name == 'operator=':
                v = self.ev(args[0], st)
                return self.assign(this, st.read(v) if isinstance(v, Ref) else v, st, n)
            raise Unsupported('no body and no contract for ' + f.qname)
        return self.inline(f, this, args, st, n)

    def bind_args(self, f, args, st):
        """evaluate arguments -> list of (param, object) ; references stay Refs"""
        out = []
        for i, p in enumerate(f.params):
            ts = tstr(p['type'])
            if i < len(args):
                v = self.ev(args[i], st)
            else:
                dflt = [c for c in p.get('inner', []) if 'kind' in c and not c['kind'].endswith('Attr')]
                v = self.ev(dflt[0], st) if dflt else Opaque('noarg')
            if isinstance(v, Opaque) and v.what == 'defaultarg':
                dflt = [c for c in p.get('inner', []) if 'kind' in c and not c['kind'].endswith('Attr')]
                if not dflt:
                    raise Unsupported('default argument of ' + f.qname)
                v = self.ev(dflt[0], st)
            if not is_ref(ts):
                if isinstance(v, Ref):
                    v = st.read(v)
                try:
                    t = self.ptype(ts)
                except Unsupported:
                    t = None
                if t is not None and not isinstance(v, Special):
                    v = self.conv(v, t)
            out.append((p, v))
        return out

    def pathid(self, path):
        return self._pathids.setdefault(path, len(self._pathids))

    def inline(self, f, this, args, st, n):
        if len(self.callpath) > 12:
            raise Unsupported('recursion through ' + f.qname)
        bound = self.bind_args(f, args, st)
        site = (n or {}).get('id', '?')
        saved_env, saved_names = st.env, st.names
        self.inlined.add(f.qname)
        s0 = st.copy()
        s0.env = dict(st.env)
        s0.names = {k: v for k, v in st.names.items()}
        oldpath = self.callpath
        self.callpath = oldpath + (site,)
        oldfile = self.curfile
        c = self.C.get(f.sig()) or self.C.get('%s#%d' % (f.qname, len(f.params))) or self.C.get(f.qname)
        pushed = False
        if not hasattr(self, 'loopcon'):
            self.loopcon = []
        if c is not None and c.inline and c.loops:
            self.loopcon.append((c, {}))
            pushed = True
        try:
            if this is not None:
                s0.env['this'] = this
                s0.names['this'] = this if isinstance(this, Ref) else this
            for p, v in bound:
                ts = tstr(p['type'])
                pn = p.get('name', '_')
                if isinstance(v, Ref) or isinstance(v, Special):
                    if isinstance(v, Special) and not is_ref(ts):
                        root = '%s#%s@%d' % (pn, p['id'][-5:], self.pathid(self.callpath))
                        s0.objs[root] = v
                        try:
                            s0.rootT[root] = self.ptype(ts)
                        except Unsupported:
                            s0.rootT[root] = None
                        s0.env[p['id']] = Ref(root, (), s0.rootT[root])
                        s0.names[pn] = v
                    else:
                        s0.env[p['id']] = v
                        s0.names[pn] = v
                else:
                    t = v.T if isinstance(v, Val) else self.ptype(ts)
                    root = '%s#%s@%d' % (pn, p['id'][-5:], self.pathid(self.callpath))
                    s0.rootT[root] = t
                    r = Ref(root, (), t)
                    s0.write(r, v)
                    s0.env[p['id']] = r
                    s0.names[pn] = r
            base_n = len(s0.pc)
            oldfunc = getattr(self, 'curfunc', None)
            self.curfunc = f
            try:
                outs = self.run_body(f, s0)
            finally:
                self.curfunc = oldfunc
        finally:
            self.callpath = oldpath
            if pushed:
                self.loopcon.pop()
        rets = []
        for kd, s, p in outs:
            if kd in ('return', 'norm'):
                rets.append((s, p))
            elif kd == 'throw':
                self.throws.append(s)
            else:
                raise Unsupported('stray %s out of inlined %s' % (kd, f.qname))
        if not rets:
            st.dead = True
            return Opaque('noreturn')
        if len(rets) == 1:
            s, p = rets[0]
            self.become(st, s, saved_env, saved_names)
            return p if p is not None else Opaque('void')
        # several return paths
        ps = [p for _, p in rets]
        rootn = 'ret%d' % next(self.uid)
        if all(isinstance(p, Ref) for p in ps):
            r0 = ps[0]
            if all(p.root == r0.root and p.marker() == r0.marker() for p in ps):
                # carry the index terms through the merge
                k = len(r0.idx())
                for s, p in rets:
                    for j, ix in enumerate(p.idx()):
                        s.mem[(rootn, (str(j),))] = ix
                m = merge_states(base_n, [s for s, _ in rets])
                self.become(st, m, saved_env, saved_names)
                it = iter(range(k))
                steps = [x if isinstance(x, str) else (x[0], m.mem[(rootn, (str(next(it)),))]) for x in r0.steps]
                return Ref(r0.root, steps, r0.T)
            raise Unsupported('function returning different references')
        if any(isinstance(p, Special) for p in ps):
            if all(isinstance(p, Special) for p in ps) and all(type(p) is Opaque for p in ps):
                pv = None
            else:
                for s, p in rets:
                    s.objs[rootn] = p
                pv = 'obj'
        elif all(p is None for p in ps):
            pv = None
        else:
            pv = 'val'
            for s, p in rets:
                if isinstance(p, Val):
                    for q, t in p.d.items():
                        s.mem[(rootn, q)] = t
                else:
                    s.mem[(rootn, ())] = p
        m = merge_states(base_n, [s for s, _ in rets])
        self.become(st, m, saved_env, saved_names)
        if pv is None:
            return Opaque('void')
        if pv == 'obj':
            if rootn not in m.objs:
                raise Unsupported('merge of returned pointers')
            return m.objs[rootn]
        if isinstance(ps[0], Val):
            return Val(ps[0].T, {q: m.mem[(rootn, q)] for q in ps[0].d})
        return m.mem[(rootn, ())]

    def become(self, st, s, env, names):
        st.mem, st.objs, st.rootT, st.pc, st.guards, st.dead = s.mem, s.objs, s.rootT, s.pc, s.guards, s.dead
        st.env = env
        g = {k: v for k, v in s.names.items() if k.startswith('g_') or k.startswith('_k') or k.startswith('_done')}
        st.names = dict(names)
        for k, v in g.items():
            if k in names or k.startswith('g_'):
                st.names[k] = v

    # ------------------------------------------------------------ modular call
    def call_contract(self, f, con, this, args, st, n):
        self.used_contracts.add(con.tag or con.fn)
        bound = self.bind_args(f, args, st)
        names = {k: v for k, v in self.entrynames.items() if k in self.global_names}
        if this is not None:
            if isinstance(this, Val):
                root = 'tmp%d' % next(self.uid)
                st.rootT[root] = this.T
                r = Ref(root, (), this.T)
                st.write(r, this)
                this = r
            names['this'] = this
            if isinstance(this, Ref) and this.root.startswith('HEAP_'):
                names['this_addr'] = this.steps[0][1]
        cps = self.cparams(f, con)
        bufs = []
        for (p, v), pn in zip(bound, cps):
            if isinstance(v, Addr):
                v = v.ref
            ts = tstr(p['type'])
            if isinstance(v, BufPtr) and z3.is_int_value(z3.simplify(v.off)) and z3.simplify(v.off).as_long() == 0:
                v = v.ref
            if isinstance(v, Ref) and isinstance(v.T, TArr) and pn in con.buflen:
                bufs.append((pn, v))
            if is_ref(ts) and not isinstance(v, (Ref, Special)):
                # rvalue bound to const&: materialise
                t = v.T if isinstance(v, Val) else self.ptype(ts)
                root = 'tmp%d' % next(self.uid)
                st.rootT[root] = t
                r = Ref(root, (), t)
                st.write(r, self.conv(v, t))
                v = r
            names[pn] = v
        for pn, a in con.alias.items():
            if isinstance(a, tuple):
                src, g = a
                base = names[src]
                tr = names[pn]
                ok = isinstance(tr, Ref) and tr.root == base.root and tr.marker()[:-1] == base.marker() and \
                    not isinstance(tr.steps[-1], str)
                if not ok:
                    raise SpecMismatch('call of %s does not satisfy its aliasing contract' % f.qname)
                names[g] = tr.steps[-1][1]
        ga = getattr(self.cur, 'ghost_args', None) or {}
        for g, s in con.ghosts.items():
            if g in names:
                continue
            e = ga.get((con.fn, g), ga.get(g))
            if e is None:
                e = con.ghost_defaults.get(g) if hasattr(con, 'ghost_defaults') else None
            if e is None and not re.search(r'\b%s\b' % re.escape(g), ' '.join(x for _, x in list(con.requires) + list(con.ensures)) + ' ' + str(con.modifies)):
                continue     # a ghost local of the proof
            if e is None:
                raise SpecMismatch('no ghost argument %s for call of %s' % (g, f.qname))
            names[g] = self.spec.ev(e, st, {**self.specnames(st)}, self.oldst)
        # preconditions
        for i, (nm, e) in enumerate(con.requires):
            self.oblige(st, self.spec.formula(e, st, names, st), 'requires', n,
                        'requires(%s):%s' % (con.tag or con.fn, nm or short(e)))
        for pn, v in bufs:
            L = z3.IntVal(v.T.n) if v.T.n is not None else self.buf_len(v, st)
            if L is None:
                raise SpecMismatch('no length for the buffer passed as %s to %s' % (pn, f.qname))
            want = self.spec.ev(con.buflen[pn], st, names, st)
            want = st.read(want) if isinstance(want, Ref) else want
            self.oblige(st, L >= want, 'requires', n, 'requires(%s):buffer-%s-long-enough' % (con.tag or con.fn, pn))
        # recursion
        if con is self.cur:
            if con.variant:
                v0 = self.spec.ev(con.variant, self.oldst, dict(self.entrynames), self.oldst)
                v1 = self.spec.ev(con.variant, st, names, st)
                self.oblige(st, z3.And(v0 >= 0, v1 < v0), 'decreases', n, 'recursion-decreases')
            else:
                self.assumed.add('the recursion of %s ends' % f.qname)
        # aliasing obligations
        self.check_alias(con, names, st, n)
        pre = st.copy()
        mods = self.mod_refs(con.modifies, pre, names)
        for m in mods:
            self.havoc_mod(m, st)
        res = None
        rt = f.type.split('(')[0].strip()
        if con.returns_ref is not None:
            res = self.spec.ev(con.returns_ref, pre, names, pre)
            names['result'] = res
        elif f.node['kind'] == 'CXXConstructorDecl':
            res = Opaque('void')
        else:
            t = con.result_T or self.ptype(rt)
            if not isinstance(t, TVoid):
                if isinstance(t, TPtr):
                    raise Unsupported('contract function returning pointer')
                d = {p: fresh('res_' + f.name, s) for p, s in self.reg.leaves(t)}
                res = d[()] if list(d) == [()] else Val(t, d)
                for fct in st.typing_facts(t, res):
                    st.assume(fct)
                names['result'] = res
                if con.pure:
                    st.assume(res == self.spec.ev(con.pure, pre, names, pre))
            else:
                res = Opaque('void')
        for nm, e in con.ensures:
            st.assume(self.spec.formula(e, st, names, pre))
        if con.nothrow is False and con.throws is not None:
            pass
        return res

    def cparams(self, f, con):
        if con.params:
            return con.params
        return [p.get('name', '_p%d' % i) for i, p in enumerate(f.params)]

    def havoc_mod(self, m, st):
        idx = m.idx()
        keep = []
        for i in idx:
            if i.eq(ANY):
                break
            keep.append(i)
        mk = m.marker()
        for p, sort in self.reg.leaves(m.T):
            key = (m.root, mk + p)
            old = st.mem.get(key)
            if old is None:
                continue
            t = old
            for i in keep:
                t = select(t, i)
            v = fresh('c' + m.root + ''.join('.' + x for x in key[1]), t.sort())
            st.mem[key] = nested_store(old, keep, v)
            if st.rec is not None:
                st.rec.append((key, tuple(keep)))
            lt = self.leaf_type(st, key)
            if lt is not None:
                cur, doms = v, []
                while isinstance(cur.sort(), z3.ArraySortRef) and not (lt == 'dom' and cur.sort().range() == B):
                    x = z3.Const('ti!%d' % len(doms), cur.sort().domain())
                    doms.append(x)
                    cur = z3.Select(cur, x)
                fct = fin(cur) if lt == 'dom' else z3.And(cur >= 0, cur <= (1 << 62)) if lt == 'len' else \
                    z3.And(cur >= lt.lo(), cur <= lt.hi())
                st.assume(z3.ForAll(doms, fct, patterns=[cur]) if doms else fct)

    def check_alias(self, con, names, st, n):
        refs = [(k, v) for k, v in names.items() if isinstance(v, Ref) and k not in self.global_names and k != 'result']
        mods = self.mod_refs(con.modifies, st, names)
        aliased = set(con.alias)
        for i in range(len(refs)):
            for j in range(i + 1, len(refs)):
                (ka, a), (kb, b) = refs[i], refs[j]
                if a.root != b.root or ka in aliased or kb in aliased:
                    continue
                if con.this_fields is not None and 'this' in (ka, kb):
                    t, x = (a, b) if ka == 'this' else (b, a)
                    fld = x.steps[len(t.steps):len(t.steps) + 1]
                    if fld and isinstance(fld[0], str) and fld[0] not in con.this_fields:
                        continue
                if not any(m.root == a.root for m in mods):
                    continue
                diffs = []
                disjoint = False
                for x, y in zip(a.steps, b.steps):
                    if isinstance(x, str) != isinstance(y, str):
                        break
                    if isinstance(x, str):
                        if x != y:
                            disjoint = True
                            break
                    elif not x[1].eq(y[1]):
                        diffs.append(x[1] != y[1])
                if disjoint:
                    continue
                self.oblige(st, z3.Or(*diffs) if diffs else z3.BoolVal(False), 'alias', n,
                            'no-alias(%s):%s,%s' % (con.fn, ka, kb))

    # ------------------------------------------------------------ STL model (assumed contracts on the standard library)
    def stl_method(self, b, name, args, n, st):
        t = getattr(b, 'T', None)
        self.assumed.add('C++ standard library containers/algorithms behave per the standard')
        if isinstance(b, Val) and name in ('size', 'begin', 'end'):
            pass
        if isinstance(t, (TVec, TArr)) and not isinstance(b, Special):
            f = getattr(self, 'v_' + name, None)
            if f:
                return f(b, args, n, st)
        if isinstance(t, TPQ) and not isinstance(b, Special) and name not in ('empty', 'size'):
            f = getattr(self, 'q_' + name, None)
            if not f:
                raise Unsupported('method %s of a priority queue' % name)
            return f(b, args, n, st)
        if isinstance(t, (TMap, TSet)) and not isinstance(b, Special):
            f = getattr(self, 'm_' + name, None)
            if f:
                return f(b, args, n, st)
        if isinstance(b, PyObj) and b.kind == 'unmodelled':
            return PyObj('unmodelled', name=b.name + '.' + name, rec=b.rec)
        if isinstance(b, BufPtr) and name == 'get':
            return b
        if isinstance(t, TArr) and name == 'get':
            return BufPtr(b, z3.IntVal(0))
        raise Unsupported('method %s of %r' % (name, t or b))

    # vector
    def v_size(self, b, args, n, st):
        return self.veclen(b, st)

    v_length = v_size

    def v_empty(self, b, args, n, st):
        return self.veclen(b, st) == 0

    def v_reserve(self, b, args, n, st):
        self.rv(args[0], st)
        return Opaque()

    def v_shrink_to_fit(self, b, args, n, st):
        return Opaque()

    def v_push_back(self, b, args, n, st):
        v = self.ev(args[0], st)
        if isinstance(v, Ref):
            v = st.read(v)
        return self.push(b, v, st)

    def push(self, b, v, st):
        L = self.veclen(b, st)
        st.write(Ref(b.root, b.steps + (('[]', L),), b.T.elem), self.conv(v, b.T.elem))
        self.setlen(b, st, L + 1)
        return Opaque('void')

    def v_emplace_back(self, b, args, n, st):
        v = self.construct_elem(b.T.elem, args, st, n)
        return self.push(b, v, st)

    def construct_elem(self, t, args, st, n):
        if isinstance(t, TRec):
            root = 'tmp%d' % next(self.uid)
            st.rootT[root] = t
            r = Ref(root, (), t)
            for p, s in self.reg.leaves(t):
                st.mem[(root, p)] = fresh('uninit', s)
            f = self.find_ctor(t.name, None, len(args))
            if f is None:
                raise Unsupported('ctor of ' + t.name)
            self.call_func(f, r, args, st, n)
            return st.read(r)
        if isinstance(t, TPair):
            vs = [self.rv(a, st) for a in args]
            if len(vs) == 1:
                return vs[0]
            return self.mkpair(t, *vs)
        if isinstance(t, TVec):
            return self.construct_T(t, args, None, st)
        v = self.rv(args[0], st) if args else self.default(t, st)
        return v

    def v_pop_back(self, b, args, n, st):
        L = self.veclen(b, st)
        self.oblige(st, L > 0, 'bounds', n, 'pop_back-nonempty')
        self.setlen(b, st, L - 1)
        return Opaque('void')

    def v_back(self, b, args, n, st):
        L = self.veclen(b, st)
        if self.cur.bounds:
            self.oblige(st, L > 0, 'bounds', n, 'back-nonempty')
        if isinstance(b, Val):
            return subval(self.reg, b, '[]', L - 1)
        return Ref(b.root, b.steps + (('[]', L - 1),), b.T.elem)

    def v_front(self, b, args, n, st):
        if self.cur.bounds:
            self.oblige(st, self.veclen(b, st) > 0, 'bounds', n, 'front-nonempty')
        return Ref(b.root, b.steps + (('[]', z3.IntVal(0)),), b.T.elem)

    def v_clear(self, b, args, n, st):
        self.setlen(b, st, z3.IntVal(0))
        return Opaque('void')

    def v_at(self, b, args, n, st):
        if getattr(self, 'at_throws', None) is not None and isinstance(b, Ref) and isinstance(b.T, TVec):
            # inside a try block that catches it: out of range leaves through the handler
            i = coerce(self.rv(self.strip_index_cast(args[0]), st), I)
            inb = z3.And(0 <= i, i < self.veclen(b, st))
            s2 = st.copy()
            s2.assume(z3.Not(inb), True)
            self.at_throws.append(s2)
            st.assume(inb, True)
        return self.index(b, args[0], st, n)

    def only_at_throws(self, blk):
        """the block calls nothing but at() and size(), so a handler is entered exactly when an index is out of range"""
        ok = True

        def w(x):
            nonlocal ok
            k = x.get('kind')
            if k in ('CallExpr', 'CXXThrowExpr', 'CXXNewExpr', 'CXXTryStmt', 'CXXConstructExpr', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt', 'LambdaExpr'):
                ok = False
            if k == 'CXXMemberCallExpr' and x['inner'][0].get('name') not in ('at', 'size'):
                ok = False
            if k == 'CXXOperatorCallExpr':
                ok = False
            for c in x.get('inner', []):
                w(c)
        w(blk)
        return ok

    def v_data(self, b, args, n, st):
        return BufPtr(b, z3.IntVal(0))

    def v_get(self, b, args, n, st):
        return BufPtr(b, z3.IntVal(0))

    def v_begin(self, b, args, n, st):
        if isinstance(b, Val):
            b = self.materialise(b, st)
        return VecIter(b, z3.IntVal(0))

    def materialise(self, v, st):
        root = 'tmp%d' % next(self.uid)
        st.rootT[root] = v.T
        r = Ref(root, (), v.T)
        st.write(r, v)
        return r

    def v_end(self, b, args, n, st):
        if isinstance(b, Val):
            b = self.materialise(b, st)
        return VecIter(b, self.veclen(b, st))

    v_cbegin, v_cend = v_begin, v_end

    def v_assign(self, b, args, n, st):
        ln = coerce(self.rv(args[0], st), I)
        v = self.conv(self.rv(args[1], st), b.T.elem)
        if not nonneg(ln):
            self.oblige(st, ln >= 0, 'bounds', n, 'assign-size-nonnegative')
        st.write(b, self.vec_filled(b.T, ln, v))
        return Opaque('void')

    def v_resize(self, b, args, n, st):
        ln = coerce(self.rv(args[0], st), I)
        L = self.veclen(b, st)
        fill = self.conv(self.rv(args[1], st), b.T.elem) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' \
            else self.default(b.T.elem, st)
        cur = st.read(b)
        d = {('#',): ln}
        i = z3.Const('rs!%d' % next(_fresh), I)
        for p, s in self.reg.leaves(b.T):
            if p == ('#',):
                continue
            x = fill.d[p[1:]] if isinstance(fill, Val) else fill
            arr = fresh('rsz', s)
            st.assume(z3.ForAll([i], arr[i] == z3.If(i < L, cur.d[p][i], coerce(x, s.range())), patterns=[arr[i]]))
            d[p] = arr
        st.write(b, Val(b.T, d))
        return Opaque('void')

    def v_swap(self, b, args, n, st):
        o = self.ev(args[0], st)
        return self.swap_refs(b, o, st, n)

    def swap_refs(self, a, b, st, n):
        if isinstance(a, Ref) and a.root in st.objs:
            raise Unsupported('swap pointers')
        va, vb = st.read(a), st.read(b)
        st.write(a, vb)
        if a.root == b.root and a.marker() == b.marker() and a.steps:
            # possibly the same element: writing vb to a then va to b is still right for a swap
            pass
        st.write(b, va)
        return Opaque('void')

    # map / set
    def mapkey(self, b, node, st):
        v = self.rv(node, st)
        return coerce(v, self.reg.leaves(b.T.key)[0][1])

    def m_size(self, b, args, n, st):
        return card(self.mapdomarr(b, st))

    def m_empty(self, b, args, n, st):
        return card(self.mapdomarr(b, st)) == 0

    def m_count(self, b, args, n, st):
        k = self.mapkey(b, args[0], st)
        return z3.If(self.mapdom(b, st, k), z3.IntVal(1), z3.IntVal(0))

    def m_find(self, b, args, n, st):
        k = self.mapkey(b, args[0], st)
        return MapIter(b, k, z3.Not(self.mapdom(b, st, k)))

    def m_end(self, b, args, n, st):
        ks = self.reg.leaves(b.T.key)[0][1]
        return MapIter(b, z3.Const('endkey', ks), z3.BoolVal(True))

    def m_begin(self, b, args, n, st):
        k = fresh('first', self.reg.leaves(b.T.key)[0][1])
        if not isinstance(b.T, TSet) or k.sort() != I:
            raise Unsupported('explicit map begin()')
        dom = self.mapdomarr(b, st)
        q = z3.Const('fq!%d' % next(_fresh), I)
        st.assume(z3.ForAll([q], z3.Implies(dom[q], z3.And(dom[k], k <= q)), patterns=[dom[q]]))
        it = MapIter(b, k, z3.Not(dom[k]))
        it.begin = True
        return it

    def m_at(self, b, args, n, st):
        k = self.mapkey(b, args[0], st)
        self.oblige(st, self.mapdom(b, st, k), 'deref', n, 'map-at-present')
        return Ref(b.root, b.steps + (('{}', k),), b.T.val)

    def m_clear(self, b, args, n, st):
        t = self.mapdomarr(b, st)
        st.write(Ref(b.root, b.steps + ('?',), TZ3(t.sort())), z3.K(t.sort().domain(), z3.BoolVal(False)))
        return Opaque('void')

    def m_erase(self, b, args, n, st):
        v = self.ev(args[0], st)
        if isinstance(v, Ref):
            v = st.read(v)
        if isinstance(v, MapIter):
            self.oblige(st, z3.And(z3.Not(v.isend), self.mapdom(b, st, v.key)), 'deref', n, 'erase-iterator-valid')
            k = v.key
        else:
            k = coerce(v, self.reg.leaves(b.T.key)[0][1])
        self.setdom(b, st, k, False)
        return Opaque('void')

    def m_emplace(self, b, args, n, st):
        vs = []
        for a in args:
            v = self.ev(a, st)
            if isinstance(v, Ref):
                v = st.read(v)
            if isinstance(v, MapEntry):
                v = self.entry_val(v, st)
            vs.append(v)
        if isinstance(b.T, TSet):
            k = coerce(vs[0], self.reg.leaves(b.T.key)[0][1])
            was = self.mapdom(b, st, k)
            self.setdom(b, st, k, True)
            return PyObj('emplaced', first=MapIter(b, k, z3.BoolVal(False)), second=z3.Not(was))
        if len(vs) == 1 and isinstance(vs[0], Val) and isinstance(vs[0].T, TPair):
            p = vs[0]
            k = project(self.reg, p, 'first', p.T.a)
            v = project(self.reg, p, 'second', p.T.b)
        elif len(vs) == 2:
            k, v = vs
        else:
            raise Unsupported('emplace form')
        k = coerce(k, self.reg.leaves(b.T.key)[0][1])
        was = self.mapdom(b, st, k)
        r = Ref(b.root, b.steps + (('{}', k),), b.T.val)
        cur = st.read(r)
        v = self.conv(v, b.T.val)
        st.write(r, self.ite(was, cur, v))
        self.setdom(b, st, k, True)
        return PyObj('emplaced', first=MapIter(b, k, z3.BoolVal(False)), second=z3.Not(was))

    m_insert = m_emplace

    def m_swap(self, b, args, n, st):
        return self.swap_refs(b, self.ev(args[0], st), st, n)

    # priority queue (entries under arbitrary identifiers)
    def qtop(self, b, st):
        dom = self.mapdomarr(b, st)
        tref = Ref(b.root, b.steps + ('^',), TInt(64, True))
        t = fresh('top', I)
        st.write(tref, t)
        st.assume(z3.Implies(card(dom) > 0, dom[t]))
        if self.pq_order:
            k = z3.Const('pk!%d' % next(_fresh), I)
            vals = st.read(Ref(b.root, b.steps + (('{}', k),), b.T.val))
            top = st.read(Ref(b.root, b.steps + (('{}', t),), b.T.val))
            st.assume(z3.ForAll([k], z3.Implies(dom[k], self.pq_order(self, b.T, top, vals)), patterns=[dom[k]]))

    def q_emplace(self, b, args, n, st):
        dom = self.mapdomarr(b, st)
        k = fresh('entry', I)
        st.assume(z3.Not(dom[k]))
        v = self.construct_elem(b.T.val, args, st, n)
        st.write(Ref(b.root, b.steps + (('{}', k),), b.T.val), v)
        self.setdom(b, st, k, True)
        st.write(Ref(b.root, b.steps + ('+',), TInt(64, True)), k)
        self.qtop(b, st)
        return Opaque('void')

    q_push = q_emplace

    def q_top(self, b, args, n, st):
        dom = self.mapdomarr(b, st)
        t = st.read(Ref(b.root, b.steps + ('^',), TInt(64, True)))
        self.oblige(st, z3.And(card(dom) > 0), 'deref', n, 'top-of-nonempty-queue')
        st.assume(dom[t])
        return Ref(b.root, b.steps + (('{}', t),), b.T.val)

    def q_pop(self, b, args, n, st):
        dom = self.mapdomarr(b, st)
        t = st.read(Ref(b.root, b.steps + ('^',), TInt(64, True)))
        self.oblige(st, card(dom) > 0, 'deref', n, 'pop-of-nonempty-queue')
        st.assume(dom[t])
        self.setdom(b, st, t, False)
        self.qtop(b, st)
        return Opaque('void')

    # free functions
    def b_max(self, n, args, st):
        return self.minmax(args, st, True)

    def b_min(self, n, args, st):
        return self.minmax(args, st, False)

    def minmax(self, args, st, mx):
        a, b = unify(self.rv(args[0], st), self.rv(args[1], st))
        if isinstance(a.sort(), z3.BitVecSortRef):
            return z3.If(z3.ULT(a, b), b if mx else a, a if mx else b)
        return z3.If(a < b, b, a) if mx else z3.If(b < a, b, a)

    def b_swap(self, n, args, st):
        return self.swap_refs(self.ev(args[0], st), self.ev(args[1], st), st, n)

    def b_move(self, n, args, st):
        return self.ev(args[0], st)

    b_forward = b_move

    def b_abs(self, n, args, st):
        v = self.rv(args[0], st)
        return z3.If(v >= 0, v, -v)

    def b_begin(self, n, args, st):
        v = self.ev(args[0], st)
        if isinstance(v, Ref) and isinstance(v.T, (TMap, TSet)):
            return self.m_begin(v, [], n, st)
        return self.v_begin(v, [], n, st)

    def b_end(self, n, args, st):
        v = self.ev(args[0], st)
        if isinstance(v, Ref) and isinstance(v.T, (TMap, TSet)):
            return self.m_end(v, [], n, st)
        return self.v_end(v, [], n, st)

    def b_make_pair(self, n, args, st):
        a, b = self.rv(args[0], st), self.rv(args[1], st)
        return self.mkpair(self.ntype(n), a, b)

    def b_fill(self, n, args, st):
        a, b = self.rv(args[0], st), self.rv(args[1], st)
        v = self.rv(args[2], st)
        self.fill(a, b, v, st)
        return Opaque('void')

    def fill(self, a, b, v, st):
        ra = a.ref
        lo = a.idx if isinstance(a, VecIter) else a.off
        hi = b.idx if isinstance(b, VecIter) else b.off
        cur = st.read(Ref(ra.root, ra.steps, ra.T))
        i = z3.Const('fl!%d' % next(_fresh), I)
        d = dict(cur.d)
        for p, s in self.reg.leaves(ra.T):
            if p == ('#',):
                continue
            x = v.d[p[1:]] if isinstance(v, Val) else v
            arr = fresh('fill', s)
            st.assume(z3.ForAll([i], arr[i] == z3.If(z3.And(lo <= i, i < hi), coerce(x, s.range()), cur.d[p][i]),
                                patterns=[arr[i]]))
            d[p] = arr
        st.write(ra, Val(ra.T, d))

    def b_max_element(self, n, args, st):
        if len(args) > 2:
            raise Unsupported('max_element with comparator')
        a, b = self.rv(args[0], st), self.rv(args[1], st)
        r = fresh('maxel', I)
        arr = st.read(a.ref).d[('[]',)]
        i = z3.Const('mx!%d' % next(_fresh), I)
        st.assume(z3.Implies(a.idx < b.idx, z3.And(
            a.idx <= r, r < b.idx, z3.ForAll([i], z3.Implies(z3.And(a.idx <= i, i < b.idx), arr[i] <= arr[r]),
                                            patterns=[arr[i]]))))
        st.assume(z3.Implies(a.idx >= b.idx, r == b.idx))
        return VecIter(a.ref, r)

    def b_shuffle(self, n, args, st):
        a, b = self.rv(args[0], st), self.rv(args[1], st)
        self.permute(a, b, st)
        return Opaque('void')

    def permute(self, a, b, st, nested=False):
        """contract of std::shuffle: the range is permuted, everything else unchanged"""
        ra = a.ref
        cur = st.read(ra)
        d = dict(cur.d)
        pi = fresh('perm', z3.ArraySort(I, I))
        pj = fresh('perminv', z3.ArraySort(I, I))
        i = z3.Const('sh!%d' % next(_fresh), I)
        lo, hi = a.idx, b.idx
        inr = lambda x: z3.And(lo <= x, x < hi)
        if any(p[:2] == ('[]', '[]') for p in d) and not nested:
            raise Unsupported('permuting nested containers')
        ps = [p for p in d if p and p[0] == '[]']
        if len(ps) > 1:
            st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(pi[i]), pj[pi[i]] == i)), patterns=[pi[i]]))
            st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(pj[i]), pi[pj[i]] == i)), patterns=[pj[i]]))
        for p in ps:
            old = cur.d[p]
            new = fresh('shuf', old.sort())
            st.assume(z3.ForAll([i], z3.Implies(z3.Not(inr(i)), new[i] == old[i]), patterns=[new[i]]))
            st.assume(z3.ForAll([i], z3.Implies(z3.Not(inr(i)), new[i] == old[i]), patterns=[old[i]]))
            st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(pi[i]), new[i] == old[pi[i]], pj[pi[i]] == i)),
                                patterns=[new[i]]))
            st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(pj[i]), pi[pj[i]] == i, new[pj[i]] == old[i])),
                                patterns=[old[i]]))
            d[p] = new
        st.write(ra, Val(cur.T, d))
        st.names['_perm'], st.names['_perminv'] = pi, pj
        return d

    def e_SyntheticRef(self, n, st):
        return n['ref']

    def b_iter_swap(self, n, args, st):
        a, b = self.rv(args[0], st), self.rv(args[1], st)
        if not (isinstance(a, VecIter) and isinstance(b, VecIter)):
            raise Unsupported('iter_swap')
        for x in (a, b):
            if self.cur.bounds:
                self.oblige(st, z3.And(0 <= x.idx, x.idx < self.veclen(x.ref, st)), 'bounds', n, 'iterator-in-bounds')
        ra, rb = (Ref(x.ref.root, x.ref.steps + (('[]', x.idx),), x.ref.T.elem) for x in (a, b))
        va, vb = st.read(ra), st.read(rb)
        st.write(ra, vb)
        st.write(rb, va)
        return Opaque('void')

    def b_memcpy(self, n, args, st):
        d, s, c = self.rv(args[0], st), self.rv(args[1], st), coerce(self.rv(args[2], st), I)
        if not (isinstance(d, BufPtr) and isinstance(s, BufPtr) and d.ref.T.elem == s.ref.T.elem and isinstance(d.ref.T.elem, TInt) and d.ref.T.elem.bits == 8):
            raise Unsupported('memcpy of anything but bytes')
        for p_ in (d, s):
            ln = self.buf_len(p_.ref, st) if getattr(self.cur, 'buflen', None) else None
            if ln is None:
                raise Unsupported('memcpy of a buffer of unstated length')
            self.oblige(st, z3.And(0 <= p_.off, p_.off + c <= ln), 'bounds', n, 'memcpy-in-bounds')
        cur, src = st.read(d.ref), st.read(s.ref)
        i = z3.Const('mc!%d' % next(_fresh), I)
        new = fresh('memcpy', cur.d[('[]',)].sort())
        st.assume(z3.ForAll([i], new[i] == z3.If(z3.And(d.off <= i, i < d.off + c), src.d[('[]',)][i - d.off + s.off], cur.d[('[]',)][i]), patterns=[new[i]]))
        st.write(d.ref, Val(cur.T, {**cur.d, ('[]',): new}))
        return Opaque('void')

    def b_sort(self, n, args, st):
        """std::sort: a permutation of the range; in order when compared by the default < on integers or pairs of integers
        (with a comparator only the permutation is used)"""
        a, b = self.rv(args[0], st), self.rv(args[1], st)
        if not (isinstance(a, VecIter) and isinstance(b, VecIter)):
            raise Unsupported('sort range')
        d = self.permute(a, b, st, nested=True)
        if len(args) == 2:
            i, j = z3.Const('so!%d' % next(_fresh), I), z3.Const('so!%d' % next(_fresh), I)
            T = a.ref.T.elem
            rng = z3.And(a.idx <= i, i < j, j < b.idx)
            if isinstance(T, TPair) and isinstance(T.a, TInt) and isinstance(T.b, TInt):
                f, s = d[('[]', 'first')], d[('[]', 'second')]
                st.assume(z3.ForAll([i, j], z3.Implies(rng, z3.Or(f[i] < f[j], z3.And(f[i] == f[j], s[i] <= s[j]))), patterns=[z3.MultiPattern(f[i], f[j])]))
            elif isinstance(T, TInt):
                v = d[('[]',)]
                st.assume(z3.ForAll([i, j], z3.Implies(rng, v[i] <= v[j]), patterns=[z3.MultiPattern(v[i], v[j])]))
        else:
            self.assumed.add('comparators given to std::sort only read')
            self.sorted_by(a, b, self.rv(args[2], st), d, st)
        return Opaque('void')

    def sorted_by(self, a, b, cmp, d, st):
        """after sorting by a lambda: no later element comes before an earlier one"""
        if not isinstance(cmp, Lambda):
            return
        i, j = z3.Const('so!%d' % next(_fresh), I), z3.Const('so!%d' % next(_fresh), I)
        el = lambda x: {'kind': 'SyntheticRef', 'id': '0', 'ref': Ref(a.ref.root, a.ref.steps + (('[]', x),), a.ref.T.elem)}
        s2 = st.copy()
        k = len(s2.pc)
        self.suppress += 1
        try:
            r = self.call_lambda(cmp, [el(j), el(i)], s2)
        except Unsupported:
            return
        finally:
            self.suppress -= 1
        if len(s2.pc) != k or not z3.is_expr(r):
            return
        for p in (('[]', '#'), ('[]',)):
            if p in d:
                st.assume(z3.ForAll([i, j], z3.Implies(z3.And(a.idx <= i, i < j, j < b.idx), z3.Not(coerce(r, B))), patterns=[z3.MultiPattern(d[p][i], d[p][j])]))
                return

    # numeric_limits
    def _nl(self, n, which):
        t = self.ntype(n)
        if isinstance(t, TInt):
            return z3.IntVal(t.hi() if which == 'max' else t.lo())
        return fresh('fltmax', z3.RealSort())


# numeric_limits<T>::max() arrives as a CallExpr to a CXXMethodDecl named max with no args
_bmax, _bmin = Exec.b_max, Exec.b_min


def _b_max(self, n, args, st):
    return self._nl(n, 'max') if not args else _bmax(self, n, args, st)


def _b_min(self, n, args, st):
    return self._nl(n, 'min') if not args else _bmin(self, n, args, st)


Exec.b_max, Exec.b_min = _b_max, _b_min


# ---------------------------------------------------------------- helpers
def is_ref(ts):
    return ts.rstrip().endswith('&')


def unwrap(n):
    while n['kind'] in WRAPPERS:
        n = n['inner'][0]
    return n


def unwrap_casts(n):
    while n['kind'] in WRAPPERS or n['kind'] == 'ImplicitCastExpr':
        n = n['inner'][0]
    return n


def short(s):
    s = ' '.join(str(s).split())
    return s if len(s) <= 60 else s[:57] + '...'


def is_hyp(goal, hyps):
    gid = goal.get_id()
    todo = list(hyps)
    while todo:
        h = todo.pop()
        if h.get_id() == gid:
            return True
        if z3.is_and(h):
            todo += h.children()
    return False


def has_quant(e):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


def stable(t, n0):
    """term mentions only constants created before counter n0"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r'!(\d+)$', x.decl().name())
            if m and int(m.group(1)) >= n0:
                return False
        todo += x.children()
    return True


def zero_of(s):
    if s == I:
        return z3.IntVal(0)
    if s == B:
        return z3.BoolVal(False)
    if s == z3.RealSort():
        return z3.RealVal(0)
    if isinstance(s, z3.BitVecSortRef):
        return z3.BitVecVal(0, s)
    if isinstance(s, z3.ArraySortRef):
        return z3.K(s.domain(), zero_of(s.range()))
    return fresh('zero', s)


def nonneg(v):
    if z3.is_int_value(v):
        return v.as_long() >= 0
    if z3.is_app(v):
        k = v.decl().kind()
        if k == z3.Z3_OP_BV2INT:
            return True
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            return all(nonneg(c) for c in v.children())
        if k == z3.Z3_OP_ITE:
            return nonneg(v.arg(1)) and nonneg(v.arg(2))
        if v.decl().name().startswith('card_'):
            return True
    return False


def is_bv2int(v):
    return z3.is_app(v) and v.decl().kind() == z3.Z3_OP_BV2INT


def as_bool(v):
    if v.sort() == B:
        return v
    if z3.is_int_value(v) and v.as_long() in (0, 1):
        return z3.BoolVal(v.as_long() == 1)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
        a, b = v.arg(1).as_long(), v.arg(2).as_long()
        if (a, b) == (1, 0):
            return v.arg(0)
        if (a, b) == (0, 1):
            return z3.Not(v.arg(0))
    return None


def as_bv(v, bits):
    """bit-vector view of a term that is syntactically a (zero-extended) bit vector, literal, or ~ of one"""
    if z3.is_int_value(v):
        return z3.BitVecVal(v.as_long(), bits)
    if is_bv2int(v):
        b = v.arg(0)
        k = b.size()
        return b if k == bits else z3.ZeroExt(bits - k, b) if k < bits else z3.Extract(bits - 1, 0, b)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SUB and z3.is_int_value(v.arg(0)) and v.arg(0).as_long() == -1:
        b = as_bv(v.arg(1), bits)
        return None if b is None else ~b
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b = as_bv(v.arg(1), bits), as_bv(v.arg(2), bits)
        return None if a is None or b is None else z3.If(v.arg(0), a, b)
    if z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_MUL,) and v.num_args() == 2:
        for x, y in ((v.arg(0), v.arg(1)), (v.arg(1), v.arg(0))):
            if z3.is_int_value(x):
                b = as_bv(y, bits)
                if b is not None:
                    return b * z3.BitVecVal(x.as_long(), bits)
    return z3.Int2BV(v, bits)


def sp_unroll_sym(con):
    return getattr(con, 'unroll_symbolic', False)


def is_ghost_ref(reg, r):
    if r.root.startswith('g_'):
        return True
    for s in r.steps:
        if isinstance(s, str):
            for rec, fs in reg.ghost.items():
                if any(f == s for f, _ in fs):
                    return True
    return False


def has_dependent(f):
    found = []

    def w(n):
        if not isinstance(n, dict) or found:
            return
        if n.get('kind') in ('CXXDependentScopeMemberExpr', 'UnresolvedMemberExpr', 'UnresolvedLookupExpr',
                             'CXXUnresolvedConstructExpr', 'DependentScopeDeclRefExpr'):
            found.append(1)
        for c in n.get('inner', []):
            w(c)
    w(f.node)
    return bool(found)
