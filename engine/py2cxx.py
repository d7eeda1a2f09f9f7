"""mechanical translation of a small, statically typed fragment of Python into C++, so that the functions of /repo's
Python sources can be put under contract.  The text is read from /repo on every run; anything outside the fragment raises
ExtractError (the check then says so and falls back on its bounded stand-in).

What the translation drops: labels become ints; a dict is a std::map, a set a std::set, a list or tuple of labels a
std::vector; a generator runs to its end and reports every yielded item through yield_<first item>(out, ..., items);
argument defaults, docstrings and annotations; `hasattr(g, 'edges')` is taken to be true (graphs are given as graphs)."""
import ast
from cxx import ExtractError

INT, BOOL, VEC, SET, DICT, CH, GRAPH, EDGES, LONG = 'int', 'bool', 'std::vector<int>', 'std::set<int>', 'std::map<int,std::set<int>>', 'std::map<int,std::vector<int>>', 'Graph', 'std::vector<std::pair<int,int>>', 'long'


class Tr:
    def __init__(self, types, codes, ctx, fields=None, consts=()):
        self.types = types          # names of parameters (and fields) -> C++ type
        self.codes = codes          # error classes -> code
        self.ctx = ctx              # expressions handed to every yield
        self.fields = fields or {}
        self.env = {}
        self.cname = {}             # Python name -> C++ name (a new one when the type changes)
        self.const = {}             # names whose bool value is known at this point
        self.n = 0
        self.rngs = [k for k, t in types.items() if t == 'rng']

    def bad(self, node, why=''):
        raise ExtractError('py2cxx: line %s: %s %s' % (getattr(node, 'lineno', '?'), type(node).__name__, why))

    # ---- types
    def ty(self, e):
        if isinstance(e, ast.Name):
            t = self.env.get(e.id)
            if t is None:
                self.bad(e, 'name %s of unknown type' % e.id)
            return t
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
            return self.fields.get(e.attr) or self.bad(e, e.attr)
        if isinstance(e, ast.Attribute) and e.attr == 'edges':
            return EDGES
        if isinstance(e, ast.Constant):
            return BOOL if isinstance(e.value, bool) else INT if isinstance(e.value, int) else self.bad(e)
        if isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return BOOL
        if isinstance(e, (ast.BinOp, ast.UnaryOp)):
            return LONG
        if isinstance(e, ast.Subscript):
            t = self.ty(e.value)
            if isinstance(e.slice, ast.Slice):
                return t
            if t == 'report' and isinstance(e.slice, ast.Constant) and e.slice.value == 0:
                return INT
            if t == 'labeldict':
                return INT
            return {VEC: INT, DICT: SET, CH: VEC, 'std::map<int,int>': INT}.get(t) or self.bad(e, t)
        if isinstance(e, ast.Set):
            return SET
        if isinstance(e, (ast.List, ast.Tuple)):
            return VEC
        if isinstance(e, ast.Dict) and not e.keys:
            return DICT
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name):
                return {'len': LONG, 'set': SET, 'list': VEC, 'sorted': VEC, 'dict': DICT, 'bool': BOOL, 'hasattr': BOOL, 'labeldict': 'labeldict'}.get(f.id) or self.bad(e, f.id)
            if isinstance(f, ast.Attribute):
                if f.attr == 'get':
                    return self.ty(ast.Subscript(value=f.value, slice=ast.Constant(value=0)))
                return {'Graph': GRAPH, 'nodes': SET, 'subgraph': GRAPH, 'edges': EDGES, 'is_connected': BOOL, 'has_edge': BOOL, 'has_node': BOOL, 'setdefault': SET, 'copy': self.ty(f.value) if f.attr == 'copy' else None}.get(f.attr) or self.bad(e, f.attr)
        self.bad(e)

    # ---- expressions
    def ex(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.codes:
                return str(self.codes[e.id])
            return self.cname.get(e.id, 'v_' + e.id)
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool):
                return 'true' if e.value else 'false'
            if isinstance(e.value, int):
                return str(e.value)
            self.bad(e)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
            return 'this->' + e.attr
        if isinstance(e, ast.Attribute) and e.attr == 'edges':
            return 'nx_edges(%s)' % self.ex(e.value)
        if isinstance(e, ast.Compare):
            out, l = [], e.left
            for o, r in zip(e.ops, e.comparators):
                if isinstance(o, (ast.In, ast.NotIn)):
                    c = self.member(self.ex(l), r)
                    out.append(c if isinstance(o, ast.In) else '!(%s)' % c)
                else:
                    op = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: '==', ast.IsNot: '!='}.get(type(o)) or self.bad(e)
                    if isinstance(o, (ast.Is, ast.IsNot)) and not (isinstance(r, ast.Constant) and isinstance(r.value, bool)):
                        self.bad(e)
                    out.append('(%s) %s (%s)' % (self.ex(l), op, self.ex(r)))
                l = r
            return '(' + ' && '.join(out) + ')'
        if isinstance(e, ast.BoolOp):
            return '(' + (' && ' if isinstance(e.op, ast.And) else ' || ').join(self.cond(v) for v in e.values) + ')'
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return '!(%s)' % self.cond(e.operand)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return '-(%s)' % self.ex(e.operand)
        if isinstance(e, ast.BinOp):
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*'}.get(type(e.op)) or self.bad(e)
            return '((%s) %s (%s))' % (self.ex(e.left), op, self.ex(e.right))
        if isinstance(e, ast.Subscript):
            t = self.ty(e.value)
            if isinstance(e.slice, ast.Slice):
                if t != VEC or e.slice.upper or e.slice.step or not e.slice.lower:
                    self.bad(e)
                return 'py_tail(%s, %s)' % (self.ex(e.value), self.ex(e.slice.lower))
            if t == VEC:
                return '%s[%s]' % (self.ex(e.value), self.ex(e.slice))
            if t == 'report':
                return self.ex(e.value)
            if t == 'labeldict':
                return '%s.getitem(%s)' % (self.ex(e.value), self.ex(e.slice))
            return '%s.at(%s)' % (self.ex(e.value), self.ex(e.slice))
        if isinstance(e, ast.List) and not e.elts:
            return VEC + '()'
        if isinstance(e, ast.Set) and len(e.elts) == 1:
            return 'py_single(%s)' % self.ex(e.elts[0])
        if isinstance(e, ast.Dict) and not e.keys:
            return DICT + '()'
        if isinstance(e, ast.Call) and not e.keywords:
            f, a = e.func, e.args
            if isinstance(f, ast.Name):
                if f.id == 'len' and len(a) == 1 and self.ty(a[0]) == 'labeldict':
                    return '(long)%s.self.size()' % self.ex(a[0])
                if f.id == 'len' and len(a) == 1:
                    return '(long)%s.size()' % self.ex(a[0])
                if f.id in ('set', 'dict') and not a:
                    return self.ty(e) + '()'
                if f.id in ('list', 'sorted') and len(a) == 1:
                    t = self.ty(a[0])
                    return 'py_list(%s)' % self.ex(a[0]) if t == SET else self.ex(a[0]) if t == VEC and f.id == 'list' else self.bad(e)
                if f.id == 'bool' and len(a) == 1:
                    return self.cond(a[0])
                if f.id == 'hasattr' and len(a) == 2 and isinstance(a[1], ast.Constant) and a[1].value == 'edges' and self.ty(a[0]) in (GRAPH, EDGES):
                    return 'true' if self.ty(a[0]) == GRAPH else 'false'
                if f.id == 'labeldict' and not a:
                    return 'labeldict()'
                self.bad(e, f.id)
            if isinstance(f, ast.Attribute):
                m = f.attr
                if isinstance(f.value, ast.Name) and f.value.id == 'nx':
                    if m == 'Graph':
                        return 'nx_empty()' if not a else 'nx_graph(%s)' % self.ex(a[0])
                    if m == 'is_connected' and len(a) == 1:
                        return 'nx_is_connected(%s)' % self.ex(a[0])
                    self.bad(e, m)
                t = self.ty(f.value)
                o = self.ex(f.value)
                if t == GRAPH and m == 'nodes' and not a:
                    return o + '.nodes'
                if t == GRAPH and m in ('subgraph', 'edges', 'has_edge', 'has_node') and len(a) <= 2:
                    if m == 'has_node':
                        return self.member(self.ex(a[0]), f.value)
                    return 'nx_%s%s(%s)' % (m, '_d' if m == 'subgraph' and self.ty(a[0]) == DICT else '', ', '.join([o] + [self.ex(x) for x in a]))
                if t == DICT and m == 'setdefault' and len(a) == 2:
                    return 'py_setdefault(%s, %s, %s)' % (o, self.ex(a[0]), self.ex(a[1]))
        self.bad(e)

    def member(self, x, r):
        t = self.ty(r)
        if t == GRAPH:
            return '%s.nodes.count(%s) != 0' % (self.ex(r), x)
        if t == SET and isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) and r.func.attr == 'setdefault':
            return 'py_in(%s, %s)' % (x, self.ex(r))
        if t in (SET, DICT, CH):
            return '%s.count(%s) != 0' % (self.ex(r), x)
        if t == 'labeldict':
            return '%s.self.count(%s) != 0' % (self.ex(r), x)
        self.bad(r, 'in ' + t)

    def cond(self, e):
        t = self.ty(e)
        if t == BOOL or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'hasattr':
            return self.ex(e)
        if t in (VEC, SET, DICT, CH):
            return '(%s.size() != 0)' % self.ex(e)
        if t in (INT, LONG):
            return '(%s != 0)' % self.ex(e)
        self.bad(e, t)

    # ---- statements
    def assigned(self, st):
        out = []
        for n in ast.walk(st):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for m in ast.walk(t):
                        if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                            out.append(m.id)
        return out

    def uses(self, st):
        return {n.id for n in ast.walk(st) if isinstance(n, ast.Name)}

    def first_value(self, st, v):
        for n in ast.walk(st):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == v:
                        return n.value
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == v:
                return n.value

    def static(self, s):
        if isinstance(s.test, ast.Name):
            return s.test.id in self.const
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'hasattr' for n in ast.walk(s.test)) and self.cond(s.test) in ('!(true)', 'true', 'false', '!(false)')

    def kill(self, s):
        for v in self.assigned(s):
            self.const.pop(v, None)

    def block(self, sts, ind, deep=False):
        out = []
        sts = [s for s in sts if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        for i, s in enumerate(sts):
            direct = isinstance(s, (ast.Assign, ast.AnnAssign)) or isinstance(s, ast.If) and self.static(s)
            hoist = []
            for v in dict.fromkeys(self.assigned(s)):
                if v in self.env or '@' + v in self.env:
                    continue
                if direct or any(v in self.uses(r) for r in sts[i + 1:]) or isinstance(s, ast.Try):
                    hoist.append(v)
            for v in ([] if direct else hoist):
                val = self.first_value(s, v)
                if val is None:
                    self.bad(s, v)
                # its type may depend on other hoisted names
                self.env[v] = self.ty(val)
                out.append('%s%s v_%s{};' % (ind, self.env[v], v))
            out += self.stmt(s, ind)
        return out

    def scope(self, sts, ind):
        save = dict(self.env)
        r = self.block(sts, ind)
        self.env = save
        return r

    def stmt(self, s, ind):
        if isinstance(s, ast.Pass):
            return [ind + ';']
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            out, val = [], s.value
            if len(ts) > 1:         # a = b = value: left to right
                tmp = 'c_%d' % self.n
                self.n += 1
                t0 = self.ty(val)
                out.append('%s%s %s = %s;' % (ind, t0, tmp, self.ex(val)))
                vx, vt = tmp, t0
            else:
                vx, vt = self.ex(val), self.ty(val)
            for t in ts:
                out += self.assign(t, vx, vt, ind)
            return out
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)):
            return ['%sv_%s %s= %s;' % (ind, s.target.id, '+' if isinstance(s.op, ast.Add) else '-', self.ex(s.value))]
        if isinstance(s, ast.If):
            c = self.cond(s.test)
            if isinstance(s.test, ast.Name) and s.test.id in self.const:
                c = 'true' if self.const[s.test.id] else 'false'
            if c in ('!(true)', 'true', 'false', '!(false)'):
                return self.block(s.body if c in ('true', '!(false)') else s.orelse, ind, deep=True)
            self.kill(s)
            out = ['%sif (%s) {' % (ind, c)] + self.scope(s.body, ind + '  ')
            if s.orelse:
                out += [ind + '} else {'] + self.scope(s.orelse, ind + '  ')
            return out + [ind + '}']
        if isinstance(s, ast.For) and not s.orelse:
            self.kill(s)
            return self.loop(s.target, s.iter, lambda i: self.scope(s.body, i), ind)
        if isinstance(s, (ast.Continue, ast.Break)):
            return [ind + ('continue;' if isinstance(s, ast.Continue) else 'break;')]
        if isinstance(s, ast.Return):
            return [ind + ('return;' if s.value is None else 'return %s;' % self.ex(s.value))]
        if isinstance(s, ast.Raise):
            return [ind + 'throw 1;']
        if isinstance(s, ast.Try):
            return self.try_(s, ind)
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Subscript) and self.ty(v.value) == 'labeldict':
                return ['%s%s;' % (ind, self.ex(v))]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == '__init__' and isinstance(v.func.value, ast.Call) and isinstance(v.func.value.func, ast.Name) and v.func.value.func.id == 'super':
                return []           # dict.__init__: called without arguments
            if isinstance(v, ast.Yield):
                items = v.value.elts if isinstance(v.value, ast.Tuple) else [v.value]
                if not (isinstance(items[0], ast.Name) and items[0].id in self.codes):
                    self.bad(s)
                return ['%syield_%s(%s);' % (ind, items[0].id, ', '.join(self.ctx + [self.ex(x) for x in items[1:]]))]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and not v.keywords:
                m, a = v.func.attr, v.args
                if m == 'shuffle' and isinstance(v.func.value, ast.Name) and v.func.value.id in self.rngs and self.ty(a[0]) == VEC:
                    return ['%spy_shuffle(%s);' % (ind, self.ex(a[0]))]
                t = self.ty(v.func.value)
                o = self.ex(v.func.value)
                if t == 'input_graph' and m == 'push_back' and len(a) == 2:
                    out = []
                    for x in a:     # Python evaluates the arguments in order
                        out.append('%sint t_%d = %s;' % (ind, self.n, self.ex(x)))
                        self.n += 1
                    return out + ['%s%s.push_back(t_%d, t_%d);' % (ind, o, self.n - 2, self.n - 1)]
                if t in (VEC, CH) and m == 'clear' and not a:
                    return ['%s%s.clear();' % (ind, o)]
                if t == VEC and m == 'push_back' and len(a) == 1:
                    return ['%s%s.push_back(%s);' % (ind, o, self.ex(a[0]))]
                if t == CH and m == 'insert' and len(a) == 1 and isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Subscript) and isinstance(a[0].func.value, ast.Name) and a[0].func.value.id == 'pair' and len(a[0].args) == 2:
                    k = 't_%d' % self.n
                    self.n += 1
                    return ['%sint %s = %s;' % (ind, k, self.ex(a[0].args[0])), '%s%s.insert(std::pair<int,std::vector<int>>(%s, %s));' % (ind, o, k, self.ex(a[0].args[1]))]
                if t == SET and m == 'add':
                    return ['%s%s.insert(%s);' % (ind, o, self.ex(a[0]))]
                if t == SET and m in ('discard', 'remove'):
                    return ['%s%s.erase(%s);' % (ind, o, self.ex(a[0]))]
                if t == VEC and m == 'append':
                    return ['%s%s.push_back(%s);' % (ind, o, self.ex(a[0]))]
                if t == DICT and m == 'setdefault':
                    return ['%s%s;' % (ind, self.ex(v))]
                if t == GRAPH and m == 'add_edge' and len(a) == 2:
                    return ['%snx_add_edge(%s, %s, %s);' % (ind, o, self.ex(a[0]), self.ex(a[1]))]
                if t == GRAPH and m == 'add_edges_from' and len(a) == 1 and isinstance(a[0], (ast.GeneratorExp, ast.ListComp)) and isinstance(a[0].elt, ast.Tuple) and len(a[0].elt.elts) == 2:
                    g = a[0]

                    def inner(k, i):
                        if k == len(g.generators):
                            return ['%snx_add_edge(%s, %s, %s);' % (i, o, self.ex(g.elt.elts[0]), self.ex(g.elt.elts[1]))]
                        c = g.generators[k]

                        def body(j):
                            out = inner(k + 1, j)
                            for f in c.ifs:
                                out = ['%sif (%s) {' % (j, self.cond(f))] + out + [j + '}']
                            return out
                        return self.loop(c.target, c.iter, body, i)
                    return inner(0, ind)
        self.bad(s)

    def assign(self, t, vx, vt, ind):
        if isinstance(t, ast.Name):
            self.const.pop(t.id, None)
            if vx in ('true', 'false') and ind == '  ':
                self.const[t.id] = vx == 'true'
            same = self.env.get(t.id) == vt or {self.env.get(t.id), vt} == {INT, LONG}
            if t.id in self.env and same:
                return ['%s%s = %s;' % (ind, self.cname.get(t.id, 'v_' + t.id), vx)]
            if t.id in self.env:
                if ind != '  ':
                    self.bad(t, 'changes its type')
                self.n += 1
                self.cname[t.id] = 'v_%s_%d' % (t.id, self.n)
            self.env[t.id] = vt
            return ['%s%s %s = %s;' % (ind, vt, self.cname.get(t.id, 'v_' + t.id), vx)]
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
            return ['%sthis->%s = %s;' % (ind, t.attr, vx)]
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            if isinstance(t.value, ast.Name) and t.value.id == 'self':
                return ['%sthis->self[%s] = %s;' % (ind, self.ex(t.slice), vx)]
            return ['%s%s[%s] = %s;' % (ind, self.ex(t.value), self.ex(t.slice), vx)]
        self.bad(t)

    def loop(self, tgt, it, body, ind):
        """for tgt in it"""
        save = dict(self.env)
        pre = []
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and isinstance(tgt, ast.Tuple):
            i, x = tgt.elts
            self.env[i.id] = INT
            self.env[x.id] = INT
            a = self.ex(it.args[0])
            out = ['%sfor (int v_%s = 0; v_%s < (long)%s.size(); v_%s++) {' % (ind, i.id, i.id, a, i.id), '%s  int v_%s = %s[v_%s];' % (ind, x.id, a, i.id)] + body(ind + '  ') + [ind + '}']
            self.env = save
            return out
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'diagnose_embedding':
            args = ', '.join(self.ex(a) for a in it.args)
            self.env[tgt.id] = 'report'
            out = ['%sDiag d_%d;' % (ind, self.n), '%sdiagnose_embedding(d_%d, %s);' % (ind, self.n, args), '%sfor (int v_%s : d_%d.codes) {' % (ind, tgt.id, self.n)] + body(ind + '  ') + [ind + '}']
            self.n += 1
            self.env = save
            return out
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and 1 <= len(it.args) <= 2 and isinstance(tgt, ast.Name):
            lo, hi = ('0', it.args[0]) if len(it.args) == 1 else (self.ex(it.args[0]), it.args[1])
            k = self.n
            self.n += 1
            self.env[tgt.id] = INT
            out = ['%sconst int n_%d = %s;' % (ind, k, self.ex(hi)), '%sfor (int v_%s = %s; v_%s < n_%d; v_%s++) {' % (ind, tgt.id, lo, tgt.id, k, tgt.id)] + body(ind + '  ') + [ind + '}']
            self.env = save
            return out
        t = self.ty(it)
        e = self.ex(it)
        if t == GRAPH:
            e, t = e + '.nodes', SET
        if isinstance(tgt, ast.Name) and t in (SET, VEC):
            self.env[tgt.id] = INT
            if not isinstance(it, (ast.Name, ast.Subscript)) or isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice):
                pre, e = ['%s%s s_%d = %s;' % (ind, t, self.n, e)], 's_%d' % self.n
                self.n += 1
            self.cname.pop(tgt.id, None)
            out = pre + ['%sfor (int v_%s : %s) {' % (ind, tgt.id, e)]
        elif isinstance(tgt, ast.Tuple) and t == EDGES and len(tgt.elts) == 2:
            a, b = [x.id for x in tgt.elts]
            self.env[a] = self.env[b] = INT
            v = 's_%d' % self.n
            self.n += 1
            out = ['%s%s %s = %s;' % (ind, t, v, e), '%sfor (const std::pair<int,int> &e_%s : %s) {' % (ind, v, v), '%s  int v_%s = e_%s.first; int v_%s = e_%s.second;' % (ind, a, v, b, v)]
        elif isinstance(tgt, ast.Name) and t in (DICT, CH):
            self.env[tgt.id] = INT
            out = ['%sfor (const auto &k_%s : %s) {' % (ind, tgt.id, e), '%s  int v_%s = k_%s.first;' % (ind, tgt.id, tgt.id)]
        else:
            self.bad(it, t)
        out += body(ind + '  ') + [ind + '}']
        self.env = save
        return out

    def try_(self, s, ind):
        if len(s.handlers) == 1 and isinstance(s.handlers[0].type, ast.Tuple) and {getattr(x, 'id', '') for x in s.handlers[0].type.elts} <= {'TypeError', 'ValueError'} and not s.finalbody and not s.orelse:
            return self.block(s.body, ind)          # arguments are of the stated types
        """try: statements whose only possible error is a missing key, except KeyError: handler"""
        if s.finalbody or s.orelse or len(s.handlers) != 1 or not (isinstance(s.handlers[0].type, ast.Name) and s.handlers[0].type.id == 'KeyError'):
            self.bad(s)

        def go(sts, i):
            if not sts:
                return []
            keys = [n for n in ast.walk(sts[0]) if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load) and self.ty(n.value) in (DICT, CH)]
            if isinstance(sts[0], (ast.For, ast.If, ast.While, ast.Try)):
                self.bad(sts[0], 'in try')
            if not keys:
                return self.stmt(sts[0], i) + go(sts[1:], i)
            c = ' || '.join('!(%s)' % self.member(self.ex(k.slice), k.value) for k in keys)
            return ['%sif (%s) {' % (i, c)] + self.scope(s.handlers[0].body, i + '  ') + [i + '} else {'] + self.stmt(sts[0], i + '  ') + go(sts[1:], i + '  ') + [i + '}']
        return go(s.body, ind)


def cython(text):
    """the Python part of a piece of Cython: declarations dropped, typed headers made plain"""
    import re
    out = []
    for line in text.split('\n'):
        m = re.match(r'^(\s*)(?:cdef|cpdef)\s+(.*)$', line)
        if m:
            ind, r = m.groups()
            c = re.match(r'class\s+(.*)$', r)
            f = re.match(r'(?:[\w\[\], ]+\s+)?(\w+)\((.*)\)\s*(?:except.*|noexcept)?:\s*$', r)
            a = re.match(r'[\w\[\],\* ]+?[\s\*](\w+)\s*=(?!=)\s*(.*)$', r)
            if c:
                line = ind + r
            elif f:
                ps = [re.sub(r'^.*[\s&\*](\w+)$', r'\1', p.strip()) for p in f.group(2).split(',')]
                line = '%sdef %s(%s):' % (ind, f.group(1), ', '.join(ps))
            elif a:
                line = '%s%s = %s' % (ind, a.group(1), a.group(2))
            elif re.match(r'vector\s*\[\s*int\s*\]\s+\w+\s*$', r):
                line = '%s%s = []' % (ind, r.split()[-1])
            else:
                line = ''
        line = re.sub(r'\braise\s+(\w+)\s*,.*$', r'raise \1', line)
        out.append(re.sub(r'<\s*\w+\s*>\s*(?=[\w(])', '', line) if '<' in line and '"' not in line else line)
    return '\n'.join(out)


def function(src_tree, name, types, codes, ctx, ret, extra='', cls=None, fields=None, mut=(), skip=()):
    """C++ text of one function"""
    nodes = src_tree.body
    if cls:
        c = [n for n in nodes if isinstance(n, ast.ClassDef) and n.name == cls]
        if not c:
            raise ExtractError('py2cxx: no class ' + cls)
        nodes = c[0].body
    f = [n for n in nodes if isinstance(n, ast.FunctionDef) and n.name == name]
    if len(f) != 1:
        raise ExtractError('py2cxx: no function ' + name)
    f = f[0]
    tr = Tr(types, codes, ctx, fields)
    ps = []
    for a in f.args.args:
        if cls and a.arg == 'self':
            continue
        if types.get(a.arg) == 'rng' or a.arg in skip:
            continue
        if a.arg not in types:
            raise ExtractError('py2cxx: parameter %s of %s' % (a.arg, name))
        tr.env[a.arg] = types[a.arg]
        t = types[a.arg]
        ps.append('%s v_%s' % (t if t in (INT, LONG, BOOL) else '%s%s &' % ('' if t in ('labeldict', 'input_graph') or a.arg in mut else 'const ', t), a.arg))
    if f.args.vararg or f.args.kwarg or f.args.kwonlyargs or f.decorator_list:
        raise ExtractError('py2cxx: signature of ' + name)

    class Typed(ast.NodeTransformer):
        """handlers of TypeError and ValueError go: the arguments are of the stated types"""
        def visit_Try(self, n):
            self.generic_visit(n)
            ts = [x for h in n.handlers for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if not n.finalbody and not n.orelse and all(isinstance(x, ast.Name) and x.id in ('TypeError', 'ValueError') for x in ts):
                return n.body
            return n
    f = Typed().visit(f)
    body = tr.block(f.body, '  ')
    return '%s %s(%s) {\n%s\n}\n' % (ret, name, ', '.join(([extra] if extra else []) + ps), '\n'.join(body))
