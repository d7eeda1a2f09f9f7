"""Front end: obtains the clang AST of the code in /repo (re-run on every check) and indexes it.

Nothing is transcribed by hand: the functions verified are the AST nodes that clang builds
from /repo's current headers / C sources through a driver translation unit whose only own
content is #include lines and explicit template instantiations."""
import json, subprocess, os, hashlib, re, sys, tempfile

FUNC_KINDS = ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


class ExtractError(Exception):
    pass


def run_clang(src_text, lang, includes, filters, defines=(), std=None, workdir=None):
    wd = workdir or tempfile.mkdtemp(prefix='cvx')
    ext = 'cpp' if lang == 'c++' else 'c'
    path = os.path.join(wd, 'driver.' + ext)
    with open(path, 'w') as f:
        f.write(src_text)
    outs = []
    for flt in filters:
        cmd = ['clang++' if lang == 'c++' else 'clang', '-std=' + (std or ('c++17' if lang == 'c++' else 'c11')),
               '-w', '-Wno-non-pod-varargs', '-fsyntax-only'] + (['-fno-access-control'] if lang == 'c++' else []) + [ '-Xclang', '-ast-dump=json']
        if flt:
            cmd += ['-Xclang', '-ast-dump-filter=' + flt]
        cmd += ['-I' + i for i in includes] + ['-D' + d for d in defines] + [path]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise ExtractError('clang failed on the driver TU: ' + p.stderr[:2000])
        outs.append(p.stdout)
    return outs


def parse_concat(s):
    d = json.JSONDecoder()
    i, n, roots = 0, len(s), []
    while True:
        while i < n and s[i] in ' \r\n\t':
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        roots.append(o)
    return roots


def strip_targs(name):
    out, depth = [], 0
    for ch in name:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return ''.join(out)


def mangle(name, targs):
    """name of one instantiation of a class template whose instantiations are kept apart"""
    t = '_'.join(targs)
    t = re.sub(r'\ballocator<\w+>', '', re.sub(r'\b(std::|const\b|class |struct )', '', t))
    return name + '_' + re.sub(r'\W+', '_', t.replace('*', 'ptr').replace(' ', '')).strip('_')


class Func:
    def __init__(self, node, cls, name, file):
        self.node, self.cls, self.name, self.file = node, cls, name, file
        self.qname = (cls + '::' if cls else '') + name
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = None
        for c in node.get('inner', []):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                self.body = c
        self.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        self.type = node.get('type', {}).get('qualType', '')
        self.id = node['id']
        self.line = None
        self.clsobj = None
        self.static = node.get('storageClass') == 'static'
        self.targs = ','.join((c.get('type') or {}).get('desugaredQualType') or (c.get('type') or {}).get('qualType', str(c.get('value', '')))
                              for c in node.get('inner', []) if c.get('kind') == 'TemplateArgument')

    def ptypes(self):
        return [tstr(p.get('type', {})) for p in self.params]

    def sig(self):
        return self.qname + '(' + ','.join(re.sub(r'\b(std|find_embedding|busclique)::', '', t).replace(' ', '')
                                             for t in self.ptypes()) + ')'


def tstr(t):
    return t.get('desugaredQualType') or t.get('qualType', '')


class Record:
    def __init__(self, name, full, node):
        self.name, self.full, self.node = name, full, node
        self.fields = []          # (name, typestr, node)
        self.bases = []
        self.id = node['id']


class Program:
    """Index over AST roots."""

    def __init__(self, inst=None, split=()):
        self.split = split     # class templates whose instantiations are different records
        self.funcs = {}       # id -> Func
        self.byname = {}      # qname -> [Func]
        self.records = {}     # stripped name -> [Record]
        self.recid = {}
        self.vars = {}        # id -> VarDecl node (namespace / static)
        self.enums = {}       # enumerator id -> int value
        self.inst = inst or {}
        self.nodes = 0
        self.prev = {}
        self.typedefs = {}

    def load(self, roots):
        self._file = None
        for r in roots:
            self._visit(r, None, False)

    # -- traversal -------------------------------------------------------
    def _loc(self, n):
        for l in (n.get('loc', {}), n.get('range', {}).get('begin', {})):
            if 'expansionLoc' in l:
                l = l['expansionLoc']
            if 'file' in l:
                self._file = l['file']

    def _visit(self, n, cls, dependent):
        k = n.get('kind')
        if not k:
            return
        self._loc(n)
        if k in ('NamespaceDecl', 'TranslationUnitDecl', 'LinkageSpecDecl'):
            for c in n.get('inner', []):
                self._visit(c, cls, dependent)
        elif k == 'ClassTemplateDecl':
            self._tpn = [c.get('name') for c in n.get('inner', []) if c.get('kind', '').startswith('Template') and c['kind'].endswith('ParmDecl')]
            for c in n.get('inner', []):
                ck = c.get('kind')
                if ck == 'CXXRecordDecl':
                    continue
                if ck == 'ClassTemplateSpecializationDecl':
                    self._visit(c, cls, dependent)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'RecordDecl',
                   'ClassTemplatePartialSpecializationDecl'):
            if k == 'ClassTemplatePartialSpecializationDecl':
                return
            if not n.get('completeDefinition') and 'inner' not in n:
                return
            name = n.get('name') or ''
            if k == 'ClassTemplateSpecializationDecl':
                targs = [self._targ(c) for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument']
                full = name + '<' + ', '.join(targs) + '>'
                want = self.inst.get(name)
                if want and not all(w in full for w in ([want] if isinstance(want, str) else want)):
                    for c in n.get('inner', []):
                        self._visit_foreign(c)
                    return
                tmap = dict(zip(getattr(self, '_tpn', []), targs))
                if name in self.split:
                    name = mangle(name, targs)
            else:
                full, tmap = name, {}
            rec = Record(name, full, n)
            otm, self._tmap = getattr(self, '_tmap', {}), tmap
            if n.get('completeDefinition'):
                for c in n.get('inner', []):
                    if c.get('kind') == 'FieldDecl':
                        rec.fields.append((c.get('name'), tstr(c['type']), c))
                for b in n.get('bases', []):
                    rec.bases.append(tstr(b['type']))
                if rec.id not in self.recid:
                    self.records.setdefault(name, []).append(rec)
                    self.recid[rec.id] = rec
            for c in n.get('inner', []):
                self._visit(c, name, dependent)
            self._tmap = otm
        elif k == 'FunctionTemplateDecl':
            first = True
            self._ftpn = [c.get('name') for c in n.get('inner', []) if c.get('kind', '').startswith('Template') and c['kind'].endswith('ParmDecl')]
            for c in n.get('inner', []):
                if c.get('kind') in FUNC_KINDS:
                    if first:
                        first = False
                        continue
                    self._visit(c, cls, dependent)
        elif k in FUNC_KINDS:
            nm = n.get('name', '')
            if cls and k == 'CXXConstructorDecl' and nm in self.split:
                nm = cls
            f = Func(n, cls, nm, self._file)
            f.tmap = dict(getattr(self, '_tmap', {}))
            ta = [self._targ(c) for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument']
            if ta:
                f.tmap.update(zip(getattr(self, '_ftpn', []), ta))
            l = n.get('loc', {})
            if 'expansionLoc' in l:
                l = l['expansionLoc']
            f.line = l.get('line')
            old = self.funcs.get(f.id)
            if old is None or (old.body is None and f.body is not None):
                self.funcs[f.id] = f
                lst = self.byname.setdefault(f.qname, [])
                lst[:] = [g for g in lst if g.id != f.id]
                lst.append(f)
                if 'previousDecl' in n:
                    self.prev[n['previousDecl']] = f.id
                    p = self.funcs.get(n['previousDecl'])
                    if p is not None and f.body is not None and p.body is None:
                        f.cls = f.cls or p.cls
                        f.qname = p.qname
                        self.byname.setdefault(p.qname, []).append(f)
                        self.byname[p.qname] = [g for g in self.byname[p.qname] if g.id != p.id]
                        self.funcs[p.id] = f
        elif k == 'VarDecl':
            self.vars[n['id']] = n
        elif k == 'EnumDecl':
            v = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    ex = find_value(c)
                    v = int(ex) if ex is not None else v + 1
                    self.enums[c['id']] = v
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            if n.get('name'):
                self.typedefs[n['name']] = tstr(n.get('type', {}))

    def _visit_foreign(self, c):
        """members of an unwanted instantiation: do not index by name"""
        return

    def _targ(self, c):
        if 'type' in c:
            return c['type'].get('qualType', '?')
        if 'value' in c:
            return str(c['value'])
        return '?'

    def find(self, key):
        """key: 'cls::name', or with '(sig)'"""
        if '(' in key and not key.startswith('operator') and '::operator()' not in key:
            base = key[:key.index('(')] if '::operator' not in key else key[:key.rindex('(')]
            want = re.sub(r'\s', '', key)
            c = [f for f in self.byname.get(base, []) if f.sig() == want]
            return [f for f in c if f.body is not None] or c
        if '<' in key and key.endswith('>') and key not in self.byname:     # one instantiation: 'cls::f<text in its template arguments>'
            base, t = key[:-1].split('<', 1)
            return [f for f in self.byname.get(base, []) if f.body is not None and t in f.targs]
        return [f for f in self.byname.get(key, []) if f.body is not None]


def find_value(n):
    if 'value' in n:
        return n['value']
    for c in n.get('inner', []):
        v = find_value(c)
        if v is not None:
            return v
    return None


def load_program(src_text, lang='c++', includes=('/repo/include',), filters=('',), inst=None, defines=(), split=()):
    import shutil
    wd = tempfile.mkdtemp(prefix='cvx')
    try:
        outs = run_clang(src_text, lang, includes, filters, defines, workdir=wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    pr = Program(inst, split)
    for o in outs:
        pr.load(parse_concat(o))
    return pr
