"""Resolved program model of /repo/simim: modules, classes, MRO, imports."""
import ast
import hashlib
import os
import sys

REPO = os.environ.get('SIMIM_REPO', '/repo')
PKG = 'simim'


class AnalysisBroken(Exception):
    """an anchor vanished / the analysis cannot give an answer"""


class Func(object):
    def __init__(self, qual, node, module, cls=None, outer=None):
        self.qual, self.node, self.module, self.cls, self.outer = qual, node, module, cls, outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        a = node.args
        self.posparams = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            self.defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[p.arg] = d
        decs = getattr(node, 'decorator_list', [])
        self.static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in decs)
        self.classm = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in decs)
        self.property = any(isinstance(d, ast.Name) and d.id == 'property' for d in decs)

    @property
    def params(self):
        return self.posparams + self.kwonly

    def __repr__(self):
        return '<Func %s>' % self.qual


class Class(object):
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module, self.name = qual, node, module, node.name
        self.methods, self.attrs, self.bases = {}, {}, []

    def __repr__(self):
        return '<Class %s>' % self.qual


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = {}      # top-level name -> ('func',F)/('cls',C)/('var',node)/('imp',dotted)
        self.lines = src.splitlines()


def normalise(tree):
    """spellings of the same control flow brought to one form: nested conditions joined, counting while loops as for loops"""
    for n in ast.walk(tree):
        if isinstance(n, ast.If):
            while not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
                i = n.body[0]
                a = n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) else [n.test]
                b = i.test.values if isinstance(i.test, ast.BoolOp) and isinstance(i.test.op, ast.And) else [i.test]
                n.test = ast.copy_location(ast.BoolOp(ast.And(), list(a) + list(b)), n.test)
                n.body = i.body
        for a in ('body', 'orelse', 'finalbody'):
            b = getattr(n, a, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, ast.While):
                        b[k] = counting(s, b[:k])
    return ast.fix_missing_locations(tree)


def counting(w, before):
    """while i < n: ...; i += 1  as  for i in range(i, n): ..., when nothing else decides the number of turns"""
    t = w.test
    if w.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return w
    l, op, r = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, ast.Gt):
        l, op, r = r, ast.Lt(), l
    if not isinstance(op, (ast.Lt, ast.NotEq)) or not isinstance(l, ast.Name) or len(w.body) < 2:
        return w
    i, last = l.id, w.body[-1]
    up = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.value, ast.Constant) and last.value.value == 1
    if isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add):
        x, y = last.value.left, last.value.right
        if isinstance(x, ast.Constant):
            x, y = y, x
        up = isinstance(x, ast.Name) and x.id == i and isinstance(y, ast.Constant) and y.value == 1
    if not up:
        return w
    body = w.body[:-1]
    own = {id(x) for s in body for c in ast.walk(s) if isinstance(c, ast.comprehension) for x in ast.walk(c.target)}
    stored = {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and id(x) not in own}
    if i in stored or stored & {x.id for x in ast.walk(r) if isinstance(x, ast.Name)} or any(isinstance(x, (ast.Continue, ast.FunctionDef, ast.Lambda)) for s in body for x in ast.walk(s)):
        return w
    if any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == 'len') or isinstance(x, ast.Attribute) and not isinstance(x.value, ast.Name) for x in ast.walk(r)):
        return w
    grown = {x.func.value.id for s in body for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)}
    grown |= {x.value.id for s in body for x in ast.walk(s) if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name)}
    if grown & {x.id for x in ast.walk(r) if isinstance(x, ast.Name)} - {'self', 'np'}:
        return w
    start = [ast.copy_location(ast.Name(i, ast.Load()), w)]
    for s in before[::-1]:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i:
            if isinstance(s.value, ast.Constant) and s.value.value == 0:
                start = []
            break
    f = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name('range', ast.Load()), start + [r], []), body, [])
    return ast.copy_location(f, w)


class Program(object):
    def __init__(self, repo=None, pkg=PKG):
        self.repo = repo or REPO
        self.modules, self.funcs, self.classes = {}, {}, {}
        root = os.path.join(self.repo, pkg)
        if not os.path.isdir(root):
            raise AnalysisBroken('package directory %s not found' % root)
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, '.')
                pkgflag = rel.endswith('.__init__')
                if pkgflag:
                    rel = rel[:-9]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = normalise(ast.parse(src, p))
                except SyntaxError as e:
                    raise AnalysisBroken('%s does not parse: %s' % (p, e))
                m = Module(rel, os.path.relpath(p, self.repo), tree, src)
                m.is_pkg = pkgflag
                self.modules[rel] = m
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            self._stars(m)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                c.bases.append(r[1] if r and r[0] == 'cls' else (r[1] if r else ast.dump(b)))

    # ---- indexing
    def _index(self, m):
        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m.name + '.' + s.name, s, m)
                    self.funcs[f.qual] = f
                    m.names[s.name] = ('func', f)
                elif isinstance(s, ast.ClassDef):
                    c = Class(m.name + '.' + s.name, s, m)
                    self.classes[c.qual] = c
                    m.names[s.name] = ('cls', c)
                    for x in s.body:
                        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            f = Func(c.qual + '.' + x.name, x, m, c)
                            self.funcs[f.qual] = f
                            c.methods[x.name] = f
                        elif isinstance(x, ast.Assign):
                            for t in x.targets:
                                if isinstance(t, ast.Name):
                                    c.attrs[t.id] = x.value
                        elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
                            c.attrs[x.target.id] = x.value
                elif isinstance(s, ast.Import):
                    for al in s.names:
                        if al.asname:
                            m.names[al.asname] = ('imp', al.name)
                        else:
                            m.names[al.name.split('.')[0]] = ('imp', al.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    base = self._from(m, s)
                    for al in s.names:
                        if al.name == '*':
                            m.__dict__.setdefault('stars', []).append(base)
                        else:
                            m.names[al.asname or al.name] = ('imp', base + '.' + al.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                m.names[n.id] = ('var', s)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.names[s.target.id] = ('var', s)
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        body(getattr(s, fld, []))
                    for h in getattr(s, 'handlers', []):
                        body(h.body)
                    if isinstance(s, ast.For):
                        for n in ast.walk(s.target):
                            if isinstance(n, ast.Name):
                                m.names[n.id] = ('var', s)
        body(m.tree.body)

    def _from(self, m, s):
        base = s.module or ''
        if s.level:
            parts = m.name.split('.')
            if not m.is_pkg:
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([base] if base else []))
        return base

    def _stars(self, m, seen=None):
        for base in getattr(m, 'stars', []):
            if base in self.modules:
                src = self.modules[base]
                if src is not m and getattr(src, 'stars', None) and not getattr(src, '_starred', False):
                    self._stars(src)
                for k, v in src.names.items():
                    if not k.startswith('_'):
                        m.names.setdefault(k, v)
        m._starred = True

    # ---- resolution
    def resolve_name(self, m, name):
        """-> ('func',F) ('cls',C) ('mod',M) ('ext',dotted) ('var',module,name) or None"""
        e = m.names.get(name)
        if e is None:
            return None
        if e[0] in ('func', 'cls'):
            return e
        if e[0] == 'var':
            return ('var', m, name)
        return self.resolve_dotted(e[1])

    def resolve_dotted(self, d, depth=0):
        if depth > 10:
            return None
        if d in self.modules:
            return ('mod', self.modules[d])
        if not (d == PKG or d.startswith(PKG + '.')):
            return ('ext', d)
        if d in self.funcs:
            return ('func', self.funcs[d])
        if d in self.classes:
            return ('cls', self.classes[d])
        if '.' in d:
            b, n = d.rsplit('.', 1)
            r = self.resolve_dotted(b, depth + 1)
            if r and r[0] == 'mod':
                return self.resolve_in_module(r[1], n, depth)
        return None

    def resolve_in_module(self, mod, n, depth=0):
        if mod.name + '.' + n in self.modules and n not in mod.names:
            return ('mod', self.modules[mod.name + '.' + n])
        e = mod.names.get(n)
        if e is None:
            return None
        if e[0] in ('func', 'cls'):
            return e
        if e[0] == 'var':
            # the module that owns the variable
            return ('var', mod, n)
        if e[1] == mod.name + '.' + n:
            return ('mod', self.modules[e[1]]) if e[1] in self.modules else None
        return self.resolve_dotted(e[1], depth + 1)

    def resolve_expr(self, m, node):
        if isinstance(node, ast.Name):
            return self.resolve_name(m, node.id)
        if isinstance(node, ast.Attribute):
            r = self.resolve_expr(m, node.value)
            if r is None:
                return None
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + node.attr)
            if r[0] == 'mod':
                return self.resolve_in_module(r[1], node.attr)
            if r[0] == 'cls':
                f = self.lookup(r[1], node.attr)
                return ('func', f) if f else None
        return None

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if isinstance(x, Class):
                if x in out:
                    continue
                out.append(x)
                todo = [b for b in x.bases] + todo
        return out

    def lookup(self, c, name):
        for x in self.mro(c):
            if name in x.methods:
                return x.methods[name]
        return None

    def lookup_attr(self, c, name):
        for x in self.mro(c):
            if name in x.attrs:
                return x, x.attrs[name]
        return None

    def subclasses(self, c):
        return [x for x in self.classes.values() if c in self.mro(x)]

    def cls(self, name):
        c = [x for x in self.classes.values() if x.qual == name or x.name == name]
        if len(c) != 1:
            raise AnalysisBroken('class %s: %d definitions found' % (name, len(c)))
        return c[0]

    def func(self, qual):
        if qual in self.funcs:
            return self.funcs[qual]
        c = [f for f in self.funcs.values() if f.qual.endswith('.' + qual)]
        if len(c) != 1:
            # inherited method  Class.method
            if '.' in qual:
                cn, mn = qual.rsplit('.', 1)
                k = [x for x in self.classes.values() if x.name == cn]
                if len(k) == 1:
                    f = self.lookup(k[0], mn)
                    if f:
                        return f
            raise AnalysisBroken('function %s: %d definitions found' % (qual, len(c)))
        return c[0]

    def client(self, name, src):
        """a user's module, analysed together with the package -> Module"""
        m = Module('client_' + name, 'client_%s.py' % name, normalise(ast.parse(src)), src)
        m.is_pkg = False
        self.modules[m.name] = m
        self._index(m)
        self._stars(m)
        return m

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode() + b'\0' + self.modules[n].src.encode() + b'\0')
        return h.hexdigest()
