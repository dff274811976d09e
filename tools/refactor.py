"""Behaviour-preserving rewrites of /repo/simim, to try the checks on code that is only written differently.

    refactor.py KIND|all [CHECK ...]     applies a kind of rewrite to every module (one copy per kind) and runs the checks
    refactor.py KIND --split [CHECK ...] one copy per module

Development tool only; no registered check uses it."""
import ast, copy, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = '/repo'
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def name(i):
    return ast.Name(i, ast.Load())


def store(i):
    return ast.Name(i, ast.Store())


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, FN):
            yield n


def own(fn):
    """nodes of a function, nested functions excluded"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, FN + (ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(n))


def bodies(fn):
    for n in [fn] + list(own(fn)):
        for a in ('body', 'orelse', 'finalbody'):
            b = getattr(n, a, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not (n is not fn and isinstance(n, FN + (ast.ClassDef,))):
                yield b


class Kinds(object):
    def rename(self, tree):
        """local variables get other names"""
        for fn in functions(tree):
            inner = [n for n in ast.walk(fn) if isinstance(n, FN + (ast.Lambda,)) and n is not fn]
            used_inner = {x.id for f in inner for x in ast.walk(f) if isinstance(x, ast.Name)}
            glob = {x for n in own(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
            loc = {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
            ren = loc - params - glob - used_inner - {f.name for f in inner if isinstance(f, FN)}
            for n in own(fn):
                if isinstance(n, ast.Name) and n.id in ren:
                    n.id = n.id + '_v'
        return tree

    def temps(self, tree):
        """arguments and right-hand sides computed into variables first"""
        for fn in functions(tree):
            k = [0]
            for b in list(bodies(fn)):
                out = []
                for s in b:
                    if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and isinstance(s.value, (ast.Call, ast.BinOp)):
                        if isinstance(s.value, ast.Call):
                            c = s.value
                            if any(isinstance(x, ast.Starred) for x in c.args) or any(isinstance(x, (ast.Await, ast.Yield)) for x in ast.walk(c)):
                                out.append(s)
                                continue
                            for i, x in enumerate(c.args):
                                if isinstance(x, (ast.BinOp, ast.Call, ast.Subscript)):
                                    v = 'tmp_%d' % k[0]
                                    k[0] += 1
                                    out.append(ast.Assign([store(v)], x))
                                    c.args[i] = name(v)
                        v = 'tmp_%d' % k[0]
                        k[0] += 1
                        out.append(ast.Assign([store(v)], s.value))
                        s.value = name(v)
                    out.append(s)
                b[:] = out
        return tree

    def invert(self, tree):
        """if/else with the condition negated"""
        for n in ast.walk(tree):
            if isinstance(n, ast.If) and n.orelse:
                n.test = ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
            elif isinstance(n, ast.IfExp):
                n.test = ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
        return tree

    def guards(self, tree):
        """if c: raise/return; rest  ->  if not c: rest else: raise/return"""
        for fn in functions(tree):
            for b in list(bodies(fn)):
                for i, s in enumerate(b):
                    if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Raise, ast.Return)) and i + 1 < len(b):
                        rest = b[i + 1:]
                        s.test = ast.UnaryOp(ast.Not(), s.test)
                        s.orelse = s.body
                        s.body = rest
                        del b[i + 1:]
                        break
        return tree

    def ungu(self, tree):
        """else after a branch that leaves is dropped"""
        for fn in functions(tree):
            again = True
            while again:
                again = False
                for b in list(bodies(fn)):
                    for i, s in enumerate(b):
                        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Raise, ast.Return)):
                            b[i + 1:i + 1] = s.orelse
                            s.orelse = []
                            again = True
                            break
                    if again:
                        break
        return tree

    def swap(self, tree):
        """a*b -> b*a, a<b -> b>a"""
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        for n in ast.walk(tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.Tuple, ast.Constant)) and not (isinstance(x, ast.Constant) and isinstance(x.value, (int, float)))
                                                                                  for x in (n.left, n.right)):
                n.left, n.right = n.right, n.left
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in flip:
                n.left, n.comparators[0] = n.comparators[0], n.left
                n.ops[0] = flip[type(n.ops[0])]()
        return tree

    def demorgan(self, tree):
        class T(ast.NodeTransformer):
            def visit_If(self, n):
                self.generic_visit(n)
                if isinstance(n.test, ast.BoolOp):
                    op = ast.And() if isinstance(n.test.op, ast.Or) else ast.Or()
                    n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
                return n
        return T().visit(tree)

    def nest(self, tree):
        """if a and b: -> if a: if b:"""
        for n in ast.walk(tree):
            if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                first, rest = n.test.values[0], n.test.values[1:]
                n.test = first
                n.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])]
        return tree

    def nest_or(self, tree):
        """if a or b: raise -> if a: raise; if b: raise"""
        for fn in functions(tree):
            for b in list(bodies(fn)):
                out = []
                for s in b:
                    if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and len(s.body) == 1 and isinstance(s.body[0], ast.Raise):
                        for v in s.test.values:
                            out.append(ast.If(v, copy.deepcopy(s.body), []))
                    else:
                        out.append(s)
                b[:] = out
        return tree

    def comploop(self, tree):
        """x = [f(i) for i in y] -> loop with append"""
        for fn in functions(tree):
            for b in list(bodies(fn)):
                out = []
                for s in b:
                    c = s.value if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) else None
                    if isinstance(c, ast.ListComp) and len(c.generators) == 1 and s.targets[0].id not in {x.id for x in ast.walk(c) if isinstance(x, ast.Name)}:
                        g = c.generators[0]
                        mine = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                        inner = {id(x) for x in ast.walk(c)}
                        if any(isinstance(x, ast.Name) and x.id in mine and id(x) not in inner for x in ast.walk(fn)) or mine & {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}:
                            out.append(s)          # the loop variable of the comprehension is its own
                            continue
                        v = s.targets[0].id
                        body = [ast.Expr(ast.Call(ast.Attribute(name(v), 'append', ast.Load()), [c.elt], []))]
                        for t in g.ifs[::-1]:
                            body = [ast.If(t, body, [])]
                        out.append(ast.Assign([store(v)], ast.List([], ast.Load())))
                        out.append(ast.For(g.target, g.iter, body, []))
                    else:
                        out.append(s)
                b[:] = out
        return tree

    def helper(self, tree):
        """bodies of methods and functions moved to helpers"""
        def doit(body, method):
            out = []
            for n in body:
                if isinstance(n, ast.ClassDef):
                    n.body = doit(n.body, n.name + '_')
                if isinstance(n, FN) and not n.decorator_list and not (n.name.startswith('__') and n.name != '__init__') and not any(
                        isinstance(x, (ast.Yield, ast.YieldFrom)) or (isinstance(x, ast.Name) and x.id in ('super', 'locals')) for x in ast.walk(n)):
                    h = copy.deepcopy(n)
                    h.name = '_impl_' + (method or '') + n.name.strip('_')
                    doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
                    a = n.args
                    pos = [x.arg for x in a.posonlyargs + a.args]
                    h.args.defaults = []
                    h.args.kw_defaults = [None] * len(h.args.kwonlyargs)
                    call = ast.Call(ast.Attribute(name(pos[0]), h.name, ast.Load()) if method and pos else name(h.name),
                                    [name(x) for x in (pos[1:] if method else pos)] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                                    [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
                    if doc:
                        h.body = h.body[1:] or [ast.Pass()]
                    n.body = doc + [ast.Return(call)]
                    out.append(h)
                out.append(n)
            return out
        tree.body = doit(tree.body, '')
        return tree

    def keywords(self, tree):
        """positional arguments of constructors and functions of the same module passed by keyword"""
        sigs = {n.name: [x.arg for x in n.args.args] for n in tree.body if isinstance(n, FN) and not n.args.vararg and not n.args.posonlyargs}
        for c in ast.walk(tree):
            if isinstance(c, ast.ClassDef):
                ms = {n.name: [x.arg for x in n.args.args][1:] for n in c.body if isinstance(n, FN) and not n.args.vararg and not n.decorator_list}
                for n in ast.walk(c):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and n.func.attr in ms:
                        self.bykw(n, ms[n.func.attr])
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in sigs:
                self.bykw(c, sigs[c.func.id])
        return tree

    def bykw(self, n, params):
        if any(isinstance(x, ast.Starred) for x in n.args) or len(n.args) > len(params):
            return
        n.keywords = [ast.keyword(p, x) for p, x in zip(params, n.args)] + n.keywords
        n.args = []

    def enum(self, tree):
        """for i, x in enumerate(y) -> for i in range(len(y)): x = y[i]"""
        for fn in functions(tree):
            for n in own(fn):
                if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and isinstance(n.iter.args[0], ast.Name) \
                        and isinstance(n.target, ast.Tuple) and len(n.iter.args) == 1:
                    y = n.iter.args[0].id
                    if any(isinstance(x, ast.Name) and x.id == y and isinstance(x.ctx, ast.Store) for x in ast.walk(n)):
                        continue
                    i, x = n.target.elts
                    n.target = i
                    n.iter = ast.Call(name('range'), [ast.Call(name('len'), [name(y)], [])], [])
                    n.body.insert(0, ast.Assign([x], ast.Subscript(name(y), name(i.id), ast.Load())))
        return tree

    def whiles(self, tree):
        """for x in list -> counting while loop (no continue inside)"""
        for fn in functions(tree):
            k = 0
            for b in list(bodies(fn)):
                out = []
                for s in b:
                    if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) \
                            and not s.orelse and not any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(s)):
                        v = 'stop_%d' % k
                        k += 1
                        out.append(ast.Assign([store(v)], s.iter.args[0]))
                        out.append(ast.Assign([store(s.target.id)], ast.Constant(0)))
                        out.append(ast.While(ast.Compare(name(s.target.id), [ast.Lt()], [name(v)]), s.body + [ast.AugAssign(store(s.target.id), ast.Add(), ast.Constant(1))], []))
                    else:
                        out.append(s)
                b[:] = out
        return tree

    def ifexp(self, tree):
        """conditional expressions become statements"""
        for fn in functions(tree):
            for b in list(bodies(fn)):
                out = []
                for s in b:
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                        e = s.value
                        out.append(ast.If(e.test, [ast.Assign(copy.deepcopy(s.targets), e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)]))
                    else:
                        out.append(s)
                b[:] = out
        return tree

    def toifexp(self, tree):
        """if c: x = a else: x = b  ->  x = a if c else b"""
        for fn in functions(tree):
            for b in list(bodies(fn)):
                out = []
                for s in b:
                    if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                            and ast.dump(ast.Tuple(s.body[0].targets)) == ast.dump(ast.Tuple(s.orelse[0].targets)):
                        out.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
                    else:
                        out.append(s)
                b[:] = out
        return tree

    def selfalias(self, tree):
        """self attributes that a function only reads are read once into a local at the top"""
        for c in ast.walk(tree):
            if not isinstance(c, ast.ClassDef):
                continue
            for fn in c.body:
                if not isinstance(fn, ast.FunctionDef) or fn.decorator_list or fn.name == '__init__' or not fn.args.args or fn.args.args[0].arg != 'self':
                    continue
                if any(isinstance(n, ast.Call) for s in fn.body for n in ast.walk(s) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self'):
                    continue
                at = [n for s in fn.body for n in ast.walk(s) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self']
                w = {n.attr for n in at if not isinstance(n.ctx, ast.Load)}
                first = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                used = {n.attr for n in at} - w
                ok = set()
                if first:
                    ok = {n.attr for n in ast.walk(first[0]) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self'} & used

                class T(ast.NodeTransformer):
                    def visit_Attribute(self, n):
                        self.generic_visit(n)
                        if isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in ok:
                            return name('my_' + n.attr)
                        return n
                if ok:
                    i = fn.body.index(first[0])
                    fn.body = [T().visit(s) for s in fn.body]
                    fn.body[i:i] = [ast.Assign([store('my_' + a)], ast.Attribute(name('self'), a, ast.Load())) for a in sorted(ok)]
        return tree

    def extract(self, tree):
        """straight runs of assignments in the middle of a function moved to a helper that returns the variables"""
        def doit(body):
            out = []
            for n in body:
                if isinstance(n, ast.ClassDef):
                    n.body = doit_class(n.body)
                elif isinstance(n, FN) and not n.decorator_list:
                    out.extend(split(n))
                out.append(n)
            return out

        def doit_class(body):
            out = []
            for n in body:
                if isinstance(n, FN) and not n.decorator_list:
                    extra.extend(split(n))
                out.append(n)
            return out

        def split(fn):
            if any(isinstance(x, (ast.Yield, ast.Lambda, ast.Global, ast.Nonlocal)) or (isinstance(x, FN) and x is not fn) for x in ast.walk(fn)):
                return []
            loc = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)} | {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            defined = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
            made = []
            i = 0
            while i < len(fn.body):
                s = fn.body[i]
                if i > 0 and isinstance(s, (ast.If, ast.For)) and not any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) or (isinstance(x, ast.Name) and x.id == 'super') for x in ast.walk(s)):
                    st = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    comp = {x.id for c in ast.walk(s) if isinstance(c, ast.comprehension) for x in ast.walk(c.target) if isinstance(x, ast.Name)}
                    rd = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)} & loc
                    later = {x.id for y in fn.body[i + 1:] for x in ast.walk(y) if isinstance(x, ast.Name)}
                    ret = sorted((st - comp) & later)
                    need = sorted((rd & defined))
                    if (rd - defined - st) == set() and all(r in defined for r in ret) and len(made) < 3:
                        h = '_step_%s_%d_%d' % (fn.name.strip('_'), fn.lineno, i)
                        b = [s] + ([ast.Return(ast.Tuple([name(r) for r in ret], ast.Load()) if len(ret) > 1 else name(ret[0]))] if ret else [])
                        made.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), b, [], None))
                        call = ast.Call(name(h), [name(x) for x in need], [])
                        fn.body[i] = ast.Assign([ast.Tuple([store(r) for r in ret], ast.Store()) if len(ret) > 1 else store(ret[0])], call) if ret else ast.Expr(call)
                # certainly bound afterwards
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        defined |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                elif isinstance(s, ast.If) and s.orelse:
                    a = {x.id for y in s.body if isinstance(y, ast.Assign) for t in y.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    c = {x.id for y in s.orelse if isinstance(y, ast.Assign) for t in y.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                    defined |= a & c
                i += 1
            return made
        extra = []
        tree.body = doit(tree.body) + extra
        return tree

    def kwdict(self, tree):
        """dict literals as dict(...) calls"""
        class T(ast.NodeTransformer):
            def visit_Dict(self, n):
                self.generic_visit(n)
                if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
                    return ast.Call(name('dict'), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
                return n
        return T().visit(tree)

    def augment(self, tree):
        """numpy functions imported under another alias; range/sum unchanged"""
        imp = [n for n in tree.body if isinstance(n, ast.Import) and any(a.name == 'numpy' and a.asname == 'np' for a in n.names)]
        if not imp:
            return tree
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and n.id == 'np':
                n.id = 'numpy'
        for a in imp[0].names:
            if a.name == 'numpy':
                a.asname = None
        return tree

    def npmeth(self, tree):
        """np.sum(x) -> x.sum() style left alone; np.concatenate tuple -> list, tuple(..) of lists"""
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'concatenate' and n.args and isinstance(n.args[0], ast.Tuple):
                n.args[0] = ast.List(n.args[0].elts, ast.Load())
        return tree

    def asserts(self, tree):
        """a statement that does nothing at the start of every function"""
        for fn in functions(tree):
            doc = isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant)
            fn.body.insert(1 if doc else 0, ast.Pass())
            fn.body.insert(1 if doc else 0, ast.Assign([store('_unused')], ast.Constant(0)))
        return tree

    def unparse(self, tree):
        return tree

    def annotate(self, tree):
        """assignments to names carry annotations"""
        for fn in functions(tree):
            glob = {x for n in own(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
            for b in list(bodies(fn)):
                for i, s in enumerate(b):
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in glob:
                        b[i] = ast.AnnAssign(s.targets[0], ast.Constant('object'), s.value, 1)
        return tree

    def walrus(self, tree):
        """x = f(); if x: -> if (x := f()):"""
        for fn in functions(tree):
            for b in list(bodies(fn)):
                i = 0
                while i + 1 < len(b):
                    s, t = b[i], b[i + 1]
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, ast.If) and isinstance(t.test, (ast.Name, ast.Compare)):
                        first = t.test if isinstance(t.test, ast.Name) else t.test.left
                        if isinstance(first, ast.Name) and first.id == s.targets[0].id:
                            w = ast.NamedExpr(store(first.id), s.value)
                            if isinstance(t.test, ast.Name):
                                t.test = w
                            else:
                                t.test.left = w
                            del b[i]
                            continue
                    i += 1
        return tree

    def splitaug(self, tree):
        """x[i] += y -> x[i] = x[i] + y"""
        class T(ast.NodeTransformer):
            def visit_AugAssign(self, n):
                if isinstance(n.target, ast.Subscript) and not any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(n.target)):
                    l = copy.deepcopy(n.target)
                    l.ctx = ast.Load()
                    return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
                return n
        return T().visit(tree)

    def tuples(self, tree):
        """consecutive independent assignments of names become a tuple assignment"""
        for fn in functions(tree):
            for b in list(bodies(fn)):
                i = 0
                while i + 1 < len(b):
                    s, t = b[i], b[i + 1]
                    if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and not any(isinstance(y, ast.Call) for y in ast.walk(x)) for x in (s, t)) \
                            and s.targets[0].id not in {y.id for y in ast.walk(t) if isinstance(y, ast.Name)}:
                        b[i] = ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], ast.Store())], ast.Tuple([s.value, t.value], ast.Load()))
                        del b[i + 1]
                    i += 1
        return tree

    def retvar(self, tree):
        """every return goes through a variable"""
        for fn in functions(tree):
            for b in list(bodies(fn)):
                out = []
                for s in b:
                    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Name):
                        out.append(ast.Assign([store('outcome')], s.value))
                        s = ast.Return(name('outcome'))
                    out.append(s)
                b[:] = out
        return tree


def variant(kind, dest, only=None):
    shutil.copytree(os.path.join(ROOT, 'simim'), os.path.join(dest, 'simim'), ignore=shutil.ignore_patterns('__pycache__'))
    changed = 0
    for d, _, fs in os.walk(os.path.join(dest, 'simim')):
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith('.py') or (only and not p.endswith(only)):
                continue
            src = open(p).read()
            t = ast.parse(src)
            before = ast.unparse(t)
            t = ast.fix_missing_locations(getattr(Kinds(), kind)(t))
            new = ast.unparse(t)
            compile(new, p, 'exec')
            if new != before or kind == 'unparse':
                changed += 1
                open(p, 'w').write(new + '\n')
    return changed


def run(kind, dest, pid):
    try:
        r = subprocess.run([sys.executable, os.path.join(V, 'sa', 'check.py'), pid], env=dict(os.environ, SIMIM_REPO=dest), capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return kind, pid, 'TIMEOUT', ''
    lines = [l for l in r.stdout.split('\n') if l.startswith('simim/') or 'BROKEN' in l]
    return kind, pid, r.returncode, '\n      '.join(l[:260] for l in lines[:4]) or r.stderr[-400:]


def main(args):
    kinds = [k for k in dir(Kinds) if not k.startswith('_') and k not in ('bykw',)] if args[0] == 'all' else args[0].split(',')
    split = '--split' in args
    pids = [a for a in args[1:] if not a.startswith('--')] or sorted(f[:-3] for f in os.listdir(os.path.join(V, 'sa', 'props')) if f[0].isupper() and f.endswith('.py'))
    base = __import__('tempfile').mkdtemp(prefix='refac')
    jobs = []
    for k in kinds:
        mods = [None]
        if split:
            mods = [os.path.join(os.path.relpath(d, ROOT), f) for d, _, fs in os.walk(os.path.join(ROOT, 'simim')) for f in fs if f.endswith('.py')]
        for i, m in enumerate(mods):
            dest = os.path.join(base, '%s-%d' % (k, i))
            if variant(k, dest, m):
                jobs += [(k if m is None else k + ' ' + m, dest, p) for p in pids]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for k, p, rc, out in ex.map(lambda j: run(*j), jobs):
            if rc != 0:
                bad += 1
                print('%-12s %s exit %s\n      %s' % (k, p, rc, out), flush=True)
    shutil.rmtree(base, ignore_errors=True)
    print('%d runs, %d not quiet' % (len(jobs), bad))


if __name__ == '__main__':
    main(sys.argv[1:])
