"""Interprocedural, flow-sensitive value-flow analysis over the syntax tree.

Abstract interpretation: every variable / attribute holds a term (terms.py)
saying which sources it is computed from.  Branches are analysed separately and
joined with gated phis, loops are analysed once with their element symbolic,
calls to functions of the repository are inlined (bounded, by a predicate) so a
helper extracted from - or folded into - a function makes no difference.
Effects (stores, calls, raises, mutations) are recorded in order, each with the
conditions that guard it.  Nothing is executed and no solver is consulted.
"""
import ast
from terms import (T, mk, K, NONE, TRUE, FALSE, is_const, const, subst, find, subterms, show)
import vec as vecs
from literal import fold_ext, fold_method, fold_bin, fold_cmp
from program import AnalysisBroken, Class

MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'update', 'sort',
            'reverse', 'setdefault', 'add', 'discard', 'fill', 'resize', 'put', 'itemset', 'partition',
            'setflags', 'byteswap'}
# ext functions that mutate their first argument
EXT_MUTATORS = {'numpy.add.at': 0, 'numpy.subtract.at': 0, 'numpy.multiply.at': 0, 'numpy.put': 0,
                'numpy.copyto': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0,
                'numpy.random.shuffle': 0, 'random.shuffle': 0, 'numpy.maximum.at': 0, 'numpy.minimum.at': 0,
                'numpy.put_along_axis': 0}
BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<',
          ast.RShift: '>>', ast.MatMult: '@'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


class Ev(object):
    """one recorded effect"""
    def __init__(self, kind, node, func, guards, stack, **kw):
        self.kind, self.node, self.func, self.guards, self.stack = kind, node, func, guards, stack
        self.__dict__.update(kw)

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    @property
    def where(self):
        return '%s:%s %s' % (self.func.module.path, self.line, self.func.qual)

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ('kind', 'node', 'func', 'guards', 'stack')}
        return '<%s %s @%s>' % (self.kind, ' '.join('%s=%s' % (k, show(v) if isinstance(v, T) else v) for k, v in d.items()), self.where)


class Exit(object):
    def __init__(self, kind, value, state, node, guards):
        self.kind, self.value, self.state, self.node, self.guards = kind, value, state, node, guards


class State(object):
    __slots__ = ('frames', 'heap', 'store', 'guards', 'last')

    def __init__(self):
        self.frames, self.heap, self.store, self.guards = {}, {}, {}, ()
        self.last = 0    # guards below this index were established before the innermost branch

    def fork(self):
        s = State()
        s.frames = {k: (p, dict(e)) for k, (p, e) in self.frames.items()}
        s.heap = dict(self.heap)
        s.store = dict(self.store)
        s.guards = self.guards
        s.last = self.last
        return s


class Result(object):
    def __init__(self, interp, func, events, exits):
        self.interp, self.func, self.events, self.exits = interp, func, events, exits

    def ev(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def returns(self):
        return [x for x in self.exits if x.kind in ('return', 'fall')]

    def raises(self):
        return [x for x in self.exits if x.kind == 'raise']


def truth(c):
    """-> list of (term, polarity) conjuncts equivalent to c being true, normalised"""
    return conj(c, True)


def conj(c, pol):
    if c.op == 'not':
        return conj(c.a[0], not pol)
    if c.op == 'and' and pol:
        return [x for y in c.a for x in conj(y, True)]
    if c.op == 'or' and not pol:
        return [x for y in c.a for x in conj(y, False)]
    if c.op == 'call' and c.a[0].op == 'ext' and c.a[0].a[0] in ('builtins.bool',) and len(c.a[1]) == 1:
        return conj(c.a[1][0], pol)
    return [(c, pol)]


def mkcmp(op, a, b):
    if op == '!=':
        return mknot(mkcmp('==', a, b))
    if op == 'is not':
        return mknot(mkcmp('is', a, b))
    if op == 'not in':
        return mknot(mkcmp('in', a, b))
    if op == '>':
        return mkcmp('<', b, a)
    if op == '>=':
        return mkcmp('<=', b, a)
    if op == '==' and b is NONE:
        op = 'is'
    if a.op == 'const' and b.op == 'const':
        try:
            x, y = a.a[0], b.a[0]
            if op == 'is':
                if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
                    return K(x is y)
            else:
                return K({'==': lambda: x == y, '<': lambda: x < y, '<=': lambda: x <= y,
                          'in': lambda: x in y}[op]())
        except Exception:
            pass
    if op == 'is' and b is NONE and nonnull(a):
        return FALSE
    if op == 'is' and 'obj' in (a.op, b.op) and a.op in ('obj', 'new', 'param', 'func', 'cls') and b.op in ('obj', 'new', 'param', 'func', 'cls'):
        return K(a is b)         # an object the analysis was told is distinct from the others
    if op == 'in' and b.op in ('list', 'tuple', 'set') and a.op == 'const' and all(x.op == 'const' for x in b.a):
        return K(any(type(x.a[0]) == type(a.a[0]) and x.a[0] == a.a[0] for x in b.a))
    f = fold_cmp(op, a, b)
    if f is not None:
        return K(f)
    if op == '==' and a.op == 'const' and b.op != 'const':
        a, b = b, a
    if op == '==' and b.op == 'const' and a.op in ('list', 'tuple', 'dict', 'set'):
        return FALSE
    return mk('cmp', op, a, b)


def nonnull(t):
    return t.op in ('list', 'tuple', 'dict', 'set', 'comp', 'new', 'bin', 'func', 'cls', 'ext', 'lambda', 'upd', 'app', 'fstr', 'obj') or \
        (t.op == 'const' and t.a[0] is not None) or \
        (t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0].startswith('numpy.'))


def mknot(c):
    if c.op == 'not':
        return c.a[0]
    if c.op == 'const':
        return K(not c.a[0])
    return mk('not', c)


def private(qual):
    n = qual.rsplit('.', 1)[-1]
    return n.startswith('_') and not n.startswith('__')


class Loop(object):
    def __init__(self):
        self.breaks, self.continues = [], []


class Ctx(object):
    """per inlined call"""
    def __init__(self, func, fid, stack, selfcls=None):
        self.func, self.fid, self.stack, self.selfcls = func, fid, stack, selfcls
        self.exits = []
        self.loops = []


class Interp(object):
    """inline(caller Func, callee Func) -> bool says which repository calls are opened"""

    def __init__(self, prog, inline=None, depth=8, types=None, unroll=16, consts=True, ret_types=None,
                 attr_types=None):
        self.p, self.depth, self.unroll = prog, depth, unroll
        self.inline = inline or (lambda a, b: a.module is b.module)
        self.types = types or {}
        self.events, self.nloc, self.nfid, self.nalloc = [], 0, 0, 0
        self.lambdas = {}
        self.modvars = {}
        self.ret_types = ret_types or {}
        self.attr_types = attr_types or {}
        self.budget = 400000
        self.tempguards = 0
        self.preset = {}     # attribute values of outside objects {(object, attribute): term}
        self.vec = False     # follow one-dimensional arrays of known length entry by entry
        self.watch = ()      # names of functions whose calls record the state they are made in
        self.host = None     # model of outside storage (store.Store)
        self.exact = False   # errors are exactly those raised in the code or by fail; handlers start where they were raised
        self.fail = None     # fail(name, args): the call ends with an error
        self.models = {}     # what an outside callable returns: {(receiver or None, method) or callable term: f(args, kws)}

    # ------------------------------------------------------------ helpers
    def newloc(self, st, term):
        self.nloc += 1
        st.store[self.nloc] = term
        return self.nloc

    def typeof(self, t):
        """Class of the object a term denotes, or None"""
        if t.op == 'new':
            return self.p.classes.get(t.a[1])
        if t.op in ('param', 'obj'):
            q = self.types.get(t.a[0])
            return self.p.cls(q) if q else None
        if t.op == 'attr':
            q = self.attr_types.get(t.a[1])
            return self.p.cls(q) if q else None
        if t.op == 'phi':
            a, b = self.typeof(t.a[1]), self.typeof(t.a[2])
            if a is b:
                return a
            return a if t.a[2] is NONE else b if t.a[1] is NONE else None
        if t.op == 'call' and t.a[0].op == 'bm':
            q = self.ret_types.get(t.a[0].a[0])
            if q == 'self':
                return self.typeof(t.a[0].a[1])
            if q:
                return self.p.cls(q)
            f = self.p.funcs.get(t.a[0].a[0])
            return self.rettype(f)
        if t.op == 'call' and t.a[0].op == 'func':
            return self.rettype(self.p.funcs.get(t.a[0].a[0]))
        if t.op == 'call' and t.a[0].op == 'cls':
            return self.p.classes.get(t.a[0].a[0])
        if t.op in ('mu', 'loop'):
            return self.typeof(t.a[2])
        if t.op == 'typed':
            return self.p.classes.get(t.a[1])
        return None

    def rettype(self, f, depth=0):
        """class returned by f, from its return statements (all must agree)"""
        if f is None or depth > 3:
            return None
        cache = self.p.__dict__.setdefault('_rettypes', {})
        if f.qual in cache:
            return cache[f.qual]
        cache[f.qual] = None
        found = set()
        assigned = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                assigned.setdefault(n.targets[0].id, []).append(n.value)

        def cls_of(e, d=0):
            if isinstance(e, ast.Call):
                r = self.p.resolve_expr(f.module, e.func)
                if r and r[0] == 'cls':
                    return r[1]
                if r and r[0] == 'func':
                    return self.rettype(r[1], depth + 1)
                if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and f.cls and \
                        f.posparams and e.func.value.id == f.posparams[0]:
                    g = self.p.lookup(f.cls, e.func.attr)
                    return self.rettype(g, depth + 1) if g else None
            if isinstance(e, ast.Name):
                if f.cls and f.posparams and e.id == f.posparams[0]:
                    return f.cls
                if e.id in assigned and d < 3:
                    s = {cls_of(x, d + 1) for x in assigned[e.id]}
                    return s.pop() if len(s) == 1 else None
            return None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                found.add(cls_of(n.value))
        r = found.pop() if len(found) == 1 else None
        cache[f.qual] = r
        return r

    def emit(self, ctx, st, kind, node, **kw):
        e = Ev(kind, node, ctx.func, st.guards, ctx.stack, **kw)
        e.seq = len(self.events)
        e.last = st.last
        self.events.append(e)
        return e

    # ------------------------------------------------------------ entry
    def run(self, func, bind=None, selfcls=None, heap=None, guards=()):
        """analyse func as an entry point; bind: param -> Term; heap: self attribute -> Term"""
        bind = dict(bind or {})
        st = State()
        st.guards = tuple(guards)
        ctx = self.frame(st, func, None, ())
        if func.cls and not func.static and func.posparams and func.posparams[0] not in bind:
            s = func.posparams[0]
            bind[s] = mk('param', s)
            self.types.setdefault(s, (selfcls or func.cls).qual)
        env = st.frames[ctx.fid][1]
        for p in func.params:
            env[p] = self.newloc(st, bind.get(p, mk('param', p)))
        if func.vararg:
            env[func.vararg] = self.newloc(st, bind.get(func.vararg, mk('param', '*' + func.vararg)))
        if func.kwarg:
            env[func.kwarg] = self.newloc(st, bind.get(func.kwarg, mk('param', '**' + func.kwarg)))
        start = dict(env)
        self.events = []
        for k, t in self.preset.items():
            st.heap[k] = self.newloc(st, t)
        if heap and func.posparams:
            for a, t in heap.items():
                st.heap[(bind[func.posparams[0]], a)] = self.newloc(st, t)
        end = self.block(ctx, st, func.node.body)
        if end is not None:
            ctx.exits.append(Exit('fall', NONE, end, func.node, end.guards))
        res = Result(self, func, self.events, ctx.exits)
        res.locs = dict(start)
        return res

    def run_module(self, m):
        """analyse a module body; returns (events, final state, fid)"""
        class F(object):
            pass
        f = F()
        f.qual, f.module, f.cls, f.posparams, f.static, f.name = m.name + '.<module>', m, None, [], False, '<module>'
        st = State()
        self.nfid += 1
        st.frames[self.nfid] = (None, {})
        ctx = Ctx(f, self.nfid, ())
        ctx.is_module = True
        end = self.block(ctx, st, m.tree.body)
        return end, ctx.fid

    def frame(self, st, func, parent, stack):
        self.nfid += 1
        st.frames[self.nfid] = (parent, {})
        return Ctx(func, self.nfid, stack)

    # ------------------------------------------------------------ merging
    def merge(self, cond, a, b):
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        pairs = {}

        def m(la, lb):
            if la is None:
                return lb
            if lb is None:
                return la
            k = (la, lb)
            if k in pairs:
                return pairs[k]
            ta, tb = a.store[la], b.store[lb]
            t = ta if ta is tb else self.phi(cond, ta, tb)
            if la == lb:
                r = la
                s.store[r] = t
            else:
                self.nloc += 1
                r = self.nloc
                s.store[r] = t
            pairs[k] = r
            return r
        s.store = {}
        for fid in set(a.frames) | set(b.frames):
            if fid not in a.frames or fid not in b.frames:
                src = a if fid in a.frames else b
                s.frames[fid] = (src.frames[fid][0], dict(src.frames[fid][1]))
                for l in src.frames[fid][1].values():
                    s.store[l] = src.store[l]
                continue
            p, ea = a.frames[fid]
            eb = b.frames[fid][1]
            env = {}
            for n in list(ea) + [x for x in eb if x not in ea]:
                if n in ea and n in eb:
                    env[n] = m(ea[n], eb[n])
                else:
                    src = a if n in ea else b
                    l = (ea if n in ea else eb)[n]
                    un = mk('unbound', n)
                    t = src.store[l]
                    self.nloc += 1
                    env[n] = self.nloc
                    s.store[self.nloc] = self.phi(cond, t, un) if n in ea else self.phi(cond, un, t)
            s.frames[fid] = (p, env)
        for k in list(a.heap) + [x for x in b.heap if x not in a.heap]:
            if k in a.heap and k in b.heap:
                s.heap[k] = m(a.heap[k], b.heap[k])
            else:
                src = a if k in a.heap else b
                t = src.store[(a if k in a.heap else b).heap[k]]
                init = self.attr0(k[0], k[1])
                if t is init:
                    self.nloc += 1
                    s.heap[k] = self.nloc
                    s.store[self.nloc] = t
                else:
                    self.nloc += 1
                    s.heap[k] = self.nloc
                    s.store[self.nloc] = self.phi(cond, t, init) if k in a.heap else self.phi(cond, init, t)
        for l in a.store:
            # temporaries of the expression being evaluated
            if l not in s.store and l in b.store:
                ta, tb = a.store[l], b.store[l]
                s.store[l] = ta if ta is tb else self.phi(cond, ta, tb)
        g = []
        for x, y in zip(a.guards, b.guards):
            if x == y:
                g.append(x)
            else:
                break
        # facts established on both sides
        rest = [x for x in a.guards[len(g):] if x in b.guards[len(g):]]
        ra = [x for x in a.guards[len(g):] if x not in rest]
        rb = [x for x in b.guards[len(g):] if x not in rest]
        if ra and rb and 2 < len(ra) + len(rb) <= 10 and not any(x[0].op == 'iter' or (x[0].op == 'or' and len(subterms(x[0])) > 60) for x in ra + rb):
            # only some of the paths through either branch reach this point
            rest = rest + [(mk('or', self.conjoin(ra), self.conjoin(rb)), True)]
        s.guards = tuple(g + rest)
        s.last = min(a.last, b.last)
        return s

    def conjoin(self, gs):
        ts = [t if p else mknot(t) for t, p in gs]
        return ts[0] if len(ts) == 1 else mk('and', *ts)

    def phi(self, cond, a, b):
        if a is b:
            return a
        if cond.op == 'const':
            return a if cond.a[0] else b
        if cond.op == 'not':
            cond, a, b = cond.a[0], b, a
        if a is TRUE and b is FALSE and cond.op in ('cmp', 'not', 'and', 'or'):
            return cond
        # simplify under the same condition
        if a.op == 'phi' and a.a[0] is cond:
            a = a.a[1]
        if b.op == 'phi' and b.a[0] is cond:
            b = b.a[2]
        if a is b:
            return a
        return mk('phi', cond, a, b)

    # ------------------------------------------------------------ statements
    def block(self, ctx, st, stmts):
        for s in stmts:
            if st is None:
                return None
            self.budget -= 1
            if self.budget < 0:
                raise AnalysisBroken('analysis budget exhausted in %s' % ctx.func.qual)
            st = self.stmt(ctx, st, s)
        return st

    def stmt(self, ctx, st, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return st
        return m(ctx, st, s)

    def s_Expr(self, ctx, st, s):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(ctx, st, s.value)
        return st if st.store is not None else None

    def s_Pass(self, ctx, st, s):
        return st

    def s_Assign(self, ctx, st, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and \
                isinstance(s.value, (ast.Tuple, ast.List)) and len(s.targets[0].elts) == len(s.value.elts) and \
                not any(isinstance(x, ast.Starred) for x in s.targets[0].elts + s.value.elts):
            locs = [self.evloc(ctx, st, v) for v in s.value.elts]
            for t, l in zip(s.targets[0].elts, locs):
                self.assign(ctx, st, t, st.store[l], l, s)
            return self.alive(st)
        l = self.evloc(ctx, st, s.value)
        if st.store is None:
            return None
        for t in s.targets:
            self.assign(ctx, st, t, st.store[l], l, s)
        return self.alive(st)

    def alive(self, st):
        return st if st.store is not None else None

    def s_AnnAssign(self, ctx, st, s):
        if s.value is not None:
            l = self.evloc(ctx, st, s.value)
            if st.store is None:
                return None
            self.assign(ctx, st, s.target, st.store[l], l, s)
        return st

    def s_AugAssign(self, ctx, st, s):
        op = BINOPS[type(s.op)]
        v = self.ev(ctx, st, s.value)
        if st.store is None:
            return None
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ctx, st, ast.copy_location(ast.Name(t.id, ast.Load()), t))
            self.emit(ctx, st, 'aug', s, base=old, value=v, name=op, target='name', var=t.id)
            new = self.bin(op, old, v)
            if old.op == 'vec' and new.op == 'vec':
                ol = self.lookup_loc(ctx, st, t.id)
                if ol is not None:
                    self.updloc(ctx, st, ast.copy_location(ast.Name(t.id, ast.Load()), t), ol, new)
                    return st
            self.setname(ctx, st, t.id, self.newloc(st, new))
        elif isinstance(t, ast.Attribute):
            o = self.ev(ctx, st, t.value)
            old = self.getattr(ctx, st, o, t.attr, t)
            new = self.bin(op, old, v)
            self.emit(ctx, st, 'aug', s, base=old, value=v, name=op, target='attr', obj=o, attr=t.attr)
            self.emit(ctx, st, 'setattr', s, obj=o, attr=t.attr, value=new, aug=True)
            self.setattr_(st, o, t.attr, self.newloc(st, new))
        elif isinstance(t, ast.Subscript):
            bl = self.evloc(ctx, st, t.value)
            i = self.idx(ctx, st, t.slice)
            base = st.store[bl]
            own = self.host is not None and self.host.owns(base)
            old = self.host.getsub(self, ctx, st, s, base, i) if own else None
            old = self.sub(base, i) if old is None else old
            new = self.bin(op, old, v)
            self.emit(ctx, st, 'setsub', s, base=base, idx=i, value=new, delta=v, aug=op)
            if own and self.host.setsub(self, ctx, st, s, base, i, new):
                return st
            self.updloc(ctx, st, t.value, bl, self.mkupd(base, i, new) if base.op == 'vec' else mk('upd', base, i, new))
        return st

    def updloc(self, ctx, st, node, loc, new):
        """a container reached through `node` is modified in place"""
        old = st.store[loc]
        st.store[loc] = new
        # reached through a subscript / temporary: the outer container changes too
        if isinstance(node, ast.Subscript):
            ol = self.evloc(ctx, st, node.value, quiet=True)
            i = self.idx(ctx, st, node.slice, quiet=True)
            self.updloc(ctx, st, node.value, ol, self.mkupd(st.store[ol], i, new) if self.vec else mk('upd', st.store[ol], i, new))

    def s_Return(self, ctx, st, s):
        v = NONE
        if s.value is not None:
            l = self.evloc(ctx, st, s.value)
            if st.store is None:
                return None
            v = st.store[l]
        x = Exit('return', v, st, s, st.guards)
        x.loc = l if s.value is not None else None
        ctx.exits.append(x)
        self.emit(ctx, st, 'return', s, value=v)
        return None

    def s_Raise(self, ctx, st, s):
        v = self.ev(ctx, st, s.exc) if s.exc is not None else NONE
        if st.store is None:
            return None
        self.emit(ctx, st, 'raise', s, value=v)
        ctx.exits.append(Exit('raise', v, st, s, st.guards))
        return None

    def s_Assert(self, ctx, st, s):
        c = self.ev(ctx, st, s.test)
        st.guards = st.guards + tuple(conj(c, True))
        return st

    def s_Delete(self, ctx, st, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.emit(ctx, st, 'delname', s, var=t.id)
                fid = ctx.fid
                if t.id in st.frames[fid][1]:
                    st.frames[fid][1][t.id] = self.newloc(st, mk('unbound', t.id))
            elif isinstance(t, ast.Subscript):
                bl = self.evloc(ctx, st, t.value)
                i = self.idx(ctx, st, t.slice)
                self.emit(ctx, st, 'delsub', s, base=st.store[bl], idx=i)
                if self.host is not None and self.host.owns(st.store[bl]) and self.host.delsub(self, ctx, st, s, st.store[bl], i):
                    continue
                self.updloc(ctx, st, t.value, bl, self.without(st.store[bl], i))
            elif isinstance(t, ast.Attribute):
                o = self.ev(ctx, st, t.value)
                self.emit(ctx, st, 'delattr', s, obj=o, attr=t.attr)
        return st

    def s_If(self, ctx, st, s):
        c = self.cond(ctx, st, s.test)
        if st.store is None:
            return None
        c = self.under(c, st.guards)
        if c.op == 'const':
            return self.block(ctx, st, s.body if c.a[0] else s.orelse)
        base = st.guards
        a, b = st.fork(), st.fork()
        a.last = b.last = len(base)
        a.guards = base + tuple(conj(c, True))
        b.guards = base + tuple(conj(c, False))
        a = self.block(ctx, a, s.body)
        b = self.block(ctx, b, s.orelse)
        return self.merge(c, a, b)

    def under(self, c, guards):
        """evaluate condition c given established guards (syntactic facts only)"""
        cs = conj(c, True)
        if all((t, p) in guards for t, p in cs) and cs:
            return TRUE
        if any((t, not p) in guards for t, p in cs):
            return FALSE
        ds = conj(c, False)
        if ds and all((t, p) in guards for t, p in ds):
            return FALSE
        if ds and any((t, not p) in guards for t, p in ds):
            return TRUE
        for t, p in cs:
            if t.op == 'cmp' and t.a[0] in ('<', '<='):
                comp = mk('cmp', '<=' if t.a[0] == '<' else '<', t.a[2], t.a[1])
                if (comp, not p) in guards and len(cs) == 1:
                    return TRUE
                if (comp, p) in guards:
                    return FALSE
            # x in {a, b}, x != a  =>  x == b
            if t.op == 'cmp' and t.a[0] in ('==', 'is') and t.a[2].op == 'const':
                for g, gp in guards:
                    if gp and g.op == 'cmp' and g.a[0] == 'in' and g.a[1] is t.a[1] and g.a[2].op in ('list', 'tuple', 'set') \
                            and all(x.op == 'const' for x in g.a[2].a):
                        live = [x for x in g.a[2].a if not any(
                            not hp and h.op == 'cmp' and h.a[0] in ('==', 'is') and h.a[1] is t.a[1] and h.a[2] is x for h, hp in guards)]
                        for h, hp in guards:
                            if not hp and h.op == 'cmp' and h.a[0] == 'in' and h.a[1] is t.a[1] and h.a[2].op in ('list', 'tuple', 'set'):
                                live = [x for x in live if x not in h.a[2].a]
                        if t.a[2] not in live:
                            return FALSE if p else c
                        if len(live) == 1 and len(cs) == 1:
                            return TRUE if p else FALSE
            # known equal to a constant
            if t.op == 'cmp' and t.a[0] == 'in' and t.a[2].op in ('list', 'tuple', 'set') and all(x.op == 'const' for x in t.a[2].a):
                for g, gp in guards:
                    if gp and g.op == 'cmp' and g.a[0] in ('==', 'is') and g.a[1] is t.a[1] and g.a[2].op == 'const':
                        isin = g.a[2] in t.a[2].a
                        if isin != p:
                            return FALSE
                        if len(cs) == 1:
                            return TRUE
                    if gp and g.op == 'cmp' and g.a[0] == 'in' and g.a[1] is t.a[1] and g.a[2].op in ('list', 'tuple', 'set') \
                            and all(x.op == 'const' for x in g.a[2].a):
                        live = [x for x in g.a[2].a if not any(
                            not hp and h.op == 'cmp' and h.a[0] in ('==', 'is') and h.a[1] is t.a[1] and h.a[2] is x for h, hp in guards)]
                        if live and all(x in t.a[2].a for x in live) and len(cs) == 1:
                            return TRUE if p else FALSE
                        if live and not any(x in t.a[2].a for x in live):
                            return FALSE if p else c
        # a disjunction whose other members are excluded forces the remaining one
        for t, p in cs:
            for g, gp in guards:
                if gp and g.op == 'or':
                    rest = [y for x in g.a for y in [conj(x, True)]]
                    live = [y for y in rest if not any((a, not b) in guards for a, b in y)]
                    if len(live) == 1:
                        if (t, p) in live[0] and len(cs) == 1:
                            return TRUE
                        if (t, not p) in live[0]:
                            return FALSE
        # two different constants cannot both equal the same thing
        for t, p in cs:
            if p and t.op == 'cmp' and t.a[0] in ('==', 'is') and any(
                    gp and g.op == 'cmp' and g.a[0] in ('==', 'is') and g.a[1] is t.a[1] and g.a[2] is not t.a[2]
                    and g.a[2].op == 'const' and t.a[2].op == 'const' for g, gp in guards):
                return FALSE
        return c

    def narrow(self, t, guards, d=0):
        """drop alternatives excluded by the established guards"""
        while t.op == 'phi' and d < 12:
            c = self.under(t.a[0], guards)
            if c.op != 'const':
                a = self.narrow(t.a[1], guards + tuple(conj(c, True)), d + 1)
                b = self.narrow(t.a[2], guards + tuple(conj(c, False)), d + 1)
                return t if (a is t.a[1] and b is t.a[2]) else self.phi(c, a, b)
            t = t.a[1] if c.a[0] else t.a[2]
            d += 1
        return t

    def cond(self, ctx, st, node):
        return self.boolish(self.ev(ctx, st, node))

    def boolish(self, t):
        if t.op == 'const':
            return K(bool(t.a[0]))
        if t.op in ('list', 'tuple', 'set'):
            return K(len(t.a) > 0)
        if t.op == 'vec' and len(t.a) == 1:
            return self.boolish(t.a[0])
        if self.host is not None:
            f = getattr(self.host, 'truth', None)
            r = f(t) if f is not None else None
            if r is not None:
                return K(r)
        return t

    def s_While(self, ctx, st, s):
        if self.turns(ctx, st, s):
            lp = Loop()
            ctx.loops.append(lp)
            n = 0
            while st is not None:
                c = self.cond(ctx, st, s.test)
                if st.store is None or c.op != 'const' or n > 4 * self.unroll:
                    break
                if not c.a[0]:
                    break
                n += 1
                st = self.block(ctx, st, s.body)
                for k in lp.continues:
                    st = self.merge(self.gdiff(k, st), k, st) if st is not None else k
                lp.continues = []
            ctx.loops.pop()
            if st is not None and s.orelse:
                st = self.block(ctx, st, s.orelse)
            for b in lp.breaks:
                st = self.merge(self.gdiff(b, st), b, st) if st is not None else b
            return self.alive(st) if st is not None else None
        return self.loop(ctx, st, s, None)

    def turns(self, ctx, st, s):
        """the number of turns of a while loop is decided by constants (checked on a throw-away copy)"""
        given = getattr(self.host, 'concrete', False)     # answers to prompts are given
        if not given and (not self.vec or any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Raise)) for x in ast.walk(s))):
            return False
        keep = len(self.events), len(ctx.exits), self.nfid, self.nloc, self.nalloc
        t = st.fork()
        n, ok = 0, False
        mark = self.host.mark() if given else None
        if given:
            ctx.loops.append(Loop())
        try:
            while t is not None and n <= 2 * self.unroll:
                c = self.cond(ctx, t, s.test)
                if t.store is None or c.op != 'const':
                    break
                if not c.a[0]:
                    ok = True
                    break
                n += 1
                t = self.block(ctx, t, s.body)
                if given:
                    for k in ctx.loops[-1].continues:
                        t = self.merge(self.gdiff(k, t), k, t) if t is not None else k
                    ctx.loops[-1].continues = []
                    ok = t is None
        finally:
            if given:
                ctx.loops.pop()
                self.host.reset(mark)
            del self.events[keep[0]:]
            del ctx.exits[keep[1]:]
        return ok

    def s_For(self, ctx, st, s):
        it = self.ev(ctx, st, s.iter)
        if st.store is None:
            return None
        it = self.hosted(st, it)
        if it.op in ('list', 'tuple', 'vec') and len(it.a) <= self.unroll and not any(x.op == 'star' for x in it.a):
            return self.unrolled(ctx, st, s, it)
        if it.op == 'dictitems':
            return self.unrolled(ctx, st, s, it)
        return self.loop(ctx, st, s, it)

    def hosted(self, st, it):
        """entries of a container of the outside storage"""
        if self.host is not None and self.host.owns(it):
            r = self.host.entries(self, st, it)
            if r is not None:
                return r
        if it.op == 'dict' and it.a[0] and all(k.op == 'const' for k, _ in it.a[0]):
            return mk('list', *[k for k, _ in it.a[0]])
        return it

    def unrolled(self, ctx, st, s, it):
        lp = Loop()
        ctx.loops.append(lp)
        broke = []
        for x in it.a:
            if st is None:
                break
            self.assign(ctx, st, s.target, x, None, s)
            st = self.block(ctx, st, s.body)
            for c in lp.continues:
                st = self.merge(self.gdiff(c, st), c, st) if st is not None else c
            lp.continues = []
        ctx.loops.pop()
        if st is not None and s.orelse:
            st = self.block(ctx, st, s.orelse)
        for b in lp.breaks:
            st = self.merge(self.gdiff(b, st), b, st) if st is not None else b
        return st

    def gdiff(self, a, b):
        """a condition distinguishing state a from state b"""
        ga, gb = a.guards, (b.guards if b is not None else ())
        for x in ga:
            if x not in gb:
                return x[0] if x[1] else mknot(x[0])
        for x in gb:
            if x not in ga:
                return mknot(x[0]) if x[1] else x[0]
        self.nalloc += 1
        return mk('unk', 'choice%d' % self.nalloc)

    def loop(self, ctx, st, s, it):
        # names assigned in the body become loop-carried
        names, attrs = set(), set()
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                    names.add(n.value.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
                    names.add(n.func.value.id)
        iterm = it if it is not None else mk('unk', 'while@%s:%d' % (ctx.func.qual, s.lineno))
        pre = st.fork()
        inits = {}
        for n in sorted(names):
            l = self.lookup_loc(ctx, st, n)
            if l is not None:
                init = st.store[l]
                inits[n] = init
                mu = mk('mu', iterm, n, init)
                # in-place updates must stay visible to aliases, so reuse the location
                st.store[l] = mu
        entry = len(ctx.exits)
        base = st.guards
        if it is not None:
            self.assign(ctx, st, s.target, self.elem(it), None, s)
            st.guards = base + ((mk('iter', iterm), True),)
        else:
            keep = len(self.events)
            first = self.under(self.cond(ctx, pre.fork(), s.test), base)
            del self.events[keep:]
            c = self.cond(ctx, st, s.test)
            if st.store is None:
                return None
            st.guards = base + ((mk('iter', iterm), True),) + tuple(conj(c, True) if c.op != 'const' else ())
        inloop = st.guards
        lp = Loop()
        ctx.loops.append(lp)
        out = self.block(ctx, st, s.body)
        for c in lp.continues:
            out = self.merge(self.gdiff(c, out), c, out) if out is not None else c
        ctx.loops.pop()
        infinite = it is None and isinstance(s.test, ast.Constant) and bool(s.test.value)
        # facts: if a raise left the loop under a condition, it did not fire
        facts = []
        for x in ctx.exits[entry:]:
            extra = x.guards[len(inloop):]
            if x.kind == 'raise' and x.guards[:len(inloop)] == inloop and len(extra) == 1:
                facts.append((mk('any', extra[0][0] if extra[0][1] else mknot(extra[0][0]), iterm), False))
        res = None
        if not infinite:
            after = pre
            if out is not None:
                nonempty = mk('nonempty', iterm)
                body = out
                body.guards = base
                for n in sorted(names):
                    l = self.lookup_loc(ctx, body, n)
                    if l is None:
                        continue
                    t = body.store[l]
                    if n in inits:
                        body.store[l] = self.fold(iterm, n, inits[n], t)
                if it is None and is_const(first, True):
                    after = body
                else:
                    after = self.merge_loop(nonempty, body, pre, names, ctx)
            after.guards = base + tuple(facts)
            if it is None:
                pass
            if s.orelse:
                after = self.block(ctx, after, s.orelse)
            res = after
        for b in lp.breaks:
            if res is None:
                b.guards = tuple(g for g in b.guards)
                res = b
            else:
                res = self.merge(self.gdiff(b, res), b, res)
        return res

    def merge_loop(self, cond, body, pre, names, ctx):
        s = self.merge(cond, body, pre)
        # loop-folded values already account for zero iterations
        for n in names:
            lb, lp_ = self.lookup_loc(ctx, body, n), self.lookup_loc(ctx, pre, n)
            ls = self.lookup_loc(ctx, s, n)
            if lb is not None and lp_ is not None and ls is not None and body.store[lb].op in ('comp', 'loop', 'cat'):
                s.store[ls] = body.store[lb]
        return s

    def fold(self, it, name, init, t):
        mu = mk('mu', it, name, init)
        if t is mu:
            return init
        if mu not in subterms(t):
            return t if not is_const(init) else mk('loop', it, name, init, t)
        # append patterns
        def as_app(x):
            if x.op == 'app' and x.a[0] is mu and mu not in subterms(x.a[1]):
                return x.a[1], None
            if x.op == 'phi':
                a, b = x.a[1], x.a[2]
                if b is mu:
                    r = as_app(a)
                    if r and r[1] is None:
                        return r[0], x.a[0]
                if a is mu:
                    r = as_app(b)
                    if r and r[1] is None:
                        return r[0], mknot(x.a[0])
                ra, rb = as_app(a), as_app(b)
                if ra and rb and ra[1] is None and rb[1] is None:
                    return self.phi(x.a[0], ra[0], rb[0]), None
            return None
        r = as_app(t)
        if r:
            c = mk('comp', 'list', r[0], it, r[1])
            if init.op == 'list' and len(init.a) == 0:
                return c
            return mk('cat', init, c)
        return mk('loop', it, name, init, t)

    def s_Break(self, ctx, st, s):
        if ctx.loops:
            ctx.loops[-1].breaks.append(st)
        self.emit(ctx, st, 'break', s)
        return None

    def s_Continue(self, ctx, st, s):
        if ctx.loops:
            ctx.loops[-1].continues.append(st)
        return None

    def s_With(self, ctx, st, s):
        opened = []
        for it in s.items:
            v = self.ev(ctx, st, it.context_expr)
            if st.store is None:
                return None
            if self.host is None or not self.host.owns(v):
                v = mk('with', v)
            opened.append((it, v))
            self.emit(ctx, st, 'with', s, value=v)
            if it.optional_vars is not None:
                self.assign(ctx, st, it.optional_vars, v, None, s)
        st = self.block(ctx, st, s.body)
        if st is not None:
            for it, v in reversed(opened):
                self.emit(ctx, st, 'endwith', s, value=v)
                if getattr(self.host, 'leave', None) is not None:
                    self.host.leave(self, ctx, st, v)
        return st

    def without(self, cur, k, first=False):
        """a container after an entry was removed"""
        if cur.op == 'dict' and k.op == 'const' and all(x.op == 'const' for x, _ in cur.a[0]):
            return mk('dict', tuple((x, v) for x, v in cur.a[0] if x is not k))
        if first and cur.op == 'list' and k in cur.a and all(x.op == 'const' for x in cur.a):
            l = list(cur.a)
            l.remove(k)
            return mk('list', *l)
        if first and self.exact and cur.op == 'set' and k in cur.a and all(x.op == 'const' for x in cur.a):
            return mk('set', *[x for x in cur.a if x is not k])
        return mk('without', cur, k)

    def s_Try(self, ctx, st, s):
        pre = st.fork()
        base = st.guards
        entry = len(ctx.exits)
        n = mk('unk', 'exc@%s:%d' % (ctx.func.qual, s.lineno))
        first_ev = len(self.events)
        body = self.block(ctx, st, s.body)
        raised = [x for x in ctx.exits[entry:] if x.kind == 'raise']
        for e in self.events[first_ev:]:
            e.__dict__.setdefault('tries', []).append(s)
        # a handler may start from any intermediate state
        hpre = self.merge(n, pre, body.fork() if body is not None else None)
        for x in raised:
            hpre = self.merge(n, hpre, x.state.fork())
        outs = []
        if body is not None and s.orelse:
            body = self.block(ctx, body, s.orelse)
        if self.exact:
            for x in raised:
                h = self.handler(s, x)
                if h is None:
                    continue
                ctx.exits.remove(x)
                hs = x.state.fork()
                hs.guards = x.guards
                if h.name:
                    self.setname(ctx, hs, h.name, self.newloc(hs, mk('unk', 'exception')))
                outs.append(self.block(ctx, hs, h.body))
        elif s.handlers:
            catch_all = any(h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException')) for h in s.handlers)
            if catch_all:
                for x in raised:
                    ctx.exits.remove(x)
        for h in s.handlers if not self.exact else ():
            hs = hpre.fork()
            hs.guards = base + ((mk('caught', n, ast.dump(h.type) if h.type else '*'), True),)
            if h.name:
                self.setname(ctx, hs, h.name, self.newloc(hs, mk('unk', 'exception')))
            outs.append(self.block(ctx, hs, h.body))
        res = body
        for o in outs:
            res = self.merge(n, res, o)
        if s.finalbody:
            for x in ctx.exits[entry:]:
                f = x.state.fork()
                k = len(ctx.exits)
                fs = self.block(ctx, f, s.finalbody)
                if fs is not None:
                    x.state = fs
            if res is not None:
                res = self.block(ctx, res, s.finalbody)
            else:
                pass
        return res

    s_TryStar = s_Try

    def handler(self, s, x):
        """the handler that takes the error an exit stands for"""
        v = x.value
        name = v.a[0].a[0].rsplit('.', 1)[-1] if v.op == 'call' and v.a[0].op in ('ext', 'cls') else v.a[0].rsplit('.', 1)[-1] if v.op in ('ext', 'cls') else None
        for h in s.handlers:
            ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            names = {t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else '?' for t in ts}
            if not ts or names & {'Exception', 'BaseException'} or name is None or name in names:
                return h
        return None

    def s_FunctionDef(self, ctx, st, s):
        from program import Func
        f = Func(ctx.func.qual + '.' + s.name, s, ctx.func.module, None, ctx.func)
        lid = ('%s@%d' % (f.qual, s.lineno), ctx.fid)
        key = '%s#%d' % lid
        self.lambdas[key] = (f, ctx.fid)
        self.setname(ctx, st, s.name, self.newloc(st, mk('lambda', key, f.qual, *self.kept(ctx, st, f))))
        return st

    def s_ClassDef(self, ctx, st, s):
        return st

    def s_Import(self, ctx, st, s):
        for al in s.names:
            if getattr(ctx, 'is_module', False):
                continue
            n = al.asname or al.name.split('.')[0]
            d = al.name if al.asname else al.name.split('.')[0]
            r = self.p.resolve_dotted(d)
            self.setname(ctx, st, n, self.newloc(st, self.resolved(r, d)))
        return st

    def s_ImportFrom(self, ctx, st, s):
        if getattr(ctx, 'is_module', False):
            return st
        base = self.p._from(ctx.func.module, s)
        for al in s.names:
            d = base + '.' + al.name
            r = self.p.resolve_dotted(d)
            self.setname(ctx, st, al.asname or al.name, self.newloc(st, self.resolved(r, d)))
        return st

    def s_Global(self, ctx, st, s):
        return st

    def s_Nonlocal(self, ctx, st, s):
        return st

    def s_Match(self, ctx, st, s):
        # treated as an if-chain on unknown conditions
        subj = self.ev(ctx, st, s.subject)
        res = None
        cur = st
        for c in s.cases:
            if cur is None:
                break
            if isinstance(c.pattern, ast.MatchValue):
                t = mkcmp('==', subj, self.ev(ctx, cur, c.pattern.value))
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                t = TRUE
            else:
                t = mk('unk', 'match@%d' % c.pattern.lineno)
            a = cur.fork()
            a.guards = cur.guards + tuple(conj(t, True) if t is not TRUE else ())
            a = self.block(ctx, a, c.body)
            res = self.merge(t, a, res) if res is not None else a
            if t is TRUE:
                cur = None
            else:
                cur.guards = cur.guards + tuple(conj(t, False))
        if cur is not None:
            res = self.merge(self.gdiff(cur, res), cur, res) if res is not None else cur
        return res

    # ------------------------------------------------------------ names / attrs
    def lookup_loc(self, ctx, st, name):
        fid = ctx.fid
        while fid is not None:
            if fid not in st.frames:
                return None
            p, env = st.frames[fid]
            if name in env:
                return env[name]
            fid = p
        return None

    def setname(self, ctx, st, name, loc):
        st.frames[ctx.fid][1][name] = loc

    def assign(self, ctx, st, t, term, loc, stmt):
        if isinstance(t, ast.Name):
            st.frames[ctx.fid][1][t.id] = loc if loc is not None else self.newloc(st, term)
            if getattr(ctx, 'trace_names', False):
                self.emit(ctx, st, 'setname', stmt, var=t.id, value=term)
        elif isinstance(t, ast.Attribute):
            o = self.ev(ctx, st, t.value)
            self.emit(ctx, st, 'setattr', stmt, obj=o, attr=t.attr, value=term, aug=False)
            self.setattr_(st, o, t.attr, loc if loc is not None else self.newloc(st, term))
        elif isinstance(t, ast.Subscript):
            bl = self.evloc(ctx, st, t.value)
            i = self.idx(ctx, st, t.slice)
            base = st.store[bl]
            self.emit(ctx, st, 'setsub', stmt, base=base, idx=i, value=term, aug=None)
            if self.host is not None and self.host.owns(base) and self.host.setsub(self, ctx, st, stmt, base, i, term):
                return
            self.updloc(ctx, st, t.value, bl, self.mkupd(base, i, term))
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                for k, x in enumerate(t.elts):
                    self.assign(ctx, st, x.value if isinstance(x, ast.Starred) else x, mk('part', term, k), None, stmt)
                return
            for k, x in enumerate(t.elts):
                self.assign(ctx, st, x, self.sub(term, K(k)), None, stmt)
        elif isinstance(t, ast.Starred):
            self.assign(ctx, st, t.value, term, loc, stmt)

    def mkupd(self, base, i, v):
        if base.op == 'vec':
            r = vecs.update(base, i, v)
            if r is not None:
                return r
        if base.op == 'dict' and i.op == 'const':
            items = [(k, x) for k, x in base.a[0] if k is not i]
            return mk('dict', tuple(items + [(i, v)]))
        if base.op == 'list' and i.op == 'const' and isinstance(i.a[0], int) and -len(base.a) <= i.a[0] < len(base.a):
            l = list(base.a)
            l[i.a[0]] = v
            return mk('list', *l)
        return mk('upd', base, i, v)

    def setattr_(self, st, o, attr, loc):
        if o.op == 'phi' and (self.isobj(o.a[1]) or self.isobj(o.a[2])):
            v = st.store[loc]
            for k in (1, 2):
                cur = self.heapget(st, o.a[k], attr)
                nv = self.phi(o.a[0], v, cur) if k == 1 else self.phi(o.a[0], cur, v)
                self.setattr_(st, o.a[k], attr, self.newloc(st, nv))
        st.heap[(o, attr)] = loc

    def isobj(self, t):
        return t.op in ('new', 'param') or (t.op == 'phi' and (self.isobj(t.a[1]) or self.isobj(t.a[2])))

    def heapget(self, st, o, attr):
        l = st.heap.get((o, attr))
        return st.store[l] if l is not None else self.attr0(o, attr)

    def attr0(self, o, attr):
        """initial value of an attribute"""
        if o.op == 'ext':
            return mk('ext', o.a[0] + '.' + attr)
        if o.op == 'mod':
            m = self.p.modules[o.a[0]]
            r = self.p.resolve_in_module(m, attr)
            return self.resolved(r, o.a[0] + '.' + attr)
        if o.op == 'cls':
            c = self.p.classes[o.a[0]]
            f = self.p.lookup(c, attr)
            if f:
                return mk('func', f.qual)
        c = self.typeof(o)
        if c is not None:
            f = self.p.lookup(c, attr)
            if f is not None and not f.property:
                if f.static:
                    return mk('func', f.qual)
                return mk('bm', f.qual, o)
        return mk('attr', o, attr)

    def getattr(self, ctx, st, o, attr, node):
        l = st.heap.get((o, attr))
        if l is not None:
            return st.store[l]
        if o.op == 'phi' and (self.isobj(o.a[1]) or self.isobj(o.a[2])):
            a = self.getattr(ctx, st, o.a[1], attr, node)
            b = self.getattr(ctx, st, o.a[2], attr, node)
            return self.phi(o.a[0], a, b)
        if self.host is not None and self.host.owns(o):
            r = self.host.getattr(self, st, o, attr)
            if r is not None:
                return r
        if self.vec and o.op == 'vec':
            r = vecs.attr(self, o, attr)
            if r is not None:
                return r
        if attr == 'names' and o.op == 'attr' and o.a[1] == 'dtype':
            r = self.fieldnames(o.a[0])
            if r is not None:
                return r
        return self.attr0(o, attr)

    def fieldnames(self, t, d=0):
        """names of the fields of a record array made from a literal list of fields"""
        while t.op in ('upd', 'mut') or t.op == 'sub' and t.a[1].op not in ('const', 'list', 'tuple') or t.op == 'mcall' and t.a[0] == 'copy':
            t = t.a[1] if t.op == 'mcall' else t.a[0]
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.sort', 'numpy.take', 'numpy.flip', 'numpy.copy', 'numpy.flipud') and t.a[1] and d < 4:
            return self.fieldnames(t.a[1][0], d + 1)
        if t.op == 'phi' and d < 4:
            a, b = self.fieldnames(t.a[1], d + 1), self.fieldnames(t.a[2], d + 1)
            return a if a is b else None
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.array'):
            dt = dict(t.a[2]).get('dtype') or (t.a[1][1] if len(t.a[1]) > 1 and t.a[0].a[0] != 'numpy.full' else None)
            if dt is not None and dt.op == 'call' and dt.a[0].op == 'ext' and dt.a[0].a[0] == 'numpy.dtype' and dt.a[1]:
                dt = dt.a[1][0]
            if dt is not None and dt.op == 'list' and dt.a and all(x.op == 'tuple' and x.a and x.a[0].op == 'const' for x in dt.a):
                return mk('tuple', *[x.a[0] for x in dt.a])
        return None

    def resolved(self, r, dotted):
        if r is None:
            return mk('unk', 'unresolved:' + str(dotted))
        if r[0] == 'func':
            return mk('func', r[1].qual)
        if r[0] == 'cls':
            return mk('cls', r[1].qual)
        if r[0] == 'mod':
            return mk('mod', r[1].name)
        if r[0] == 'ext':
            return mk('ext', r[1])
        if r[0] == 'var':
            return self.modvar(r[1], r[2])
        return mk('unk', str(dotted))

    def dict_changed(self, m, name):
        """module-level dictionary is filled or changed after its definition"""
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and n.attr in MUTATORS:
                return True
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                return True
        return False

    def modvar(self, m, name):
        k = (m.name, name)
        if k in self.modvars:
            return self.modvars[k]
        self.modvars[k] = mk('glob', m.name + '.' + name)
        # literal module constants are evaluated
        e = m.names.get(name)
        if e and e[0] == 'var' and isinstance(e[1], (ast.Assign, ast.AnnAssign)):
            tg = e[1].targets[0] if isinstance(e[1], ast.Assign) else e[1].target
            v = e[1].value
            if isinstance(tg, ast.Name) and isinstance(v, (ast.Constant, ast.List, ast.Tuple, ast.Dict, ast.UnaryOp, ast.BinOp)):
                stores = sum(1 for n in ast.walk(m.tree) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store))
                if stores == 1 and not self.dict_changed(m, name):
                    class F(object):
                        pass
                    f = F()
                    f.qual, f.module, f.cls, f.posparams, f.static = m.name, m, None, [], False
                    st = State()
                    ctx = Ctx(f, 0, ())
                    st.frames[0] = (None, {})
                    keep = self.events
                    self.events = []
                    try:
                        t = self.ev(ctx, st, v)
                    finally:
                        self.events = keep
                    self.modvars[k] = t
        return self.modvars[k]

    # ------------------------------------------------------------ expressions
    def evloc(self, ctx, st, node, quiet=False):
        """location of the object `node` denotes (aliases share locations)"""
        if isinstance(node, ast.Name):
            l = self.lookup_loc(ctx, st, node.id)
            if l is not None:
                t = st.store[l]
                if t.op in ('phi', 'unbound'):
                    if t.op == 'phi' and not self.tempguards:
                        n_ = self.narrow(t, st.guards)
                        if n_ is not t:
                            st.store[l] = n_
                    if not quiet:
                        self.e_Name(ctx, st, node)
                return l
        elif isinstance(node, ast.Attribute):
            o = self.ev(ctx, st, node.value)
            if st.store is None:
                return None
            l = st.heap.get((o, node.attr))
            if l is not None:
                return l
            t = self.getattr(ctx, st, o, node.attr, node)
            l = self.newloc(st, t)
            st.heap[(o, node.attr)] = l
            if not quiet:
                self.emit(ctx, st, 'getattr', node, obj=o, attr=node.attr, value=t)
            return l
        elif self.vec and isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords and isinstance(node.args[0], (ast.Name, ast.Attribute)) and \
                isinstance(node.func, ast.Attribute) and node.func.attr in ('asarray', 'asanyarray'):
            # an array is returned as it is
            t = self.ev(ctx, st, node.func)
            l = self.evloc(ctx, st, node.args[0], quiet) if st.store is not None and t.op == 'ext' and t.a[0] in ('numpy.asarray', 'numpy.asanyarray') else None
            if l is not None and st.store is not None and st.store[l].op == 'vec':
                return l
        if st.store is None:
            return None
        if quiet:
            keep = len(self.events)
            t = self.ev(ctx, st, node)
            del self.events[keep:]
        else:
            t = self.ev(ctx, st, node)
        if st.store is None:
            return None
        l = getattr(self, '_retloc', None)
        self._retloc = None
        if l is not None and l in st.store and st.store[l] is t and isinstance(node, ast.Call):
            return l
        return self.newloc(st, t)

    def idx(self, ctx, st, node, quiet=False):
        if quiet:
            keep = len(self.events)
            t = self.ev(ctx, st, node)
            del self.events[keep:]
            return t
        return self.ev(ctx, st, node)

    def ev(self, ctx, st, node):
        if st.store is None:
            return mk('unk', 'dead')
        self._retloc = None
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            self.nalloc += 1
            return mk('unk', '%s@%s:%d' % (type(node).__name__, ctx.func.qual, getattr(node, 'lineno', 0)))
        return m(ctx, st, node)

    def e_Constant(self, ctx, st, n):
        return K(n.value)

    def e_Name(self, ctx, st, n):
        l = self.lookup_loc(ctx, st, n.id)
        if l is not None:
            t = st.store[l]
            if t.op == 'phi':
                n_ = self.narrow(t, st.guards)
                t = n_
            if t.op == 'unbound':
                self.emit(ctx, st, 'unbound', n, var=n.id)
            elif t.op == 'phi' and any(x.op == 'unbound' for x in self.phileaves(t)):
                self.emit(ctx, st, 'maybe_unbound', n, var=n.id, value=t)
            return t
        r = self.p.resolve_name(ctx.func.module, n.id)
        if r is not None:
            return self.resolved(r, n.id)
        import builtins
        if hasattr(builtins, n.id):
            return mk('ext', 'builtins.' + n.id)
        self.emit(ctx, st, 'undefined', n, var=n.id)
        return mk('unk', 'undefined:' + n.id)

    def e_Attribute(self, ctx, st, n):
        o = self.ev(ctx, st, n.value)
        if st.store is None:
            return o
        t = self.getattr(ctx, st, o, n.attr, n)
        self.emit(ctx, st, 'getattr', n, obj=o, attr=n.attr, value=t)
        return t

    def e_Subscript(self, ctx, st, n):
        b = self.ev(ctx, st, n.value)
        i = self.idx(ctx, st, n.slice)
        if st.store is None:
            return b
        self.emit(ctx, st, 'getsub', n, base=b, idx=i)
        if self.host is not None and self.host.owns(b):
            r = self.host.getsub(self, ctx, st, n, b, i)
            if r is not None:
                return r
        if self.exact and self.absent(b, i):
            return self.broken(ctx, st, n, 'KeyError' if b.op == 'dict' else 'IndexError')
        return self.sub(b, i)

    @staticmethod
    def setof(xs):
        return mk('set', *sorted(set(xs), key=lambda x: (type(x.a[0]).__name__, x.a[0])))

    def absent(self, b, i):
        """a literal known not to have the entry asked for"""
        if i.op != 'const':
            return False
        if b.op == 'dict':
            return all(k.op == 'const' for k, _ in b.a[0]) and not any(k is i or k.a[0] == i.a[0] for k, _ in b.a[0])
        if b.op in ('list', 'tuple', 'vec') and not any(x.op == 'star' for x in b.a) and isinstance(i.a[0], int):
            return not -len(b.a) <= i.a[0] < len(b.a)
        return False

    def e_Index(self, ctx, st, n):  # py<3.9
        return self.ev(ctx, st, n.value)

    def e_Slice(self, ctx, st, n):
        f = lambda x: self.ev(ctx, st, x) if x is not None else NONE
        return mk('slice', f(n.lower), f(n.upper), f(n.step))

    def sub(self, b, i):
        if b.op == 'vec':
            r = vecs.select(self, b, i)
            if r is not None:
                return r
        if b.op in ('list', 'tuple') and i.op == 'const' and isinstance(i.a[0], int) and not isinstance(i.a[0], bool):
            if -len(b.a) <= i.a[0] < len(b.a) and not any(x.op == 'star' for x in b.a):
                return b.a[i.a[0]]
        if b.op in ('list', 'tuple') and i.op == 'slice' and all(x.op == 'const' for x in i.a) and not any(x.op == 'star' for x in b.a):
            try:
                return mk(b.op, *b.a[slice(*[x.a[0] for x in i.a])])
            except Exception:
                pass
        if b.op == 'const' and isinstance(b.a[0], str):
            try:
                if i.op == 'const':
                    return K(b.a[0][i.a[0]])
                if i.op == 'slice' and all(x.op == 'const' for x in i.a):
                    return K(b.a[0][slice(*[x.a[0] for x in i.a])])
            except Exception:
                pass
        if b.op == 'dict' and i.op == 'const':
            for k, v in b.a[0]:
                if k is i:
                    return v
        if b.op == 'upd' and b.a[1] is i:
            return b.a[2]
        if b.op == 'upd' and b.a[1].op == 'const' and i.op == 'const':
            return self.sub(b.a[0], i)
        if b.op == 'comp' and b.a[0] == 'list' and b.a[3] is None and i.op == 'lidx' and (i.a[0] is b.a[2] or i.a[0] is b):
            return b.a[1]
        if b.op == 'call' and b.a[0].op == 'ext' and b.a[0].a[0] == 'builtins.range' and i.op == 'lidx' and i.a[0] is b:
            if len(b.a[1]) == 1:
                return i
        if b.op == 'phi' and self.has_upd(b, i):
            return self.phi(b.a[0], self.sub(b.a[1], i), self.sub(b.a[2], i))
        if b.op == 'phi' and i.op == 'const' and (b.a[1].op in ('tuple', 'list', 'dict', 'vec') or b.a[2].op in ('tuple', 'list', 'dict', 'vec')):
            return self.phi(b.a[0], self.sub(b.a[1], i), self.sub(b.a[2], i))
        return mk('sub', b, i)

    def has_upd(self, b, i, d=0):
        if b.op == 'upd':
            return b.a[1] is i
        return b.op == 'phi' and d < 6 and (self.has_upd(b.a[1], i, d + 1) or self.has_upd(b.a[2], i, d + 1))

    def elem(self, it):
        """the symbolic element of iterating over `it`"""
        if it.op == 'call' and it.a[0].op == 'ext' and not it.a[2]:
            f, args = it.a[0].a[0], it.a[1]
            if f == 'builtins.enumerate' and len(args) == 1:
                return mk('tuple', mk('lidx', args[0]), self.elem(args[0]))
            if f == 'builtins.zip' and args and all(a.op != 'star' for a in args):
                i = self.index_of(args[0])
                return mk('tuple', *[self.sub(a, i) if k else self.elem(a) for k, a in enumerate(args)])
            if f == 'builtins.range' and len(args) == 1:
                n = args[0]
                if n.op == 'call' and n.a[0].op == 'ext' and n.a[0].a[0] == 'builtins.len' and len(n.a[1]) == 1:
                    return mk('lidx', n.a[1][0])
                return mk('lidx', it)
            if f in ('builtins.list', 'builtins.tuple', 'builtins.iter') and len(args) == 1:
                return self.elem(args[0])
        if it.op == 'mcall' and it.a[0] in ('tolist',) and not it.a[2]:
            return self.elem(it.a[1])
        if it.op == 'mcall' and it.a[0] == 'items' and not it.a[2]:
            k = mk('sub', mk('mcall', 'keys', it.a[1], (), ()), mk('lidx', it.a[1]))
            return mk('tuple', k, mk('sub', it.a[1], k))
        if it.op == 'mcall' and it.a[0] == 'keys' and not it.a[2]:
            return mk('sub', mk('mcall', 'keys', it.a[1], (), ()), mk('lidx', it.a[1]))
        return self.sub(it, mk('lidx', it))

    def index_of(self, it):
        if it.op == 'call' and it.a[0].op == 'ext' and it.a[0].a[0] == 'builtins.range' and len(it.a[1]) == 1:
            return self.elem(it)
        return mk('lidx', it)

    def compare(self, op, a, b):
        if self.vec:
            r = vecs.cmp_(mkcmp, mknot, op, a, b)
            if r is not None:
                return r
        if self.host is not None:
            f = getattr(self.host, 'compare', None)
            r = f(op, a, b) if f is not None else None
            if r is not None:
                return K(r)
        return mkcmp(op, a, b)

    def negate(self, t):
        return mknot(self.boolish(t))

    def bin(self, op, a, b):
        if self.vec and (a.op == 'vec' or b.op == 'vec'):
            r = vecs.bin_(self, op, a, b)
            if r is not None:
                return r
        if a.op == 'const' and b.op == 'const':
            x, y = a.a[0], b.a[0]
            try:
                if isinstance(x, str) or isinstance(y, str):
                    if op == '+':
                        return K(x + y)
                    if op == '%':
                        return K(x % y)
                elif isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    return K({'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y,
                              '//': lambda: x // y, '%': lambda: x % y, '**': lambda: x ** y}[op]())
            except Exception:
                pass
        f = fold_bin(op, a, b)
        if f is not None:
            return f
        if op == '+' and a.op == b.op and a.op in ('list', 'tuple'):
            return mk(a.op, *(a.a + b.a))
        if op == '|' and a.op == 'dict' and b.op == 'dict' and all(k.op == 'const' for k, _ in a.a[0] + b.a[0]):
            return mk('dict', tuple(self.overlay(a.a[0], b.a[0])))
        return mk('bin', op, a, b)

    def e_BinOp(self, ctx, st, n):
        a = self.ev(ctx, st, n.left)
        b = self.ev(ctx, st, n.right)
        return self.bin(BINOPS[type(n.op)], a, b)

    def e_UnaryOp(self, ctx, st, n):
        v = self.ev(ctx, st, n.operand)
        if isinstance(n.op, ast.Not):
            return mknot(self.boolish(v))
        if self.vec and v.op == 'vec':
            r = vecs.neg(self, v) if isinstance(n.op, ast.USub) else vecs.invert(self.negate, v) if isinstance(n.op, ast.Invert) else None
            if r is not None:
                return r
        if isinstance(n.op, ast.USub):
            if v.op == 'const' and isinstance(v.a[0], (int, float)):
                return K(-v.a[0])
            return mk('neg', v)
        if isinstance(n.op, ast.Invert):
            return mk('not', v) if v.op != 'not' else v.a[0]
        return v

    def e_BoolOp(self, ctx, st, n):
        op = 'and' if isinstance(n.op, ast.And) else 'or'
        vals = []
        base = st.guards
        self.tempguards += 1
        for v in n.values:
            t = self.boolish(self.ev(ctx, st, v)) if op == 'and' else self.ev(ctx, st, v)
            if st.store is None:
                self.tempguards -= 1
                return t
            t = self.under(t, st.guards) if t.op in ('cmp', 'not', 'and', 'or', 'attr', 'param', 'call', 'mcall') else t
            if t.op == 'const':
                tv = bool(t.a[0])
                if op == 'and' and not tv:
                    vals.append(t)
                    break
                if op == 'or' and tv:
                    vals.append(t)
                    break
                if len(n.values) > 1:
                    vals.append(t)
                    continue
            elif op == 'or' and t.op in ('list', 'tuple', 'dict', 'set'):
                tb = self.boolish(t)
                if tb.op == 'const' and not tb.a[0]:
                    if v is n.values[-1]:
                        vals.append(t)
                    continue
                if tb.op == 'const' and not [x for x in vals if x.op != 'const']:
                    st.guards = base
                    self.tempguards -= 1
                    return t
            vals.append(t)
            st.guards = st.guards + tuple(conj(t, op == 'and'))
        st.guards = base
        self.tempguards -= 1
        if op == 'and':
            if any(is_const(v, False) for v in vals):
                return FALSE
            nv = [v for v in vals if not (v.op == 'const' and bool(v.a[0]))]
            if not nv:
                return vals[-1]
        else:
            if len(vals) and vals[-1].op == 'const' and bool(vals[-1].a[0]) and len(vals) == 1:
                return vals[-1]
            if any(v is TRUE for v in vals):
                return TRUE
            nv = [v for v in vals if not (v.op == 'const' and not bool(v.a[0]))]
            if not nv:
                return vals[-1]
        if len(nv) == 1:
            return nv[0]
        flat = []
        for v in nv:
            flat.extend(v.a if v.op == op else [v])
        return mk(op, *flat)

    def e_Compare(self, ctx, st, n):
        l = self.ev(ctx, st, n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            rt = self.ev(ctx, st, r)
            if st.store is None:
                return rt
            self.emit(ctx, st, 'compare', n, left=l, right=rt, name=CMPOPS[type(op)])
            if type(op) in (ast.In, ast.NotIn) and self.host is not None and self.host.owns(rt):
                rt = self.hosted(st, rt)
            out.append(self.compare(CMPOPS[type(op)], l, rt))
            l = rt
        if len(out) == 1:
            return out[0]
        if any(is_const(x, False) for x in out):
            return FALSE
        return mk('and', *out)

    def e_IfExp(self, ctx, st, n):
        c = self.under(self.cond(ctx, st, n.test), st.guards)
        if st.store is None:
            return c
        if c.op == 'const':
            return self.ev(ctx, st, n.body if c.a[0] else n.orelse)
        g = st.guards
        a, b = st.fork(), st.fork()
        a.guards = g + tuple(conj(c, True))
        b.guards = g + tuple(conj(c, False))
        ta = self.ev(ctx, a, n.body)
        tb = self.ev(ctx, b, n.orelse)
        m = self.merge(c, a if a.store is not None else None, b if b.store is not None else None)
        self.become(st, m)
        return self.phi(c, ta, tb)

    def become(self, st, m):
        if m is None:
            st.store = None
            return
        st.frames, st.heap, st.store, st.guards = m.frames, m.heap, m.store, m.guards

    def e_List(self, ctx, st, n):
        return mk('list', *self.elts(ctx, st, n))

    def e_Tuple(self, ctx, st, n):
        return mk('tuple', *self.elts(ctx, st, n))

    def elts(self, ctx, st, n):
        out = []
        for x in n.elts:
            v = self.ev(ctx, st, x)
            if v.op == 'star' and v.a[0].op in ('list', 'tuple'):
                out.extend(v.a[0].a)
            else:
                out.append(v)
        return out

    def e_Set(self, ctx, st, n):
        return mk('set', *[self.ev(ctx, st, x) for x in n.elts])

    def e_Starred(self, ctx, st, n):
        return mk('star', self.ev(ctx, st, n.value))

    def e_Dict(self, ctx, st, n):
        items = []
        for k, v in zip(n.keys, n.values):
            vt = self.ev(ctx, st, v)
            if k is None:
                if vt.op == 'dict':
                    items = self.overlay(items, vt.a[0])
                else:
                    items.append((mk('star', vt), vt))
            else:
                items = self.overlay(items, ((self.ev(ctx, st, k), vt),))
        return mk('dict', tuple(items))

    def overlay(self, items, new):
        """later entries of a dictionary replace earlier ones of the same constant key"""
        out = list(items)
        for k, v in new:
            if k.op == 'const':
                j = [i for i, (kk, _) in enumerate(out) if kk is k]
                if j:
                    out[j[0]] = (k, v)
                    continue
            out.append((k, v))
        return out

    def e_JoinedStr(self, ctx, st, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
                continue
            x = self.ev(ctx, st, v.value)
            if x.op == 'const' and v.format_spec is not None:
                spec = self.ev(ctx, st, v.format_spec)
                try:
                    x = K(format(x.a[0], spec.a[0])) if spec.op == 'const' else x
                except (TypeError, ValueError):
                    pass
            parts.append(x)
        if all(p.op == 'const' for p in parts):
            return K(''.join(str(p.a[0]) for p in parts))
        return mk('fstr', *parts)

    def e_FormattedValue(self, ctx, st, n):
        return self.ev(ctx, st, n.value)

    def e_Lambda(self, ctx, st, n):
        from program import Func
        f = Func(ctx.func.qual + '.<lambda>', n, ctx.func.module, None, ctx.func)
        key = '%s@%d:%d#%d' % (f.qual, n.lineno, n.col_offset, ctx.fid)
        self.lambdas[key] = (f, ctx.fid)
        return mk('lambda', key, f.qual, *self.kept(ctx, st, f))

    def kept(self, ctx, st, f):
        """the default values of an inner function, as they are where it is made"""
        return [mk('tuple', K(p), self.ev(ctx, st, d)) for p, d in f.defaults.items()]

    def e_NamedExpr(self, ctx, st, n):
        l = self.evloc(ctx, st, n.value)
        self.assign(ctx, st, n.target, st.store[l], l, n)
        return st.store[l]

    def comp(self, ctx, st, n, kind, elt):
        # unroll over short literals
        gens = n.generators
        it0 = self.ev(ctx, st, gens[0].iter)
        if st.store is None:
            return it0
        self.nfid += 1
        fid = self.nfid
        st.frames[fid] = (ctx.fid, {})
        c2 = Ctx(ctx.func, fid, ctx.stack, ctx.selfcls)
        c2.exits = ctx.exits
        base = st.guards

        def rec(k, it):
            g = gens[k]
            it = self.hosted(st, it)
            if self.exact and it.op == 'dict' and all(k.op == 'const' for k, _ in it.a[0]):
                it = mk('list', *[k for k, _ in it.a[0]])
            elif self.exact and it.op == 'set' and all(x.op == 'const' for x in it.a):
                it = mk('list', *it.a)
            if it.op in ('list', 'tuple', 'vec') and len(it.a) <= self.unroll and not any(x.op == 'star' for x in it.a) and kind in ('list', 'gen', 'dict', 'set'):
                outs = []
                for x in it.a:
                    if st.store is None:
                        return mk('list')
                    self.assign(c2, st, g.target, x, None, n)
                    ok = True
                    conds = []
                    for c in g.ifs:
                        ct = self.cond(c2, st, c)
                        if st.store is None:
                            return mk('list')
                        if is_const(ct, False):
                            ok = False
                            break
                        if ct.op != 'const':
                            conds.append(ct)
                    if not ok:
                        continue
                    if conds:
                        return None
                    if k + 1 < len(gens):
                        r = self.ev(c2, st, gens[k + 1].iter)
                        r = rec(k + 1, r) if st.store is not None else None
                        if r is None or r.op not in ('list',):
                            return None
                        outs.extend(r.a)
                    else:
                        outs.append(elt(c2, st))
                return mk('list', *outs)
            self.assign(c2, st, g.target, self.elem(it), None, n)
            saved = st.guards
            st.guards = st.guards + ((mk('iter', it), True),)
            conds = []
            for c in g.ifs:
                ct = self.cond(c2, st, c)
                conds.append(ct)
                st.guards = st.guards + tuple(conj(ct, True))
            if k + 1 < len(gens):
                e = rec(k + 1, self.ev(c2, st, gens[k + 1].iter))
                if e is None:
                    e = mk('unk', 'comp@%d' % n.lineno)
                e = mk('flat', e)
            else:
                e = elt(c2, st)
            st.guards = saved
            cc = None
            if conds:
                cc = conds[0] if len(conds) == 1 else mk('and', *conds)
                if is_const(cc, True):
                    cc = None
            return mk('comp', 'list', e, it, cc)
        r = rec(0, it0)
        if st.store is None:
            return mk('unk', 'comp@%s:%d' % (ctx.func.qual, n.lineno))
        st.guards = base
        del st.frames[fid]
        if r is None:
            r = mk('unk', 'comp@%s:%d' % (ctx.func.qual, n.lineno))
        return r

    def e_ListComp(self, ctx, st, n):
        return self.comp(ctx, st, n, 'list', lambda c, s: self.ev(c, s, n.elt))

    def e_GeneratorExp(self, ctx, st, n):
        return self.comp(ctx, st, n, 'gen', lambda c, s: self.ev(c, s, n.elt))

    def e_SetComp(self, ctx, st, n):
        r = self.comp(ctx, st, n, 'set', lambda c, s: self.ev(c, s, n.elt))
        if self.exact and r.op == 'list' and all(x.op == 'const' for x in r.a):
            return self.setof(r.a)
        return mk('call', mk('ext', 'builtins.set'), (r,), ())

    def e_DictComp(self, ctx, st, n):
        r = self.comp(ctx, st, n, 'dict', lambda c, s: mk('tuple', self.ev(c, s, n.key), self.ev(c, s, n.value)))
        if r.op == 'list' and all(x.op == 'tuple' for x in r.a):
            return mk('dict', tuple(self.overlay([], [(x.a[0], x.a[1]) for x in r.a])))
        return mk('dictcomp', r)

    def e_Await(self, ctx, st, n):
        return self.ev(ctx, st, n.value)

    def e_Yield(self, ctx, st, n):
        v = self.ev(ctx, st, n.value) if n.value is not None else NONE
        self.emit(ctx, st, 'yield', n, value=v)
        return mk('unk', 'yield')

    # ------------------------------------------------------------ calls
    def e_Call(self, ctx, st, n):
        fnode = n.func
        recv_loc = None
        # super().method(...)
        if isinstance(fnode, ast.Attribute) and isinstance(fnode.value, ast.Call) and \
                isinstance(fnode.value.func, ast.Name) and fnode.value.func.id == 'super' and ctx.func.cls is not None:
            selfname = ctx.func.posparams[0]
            sl = self.lookup_loc(ctx, st, selfname)
            selft = st.store[sl]
            rc = self.typeof(selft) or ctx.func.cls
            mro = self.p.mro(rc)
            k = mro.index(ctx.func.cls) if ctx.func.cls in mro else -1
            f = None
            for c in mro[k + 1:]:
                if fnode.attr in c.methods:
                    f = c.methods[fnode.attr]
                    break
            args, kws, alocs, klocs = self.args(ctx, st, n)
            if st.store is None:
                return mk('unk', 'dead')
            if f is None:
                return mk('mcall', fnode.attr, mk('unk', 'super'), tuple(args), tuple(kws))
            return self.call_func(ctx, st, n, f, mk('bm', f.qual, selft), [sl] + alocs, klocs, args, kws)
        if isinstance(fnode, ast.Attribute):
            o = self.ev(ctx, st, fnode.value)
            if st.store is None:
                return o
            ft = self.getattr(ctx, st, o, fnode.attr, fnode)
            if ft.op == 'attr' and ft.a[0] is o and (o, fnode.attr) not in st.heap:
                # method of an object outside the repository
                recv_loc = self.evloc(ctx, st, fnode.value, quiet=True)
                args, kws, alocs, klocs = self.args(ctx, st, n)
                if st.store is None:
                    return mk('unk', 'dead')
                return self.ext_method(ctx, st, n, fnode, o, recv_loc, fnode.attr, args, kws)
        else:
            ft = self.ev(ctx, st, fnode)
            if st.store is None:
                return ft
        args, kws, alocs, klocs = self.args(ctx, st, n)
        if st.store is None:
            return mk('unk', 'dead')
        return self.call(ctx, st, n, ft, args, kws, alocs, klocs)

    def args(self, ctx, st, n):
        args, alocs, kws, klocs = [], [], [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                t = self.ev(ctx, st, a.value)
                if t.op in ('list', 'tuple'):
                    for x in t.a:
                        args.append(x)
                        alocs.append(self.newloc(st, x))
                else:
                    args.append(mk('star', t))
                    alocs.append(self.newloc(st, args[-1]))
                continue
            l = self.evloc(ctx, st, a)
            if st.store is None:
                return args, kws, alocs, klocs
            args.append(st.store[l])
            alocs.append(l)
        for k in n.keywords:
            l = self.evloc(ctx, st, k.value)
            if st.store is None:
                return args, kws, alocs, klocs
            t = st.store[l]
            if k.arg is None:
                if t.op == 'dict' and all(x.op == 'const' for x, _ in t.a[0]):
                    for kk, v in t.a[0]:
                        kws.append((kk.a[0], v))
                        klocs[kk.a[0]] = self.newloc(st, v)
                else:
                    kws.append(('**', t))
                    klocs['**'] = l
            else:
                kws.append((k.arg, t))
                klocs[k.arg] = l
        # argument values are read when the call happens
        args = [st.store[l] for l in alocs]
        return args, sorted(kws, key=lambda kv: kv[0]), alocs, klocs

    def call(self, ctx, st, n, ft, args, kws, alocs, klocs):
        if ft.op == 'func':
            f = self.p.funcs[ft.a[0]]
            return self.call_func(ctx, st, n, f, ft, alocs, klocs, args, kws)
        if ft.op == 'bm':
            f = self.p.funcs[ft.a[0]]
            return self.call_func(ctx, st, n, f, ft, [self.newloc(st, ft.a[1])] + alocs, klocs, args, kws)
        if ft.op == 'cls':
            c = self.p.classes[ft.a[0]]
            self.nalloc += 1
            obj = mk('new', '%s:%d:%d' % (ctx.func.qual, n.lineno, self.nalloc), c.qual)
            self.emit(ctx, st, 'new', n, cls=c, obj=obj, args=args, kws=dict(kws))
            f = self.p.lookup(c, '__init__')
            if f is not None:
                self.call_func(ctx, st, n, f, mk('bm', f.qual, obj), [self.newloc(st, obj)] + alocs, klocs, args, kws)
            return obj
        if ft.op == 'lambda' and ft.a[0] in self.lambdas:
            f, fid = self.lambdas[ft.a[0]]
            if self.room(ctx) and fid in st.frames and f.qual not in [x[0] for x in ctx.stack]:
                return self.enter(ctx, st, n, f, alocs, klocs, parent=fid, ft=ft)
        if ft.op == 'phi':
            # call through a choice of callables: record each alternative
            opts = self.phileaves(ft)
            if all(o.op in ('func', 'bm', 'cls', 'ext', 'lambda') for o in opts):
                r = None
                cond = ft.a[0]
                g = st.guards
                a, b = st.fork(), st.fork()
                a.guards = g + tuple(conj(cond, True))
                b.guards = g + tuple(conj(cond, False))
                ra = self.call(ctx, a, n, ft.a[1], args, kws, alocs, klocs)
                rb = self.call(ctx, b, n, ft.a[2], args, kws, alocs, klocs)
                m = self.merge(cond, a if a.store is not None else None, b if b.store is not None else None)
                self.become(st, m)
                return self.phi(cond, ra, rb)
        return self.ext_call(ctx, st, n, ft, args, kws, alocs)

    def phileaves(self, t):
        if t.op == 'phi':
            return self.phileaves(t.a[1]) + self.phileaves(t.a[2])
        return [t]

    def bindargs(self, f, args, kws, bound):
        """-> (dict param->term, problems)"""
        out, prob = {}, []
        pos = list(f.posparams)
        if bound and pos:
            pos = pos[1:]
        k = 0
        starred = False
        for a in args:
            if a.op == 'star':
                starred = True
                continue
            if starred:
                continue
            if k < len(pos):
                out[pos[k]] = a
            elif not f.vararg:
                prob.append('too many positional arguments')
            k += 1
        for name, v in kws:
            if name == '**':
                starred = True
                continue
            if name in pos or name in f.kwonly:
                if name in out and not starred:
                    prob.append('multiple values for argument %r' % name)
                out[name] = v
            elif not f.kwarg:
                prob.append('unexpected keyword argument %r' % name)
        if not starred:
            for p in pos + f.kwonly:
                if p not in out and p not in f.defaults:
                    prob.append('missing argument %r' % p)
        return out, prob

    def room(self, ctx):
        """calls may be opened further; private helpers do not count"""
        return len(ctx.stack) < self.depth or len(ctx.stack) < 3 * self.depth and \
            sum(not private(x[0]) for x in ctx.stack) < self.depth

    def call_func(self, ctx, st, n, f, ft, locs, klocs, args, kws):
        bound = ft.op == 'bm' and not f.static
        binding, prob = self.bindargs(f, args, kws, bound)
        if prob:
            self.emit(ctx, st, 'badcall', n, callee=f, problems=prob)
        selft = ft.a[1] if ft.op == 'bm' else None
        e = self.emit(ctx, st, 'call', n, callee=f, fn=ft, recv=selft, args=args, kws=dict(kws), binding=binding, inlined=False)
        if f.name in self.watch:
            e.state = st.fork()
        model = self.models.get(('func', f.qual)) if self.models else None
        if model is not None and self.fail is not None and self.fail(f.qual, args):
            return self.broken(ctx, st, n)
        if model is not None:
            r = model(dict(binding, **({f.posparams[0]: selft} if selft is not None and f.posparams else {})))
            if r is not None:
                e.result = r
                return r
        recursive = f.qual in [x[0] for x in ctx.stack] or f is ctx.func
        if not recursive and self.room(ctx) and self.inline(ctx.func, f):
            e.inlined = True
            if f.static and ft.op == 'bm':
                locs = locs[1:]
            r = self.enter(ctx, st, n, f, locs, klocs, ft=ft)
            e.result = r
            return r
        if model is None and self.fail is not None and self.fail(f.qual, args):
            return self.broken(ctx, st, n)
        keep = [(p, binding[p]) for p in f.params if p in binding]
        extra = [a for a in args if a.op == 'star']
        stars = [(k, v) for k, v in kws if k == '**']
        r = mk('call', ft, tuple(extra), tuple(keep + stars))
        e.result = r
        return r

    def broken(self, ctx, st, n, error=None):
        """the call ends with an error"""
        ctx.exits.append(Exit('raise', mk('ext', 'builtins.' + error) if error else mk('unk', 'error'), st.fork(), n, st.guards))
        self.become(st, None)
        return mk('unk', 'noreturn')

    def enter(self, ctx, st, n, f, locs, klocs, parent=None, ft=None):
        stack = ctx.stack + ((ctx.func.qual, getattr(n, 'lineno', 0)),)
        c2 = self.frame(st, f, parent, stack)
        env = st.frames[c2.fid][1]
        pos = list(f.posparams)
        k = 0
        extra = []
        star = None
        for l in locs:
            if st.store[l].op == 'star':
                star = st.store[l].a[0]
                continue
            if k < len(pos):
                env[pos[k]] = l
            else:
                extra.append(st.store[l])
            k += 1
        kwextra = []
        for name, l in klocs.items():
            if name in f.posparams or name in f.kwonly:
                env[name] = l
            elif name != '**':
                kwextra.append((K(name), st.store[l]))
        starkw = klocs.get('**')
        for p in f.params:
            if p not in env:
                if starkw is not None and not (star is None and p in f.posparams[:0]):
                    d = f.defaults.get(p)
                    alt = mk('kwget', st.store[starkw], p)
                    env[p] = self.newloc(st, alt)
                elif star is not None and p in f.posparams and p not in f.defaults:
                    env[p] = self.newloc(st, mk('unk', 'star:' + p))
                elif p in f.defaults:
                    # default values are evaluated in the defining scope
                    d = f.defaults[p]
                    own = [t.a[1] for t in ft.a[2:] if t.a[0].a[0] == p] if ft is not None and ft.op == 'lambda' else []
                    env[p] = self.newloc(st, own[0] if own else self.default(f, d, p))
                else:
                    env[p] = self.newloc(st, mk('unk', 'missing:' + p))
        if f.vararg:
            env[f.vararg] = self.newloc(st, mk('tuple', *extra) if star is None else (star if not extra else mk('tuple', *(extra + [mk('star', star)]))))
        if f.kwarg:
            if starkw is not None and not kwextra:
                env[f.kwarg] = starkw
            else:
                items = tuple(sorted(kwextra, key=lambda kv: kv[0].a[0]))
                if starkw is not None:
                    items = items + ((mk('star', st.store[starkw]), st.store[starkw]),)
                env[f.kwarg] = self.newloc(st, mk('dict', items))
        body = f.node.body
        if isinstance(f.node, ast.Lambda):
            r = self.ev(c2, st, body)
            return r
        guards = st.guards
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
        work = st.fork()
        end = self.block(c2, work, body)
        if end is not None:
            x = Exit('fall', NONE, end, f.node, end.guards)
            x.loc = None
            c2.exits.append(x)
        rets = [x for x in c2.exits if x.kind in ('return', 'fall')]
        for x in c2.exits:
            if x.kind == 'raise':
                ctx.exits.append(Exit('raise', x.value, x.state, x.node, x.guards))
        if not rets:
            self.become(st, None)
            return mk('unk', 'noreturn')
        cur, val, loc = rets[-1].state, rets[-1].value, getattr(rets[-1], 'loc', None)
        allrets = list(rets)
        for x in reversed(rets[:-1]):
            c = self.gdiff_ret(x.guards, cur.guards, guards)
            val = self.phi(c, x.value, val)
            cur = self.merge(c, x.state, cur)
            loc = None
        self.become(st, cur)
        if len(allrets) == 1:
            pass
        if loc is not None and st.store is not None and loc in st.store:
            self._ret_pending = loc
        if gen:
            return mk('gen', f.qual)
        self._retloc = loc if len(allrets) == 1 else None
        return val

    def gdiff_ret(self, ga, gb, base):
        ga = ga[len(base):]
        parts = []
        for x in ga:
            if (x[0], not x[1]) in gb:
                return x[0] if x[1] else mknot(x[0])
        for x in ga:
            if x not in gb and x[0].op != 'iter':
                parts.append(x[0] if x[1] else mknot(x[0]))
        if len(parts) == 1:
            return parts[0]
        if parts:
            return mk('and', *parts)
        self.nalloc += 1
        return mk('unk', 'choice%d' % self.nalloc)

    def default(self, f, d, p):
        class F(object):
            pass
        st = State()
        st.frames[0] = (None, {})
        owner = f.outer or f
        ctx = Ctx(owner, 0, ())
        keep = self.events
        self.events = []
        try:
            if isinstance(d, (ast.Dict, ast.List, ast.Set)):
                t = self.ev(ctx, st, d)
                if not children_any(d):
                    return mk('default', f.qual, p, t) if False else t
                return t
            return self.ev(ctx, st, d)
        finally:
            self.events = keep

    def ext_method(self, ctx, st, n, fnode, o, loc, name, args, kws):
        e = self.emit(ctx, st, 'mcall', n, name=name, recv=o, args=args, kws=dict(kws))
        if self.fail is not None and self.fail(name, args):
            return self.broken(ctx, st, n)
        if self.host is not None and self.host.owns(o):
            r = self.host.method(self, ctx, st, n, o, name, args, dict(kws))
            if r is not None:
                e.result = r
                return r
        if name == 'astype' and o.op == 'const' and isinstance(o.a[0], float) and o.a[0] == int(o.a[0]) and len(args) == 1 and args[0] in (mk('ext', 'builtins.int'), K('int')):
            e.result = K(int(o.a[0]))
            return e.result
        model = self.models.get((o, name)) or self.models.get((None, name)) if self.models else None
        if model is not None:
            r = model(args, dict(kws))
            if r is not None:
                e.result = r
                return r
        if self.vec:
            r = vecs.method(self, name, o, args, dict(kws))
            if r is None and o.op == 'ext':
                r = vecs.ext(self, o.a[0] + '.' + name, args, dict(kws))
            if r is vecs.NEXT:
                r = None
            if r is not None:
                e.result = r
                return r
        # mutation of containers
        if name in MUTATORS and not self.is_module_like(o):
            e2 = self.emit(ctx, st, 'mutate', n, base=o, name=name, args=args, kws=dict(kws))
            cur = st.store[loc]
            new = None
            if name == 'append' and len(args) == 1:
                new = mk('list', *(cur.a + (args[0],))) if cur.op == 'list' else mk('app', cur, args[0])
            elif name == 'extend' and len(args) == 1:
                new = mk('list', *(cur.a + args[0].a)) if cur.op == 'list' and args[0].op in ('list', 'tuple') else mk('cat', cur, args[0])
            elif self.exact and cur.op == 'set' and all(x.op == 'const' for x in cur.a) and (name in ('add', 'discard', 'clear') or name == 'update' and all(
                    a.op in ('list', 'tuple', 'set') and all(x.op == 'const' for x in a.a) for a in args)):
                more = [] if name in ('discard', 'clear') else list(args) if name == 'add' else [x for a in args for x in a.a]
                old = [] if name == 'clear' else [x for x in cur.a if name != 'discard' or x is not args[0]]
                new = self.setof(old + more)
            elif name == 'update':
                new = cur
                src = [a for a in args]
                if kws:
                    src.append(mk('dict', tuple((K(k), v) for k, v in kws if k != '**')))
                for s in src:
                    if s.op == 'dict' and new.op == 'dict' and all(k.op == 'const' for k, _ in s.a[0]):
                        d = [(k, v) for k, v in new.a[0] if k not in [kk for kk, _ in s.a[0]]]
                        new = mk('dict', tuple(d) + s.a[0])
                    else:
                        new = mk('merged', new, s)
            elif name == 'setdefault' and args and args[0].op == 'const' and cur.op == 'dict' and all(k.op == 'const' for k, _ in cur.a[0]):
                old = [v for k, v in cur.a[0] if k is args[0]]
                v = old[0] if old else args[1] if len(args) > 1 else NONE
                if not old:
                    self.updloc(ctx, st, fnode.value, loc, mk('dict', cur.a[0] + ((args[0], v),)))
                e2.result = e.result = v
                return v
            elif name == 'clear' and cur.op in ('list', 'dict'):
                new = mk('list') if cur.op == 'list' else mk('dict', ())
            elif name == 'insert' and cur.op == 'list' and len(args) == 2 and args[0].op == 'const' and isinstance(args[0].a[0], int):
                l = list(cur.a)
                l.insert(args[0].a[0], args[1])
                new = mk('list', *l)
            elif self.exact and (name == 'pop' and len(args) == 1 and self.absent(cur, args[0]) or name == 'remove' and len(args) == 1 and cur.op in ('list', 'set') and args[0].op == 'const'
                                 and all(x.op == 'const' and x.a[0] != args[0].a[0] for x in cur.a)):
                return self.broken(ctx, st, n, 'KeyError' if cur.op in ('dict', 'set') else 'ValueError' if name == 'remove' else 'IndexError')
            elif name in ('pop', 'remove', 'discard', 'popitem'):
                new = self.without(cur, args[0] if args else NONE, name == 'remove')
            else:
                new = mk('mut', cur, name, tuple(args))
            self.updloc(ctx, st, fnode.value, loc, new)
            if name == 'pop':
                r = mk('mcall', 'pop', o, tuple(args), tuple(kws))
                if args:
                    r = self.sub(o, args[0]) if len(args) == 1 else r
                e.result = r
                return r
        # literal evaluation of str methods
        if o.op == 'const' and isinstance(o.a[0], str):
            if all(a.op == 'const' for a in args) and all(v.op == 'const' for _, v in kws) and name in ('format', 'replace', 'upper', 'lower', 'strip', 'join', 'endswith', 'startswith', 'lstrip', 'rstrip', 'title',
                                                                                                                   'capitalize', 'removeprefix', 'removesuffix'):
                try:
                    r = K(getattr(o.a[0], name)(*[a.a[0] for a in args], **{k: v.a[0] for k, v in kws}))
                    e.result = r
                    return r
                except Exception:
                    pass
        if o.op == 'dict' and name == 'items' and not args and len(o.a[0]) <= self.unroll * 4 and all(k.op == 'const' for k, _ in o.a[0]):
            r = mk('list', *[mk('tuple', k, v) for k, v in o.a[0]])
            e.result = r
            return r
        if o.op == 'dict' and name in ('keys', 'values') and not args and all(k.op == 'const' for k, _ in o.a[0]):
            r = mk('list', *[(k if name == 'keys' else v) for k, v in o.a[0]])
            e.result = r
            return r
        r = fold_method(name, o, args, dict(kws))
        if r is None and o.op == 'ext':
            r = fold_ext(o.a[0] + '.' + name, args, dict(kws))
        if r is None:
            r = mk('mcall', name, o, tuple(args), tuple(kws))
        e.result = r
        return r

    def is_module_like(self, o):
        return o.op in ('ext', 'mod', 'cls')

    def ext_call(self, ctx, st, n, ft, args, kws, alocs):
        name = ft.a[0] if ft.op == 'ext' else None
        e = self.emit(ctx, st, 'extcall', n, name=name, fn=ft, args=args, kws=dict(kws))
        if self.fail is not None and self.fail(name if name is not None else ft, args):
            return self.broken(ctx, st, n)
        if self.host is not None:
            r = self.host.call(self, ctx, st, n, ft, args, dict(kws))
            if r is not None:
                e.result = r
                return r
            if any(self.host.owns(a) for a in args):
                args = [self.hosted(st, a) for a in args]
        model = self.models.get(ft) if self.models else None
        if model is not None:
            r = model(args, dict(kws))
            if r is not None:
                e.result = r
                return r
        if self.vec:
            r = vecs.ext(self, name, args, dict(kws))
            if r is vecs.NEXT:
                args = tuple(mk('list', *a.a) if a.op == 'vec' else a for a in args)
            elif r is not None:
                e.result = r
                return r
        if name in EXT_MUTATORS and len(args) > EXT_MUTATORS[name]:
            k = EXT_MUTATORS[name]
            self.emit(ctx, st, 'mutate', n, base=args[k], name=name, args=args, kws=dict(kws))
            node = n.args[k] if k < len(n.args) else None
            if node is not None:
                loc = self.evloc(ctx, st, node, quiet=True)
                self.updloc(ctx, st, node, loc, mk('mut', st.store[loc], name, tuple(args[1:])))
        for k, v in kws:
            if k == 'out' and v is not NONE:
                self.emit(ctx, st, 'mutate', n, base=v, name=(name or '?') + '(out=)', args=args, kws=dict(kws))
        if name == 'builtins.setattr' and len(args) == 3 and args[1].op == 'const':
            self.emit(ctx, st, 'setattr', n, obj=args[0], attr=args[1].a[0], value=args[2], aug=False)
            self.setattr_(st, args[0], args[1].a[0], alocs[2])
            return NONE
        if name == 'builtins.getattr' and len(args) >= 2 and args[1].op == 'const':
            r = self.getattr(ctx, st, args[0], args[1].a[0], n)
            e.result = r
            return r
        f = fold_ext(name, args, dict(kws))
        if f is not None:
            e.result = f
            return f
        if name == 'builtins.dict':
            if not args and not any(k == '**' for k, _ in kws):
                r = mk('dict', tuple((K(k), v) for k, v in kws))
                e.result = r
                return r
        if name in ('builtins.list', 'builtins.tuple') and len(args) == 1 and args[0].op in ('list', 'tuple'):
            r = mk(name[9:], *args[0].a)
            e.result = r
            return r
        if name == 'builtins.list' and not args:
            return mk('list')
        if self.exact and name == 'builtins.set' and len(args) < 2:
            src = args[0] if args else mk('list')
            xs = [k for k, _ in src.a[0]] if src.op == 'dict' else list(src.a) if src.op in ('list', 'tuple', 'set', 'vec') else None
            if xs is not None and all(x.op == 'const' and isinstance(x.a[0], (str, int)) for x in xs):
                return self.setof(xs)
        if name == 'builtins.len' and len(args) == 1 and args[0].op in ('list', 'tuple') and not any(x.op == 'star' for x in args[0].a):
            return K(len(args[0].a))
        if name == 'builtins.isinstance' and len(args) == 2:
            c = self.typeof(args[0])
            if c is not None and args[1].op == 'cls':
                r = K(self.p.classes[args[1].a[0]] in self.p.mro(c))
                return r
            r = literal_isinstance(args[0], args[1])
            if r is not None:
                return K(r)
        if name in ('builtins.enumerate', 'builtins.zip') and args and all(a.op in ('list', 'tuple') and not any(x.op == 'star' for x in a.a) for a in args):
            if name.endswith('enumerate') and len(args) == 1 and not kws:
                return mk('list', *[mk('tuple', K(i), x) for i, x in enumerate(args[0].a)])
            if name.endswith('zip'):
                return mk('list', *[mk('tuple', *xs) for xs in zip(*[a.a for a in args])])
        if name == 'builtins.range' and args and all(a.op == 'const' and isinstance(a.a[0], int) for a in args):
            r = range(*[a.a[0] for a in args])
            if len(r) <= self.unroll:
                return mk('list', *[K(i) for i in r])
        r = mk('call', ft, tuple(args), tuple(kws))
        e.result = r
        return r


def children_any(d):
    return any(True for _ in ast.iter_child_nodes(d))


_LIT = {'list': list, 'tuple': tuple, 'dict': dict, 'set': set}
_BUILT = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'complex': complex}


def literal_isinstance(x, cs):
    """isinstance of a literal with builtin types, None when not decidable"""
    if x.op == 'const':
        ty = type(x.a[0])
    elif x.op in _LIT:
        ty = _LIT[x.op]
    else:
        return None
    cs = cs.a if cs.op in ('tuple', 'list') else (cs,)
    known = True
    for c in cs:
        n = c.a[0].split('.', 1)[1] if c.op == 'ext' and c.a[0].startswith('builtins.') else None
        if n in _BUILT:
            if issubclass(ty, _BUILT[n]):
                return True
        elif c.op == 'ext' and (c.a[0].startswith('numpy.') or c.a[0].startswith('h5py.')):
            if c.a[0] in ('numpy.integer', 'numpy.floating', 'numpy.number', 'numpy.ndarray', 'numpy.bool_'):
                continue
            known = False
        else:
            known = False
    return False if known else None
