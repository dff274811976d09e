"""Facts shared by the property checks."""
import ast
import re
from terms import T, mk, K, NONE, TRUE, FALSE, is_const, const, subterms, find, show
from flow import Interp

# parameters / attributes that hold instances of repository classes
PARAM_TYPES = {'cross_grid': 'Grid', 'source': 'Grid'}
ATTR_TYPES = {}

VIEW_METHODS = {'reshape', 'ravel', 'view', 'squeeze', 'swapaxes', 'transpose', 'get', 'items', 'values',
                'keys', 'setdefault', '__getitem__'}
VIEW_FUNCS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.moveaxis', 'numpy.reshape', 'numpy.ravel',
              'numpy.squeeze', 'numpy.expand_dims', 'numpy.broadcast_to', 'numpy.atleast_1d',
              'numpy.atleast_2d', 'numpy.atleast_3d', 'numpy.transpose', 'numpy.swapaxes', 'numpy.real', 'numpy.imag',
              'numpy.ascontiguousarray', 'builtins.iter', 'builtins.reversed', 'numpy.split', 'numpy.array_split'}


INDEX_ARRAYS = {'numpy.setdiff1d', 'numpy.arange', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.delete', 'numpy.where', 'numpy.unique', 'numpy.argsort', 'numpy.intersect1d', 'numpy.union1d', 'numpy.array',
                'numpy.concatenate', 'numpy.sort', 'numpy.append', 'numpy.logical_and', 'numpy.logical_or', 'numpy.isin', 'numpy.logical_not'}


def fancy(i):
    """an index that is an array (indexing with one copies)"""
    if i.op in ('list', 'vec'):
        return True
    if i.op == 'tuple':
        return any(fancy(x) or x.op == 'tuple' or x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] in ('builtins.tuple', 'builtins.list') for x in i.a)
    if i.op == 'call' and i.a[0].op == 'ext':
        return i.a[0].a[0] in INDEX_ARRAYS
    if i.op == 'mcall' and i.a[0] in ('astype', 'argsort'):
        return i.a[0] == 'argsort' or fancy(i.a[1])
    if i.op == 'phi':
        return fancy(i.a[1]) and fancy(i.a[2])
    if i.op == 'sub' and i.a[0].op == 'call' and i.a[0].a[0].op == 'ext' and i.a[0].a[0].a[0] in ('numpy.nonzero', 'numpy.where'):
        return True
    return False


def roots(t, seen=None, made=None):
    """objects whose storage the value may share: params, globals, allocations"""
    seen = seen if seen is not None else set()
    if t in seen:
        return set()
    seen.add(t)
    o = t.op
    if made is not None and made(t):
        return {t}
    if o in ('param', 'glob', 'new'):
        return {t}
    if o in ('attr', 'with'):
        return roots(t.a[0], seen, made)
    if o == 'sub':
        # integer-array / boolean-mask indexing copies; slices and scalars do not
        i = t.a[1]
        if i.op in ('cmp', 'not', 'and', 'or') or (i.op == 'bin' and i.a[0] in '&|'):
            return set()
        if fancy(i):
            return set()
        return roots(t.a[0], seen, made)
    if o == 'phi':
        return roots(t.a[1], seen, made) | roots(t.a[2], seen, made)
    if o == 'mu':
        return roots(t.a[2], seen, made)
    if o == 'loop':
        return roots(t.a[2], seen, made) | roots(t.a[3], seen, made)
    if o in ('upd', 'mut', 'app', 'merged', 'without', 'star', 'part'):
        return roots(t.a[0], seen, made)
    if o == 'mcall':
        if t.a[0] in VIEW_METHODS:
            return roots(t.a[1], seen, made)
        if t.a[0] == 'astype' and any(k == 'copy' and is_const(v, False) for k, v in t.a[3]):
            return roots(t.a[1], seen, made)
        return set()
    if o == 'or' or o == 'and':
        r = set()
        for x in t.a:
            r |= roots(x, seen, made)
        return r
    if o == 'call' and t.a[0].op == 'ext' and t.a[1]:
        f = t.a[0].a[0]
        if f in VIEW_FUNCS:
            return roots(t.a[1][0], seen, made)
        if f == 'numpy.array':
            for k, v in t.a[2]:
                if k == 'copy' and (is_const(v, False) or v is NONE):
                    return roots(t.a[1][0], seen, made)
    return set()


def result(prog, func, key='all', inline=None, bind=None, depth=6, types=None, selfcls=None):
    """cached analysis of one entry point"""
    cache = prog.__dict__.setdefault('_results', {})
    k = (func.qual, key, tuple(sorted((n, t.uid) for n, t in (bind or {}).items())), selfcls.qual if selfcls else None)
    if k not in cache:
        ty = dict(PARAM_TYPES)
        ty.update(types or {})
        it = Interp(prog, inline=inline or (lambda a, b: True), depth=depth, types=ty, attr_types=ATTR_TYPES)
        cache[k] = it.run(func, bind=bind, selfcls=selfcls)
    return cache[k]


def all_results(prog):
    out = []
    for q in sorted(prog.funcs):
        out.append(result(prog, prog.funcs[q]))
    return out


def is_public(f):
    n = f.name
    if n.startswith('__') and n.endswith('__'):
        return True
    return not n.startswith('_') and not (f.cls is not None and f.cls.name.startswith('__'))


SCALAR_ANN = {'int', 'float', 'str', 'bool', 'complex'}


def scalar_param(f, name):
    """parameter documented / annotated / defaulted as an immutable scalar"""
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == name and isinstance(x.annotation, ast.Name) and x.annotation.id in SCALAR_ANN:
            return True
    d = f.defaults.get(name)
    if isinstance(d, ast.UnaryOp):
        d = d.operand
    if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str, bool)) and d.value is not None:
        return True
    doc = ast.get_docstring(f.node) if not isinstance(f.node, ast.Lambda) else None
    if doc:
        m = re.search(r'^\s*%s\s*:\s*(.*)$' % re.escape(name), doc, re.M)
        if m and re.match(r'(int|float|str|bool|number)\b(?!.*(array|tuple|list|iterable))', m.group(1).strip()):
            return True
    return False


def ext_name(t):
    return t.a[0] if t.op == 'ext' else None


def calls_to(t, name):
    """sub-terms calling the external function `name`"""
    return find(t, lambda x: x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == name)


def is_call(t, *names):
    return t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in names


def kw(t, name, pos=None):
    """argument of a call/mcall term by keyword or position"""
    if t.op == 'call':
        args, kws = t.a[1], t.a[2]
    else:
        args, kws = t.a[2], t.a[3]
    for k, v in kws:
        if k == name:
            return v
    if pos is not None and pos < len(args):
        return args[pos]
    return None


def strip(t, ops=('upd', 'mut', 'app', 'merged', 'without')):
    while t.op in ops:
        t = t.a[0]
    return t


def leaves(t, limit=64):
    """alternatives of a gated value: list of (conds, term)"""
    out = []

    def rec(x, c):
        if len(out) > limit:
            return
        if x.op == 'phi':
            rec(x.a[1], c + ((x.a[0], True),))
            rec(x.a[2], c + ((x.a[0], False),))
        else:
            out.append((c, x))
    rec(t, ())
    return out


def short(q):
    return q.split('simim.', 1)[-1] if q.startswith('simim.') else q


def cn(q):
    """construct name Class.method / module.function"""
    parts = q.split('.')
    return '.'.join(parts[-2:])


def apply(res, ex, fn, args, kws=()):
    """value of calling the callable term `fn` in the exit state `ex` of an analysis result, None when not decidable"""
    import ast as _ast
    from flow import Ctx
    it = res.interp
    st = ex.state.fork()
    keep = it.events
    it.events = []
    try:
        it.nfid += 1
        st.frames[it.nfid] = (None, {})
        ctx = Ctx(res.func, it.nfid, ())
        n = _ast.parse('f()').body[0].value
        locs = [it.newloc(st, a) for a in args]
        klocs = {k: it.newloc(st, v) for k, v in kws}
        v = it.call(ctx, st, n, fn, tuple(args), tuple(kws), locs, klocs)
    finally:
        it.events = keep
    return v


def spec(prog, func, bind=None, heap=None, selfcls=None, models=None, inline=None, depth=6, guards=(), types=None, ret_types=None, attr_types=None, unroll=16, vec=False, preset=None, scalars=()):
    """analysis of an entry point specialised to given argument / attribute values; models say what outside callables return"""
    f = prog.func(func) if isinstance(func, str) else func
    it = Interp(prog, inline=inline or (lambda a, b: True), depth=depth, types=types, ret_types=ret_types, attr_types=attr_types, unroll=unroll)
    it.models = dict(models or {})
    it.vec = vec
    it.scalars = set(scalars)
    it.preset = dict(preset or {})
    return it.run(f, bind=bind, heap=heap, selfcls=selfcls, guards=guards)


def defaults(it, f, bind):
    """argument values with the declared defaults filled in"""
    bind = dict(bind)
    for p, d in f.defaults.items():
        if p not in bind:
            bind[p] = it.default(f, d, p)
    return bind


def P(n):
    return mk('param', n)


def L(*a):
    return mk('list', *a)


def D(*kv):
    return mk('dict', tuple(kv))


def final(ex, attr, obj='self'):
    """value of <obj>.<attr> in an exit state, None when never written or read"""
    for (o, a), loc in ex.state.heap.items():
        if a == attr and o.op == 'param' and o.a[0] == obj:
            return ex.state.store[loc] if isinstance(loc, int) else loc
    return None


def normal(r):
    """(the only) ways an analysed operation completes"""
    return [x for x in r.exits if x.kind in ('return', 'fall')]


def powers(t, base):
    """t written as  rest * base**exponent : (rest poly, exponent poly), None when not such a product"""
    from terms import poly

    def rec(x):
        if x is base:
            return {(): 1}, {(): 1}
        if is_call(x, 'numpy.power') and len(x.a[1]) == 2:
            x = mk('bin', '**', x.a[1][0], x.a[1][1])
        if is_call(x, 'numpy.multiply', 'numpy.divide') and len(x.a[1]) == 2:
            x = mk('bin', '*' if x.a[0].a[0].endswith('multiply') else '/', x.a[1][0], x.a[1][1])
        if x.op == 'bin' and x.a[0] in '*/' and x.a[0] != '**':
            a, b = rec(x.a[1]), rec(x.a[2])
            if a is None or b is None:
                return None
            s = 1 if x.a[0] == '*' else -1
            r = poly(mk('bin', x.a[0], unpoly(a[0]), unpoly(b[0])))
            e = dict(a[1])
            for k, v in b[1].items():
                e[k] = e.get(k, 0) + s * v
            return r, {k: v for k, v in e.items() if v != 0}
        if x.op == 'bin' and x.a[0] == '**':
            a = rec(x.a[1])
            n = x.a[2].a[0] if x.a[2].op == 'const' else None
            if a is not None and isinstance(n, (int, float)) and n == int(n) and 0 < n <= 4 and a[0] != {(): 1}:
                r = {(): 1}
                for _ in range(int(n)):
                    r = poly(mk('bin', '*', unpoly(r), unpoly(a[0])))
                return r, {k: v * n for k, v in a[1].items()}
            if a is not None and a[0] == {(): 1}:
                return {(): 1}, poly(mk('bin', '*', unpoly(a[1]), x.a[2]))
        if base in subterms(x):
            return None
        return poly(x), {}
    return rec(t)


def unpoly(p):
    """a term with the given poly"""
    r = None
    for mono, c in p.items():
        x = K(c)
        for a, e in mono:
            for _ in range(abs(e)):
                x = mk('bin', '*' if e > 0 else '/', x, a)
        r = x if r is None else mk('bin', '+', r, x)
    return r if r is not None else K(0)


def element(t, i):
    """i-th element of a list value with constant length, through updates and choices: [(conds, term)]"""
    if t.op in ('list', 'tuple') and i < len(t.a):
        return leaves(t.a[i])
    if t.op == 'phi':
        return [(((t.a[0], True),) + c, x) for c, x in element(t.a[1], i)] + [(((t.a[0], False),) + c, x) for c, x in element(t.a[2], i)]
    if t.op == 'upd' and t.a[1].op == 'const':
        return leaves(t.a[2]) if t.a[1].a[0] == i else element(t.a[0], i)
    return [((), mk('sub', t, K(i)))]


H = mk('param', 'little h')


def with_h(t, extra=()):
    """every spelling of little h (attribute h, metadata entry cosmo_h) replaced by one symbol"""
    from terms import rebuild
    if t is None:
        return None

    def f(x):
        if x in extra or x.op == 'attr' and x.a[1] == 'h' or x.op == 'sub' and x.a[1].op == 'const' and x.a[1].a[0] == 'cosmo_h':
            return H
        if x.op == 'phi' and x.a[1] is x.a[2]:
            return x.a[1]
        return None
    return rebuild(t, f)


SHAPE_ONLY = {'numpy.' + n for n in ('empty', 'zeros', 'ones', 'empty_like', 'zeros_like', 'ones_like', 'shape', 'size', 'ndim')} | {'builtins.len', 'builtins.range', 'numpy.arange'}


def content(t):
    """sub-terms whose values (not only their shapes or types) make up t"""
    from terms import children
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'attr' and x.a[1] in ('dtype', 'shape', 'size', 'ndim'):
            continue
        if x.op == 'call' and x.a[0].op == 'ext':
            if x.a[0].a[0] in SHAPE_ONLY:
                continue
            if x.a[0].a[0] in ('numpy.full', 'numpy.full_like'):
                stack.extend(x.a[1][1:2])
                stack.extend(v for k, v in x.a[2] if k == 'fill_value')
                continue
            stack.extend(x.a[1])
            stack.extend(v for k, v in x.a[2] if k != 'dtype')
            continue
        if x.op == 'upd':
            stack.extend((x.a[0], x.a[2]))
            continue
        if x.op == 'sub':
            stack.append(x.a[0])
            continue
        stack.extend(children(x))
    return seen
