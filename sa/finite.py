"""Finite-domain feasibility of path conditions (enumeration of option values, no solver)."""
import itertools
from terms import T, mk, K, NONE, is_const, find, subterms, show

OTHER = '\x00any-other-value'
NONBOOL = ('cmp', 'not', 'and', 'or')


class Unknown(Exception):
    pass


class NoPath(Unknown):
    """evaluation would raise: this path is not taken"""


def _value(t, env):
    if t in env:
        return env[t]
    if t.op == 'const':
        return t.a[0]
    if t.op == 'phi':
        return _value(t.a[1] if holds(t.a[0], env) else t.a[2], env)
    if t.op in ('list', 'tuple', 'set'):
        return tuple(_value(x, env) for x in t.a)
    if t.op in NONBOOL:
        return holds(t, env)
    if t.op == 'mcall' and t.a[0] in ('lower', 'upper', 'strip') and not t.a[2] and not t.a[3]:
        v = _value(t.a[1], env)
        if isinstance(v, str):
            return v if v == OTHER else getattr(v, t.a[0])()
    if t.op == 'sub' and t.a[0].op == 'dict':
        k = _value(t.a[1], env)
        for x, v in t.a[0].a[0]:
            if _value(x, env) == k:
                return _value(v, env)
        raise NoPath(t)
    if t.op == 'mcall' and t.a[0] == 'get' and t.a[1].op == 'dict' and t.a[2]:
        k = _value(t.a[2][0], env)
        for x, v in t.a[1].a[0]:
            if _value(x, env) == k:
                return _value(v, env)
        return _value(t.a[2][1], env) if len(t.a[2]) > 1 else None
    if nonnull_op(t):
        return ('\x00object', t.uid)
    raise Unknown(t)


def nonnull_op(t):
    return t.op in ('list', 'tuple', 'dict', 'comp', 'new', 'bin', 'func', 'cls', 'upd')


def _members(t, env):
    """iterable of concrete members of a container term"""
    if t.op in ('list', 'tuple', 'set'):
        return [_value(x, env) for x in t.a]
    if t.op == 'const' and isinstance(t.a[0], (str, tuple)):
        return list(t.a[0])
    if t.op == 'dict':
        return [_value(k, env) for k, _ in t.a[0]]
    if t.op == 'mcall' and t.a[0] == 'keys':
        return _members(t.a[1], env)
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.array', 'builtins.list', 'builtins.tuple', 'builtins.set') and t.a[1]:
        return _members(t.a[1][0], env)
    if t.op == 'phi':
        return _members(t.a[1] if holds(t.a[0], env) else t.a[2], env)
    raise Unknown(t)


def holds(c, env):
    """truth of condition c under env; raises Unknown"""
    if c in env:
        return bool(env[c])
    if c.op == 'not':
        return not holds(c.a[0], env)
    if c.op in ('and', 'or'):
        unk = None
        for x in c.a:
            try:
                v = holds(x, env)
            except Unknown as e:
                unk = e
                continue
            if v == (c.op == 'or'):
                return v
        if unk is not None:
            raise unk
        return c.op == 'and'
    if c.op in ('nonempty', 'iter'):
        return True     # loops are taken to run at least once
    if c.op == 'cmp' and c.a[0] in ('==', 'is', 'in', '<', '<='):
        if c.a[0] == 'in':
            v = _value(c.a[1], env)
            return any(type(m) is type(v) and m == v for m in _members(c.a[2], env))
        a, b = c.a[1], c.a[2]
        if c.a[0] == 'is' and is_const(b, None) and nonnull_op(a):
            return False
        x, y = _value(a, env), _value(b, env)
        if c.a[0] == 'is':
            return x is y or (type(x) is type(y) and x == y)
        if c.a[0] == '==':
            return x == y
        if x == OTHER or y == OTHER:
            raise Unknown(c)
        return x < y if c.a[0] == '<' else x <= y
    if c.op == 'const':
        return bool(c.a[0])
    if c.op == 'phi':
        return holds(c.a[1] if holds(c.a[0], env) else c.a[2], env)
    if c.op in ('list', 'tuple', 'dict') :
        return bool(c.a)
    raise Unknown(c)


def isinst(c):
    """(obj, type names) for isinstance tests"""
    if c.op == 'call' and c.a[0].op == 'ext' and c.a[0].a[0] == 'builtins.isinstance' and len(c.a[1]) == 2:
        ts = c.a[1][1]
        ts = ts.a if ts.op == 'tuple' else (ts,)
        return c.a[1][0], [x.a[0] for x in ts if x.op in ('ext', 'cls')]
    return None


def atoms(c, out, strict=False):
    """value atoms -> constants they are compared with; and opaque boolean atoms"""
    vals, opaque = out
    if c.op in ('not', 'and', 'or'):
        for x in c.a:
            atoms(x, out)
    elif c.op in ('nonempty', 'iter', 'const', 'list', 'tuple', 'dict'):
        pass
    elif c.op == 'phi':
        for x in c.a:
            atoms(x, out)
    elif c.op == 'cmp' and c.a[0] in ('==', 'is', 'in'):
        a, b = c.a[1], c.a[2]
        consts = []
        if b.op == 'const':
            consts = list(b.a[0]) if c.a[0] == 'in' and isinstance(b.a[0], tuple) else [b.a[0]]
        elif c.a[0] == 'in':
            try:
                consts = _members(b, {})
            except Unknown:
                opaque.add(c)
                return
        else:
            opaque.add(c)
            return
        if not all(isinstance(x, (str, bool, type(None))) or (isinstance(x, int)) for x in consts):
            opaque.add(c)
            return
        for x in valatoms(a, out):
            vals.setdefault(x, set()).update(consts)
    elif c.op in ('param', 'attr', 'sub'):
        vals.setdefault(c, set()).update([True, False])
    else:
        opaque.add(c)


def valatoms(a, out):
    if a.op == 'phi':
        atoms(a.a[0], out)
        return valatoms(a.a[1], out) + valatoms(a.a[2], out)
    if a.op == 'mcall' and a.a[0] in ('lower', 'upper', 'strip') and not a.a[2]:
        return valatoms(a.a[1], out)
    if a.op == 'const' or a.op == 'dict':
        return []
    if a.op == 'sub' and a.a[0].op == 'dict' or a.op == 'mcall' and a.a[0] == 'get' and a.a[1].op == 'dict' and a.a[2]:
        d, k = (a.a[0], a.a[1]) if a.op == 'sub' else (a.a[1], a.a[2][0])
        ks = {x.a[0] for x, _ in d.a[0] if x.op == 'const'}
        for x in valatoms(k, out):
            out[0].setdefault(x, set()).update(ks)
        return []
    return [a]


def feasible(conds, domains=None, other=True, limit=20000, fixed=None, exclude=()):
    """assignments under which every (cond, polarity) holds.

    yields (env, n_opaque): opaque conditions are free booleans.
    domains(atom) -> extra constants or None; other: include a value none of the constants equal.
    """
    vals, opaque = {}, set()
    for c, p in conds:
        atoms(c, (vals, opaque))
    keys = sorted(vals, key=lambda x: x.uid)
    doms = []
    for k in keys:
        if fixed and k in fixed:
            doms.append([fixed[k]])
            continue
        d = set(vals[k])
        ex = domains(k) if domains else None
        o = other
        if ex is not None:
            d |= set(ex[0])
            o = ex[1]
        d = sorted(d, key=lambda x: (str(type(x)), str(x)))
        if o and not all(isinstance(x, bool) for x in d):
            d.append(OTHER)
        doms.append([x for x in d if x not in exclude])
    opaque = sorted(opaque, key=lambda x: x.uid)
    size = 2 ** len(opaque)
    for d in doms:
        size *= len(d)
    if size > limit:
        return
    for vs in itertools.product(*doms):
        base = dict(zip(keys, vs))
        for bs in itertools.product((True, False), repeat=len(opaque)):
            env = dict(base)
            env.update(zip(opaque, bs))
            try:
                if all(holds(c, env) == p for c, p in conds):
                    yield env, len(opaque)
            except Unknown:
                continue
