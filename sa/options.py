"""Discrete options: which values a function accepts, decided from its path conditions."""
import ast
from common import *
from finite import feasible, atoms, OTHER, holds, _value, Unknown, NoPath


def paths(prog, f, env, selfcls=None):
    """normal exits of f feasible under env {param: constant}"""
    r = result(prog, f, selfcls=selfcls)
    fixed = {mk('param', k): v for k, v in env.items()}
    out = []
    # unconditional table look-ups that would fail
    for x in r.returns():
        if not x.guards or not mentions(x.guards, fixed):
            out.append(x)
        elif next(feasible(list(x.guards), fixed=fixed), None) is not None:
            out.append(x)
    return r, fixed, out


def mentions(guards, fixed):
    return any(any(t in fixed for t in subterms(c)) for c, _ in guards)


def lookup_fails(r, fixed):
    """a table look-up every call makes, with a key the table lacks"""
    for e in r.events:
        if e.kind == 'getsub' and e.base.op == 'dict' and not any(g for g in e.guards if not known(g, fixed)):
            try:
                k = _value(e.idx, fixed)
            except Unknown:
                continue
            try:
                keys = [_value(x, fixed) for x, _ in e.base.a[0]]
            except Unknown:
                continue
            if k not in keys:
                return e
    return None


def known(g, fixed):
    try:
        return holds(g[0], fixed) == g[1]
    except Unknown:
        return False


def rejects(prog, f, env):
    """None when no normal exit is feasible under env, else a description"""
    r, fixed, out = paths(prog, f, env)
    if not out or lookup_fails(r, fixed):
        return None
    return out[0]


def accepts(prog, f, env):
    r, fixed, out = paths(prog, f, env)
    if not out:
        return 'every path raises an error'
    e = lookup_fails(r, fixed)
    if e:
        return 'its table has no entry for this value (%s)' % e.where
    for e in r.events:
        if e.kind == 'unbound' and e.guards and next(feasible(list(e.guards), fixed=fixed), None) is not None:
            return '%s is not defined (%s)' % (e.var, e.where)
        if e.kind == 'maybe_unbound':
            for cs, t in leaves(e.value):
                if t.op != 'unbound':
                    continue
                op = set()
                for c, p in cs:
                    atoms(c, ({}, op))
                if len(op) > 1 or any(c.op in ('nonempty', 'iter') and not p for c, p in cs):
                    continue
                if next(feasible(list(cs) + list(e.guards), fixed=fixed), None) is not None:
                    return '%s is not defined (%s)' % (e.var, e.where)
    return None
