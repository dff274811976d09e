"""Every supported simulation name with the source class that accepts it and the state its constructor leaves."""
from common import *
from flow import Interp


def module_value(prog, name):
    """value of a module-level constant, wherever it is defined: [(module, term)]"""
    it = Interp(prog)
    out = []
    for mn in sorted(prog.modules):
        m = prog.modules[mn]
        if name in m.names and m.names[name][0] == 'var':
            out.append((m, it.modvar(m, name)))
    return out


def accepted(prog):
    """names accepted by the simulation check, read from the list it tests membership in"""
    for m, t in module_value(prog, '_acceptedsims'):
        if t.op in ('list', 'tuple', 'set') and all(x.op == 'const' and isinstance(x.a[0], str) for x in t.a):
            return [x.a[0] for x in t.a], m
    return None, None


class Source(object):
    pass


def heap_attr(e, name):
    """value of self.<name> in an exit state"""
    for (o, a), loc in e.state.heap.items():
        if a == name and o.op == 'param' and o.a[0] == 'self':
            return e.state.store[loc] if isinstance(loc, int) else loc
    return None


def classes(prog):
    base = prog.cls('SimCatalogs')
    return [c for c in sorted(prog.subclasses(base), key=lambda c: c.qual)]


def sources(prog):
    """[(sim, [Source])] : classes whose constructor sets the snapshot list for that name"""
    cache = prog.__dict__.setdefault('_sources', {})
    if cache:
        return cache['x']
    names, m = accepted(prog)
    out = []
    for s in names or []:
        found = []
        for c in classes(prog):
            f = prog.lookup(c, '__init__')
            r = result(prog, f, bind={'sim': K(s)}, selfcls=c)
            for e in r.exits:
                if e.kind == 'raise':
                    continue
                a = heap_attr(e, 'allsnaps')
                if a is None or a.op == 'attr':
                    continue
                x = Source()
                x.sim, x.cls, x.exit, x.func, x.result = s, c, e, f, r
                x.get = lambda n, e=e: heap_attr(e, n)
                found.append(x)
        out.append((s, found))
    cache['x'] = out
    return out


TABLES = ('basic_fields', 'dm_fields', 'matter_fields')


def fields(src):
    """(table, raw key, [(name, dtype, unit, h)] or None when not literal)"""
    for tb in TABLES:
        t = src.get(tb)
        if t is None:
            continue
        for c, d in leaves(t):
            if d.op != 'dict':
                yield tb, None, None
                continue
            for k, v in d.a[0]:
                ok = k.op == 'const' and v.op in ('list', 'tuple') and all(
                    x.op in ('tuple', 'list') and len(x.a) == 4 and all(y.op == 'const' for y in x.a) for x in v.a)
                yield tb, k.a[0] if k.op == 'const' else None, [tuple(y.a[0] for y in x.a) for x in v.a] if ok else None


def dictval(t):
    """literal dictionary: {const key: term} or None"""
    if t is None or t.op != 'dict' or not all(k.op == 'const' for k, _ in t.a[0]):
        return None
    return {k.a[0]: v for k, v in t.a[0]}
