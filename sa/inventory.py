"""Which inputs each operation validates: raises and the inputs their conditions depend on."""
import hashlib
import json
import os
from common import *
from flow import private

HERE = os.path.dirname(os.path.abspath(__file__))


def names(t, selfname):
    """inputs (parameters and attributes of self) a condition depends on"""
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'param':
            if x.a[0] != selfname:
                out.add(x.a[0])
        elif x.op == 'attr' and x.a[0].op == 'param' and x.a[0].a[0] == selfname:
            out.add('self.' + x.a[1])
        else:
            from terms import children
            stack.extend(children(x))
    return frozenset(out)


def disjuncts(c, p):
    """alternatives that make the guard hold"""
    if c.op == 'or' and p:
        return [d for x in c.a for d in disjuncts(x, True)]
    if c.op == 'and' and not p:
        return [d for x in c.a for d in disjuncts(x, False)]
    if c.op == 'not':
        return disjuncts(c.a[0], not p)
    arg, quant = quantified(c)
    if arg is not None:
        ex = (quant == 'any') == p      # some element makes the guard hold
        parts = elementwise(arg, ex if quant == 'any' else not ex)
        if ex and len(parts) > 1:
            return [mk('some', x) if q else mk('some', mk('not', x)) for x, q in parts]
        if ex and len(parts) == 1 and parts[0][0].op == 'cmp':
            return [mk('some', parts[0][0]) if parts[0][1] else mk('some', mk('not', parts[0][0]))]
    return [mk('not', c) if not p else c]


def quantified(c):
    """(argument, 'any'|'all') of any()/all() calls and methods"""
    if c.op == 'call' and c.a[0].op == 'ext' and len(c.a[1]) == 1 and not c.a[2]:
        n = c.a[0].a[0]
        if n in ('numpy.any', 'builtins.any'):
            return c.a[1][0], 'any'
        if n in ('numpy.all', 'builtins.all'):
            return c.a[1][0], 'all'
    if c.op == 'mcall' and c.a[0] in ('any', 'all') and not c.a[2]:
        return c.a[1], c.a[0]
    if c.op in ('any', 'all') and c.a and hasattr(c.a[0], 'op'):
        return c.a[0], c.op
    return None, None


def elementwise(x, p):
    """alternatives for an element condition x to have truth value p"""
    if x.op == 'not' or (x.op == 'inv'):
        return elementwise(x.a[0], not p)
    if x.op == 'comp':
        return elementwise(x.a[1], p)
    if (x.op == 'bin' and x.a[0] == '|' or x.op == 'or') and p or (x.op == 'bin' and x.a[0] == '&' or x.op == 'and') and not p:
        return [d for y in (x.a[1:] if x.op == 'bin' else x.a) for d in elementwise(y, p)]
    return [(x, p)]


def limit(d):
    """integer-canonical form of a comparison: (digest of the symbolic part, constant), or None"""
    neg = False
    if d.op == 'some':
        d = d.a[0]
    while d.op == 'not':
        neg, d = not neg, d.a[0]
    if d.op != 'cmp' or d.a[0] not in ('<', '<='):
        return None
    from terms import poly
    a, b = d.a[1], d.a[2]
    op = d.a[0]
    if neg:
        a, b, op = b, a, '<=' if op == '<' else '<'
    pa, pb = poly(a), poly(b)
    diff = dict(pb)
    for k, v in pa.items():
        diff[k] = diff.get(k, 0) - v
    c = diff.pop((), 0) - (1 if op == '<' else 0)
    items = sorted('%s*%s' % (v, ' '.join('%s^%s' % (show(t, 30), n) for t, n in k)) for k, v in diff.items() if v)
    if not items or not isinstance(c, (int, float)) or c != c:
        return None
    return hashlib.sha1(repr(items).encode()).hexdigest()[:12], c


def validations(prog, f, own=False):
    """distinct (inputs, condition) pairs that make f raise"""
    r = result(prog, f)
    s = f.posparams[0] if f.cls and f.posparams and not f.static else None
    out = {}
    for e in r.events:
        if e.kind != 'raise' or own and e.func is not f and not private(e.func.qual):
            continue
        g = e.guards[e.last:] or e.guards[-1:]
        if not g:
            continue
        ds = [[]]
        for c, p in g:
            alts = disjuncts(c, p)
            if len(alts) * len(ds) > 12:
                alts = [c]
            ds = [x + [a] for x in ds for a in alts]
        for d in ds:
            n = frozenset().union(*[names(x, s) for x in d])
            out.setdefault(n, set()).add((tuple(d), e.where))
    return out


def describe(ds):
    lim = {}
    for d, w in ds:
        for x in d:
            l = limit(x)
            if l:
                lim.setdefault(l[0], set()).add(l[1])
    return {'n': len({d for d, w in ds}), 'limits': {k: sorted(v) for k, v in sorted(lim.items())}}


def compare(prog, base, only=None):
    """yield (function, inputs, ok, where, message) for every validation of the recorded inventory"""
    byname = {}
    for q, f in prog.funcs.items():
        byname.setdefault(cn(q), f)
    for fn, ent in sorted(base.items()):
        f = byname.get(fn)
        if f is None or (only and not only(f)):
            continue
        cur = validations(prog, f)
        where = '%s:%d' % (f.module.path, f.node.lineno)
        for key, want in sorted(ent.items()):
            n = frozenset(key.split(','))
            hits = [x for m, ds in cur.items() if n == m or n < m and ','.join(sorted(m)) not in ent and len(m) <= 5 for x in ds]
            if not hits:
                yield f, key, False, where, 'no path raises depending on %s any more' % key
                continue
            same = cur.get(n, ())
            got = describe(same)
            flexible = any(y.op == 'cmp' and y.a[0] == 'in' or y.op == 'call' and y.a[0].op == 'ext' and 'range' in y.a[0].a[0]
                           for d, w in hits for x in d for y in subterms(x))
            if len({d for d, w in hits}) < want['n'] and not flexible:
                yield f, key, False, where, '%d of the %d conditions on %s that raise an error are left' % (len({d for d, w in hits}), want['n'], key)
                continue
            bad = None
            for k, cs in want['limits'].items():
                if k in got['limits'] and not set(cs) <= set(got['limits'][k]) and len(got['limits'][k]) <= len(cs):
                    bad = 'the limit enforced on %s moved by %s' % (key, got['limits'][k][0] - cs[0])
            yield f, key, bad is None, where, bad or ''


def load():
    return json.load(open(os.path.join(HERE, 'inventory.json')))


def build(prog):
    inv = {}
    for q, f in sorted(prog.funcs.items()):
        if '<' in q or not (is_public(f) or f.name == '__init__'):
            continue
        v = validations(prog, f, own=True)
        ent = {}
        for n, ds in v.items():
            if 0 < len(n) <= 5:
                ent[','.join(sorted(n))] = describe(ds)
        if ent:
            inv[cn(q)] = ent
    return inv


if __name__ == '__main__':
    import sys
    from program import Program
    inv = build(Program())
    json.dump(inv, open(os.path.join(HERE, 'inventory.json'), 'w'), indent=0, sort_keys=True)
    print(len(inv), 'functions', sum(len(v) for v in inv.values()), 'validations')
