"""Arguments handed in by the caller (and shared default values) are never modified."""
import ast
from common import *
from flow import private

ASSUMPTIONS = [
    'numpy functions other than the listed view-returning ones return fresh storage',
    'a parameter annotated, documented or defaulted as a scalar is immutable',
    'objects passed as self, or module-level plotting state of matplotlib, are outside the rule',
]

METHODS = {'sum', 'mean', 'min', 'max', 'std', 'var', 'size', 'shape', 'reshape', 'flatten', 'ravel', 'astype', 'transpose', 'dot', 'all', 'any', 'item', 'fill', 'sort',
           'argsort', 'cumsum', 'prod', 'take', 'repeat', 'squeeze', 'view', 'round', 'clip', 'data', 'dtype', 'name', 'value', 'real', 'imag'}


def check(prog, rep):
    rep.rule('param-not-mutated', 'no store, in-place operator or mutating call on storage reachable from a parameter other than self', 300)
    rep.rule('state-not-aliased', 'an attribute that some method modifies in place never shares storage with a constructor/method argument', 20)
    rep.rule('result-not-mutated', 'no store or in-place operator on storage handed over by a function the caller supplied (it may still be held by the caller)', 4)
    stored = supplied(prog)
    inplace = {}    # class qual -> {attr: where}
    for r in all_results(prog):
        f = r.func
        rep.saw(f)
        params = [p for p in f.params if not (f.cls and f.posparams and p == f.posparams[0] and not f.static)]
        if f.vararg:
            params.append('*' + f.vararg)
        bad = {}
        theirs(rep, r, params, stored)
        for e in r.events:
            if e.kind in ('setsub', 'mutate', 'delsub'):
                b = e.base
            elif e.kind == 'aug':
                if e.target == 'attr':
                    b = e.base
                else:
                    b = e.base
                    if b.op == 'param' and scalar_param(f, b.a[0]):
                        continue
            elif e.kind in ('setattr', 'delattr'):
                b = e.obj
            else:
                continue
            if e.kind == 'mutate' and e.name == 'add' and len(e.args) != 1:
                continue
            for x in roots(b):
                if x.op == 'param' and x.a[0] in params:
                    if e.kind == 'aug' and immutable_value(e):
                        continue
                    bad.setdefault(x.a[0], (e, b))
                elif x.op == 'param' and f.cls and x.a[0] == f.posparams[0] and e.kind != 'setattr':
                    a = self_attr(b, x)
                    if a:
                        inplace.setdefault(f.cls.qual, {}).setdefault(a, e.where)
        for p in params if not private(f.qual) else ():
            w = bad.get(p)
            rep.ob('param-not-mutated', '%s(%s)' % (cn(f.qual), p), w is None, w[0].where if w else '%s:%d' % (f.module.path, f.node.lineno),
                   'the object passed as %r is modified (%s of %s)' % (p, w[0].kind, show(w[1], 4)) if w else '')
    # attributes modified in place anywhere in the class family
    for c in sorted(prog.classes.values(), key=lambda c: c.qual):
        fam = prog.mro(c) + prog.subclasses(c)
        attrs = {}
        for k in fam:
            attrs.update(inplace.get(k.qual, {}))
        if not attrs:
            continue
        for m in c.methods.values():
            if private(m.qual):
                continue        # judged where public operations use it
            r = result(prog, m)
            selfp = m.posparams[0] if m.posparams else None
            for e in r.events:
                if e.kind != 'setattr' or e.attr not in attrs or e.obj.op != 'param' or e.obj.a[0] != selfp:
                    continue
                if e.func.cls is None and e.stack == ():
                    continue
                if e.value.op == 'param' and scalar_param(m, e.value.a[0]):
                    continue
                rt = [x for x in roots(e.value) if x.op == 'param' and x.a[0] != selfp]
                ok = not rt
                rep.ob('state-not-aliased', '%s.%s' % (cn(m.qual), e.attr), ok, e.where,
                       '' if ok else 'self.%s shares storage with argument %s and is modified in place at %s' % (e.attr, rt[0].a[0], attrs[e.attr]))


def supplied(prog):
    """names of attributes that hold functions handed in by the caller: declared callable, or set from a parameter and never a method"""
    out = set()
    for c in prog.classes.values():
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and 'Callable' in ast.dump(n.annotation):
                out.add(n.target.id)
    for r in all_results(prog):
        f = r.func
        for e in r.events:
            if e.kind == 'setattr' and e.value.op == 'param' and e.value.a[0] in f.params[1 if f.cls and not f.static else 0:]:
                out.add(e.attr)
    return out - {m for c in prog.classes.values() for m in c.methods} - {m for c in (list, dict, str, set, tuple, bytes, range, slice) for m in dir(c)} - METHODS


def theirs(rep, r, params, stored):
    """results of functions the caller supplied are not modified"""
    f = r.func
    if private(f.qual):
        return

    def name(t):
        if t.op == 'call' and t.a[0].op == 'param' and t.a[0].a[0] in params:
            return t.a[0].a[0]
        if t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in stored:
            return t.a[0].a[1]
        if t.op == 'mcall' and t.a[0] in stored:
            return t.a[0]
        return None
    called, bad = {}, {}
    for e in r.events:
        if e.kind in ('call', 'mcall') and getattr(e, 'result', None) is not None and name(e.result):
            called.setdefault(name(e.result), e)
        if e.kind not in ('setsub', 'mutate', 'delsub', 'aug'):
            continue
        if e.kind == 'aug' and immutable_value(e):
            continue
        for x in roots(e.base, made=name):
            if name(x):
                bad.setdefault(name(x), (e, x))
                called.setdefault(name(x), e)
    for k, e in sorted(called.items()):
        w = bad.get(k)
        rep.ob('result-not-mutated', '%s(%s)' % (cn(f.qual), k), w is None, (w[0] if w else e).where,
               'what the function %r of the caller returned is modified (%s)' % (k, w[0].kind) if w else '')


def immutable_value(e):
    """in-place operator on something only ever a python number / string"""
    return e.value.op == 'const' and isinstance(e.value.a[0], str) or e.value.op == 'fstr'


def self_attr(b, s):
    """name of the attribute of s that storage b belongs to"""
    hit = None
    for t in subterms(b):
        if t.op == 'attr' and t.a[0] is s:
            hit = t
    # walk the spine only
    x = b
    while True:
        if x.op == 'attr':
            if x.a[0] is s:
                return x.a[1]
            x = x.a[0]
        elif x.op in ('sub', 'upd', 'mut', 'app', 'merged', 'without', 'with'):
            x = x.a[0]
        elif x.op == 'phi':
            x = x.a[1] if s in roots(x.a[1]) else x.a[2]
        elif x.op in ('mu', 'loop'):
            x = x.a[2]
        elif x.op == 'mcall':
            x = x.a[1]
        elif x.op == 'call' and x.a[1]:
            x = x.a[1][0]
        else:
            return None
