"""Operations returning a new grid leave their operands as they were and share nothing with the result."""
from gridstate import *
from ftalg import FT

ASSUMPTIONS = [
    'numpy functions return views or copies as documented; Grid attributes change only through the methods analysed',
    'a transform undone over the same axes counts as the original data (rounding is not considered)',
    'analysed on three-axis grids with representative ordered axis subsets and axis states',
]
SELF = P('self')
SRC = mk('obj', 'other')
MUTABLE = ('center_point', 'side_length', 'pixel_size', 'n_pixels', 'axunits', 'fourier_axunits', 'gridunits', 'axes', 'axes_centers', 'fourier_axes', 'fourier_axes_centers', 'fourier_space', 'grid')


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def bits(s):
    return [TRUE if x else FALSE for x in s]


def check(prog, rep):
    rep.rule('original', 'every attribute of the original has the value it had before', 300)
    rep.rule('rebound', 'no attribute of the original becomes one object with an attribute of the result', 60)
    rep.rule('shared', 'no array or list of the result is, contains or views one of the original', 60)
    rep.rule('written', 'no statement writes into an array of an operand that is to stay as it is', 60)
    rep.rule('returned', 'the result is a new grid', 5)
    ax = L(K(2), K(0))
    maps, mixed = (False, False, False), (False, True, True)
    cases = []
    for s in (maps, mixed):
        cases += [('copy', dict(properties=NONE), s, None), ('copy', dict(properties=L(K(1))), s, None), ('copy', dict(properties=L(K(1), K(0))), s, None),
                  ('sum_properties', dict(properties=NONE, in_place=FALSE), s, None), ('sum_properties', dict(properties=L(K(1)), in_place=FALSE), s, None)]
        cases += [('copy_axes', dict(n_properties=K(k)), s, None) for k in (1, 2, 3)]
    for mode in ('sum', 'average'):
        for w in (NONE, P('weights')):
            for a in (ax, L(K(1)), K(0)):
                cases.append(('collapse_dimension', dict(ax=a, in_place=FALSE, mode=K(mode), weights=w), maps, None))
                cases.append(('collapse_dimension', dict(ax=a, in_place=FALSE, mode=K(mode), weights=w), (False, True, False), None))
    for p in (NONE, L(K(2), K(1)), K(1)):
        cases.append(('convolve', dict(source=SRC, ax=ax, in_place=FALSE, pad=p), maps, maps))
    cases.append(('convolve', dict(source=SRC, ax=NONE, in_place=FALSE, pad=NONE), maps, maps))
    for n in (TRUE, FALSE):
        for s in (maps, mixed, (True, True, True)):
            for a in (ax, NONE, L(K(1))):
                cases.append(('power_spectrum', dict(cross_grid=NONE, ax=a, in_place=FALSE, normalize=n), s, None))
                for c in (maps, (True, False, True)):
                    cases.append(('power_spectrum', dict(cross_grid=SRC, ax=a, in_place=FALSE, normalize=n), s, c))
                    cases.append(('power_spectrum', dict(cross_grid=SRC, ax=a, in_place=TRUE, normalize=n), s, c))
    for meth, b, s, o in cases:
        one(prog, rep, meth, b, s, o)
    # the operands of an in-place convolution
    one(prog, rep, 'convolve', dict(source=SRC, ax=ax, in_place=TRUE, pad=L(K(2), K(1))), maps, maps)
    views(prog, rep)


def label(meth, b, s, o):
    return '%s(%s) from %s%s' % (meth, ', '.join('%s=%s' % (k, show(v, 3)) for k, v in sorted(b.items()) if v is not SRC), ''.join('FT'[x] for x in s), ' with ' + ''.join('FT'[x] for x in o) if o else '')


def one(prog, rep, meth, b, s, o):
    g = G(fourier=bits(s))
    og = G(tag='s', fourier=bits(o)) if o else None
    f, r = grid_spec(prog, meth, g, b, others=[(SRC, og)] if og else [])
    rep.saw(f)
    con = label(meth, b, s, o)
    new = b.get('in_place') is not TRUE
    for who, t, base in (('the grid', SELF, g), ('the other grid', SRC, og)):
        if base is None or t is SELF and not new:
            continue
        es = [e for e, got in written(r, set(base.A + base.C + base.F + base.FE + [base.grid]))]
        rep.ob('written', '%s %s' % (con, who), not es, wh(f), 'writes into an array of %s at %s' % (who, ', '.join(sorted({'%s:%s' % (e.func.module.path, e.line) for e in es}))))
    for x in normal(r):
        if new:
            for c, v in leaves(x.value):
                rep.ob('returned', con, v.op == 'new', wh(f), 'returns %s' % show(v, 3))
        for who, t, base in (('the grid', SELF, g), ('the other grid', SRC, og)):
            if base is None or t is SELF and not new:
                continue
            st = State(x, t, base.heap)
            untouched(rep, f, con, x, st, base, who, [g] + ([og] if og else []))
            for c, v in leaves(x.value):
                if v.op != 'new':
                    v = SELF if t is not SELF else None
                if v is None:
                    continue
                ns = State(x, v)
                for a in MUTABLE:
                    if ns.loc(a) is None:
                        continue
                    for q in MUTABLE:
                        if st.loc(q) is not None:
                            rep.ob('rebound', '%s %s' % (con, a), ns.loc(a) != st.loc(q) or not isinstance(st.loc(q), int), wh(f), '%s of the result is the same object as %s of %s' % (a, q, who))
                    t0 = ns.get(a)
                    own = set(base.A + base.C + base.F + base.FE + [base.grid])
                    got = {z for y in entries(t0) for z in roots(y)} & own
                    rep.ob('shared', '%s %s' % (con, a), not got, wh(f), '%s of the result shares storage with %s of %s' % (a, ', '.join(sorted(show(z) for z in got)), who))


def entries(t):
    if t is None:
        return []
    if t.op in ('list', 'tuple'):
        return list(t.a)
    if t.op == 'phi':
        return entries(t.a[1]) + entries(t.a[2])
    return [t]


def untouched(rep, f, con, x, st, g, who, grids):
    for a in ATTRS:
        now, was = st.get(a), g.heap[a]
        if now is was:
            rep.ob('original', '%s %s of %s' % (con, a, who), True, wh(f), '')
            continue
        ch = choices([now], x.guards)
        for d in ch or ():
            v = View(grids, d)
            if not v.possible:
                continue
            ok, what = same(v, a, now, was, g)
            if ok is not None:
                rep.ob('original', '%s %s of %s' % (con, a, who), ok, wh(f), '%s of %s is %s afterwards' % (a, who, what))


def same(v, a, now, was, g):
    t = v.ax.pick(now)
    if t is was:
        return True, ''
    if t is None:
        return None, ''
    if a == 'grid':
        c = FT(v.ax, g.n + 1).of(t)
        if c is None:
            return None, ''
        if c.base is not g.grid:
            return False, show(t, 4)
        k = v.same(c.scale, rat(1))
        return (not any(c.words.values()) and k is not False), '%r' % c
    if a in PER_AXIS or a == 'gridunits':
        if t.op != was.op and t.op not in ('vec', 'list'):
            return None, ''
        if len(t.a) != len(was.a):
            return False, show(t, 4)
        out = []
        for p, q in zip(t.a, was.a):
            p = v.ax.pick(p)
            if p is q:
                out.append(True)
            elif a in ('axes', 'axes_centers', 'fourier_axes', 'fourier_axes_centers'):
                u, w = v.ax.array(p) if p is not None else None, v.ax.array(q)
                out.append(v.sameu(u, w) if u is not None else None)
            elif p is None or a in ('axunits', 'fourier_axunits', 'gridunits'):
                out.append(None if p is None else False)
            elif p.op == 'const' and q.op == 'const':
                out.append(p is q)
            else:
                m, n = v.ax.scalar(p), v.ax.scalar(q)
                out.append(v.same(m, n) if m is not None and n is not None else None)
        if False in out:
            return False, show(t, 4)
        return (None if None in out else True), ''
    if t.op == 'const' and was.op == 'const':
        return t is was, show(t)
    return (False, show(t, 4)) if was.op in ('const', 'param') and a != 'n_objects' else (None, '')


def views(prog, rep):
    """storage of the result, with the attributes of the original kept as whole objects"""
    c = prog.cls('Grid')
    for meth, b in (('copy', dict(properties=NONE)), ('copy', dict(properties=P('properties'))), ('copy_axes', dict(n_properties=P('n_properties'))), ('sum_properties', dict(in_place=FALSE)),
                    ('collapse_dimension', dict(in_place=FALSE)), ('convolve', dict(in_place=FALSE)), ('power_spectrum', dict(in_place=FALSE, cross_grid=NONE))):
        f = prog.lookup(c, meth)
        r = spec(prog, f, b, selfcls=c)
        rep.saw(f)
        for x in normal(r):
            for cs, v in leaves(x.value):
                if v.op != 'new':
                    continue
                st = State(x, v)
                for a in MUTABLE:
                    t = st.get(a)
                    if t is None:
                        continue
                    got = [z for z in roots(t) if z is SELF or z.op == 'attr' and z.a[0] is SELF]
                    rep.ob('shared', '%s %s' % (meth, a), not got, wh(f), '%s of the result may be or view %s of the original' % (a, ', '.join(sorted(show(z) for z in got))))
