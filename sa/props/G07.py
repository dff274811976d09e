"""A saved grid loads back with all of its state, and saving replaces no file unless asked."""
from gridstate import *

ASSUMPTIONS = [
    'numpy.savez stores every named array and numpy.load returns it under the same name; both use the path given, numpy.savez after appending .npz when it is missing',
    'grid attributes change only through Grid methods, so the values saved describe one box (G01)',
    'analysed on three-axis grids with symbolic contents',
]
SELF = P('self')
SAVERS = {'numpy.savez', 'numpy.savez_compressed'}
LOADED = ('n_properties', 'center_point', 'side_length', 'pixel_size', 'n_pixels', 'axunits', 'fourier_axunits', 'gridunits', 'grid_active', 'fourier_space', 'is_power_spectrum', 'n_dimensions',
          'axes', 'axes_centers', 'fourier_axes', 'fourier_axes_centers')
EXISTS = ('os.path.exists', 'os.path.isfile', 'os.path.lexists')


def wh(f, e=None):
    return '%s:%d %s' % (f.module.path, getattr(e, 'lineno', f.node.lineno) if e is not None else f.node.lineno, f.qual)


def check(prog, rep):
    rep.rule('overwrite', 'with a file of the name written present and overwriting not requested nothing is written', 2)
    rep.rule('name-written', 'the path tested for an existing file is the path the data goes to', 2)
    rep.rule('key-saved', 'every entry loading reads is among those saved', 6)
    rep.rule('restored', 'every part of the state has the value it had when saved', 20)
    for active in (TRUE, FALSE):
        g = G(active=active, fourier=[P('fs%d' % i) for i in range(3)], power=P('ips'))
        g.heap['grid_active'] = active
        roundtrip(prog, rep, g, 'initialised grid' if active is TRUE else 'grid without data', active is TRUE)


def saves(r):
    return [e for e in r.events if e.kind == 'extcall' and e.name in SAVERS]


def roundtrip(prog, rep, g, con, active):
    b = dict(path=P('path'), compress=P('compress'), overwrite=P('overwrite'))
    f, r = grid_spec(prog, 'save', g, b)
    rep.saw(f)
    for e in saves(r):
        out = e.args[0] if e.args else dict(e.kws).get('file')
        kws = {k: v for k, v in dict(e.kws).items() if k not in ('file', 'allow_pickle')}
        where = wh(f, e.node)
        if out is None or None in kws or '**' in kws:
            continue
        if out.op in ('param', 'call', 'bin', 'phi', 'mcall') and not any(x.op == 'call' and name(x) in ('builtins.open', 'io.BytesIO') for x in subterms(out)):
            suffix = any(x.op == 'const' and isinstance(x.a[0], str) and x.a[0].endswith('npz') for x in subterms(out)) or any(x.op == 'fstr' or x.op == 'mcall' and x.a[0] == 'with_suffix' for x in subterms(out))
            rep.ob('name-written', '%s %s' % (con, e.name), suffix, where, 'the data is written to the path with .npz appended, the path tested has no such ending')
            asked = lambda args, kws: TRUE if args and (args[0] is out) else None
            f2, r2 = grid_spec(prog, 'save', g, dict(b, overwrite=FALSE, compress=TRUE if 'compress' in e.name else FALSE),
                               models=dict({mk('ext', n): asked for n in EXISTS}, **{}))
            hit = [x for x in saves(r2) if not contradictory(x.guards)]
            rep.ob('overwrite', '%s %s' % (con, e.name), not hit, where, 'an existing file is replaced although overwriting was not requested')
        load(prog, rep, g, con + ' ' + e.name, kws, active)


def contradictory(gs):
    return any(c.op == 'const' and bool(c.a[0]) != p for c, p in gs)


def load(prog, rep, g, con, kws, active):
    d = D(*[(K(k), v) for k, v in sorted(kws.items())])
    f, r = grid_spec(prog, '__init__', None, dict(path=P('path')), cls='LoadGrid', models={mk('ext', 'numpy.load'): lambda a, k: d})
    rep.saw(f)
    for e in r.events:
        if e.kind == 'getsub' and e.base is d and e.idx.op == 'const':
            k = e.idx.a[0]
            rep.ob('key-saved', '%s entry %s' % (con, k), k in kws, wh(f, e.node), 'loading reads entry %r, which saving did not record' % (k,))
    rep.ob('restored', con + ' completes', bool(normal(r)), wh(f), 'loading what was saved always ends in an error')
    for x in normal(r):
        st = State(x, SELF)
        vals = [st.get(a) for a in LOADED] + [st.get('grid'), st.get('n_objects')]
        # units are present and there is more than one cell along an axis: both cases are those of construction (G01)
        pre = [(c, False) for c in conditions([t for t in vals if t is not None]) if c.op == 'cmp' and (c.a[0] == 'is' and NONE in c.a[1:] or c.a[0] == '==' and K(1) in c.a[1:] and any(is_call(y, 'builtins.len') for y in c.a[1:]))]
        ch = choices(vals, [gd for gd in x.guards if gd[0].op != 'const'] + pre)
        if ch is None:
            continue
        for c in ch:
            v = View([g], c)
            if not v.possible:
                continue
            for a in LOADED:
                got, want = st.get(a), g.heap[a]
                if got is None:
                    rep.ob('restored', '%s %s' % (con, a), False, wh(f), '%s is not set on loading' % a)
                    continue
                got = peel(v, got)
                if a in PER_AXIS and got.op in ('vec', 'list', 'tuple'):
                    for i in range(len(want.a)):
                        y = got.a[i] if i < len(got.a) else NONE
                        ok = equal(v, y, want.a[i], a)
                        if ok is not None:
                            rep.ob('restored', '%s %s axis %d' % (con, a, i), ok, wh(f), '%s of axis %d loads as %s, saved %s' % (a, i, show(y, 4), show(want.a[i], 3)))
                elif a not in PER_AXIS:
                    ok = equal(v, got, want, a)
                    if ok is not None:
                        rep.ob('restored', '%s %s' % (con, a), ok, wh(f), '%s loads as %s, saved %s' % (a, show(got, 4), show(want, 3)))
            if active:
                for a in ('grid', 'n_objects'):
                    got = st.get(a)
                    if got is not None:
                        got = peel(v, got)
                        if got.op in ('param', 'const'):
                            rep.ob('restored', '%s %s' % (con, a), got is g.heap[a], wh(f), '%s loads as %s, saved %s' % (a, show(got, 4), show(g.heap[a], 3)))
                    else:
                        rep.ob('restored', '%s %s' % (con, a), False, wh(f), '%s is not set on loading' % a)


def peel(v, t):
    while True:
        if t.op == 'phi':
            y = v.ax.pick(t)
            if y is None:
                return t
            t = y
        elif t.op == 'call' and name(t) in ('numpy.array', 'numpy.asarray', 'numpy.copy', 'builtins.bool', 'builtins.int', 'numpy.asanyarray') and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == 'mcall' and t.a[0] in ('copy', 'item', 'tolist') and not t.a[2]:
            t = t.a[1]
        elif t.op == 'sub' and t.a[1].op == 'tuple' and not t.a[1].a:
            t = t.a[0]
        else:
            return t


def equal(v, got, want, attr):
    if got is None:
        return None
    got = peel(v, got)
    if got is want:
        return True
    if want.op == 'vec':
        if got.op in ('vec', 'list', 'tuple'):
            if len(got.a) != len(want.a):
                return False
            r = [equal(v, x, y, attr) for x, y in zip(got.a, want.a)]
            return False if False in r else None if None in r else True
        return False if got is NONE else None
    if attr in ('axes', 'axes_centers', 'fourier_axes', 'fourier_axes_centers'):
        return v.sameu(v.ax.array(got), v.ax.array(want))
    if attr in ('axunits', 'gridunits', 'fourier_axunits', 'fourier_space', 'grid_active', 'is_power_spectrum'):
        if attr == 'fourier_axunits':
            return None
        return False if got.op in ('param', 'const') else None
    return v.same(v.ax.scalar(got), v.ax.scalar(want))
