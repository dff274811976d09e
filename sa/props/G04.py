"""Grid operations refuse states and arguments they cannot handle, before changing anything."""
from gridstate import *

ASSUMPTIONS = [
    'only the flags grid_active, fourier_space, is_power_spectrum, the dimensions and the property count decide whether an operation is possible',
    'the operations needing gridded data, map space or a map are those listed in the check, for three-axis grids with two properties',
]
SELF = P('self')
SRC = mk('obj', 'other')


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def rows(n):
    return L(L(*[P('p%d' % i) for i in range(n)]))


VAL = L(P('v0'))


def cases():
    """(operation, arguments, own state, other grid's state, why it must be refused)"""
    ax = L(K(2), K(0))
    f = P('factor')
    pos, pos2 = rows(3), rows(2)
    plain = {
        'add_from_cat': dict(positions=pos, values=VAL), 'add_from_pos_plus_array': dict(positions=pos2, values=L(VAL)), 'add_from_spec_func': dict(positions=pos2, spec_function=P('sf')),
        'sum_properties': dict(properties=NONE), 'sample': dict(positions=pos), 'convolve': dict(source=SRC, ax=ax), 'collapse_dimension': dict(ax=ax), 'fourier_transform': dict(ax=ax),
        'power_spectrum': dict(ax=ax, cross_grid=NONE), 'spherical_average': dict(ax=ax), 'visualize': {}, 'animate': {}, 'add_new_prop': dict(value=mk('obj', 'value')),
    }
    out = []
    for m, b in plain.items():
        for ip in ((TRUE, FALSE) if m in ('sum_properties', 'convolve', 'collapse_dimension', 'power_spectrum') else (None,)):
            c = dict(b, in_place=ip) if ip is not None else b
            out.append((m, c, dict(active=FALSE), {}, 'there is no gridded data'))
            if m == 'add_from_cat':
                out.append((m, dict(c, new_props=TRUE), dict(active=FALSE), {}, 'there is no gridded data'))
            if m in ('add_from_pos_plus_array', 'add_from_spec_func'):
                out.append((m, dict(c, new_prop=TRUE), dict(active=FALSE), {}, 'there is no gridded data'))
    # map space
    for m in ('add_from_cat', 'add_from_pos_plus_array', 'add_from_spec_func', 'convolve'):
        for k in range(3):
            b = dict(plain[m])
            for extra in (({}, {'new_props': TRUE}) if m == 'add_from_cat' else ({}, {'new_prop': TRUE}) if m != 'convolve' else ({'in_place': TRUE}, {'in_place': FALSE})):
                out.append((m, dict(b, **extra), dict(fourier=[TRUE if i == k else FALSE for i in range(3)]), {}, 'axis %d is in Fourier space' % k))
    for k in range(3):
        four = dict(fourier=[TRUE if i == k else FALSE for i in range(3)])
        out.append(('crop', dict(ax=K(k), min=P('lo'), max=P('hi')), four, {}, 'axis %d is in Fourier space' % k))
        for a in (L(K(k)), K(k), L(*[K(i) for i in (0, 1, 2)]), L(*[K(i) for i in (2, 1, 0)]), L(K((k + 1) % 3), K(k)), L(K(k), K((k + 1) % 3))):
            for act in (TRUE, FALSE):
                out.append(('down_sample', dict(ax=a, factor=f), dict(four, active=act), {}, 'axis %d is in Fourier space' % k))
        out.append(('spherical_average', dict(ax=L(K(k), K((k + 1) % 3))), four, {}, 'the axes averaged over are partly in Fourier space'))
    # a map, not a power spectrum
    for m in ('fourier_transform', 'power_spectrum', 'convolve'):
        for ip in ((TRUE, FALSE) if m != 'fourier_transform' else (None,)):
            c = dict(plain[m], in_place=ip) if ip is not None else plain[m]
            out.append((m, c, dict(power=TRUE), {}, 'the grid is a power spectrum'))
            if m != 'convolve':
                out.append((m, dict(c, ax=NONE), dict(power=TRUE, fourier=[TRUE] * 3), {}, 'the grid is a power spectrum'))
            if m == 'fourier_transform':
                continue
            c = dict(c, **{'source' if m == 'convolve' else 'cross_grid': SRC})
            out.append((m, c, {}, dict(power=TRUE), 'the other grid is a power spectrum'))
            out.append((m, c, {}, dict(active=FALSE), 'the other grid has no data'))
            out.append((m, c, dict(active=FALSE), {}, 'there is no gridded data'))
            out.append((m, c, dict(power=TRUE), {}, 'the grid is a power spectrum'))
            if m == 'convolve':
                for k in range(3):
                    out.append((m, c, {}, dict(fourier=[TRUE if i == k else FALSE for i in range(3)]), 'the other grid is in Fourier space along axis %d' % k))
            else:
                out.append((m, c, {}, dict(n=2), 'the other grid has other dimensions'))
                out.append((m, c, {}, dict(props=3), 'the other grid has another number of properties'))
    # axes that do not exist
    axes = {'pad': lambda a: dict(ax=a, pad=K(1)), 'scale_axis': lambda a: dict(ax=a, factor=f), 'convolve': lambda a: dict(ax=a, source=SRC, pad=NONE), 'down_sample': lambda a: dict(ax=a, factor=f),
            'collapse_dimension': lambda a: dict(ax=a), 'fourier_transform': lambda a: dict(ax=a), 'power_spectrum': lambda a: dict(ax=a, cross_grid=NONE), 'spherical_average': lambda a: dict(ax=a)}
    for m, mkb in axes.items():
        for a in (K(3), K(-1), K(-4), L(K(0), K(3)), L(K(3), K(0)), L(K(0), K(-1)), L(K(-1), K(2)), L(K(7))):
            for ip in ((TRUE, FALSE) if m in ('convolve', 'collapse_dimension', 'power_spectrum') else (None,)):
                b = mkb(a)
                if ip is not None:
                    b['in_place'] = ip
                for act in ((TRUE, FALSE) if m in ('pad', 'scale_axis', 'down_sample') else (TRUE,)):
                    out.append((m, b, dict(active=act), {}, 'axis list %s names an axis that does not exist' % show(a)))
    for a in (K(3), K(-1), K(-4), K(9)):
        for act in (TRUE, FALSE):
            out.append(('crop', dict(ax=a, min=P('lo'), max=P('hi')), dict(active=act), {}, 'axis %s does not exist' % show(a)))
        if a.a[0] != -1:
            for n in (TRUE, FALSE):
                out.append(('add_from_pos_plus_array', dict(positions=pos2, values=L(VAL), ax=a, new_prop=n), {}, {}, 'axis %s does not exist' % show(a)))
                out.append(('add_from_spec_func', dict(positions=pos2, spec_function=P('sf'), spec_ax=a, new_prop=n), {}, {}, 'axis %s does not exist' % show(a)))
    # properties that do not exist
    props = {'copy': lambda p: dict(properties=p), 'sum_properties': lambda p: dict(properties=p), 'sample': lambda p: dict(positions=pos, properties=p),
             'add_from_cat': lambda p: dict(positions=pos, values=VAL, properties=p, new_props=FALSE), 'add_from_pos_plus_array': lambda p: dict(positions=pos2, values=L(VAL), properties=p, new_prop=FALSE)}
    for m, mkb in props.items():
        for p in (K(2), K(-1), K(5), L(K(0), K(2)), L(K(2), K(0)), L(K(0), K(-1)), L(K(-1))):
            for ip in ((TRUE, FALSE) if m == 'sum_properties' else (None,)):
                b = mkb(p)
                if ip is not None:
                    b['in_place'] = ip
                out.append((m, b, {}, {}, 'property %s does not exist' % show(p)))
    return out


def check(prog, rep):
    rep.rule('refused', 'an operation does not complete in a state or with an axis or property it cannot handle', 150)
    rep.rule('before-change', 'the grids are as they were when the refusal is raised', 1000)
    rep.rule('marked', 'a grid holding a power spectrum is marked as one, and no other grid is', 15)
    marked(prog, rep)
    for meth, b, own, other, why in cases():
        g, og = G(**own), G(tag='s', **other)
        f, r = grid_spec(prog, meth, g, b, others=[(SRC, og)])
        rep.saw(f)
        con = '%s(%s) when %s' % (meth, ', '.join('%s=%s' % (k, show(v, 3)) for k, v in sorted(b.items()) if v.op != 'obj'), why)
        done = normal(r)
        rep.ob('refused', con, not done, wh(f), 'completes although %s%s' % (why, ' (%s)' % here(done[0], f) if done else ''))
        bad = [x for x in r.exits if x.kind == 'raise']
        for x in bad:
            for who, t, base in (('the grid', SELF, g), ('the other grid', SRC, og)):
                st = State(x, t, base.heap)
                for a in ATTRS:
                    rep.ob('before-change', '%s: %s of %s' % (con, a, who), st.get(a) is base.heap[a], '%s:%d %s' % (f.module.path, getattr(x.node, 'lineno', f.node.lineno), f.qual), '%s of %s is already %s when the error is raised' % (a, who, show(st.get(a), 3)))


def here(x, f):
    return 'line %d' % getattr(x.node, 'lineno', f.node.lineno)


def marked(prog, rep):
    """the mark that later operations are refused by belongs to what the grid holds"""
    pos, ax = rows(3), L(K(2), K(0))
    ops = [('copy', {}), ('copy', dict(properties=L(K(0)))), ('sum_properties', dict(properties=NONE)), ('collapse_dimension', dict(ax=ax)), ('fourier_transform', dict(ax=ax)),
           ('power_spectrum', dict(ax=ax, cross_grid=NONE)), ('power_spectrum', dict(ax=ax, cross_grid=SRC)), ('power_spectrum', dict(ax=NONE, cross_grid=NONE)),
           ('convolve', dict(source=SRC, ax=ax)), ('sample', dict(positions=pos)), ('crop', dict(ax=K(0), min=P('lo'), max=P('hi'))), ('add_from_cat', dict(positions=pos, values=VAL)),
           ('pad', dict(ax=K(0), pad=K(1)))]
    for meth, b in ops:
        for ip in ((TRUE, FALSE) if meth in ('sum_properties', 'convolve', 'collapse_dimension', 'power_spectrum') else (None,)):
            for power in (TRUE, FALSE):
                if power is TRUE and meth in ('power_spectrum', 'fourier_transform', 'convolve'):
                    continue
                g, og = G(power=power), G(tag='s')
                f, r = grid_spec(prog, meth, g, dict(b, **({'in_place': ip} if ip is not None else {})), others=[(SRC, og)])
                if f is None:
                    continue
                rep.saw(f)
                con = '%s(%s)%s%s of a %s' % (meth, ', '.join('%s=%s' % (k, show(v, 3)) for k, v in sorted(b.items()) if v.op != 'obj'), ' with another grid' if b.get('cross_grid') is SRC else '',
                                              ' in place' if ip is TRUE else '', 'power spectrum' if power is TRUE else 'map')
                for x in normal(r):
                    own = State(x, SELF, g.heap).get('is_power_spectrum')
                    want = TRUE if meth == 'power_spectrum' and ip is TRUE else power
                    if own is not None and own.op == 'const':
                        rep.ob('marked', con, own is want, wh(f), 'the grid is marked as %s' % ('a power spectrum' if own is TRUE else 'a map'))
                    for cs, v in leaves(x.value) if x.value is not None else ():
                        if v.op != 'new':
                            continue
                        m = State(x, v).get('is_power_spectrum')
                        want = TRUE if meth == 'power_spectrum' else power
                        if m is not None and m.op == 'const':
                            rep.ob('marked', con + ' result', m is want, wh(f), 'the result is marked as %s' % ('a power spectrum' if m is TRUE else 'a map'))
