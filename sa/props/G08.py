"""The recorded number of properties, the data array and the data units of a grid stay in step."""
from gridstate import *
from flow import mkcmp

ASSUMPTIONS = [
    'numpy and scipy array operations have their documented result shapes',
    'analysed on three-axis grids with one or two properties and symbolic contents; the grid is in step before the operation',
    'a convolution source or cross grid has one property or as many as the grid',
]
SELF, SRC = P('self'), mk('obj', 'other')


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def check(prog, rep):
    rep.rule('data', 'the recorded number of properties is the length of the last axis of the data', 12)
    rep.rule('units', 'there is one data unit per recorded property', 12)
    two = [P('value')]
    new = {P('value'): (2, True)}
    for active in (TRUE, FALSE):
        for props in (1, 2):
            tag = '' if active is TRUE else ' without data'
            n = ' on %d properties' % props
            one(prog, rep, 'add_new_prop', 'add_new_prop empty' + n + tag, dict(value=NONE), active, props)
            one(prog, rep, 'copy', 'copy' + n + tag, dict(properties=NONE), active, props)
            one(prog, rep, 'copy', 'copy one' + n + tag, dict(properties=L(K(props - 1))), active, props)
            if props == 2:
                one(prog, rep, 'copy', 'copy reordered' + n + tag, dict(properties=L(K(1), K(0))), active, props)
                one(prog, rep, 'copy', 'copy index' + n + tag, dict(properties=K(1)), active, props)
            one(prog, rep, 'copy_axes', 'copy_axes 3' + n + tag, dict(n_properties=K(3)), active, props, data=False)
    for props in (1, 2):
        n = ' on %d properties' % props
        one(prog, rep, 'init_grid', 'init_grid' + n, {}, FALSE, props, data=True)
        for k in (1, 2):
            one(prog, rep, 'add_new_prop', 'add_new_prop %d' % k + n, dict(value=P('value')), TRUE, props, value=k)
        one(prog, rep, 'add_new_prop', 'add_new_prop one cell value' + n, dict(value=P('value')), TRUE, props, value=0)
        for ip in (TRUE, FALSE):
            m = '%s in_place=%s' % (n, show(ip))
            one(prog, rep, 'sum_properties', 'sum_properties' + m, dict(properties=NONE, in_place=ip), TRUE, props)
            one(prog, rep, 'sum_properties', 'sum_properties one' + m, dict(properties=L(K(0)), in_place=ip), TRUE, props)
            for k in (1, 2):
                if 1 in (k, props) or k == props:
                    for pad in (NONE, K(2)):
                        one(prog, rep, 'convolve', 'convolve with %d pad=%s' % (k, show(pad)) + m, dict(source=SRC, ax=NONE, in_place=ip, pad=pad), TRUE, props, other=k)
                    one(prog, rep, 'power_spectrum', 'power_spectrum with %d' % k + m, dict(cross_grid=SRC, ax=NONE, in_place=ip, normalize=TRUE), TRUE, props, other=k)
            one(prog, rep, 'power_spectrum', 'power_spectrum' + m, dict(cross_grid=NONE, ax=NONE, in_place=ip, normalize=TRUE), TRUE, props)
            one(prog, rep, 'collapse_dimension', 'collapse_dimension' + m, dict(ax=L(K(1)), in_place=ip, weights=NONE, mode=K('sum')), TRUE, props)
        one(prog, rep, 'fourier_transform', 'fourier_transform' + n, dict(ax=NONE, normalize=TRUE), TRUE, props)
        one(prog, rep, 'down_sample', 'down_sample' + n, dict(ax=L(K(1)), factor=L(P('f1')), mode=K('sum')), TRUE, props)
        one(prog, rep, 'pad', 'pad' + n, dict(ax=L(K(1)), pad=L(K(2))), TRUE, props)
        one(prog, rep, 'crop', 'crop' + n, dict(ax=K(1), min=P('lo'), max=P('hi')), TRUE, props)
        for v in (1, 2):
            one(prog, rep, 'add_from_cat', 'add_from_cat %d new' % v + n, dict(positions=P('positions'), values=P('values'), new_props=TRUE, properties=NONE), TRUE, props, cat=v)
        one(prog, rep, 'add_from_cat', 'add_from_cat new counts' + n, dict(positions=P('positions'), values=NONE, new_props=TRUE, properties=NONE), TRUE, props, cat=0)
        one(prog, rep, 'add_from_cat', 'add_from_cat' + n, dict(positions=P('positions'), values=P('values'), new_props=FALSE, properties=L(K(0))), TRUE, props, cat=1)
        one(prog, rep, 'add_from_pos_plus_array', 'add_from_pos_plus_array new' + n, dict(positions=P('positions'), values=P('values'), ax=K(2), new_prop=TRUE, properties=NONE), TRUE, props, cat=-1)
        one(prog, rep, 'add_from_pos_plus_array', 'add_from_pos_plus_array' + n, dict(positions=P('positions'), values=P('values'), ax=K(2), new_prop=FALSE, properties=NONE), TRUE, props, cat=-1)
    build(prog, rep)


def build(prog, rep):
    c, S, d = ([P('%s%d' % (a, i)) for i in range(3)] for a in 'cSd')
    for n, units in ((2, NONE), (2, L(K('x'))), (2, L(K('x'), K('y'))), (1, NONE), (1, K('x'))):
        f, r = grid_spec(prog, '__init__', None, dict(n_properties=K(n), center_point=L(*c), side_length=L(*S), pixel_size=L(*d), axunits=NONE, gridunits=units))
        rep.saw(f)
        for x in normal(r):
            instep(rep, f, 'Grid of %d with gridunits=%s' % (n, show(units)), State(x, SELF), x, [], {}, False)


def one(prog, rep, meth, con, b, active, props, value=None, other=None, cat=None, data=None):
    g = G(active=active, props=props)
    grids, others = [g], []
    if other:
        o = G(tag='s', props=other)
        grids.append(o)
        others.append((SRC, o))
    shapes = {}
    N = [atom(x) for x in g.N]
    if value is not None:
        shapes[P('value')] = N + ([rat(value)] if value else [])
    m = atom(P('#objects'))
    if cat is not None:
        shapes[P('positions')] = [m, rat(3 if cat >= 0 else 2)]
        if cat:
            shapes[P('values')] = [m, rat(cat) if cat > 0 else N[2]]
    pre = {}
    for q in grids:
        pre[(q.grid, 'ndim')] = K(q.n + 1)
        pre[(q.grid, 'shape')] = mk('tuple', *(q.N + [K(q.props)]))
    f, r = grid_spec(prog, meth, g, b, others=others, preset=pre)
    rep.saw(f)
    for x in normal(r):
        seen = [SELF]
        for c, v in leaves(x.value):
            if v.op == 'new' and v not in seen:
                seen.append(v)
        for t in seen:
            st = State(x, t, g.heap if t is SELF else None)
            if t is not SELF and st.get('n_properties') is None:
                continue
            act = st.get('grid_active')
            instep(rep, f, con + (' result' if t is not SELF else ''), st, x, grids, shapes, (act is TRUE) if data is None else data)


def instep(rep, f, con, st, x, grids, shapes, data):
    n, u, d = st.get('n_properties'), st.get('gridunits'), st.get('grid')
    if n is None:
        return
    ch = options([n, u, d], x.guards, grids, shapes)
    for c in ch or ():
        v = view(grids, c, shapes)
        if not v.possible:
            continue
        k = v.ax.scalar(n)
        if k is None:
            continue
        if u is not None:
            s = v.sh.of(u) if u.op not in ('list', 'tuple') else [rat(len(u.a))]
            if s is not None and len(s) == 1 and s[0] is not None and known_size(s[0] - k):
                rep.ob('units', con, v.same(s[0], k), wh(f), '%r data units for %r recorded properties' % (s[0], k))
        if data and d is not None:
            s = v.sh.of(d)
            if s and s[-1] is not None and known_size(s[-1] - k):
                rep.ob('data', con, v.same(s[-1], k), wh(f), 'the data holds %r properties, %r are recorded' % (s[-1], k))


def view(grids, c, shapes):
    v = View(grids, c, shapes=shapes)
    v.ax.shapes = v.sh
    v.sh.scalars = {x for g in grids for x in g.N + g.d + g.c}
    return v


def options(ts, guards, grids, shapes):
    """choices of conditions, those about numbers of dimensions or lengths decided from the shapes"""
    v = view(grids, {}, shapes)
    known = []
    for c in conditions([t for t in ts if t is not None]) + [z for g, _ in guards for z in basics(g)]:
        d = decide(v, c)
        if d is not None:
            known.append((c, d))
    for g, p in guards:
        while g.op == 'not':
            g, p = g.a[0], not p
        if any(k is g and d != p for k, d in known):
            return []
    out = choices(ts, tuple(guards) + tuple(known))
    return [c for c in out if agree(view(grids, c, shapes), c)] if out is not None else None


def agree(v, choose):
    """no condition contradicts the values it is about under the other choices"""
    for c, p in choose.items():
        if c.op != 'or' and c.op != 'and' and decide(v, c) not in (None, p):
            return False
        if any(x.op == 'phi' for x in subterms(c)):
            def f(x):
                if x.op == 'phi':
                    return v.ax.pick(x)
                if x.op == 'cmp' and x.a[0] == 'is' and x.a[2] is NONE and x.a[1].op in ('vec', 'list', 'tuple', 'dict'):
                    return FALSE
                if x.op == 'cmp':
                    return mkcmp(*x.a)
                return None
            y = rebuild(c, f)
            if y.op == 'const' and bool(y.a[0]) != p:
                return False
    return True


def known_size(d):
    return d is not None and (d.const() is not None or all(t.op in ('param', 'count') for t in d.atoms()))


def decide(v, c):
    if c.op in ('and', 'or'):
        r = [decide(v, y) for y in c.a]
        r = [not d if False else d for d in r]
        if c.op == 'and':
            return False if False in r else None if None in r else True
        return True if True in r else None if None in r else False
    if c.op == 'not':
        d = decide(v, c.a[0])
        return None if d is None else not d
    if c.op == 'cmp' and c.a[0] in ('==', '<', '<='):
        a, b = v.ax.scalar(c.a[1]), v.ax.scalar(c.a[2])
        k = (a - b).const() if a is not None and b is not None else None
        if k is None:
            return None
        return k == 0 if c.a[0] == '==' else k < 0 if c.a[0] == '<' else k <= 0
    return None
