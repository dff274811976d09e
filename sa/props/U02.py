"""Little-h conversions: applied once, in the right direction, never mixed."""
from common import *
from hconv import Conv, attr_convs, Fn, SCALAR
from flow import Interp
from terms import subst

ASSUMPTIONS = [
    'astropy comoving distances are physical (no h); catalogue box edges, snapshot distance limits, positions and masses are stored in h units (per-h), as declared in the metadata writers',
    'conventions are inferred for lengths, volumes and masses; quantities whose convention cannot be inferred are not compared',
]


def check(prog, rep):
    rep.rule('value-read', 'a value read in physical units is the stored value times h to its declared exponent, one read in h units is the stored value', 8)
    rep.rule('value-stored', 'a model result in physical units is divided by h to its declared exponent, one in h units is kept', 8)
    rep.rule('box-edges', 'the physical box edge is the stored box edge divided by h, and the one in force follows the chosen convention', 10)
    rep.rule('mass-limit', 'a mass limit is compared with stored masses in their own convention', 2)
    rep.rule('volume', 'volumes in h units are physical volumes times h cubed', 3)
    rep.rule('convention', 'quantities added, compared or tabulated together have the same h convention', 30)
    rep.rule('recorded', 'snapshot distance limits are recorded in h units', 12)
    rep.rule('choice-matches', 'a quantity handed over with a choice of convention is in that convention', 2)
    read(prog, rep)
    stored(prog, rep)
    boxes(prog, rep)
    masses(prog, rep)
    volumes(prog, rep)
    mixing(prog, rep)
    recorded(prog, rep)


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def handlers(prog):
    b = prog.cls('Handler')
    return sorted([b] + [c for c in prog.subclasses(b)], key=lambda c: c.qual)


def read(prog, rep):
    h, e = P('h'), P('exponent')
    seen = set()
    for c in handlers(prog):
        f = prog.lookup(c, 'return_property')
        if f in seen:
            continue
        seen.add(f)
        rep.saw(f)
        for loaded in (True, False):
            for flag, default in ((TRUE, FALSE), (FALSE, TRUE), (NONE, TRUE), (NONE, FALSE)):
                use = flag if flag is not NONE else default
                heap = dict(h=h, default_in_h_units=default, properties_all=L(K('p')), properties_saved=L() if loaded else L(K('p')),
                            properties_loaded=D((K('p'), P('stored'))) if loaded else D(), properties_h_dependence=D((K('p'), e)))
                r = spec(prog, f, dict(property_name=K('p'), in_h_units=flag), heap, selfcls=c)
                con = '%s %s in_h_units=%s default=%s' % (cn(f.qual), 'loaded' if loaded else 'saved', show(flag), show(default))
                rets = [x for x in normal(r) if x.value is not NONE]
                rep.ob('value-read', con + ' returns', bool(rets), wh(f), 'no value is returned')
                for x in rets:
                    for conds, v in leaves(x.value):
                        zero = any(p and g.op == 'cmp' and g.a[0] == '==' and e in subterms(g) for g, p in tuple(x.guards) + conds)
                        p = powers(v, h)
                        ok = False
                        if p is not None:
                            want = {} if use is TRUE or zero else {((e, 1),): 1}
                            ok = p[1] == want and scale_free(p[0])
                        rep.ob('value-read', con, ok, wh(f), 'with in_h_units=%s (default %s) the value returned is %s' % (show(flag), show(default), show(v)[:160]))


def scale_free(p):
    """a single atom with coefficient one"""
    return len(p) == 1 and list(p.values()) == [1] and len(list(p)[0]) == 1 and list(p)[0][0][1] == 1


def stored(prog, rep):
    T_, fn = P('target'), P('model')
    hs = {'A': P('hA'), 'B': P('hB')}
    for cls, meth in (('MultiProp', 'evaluate_all'), ('MultiProp', 'evaluate'), ('Prop', 'evaluate_all'), ('Prop', 'evaluate')):
        c = prog.cls(cls)
        f = prog.lookup(c, meth)
        rep.saw(f)
        for inh in (TRUE, FALSE):
            n = 1 if cls == 'Prop' else 2
            heap = dict(names=L(*[K('A'), K('B')][:n]), n_props=K(n), kwargs=L(), wrap=TRUE if n == 1 else FALSE, prop_function=fn, give_args_in_h_units=P('give'),
                        function_return_in_h_units=inh, h_dependence=D(*[(K(k), v) for k, v in hs.items()][:n]))
            out = P('vA') if n == 1 else L(P('vA'), P('vB'))
            r = spec(prog, f, dict(target=T_, kw_remap=D(), kw_arguments=D()), heap, selfcls=c, models={fn: lambda a, k, out=out: out})
            ht = mk('attr', T_, 'h')
            for x in normal(r):
                for i, k in enumerate('AB'[:n]):
                    alts = leaves(x.value) if (cls, meth) == ('Prop', 'evaluate') else element(x.value, i)
                    for conds, v in alts:
                        zero = any(p and g.op == 'cmp' and g.a[0] == '==' and hs[k] in subterms(g) for g, p in tuple(x.guards) + tuple(conds))
                        p = powers(v, ht)
                        want = {} if inh is TRUE or zero else {((hs[k], 1),): -1}
                        ok = p is not None and p[1] == want and p[0] == {((P('v' + k), 1),): 1}
                        rep.ob('value-stored', '%s.%s output %d %s' % (cls, meth, i, 'h units' if inh is TRUE else 'physical'), ok, wh(f),
                               'a result %s is stored as %s' % ('in h units' if inh is TRUE else 'without h', show(v)[:160]))


def boxes(prog, rep):
    f = prog.func('SnapHandler.__init__')
    c = prog.cls('SnapHandler')
    b = P('box_edge')
    for inh in (TRUE, FALSE):
        r = spec(prog, f, dict(in_h_units=inh, box_edge=b), selfcls=c)
        for x in normal(r):
            h = final(x, 'h')
            check_edges(rep, x, h, b, inh, 'SnapHandler.__init__', wh(f))
            d = final(x, 'extra_props')
            d = dict(d.a[0]) if d is not None and d.op == 'dict' else {}
            for k in ('box_edge', 'box_edge_h', 'box_edge_no_h'):
                v, a = d.get(K(k)), final(x, k)
                ok = v is None or a is None or edge(v, h, b) is not None and edge(v, h, b) == edge(a, h, b)
                rep.ob('box-edges', 'SnapHandler extra %s' % k, ok, wh(f), 'the extra property %s is %s' % (k, show(v)[:100] if v is not None else ''))
    f = prog.func('SimHandler.__init__')
    c = prog.cls('SimHandler')
    for inh in (TRUE, FALSE):
        r = spec(prog, f, dict(in_h_units=inh, init_snaps=FALSE), selfcls=c)
        for x in normal(r):
            h, b2 = final(x, 'h'), final(x, 'box_edge_h')
            ok = b2 is not None and all(y.op == 'sub' and y.a[1] is K('box_edge') for _, y in leaves(b2))
            rep.ob('box-edges', 'SimHandler box_edge_h', ok, wh(f), 'box_edge_h is %s' % (show(b2)[:100] if b2 is not None else 'missing'))
            if b2 is not None:
                check_edges(rep, x, h, b2, inh, 'SimHandler.__init__', wh(f))
    # later changes of the convention
    for cls in ('SnapHandler', 'SimHandler'):
        c = prog.cls(cls)
        f = prog.lookup(c, 'set_in_h_units')
        rep.saw(f)
        for inh in (TRUE, FALSE):
            r = spec(prog, f, dict(in_h_units=inh), dict(box_edge_h=b, box_edge_no_h=mk('bin', '/', b, P('h')), h=P('h'), extra_props=D(), init_snaps=FALSE), selfcls=c)
            for x in normal(r):
                rep.ob('box-edges', '%s.set_in_h_units %s' % (cls, show(inh)), edge(final(x, 'box_edge'), P('h'), b) == (0 if inh is TRUE else -1), wh(f),
                       'after choosing in_h_units=%s the box edge in force is %s' % (show(inh), show(final(x, 'box_edge'))[:80] if final(x, 'box_edge') is not None else 'unchanged'))
    f = prog.func('SnapHandler.grid')
    rep.saw(f)
    models = {}
    for inh in (TRUE, FALSE):
        r = spec(prog, f, dict(in_h_units=inh, xlim=NONE, ylim=NONE, zlim=NONE, norm=NONE), dict(box_edge_h=b, box_edge_no_h=mk('bin', '/', b, P('h')), h=P('h')), selfcls=prog.cls('SnapHandler'),
                 inline=lambda a, g: g.cls is None or g.cls.name != 'Gridder')
        for e in r.ev('new', 'call', 'extcall'):
            kws = e.kws
            if 'side_length' in kws:
                for k in ('side_length', 'center_point'):
                    v = kws.get(k)
                    if v is None or v.op != 'list':
                        continue
                    for i, s in enumerate(v.a):
                        for _, y in leaves(s):
                            if P('h') in subterms(y) or b in subterms(y):
                                p = powers(y, P('h'))
                                ex = None if p is None else p[1]
                                rep.ob('box-edges', 'SnapHandler.grid %s' % k, ex == ({} if inh is TRUE else {(): -1}), e.where,
                                       'with in_h_units=%s the grid gets %s=%s' % (show(inh), k, show(y)[:80]))


def edge(v, h, b):
    """power of h by which v differs from the stored box edge b"""
    if v is None or h is None:
        return None
    out = set()
    v, b = with_h(v, (h,)), with_h(b, (h,))
    v = subst(v, {b: P('stored edge')})
    b = P('stored edge')
    for _, x in leaves(v):
        p = powers(x, H)
        if p is None or p[0] != {((b, 1),): 1}:
            return None
        e = p[1]
        out.add(e.get((), 0) if set(e) <= {()} else None)
    return out.pop() if len(out) == 1 else None


def check_edges(rep, x, h, b, inh, con, w):
    want = {'box_edge_h': 0, 'box_edge_no_h': -1, 'box_edge': 0 if inh is TRUE else -1}
    for k, e in want.items():
        v = final(x, k)
        rep.ob('box-edges', '%s %s in_h_units=%s' % (con, k, show(inh)), edge(v, h, b) == e, w, '%s is %s' % (k, show(v)[:100] if v is not None else 'missing'))


def masses(prog, rep):
    f = prog.func('SimHandler.get_mass_index')
    rep.saw(f)
    m, h = P('mass'), P('h')
    for flag, default in ((TRUE, FALSE), (FALSE, TRUE), (NONE, TRUE), (NONE, FALSE)):
        use = flag if flag is not NONE else default
        r = spec(prog, f, dict(mass=m, in_h_units=flag), dict(h=h, default_in_h_units=default), selfcls=prog.cls('SimHandler'))
        n = 0
        for e, t in all_terms(r):
            for x in subterms(t):
                if x.op == 'cmp' and x.a[0] in ('<', '<=') or x.op == 'bin' and x.a[0] == '-':
                    a, b = (x.a[1], x.a[2]) if x.op == 'cmp' else (x.a[1], x.a[2])
                    for u, v in ((a, b), (b, a)):
                        if m in subterms(u) and m not in subterms(v) and any(y.op == 'const' and y.a[0] == 'min_mass' for y in subterms(v)):
                            for _, w in leaves(u):
                                p = powers(w, h)
                                q = powers(v, h)
                                n += 1
                                rep.ob('mass-limit', 'SimHandler.get_mass_index in_h_units=%s default=%s' % (show(flag), show(default)),
                                       p is not None and q is not None and q[1] == {} and p[1] == ({} if use is TRUE else {(): 1}) and p[0] == {((m, 1),): 1}, e.where,
                                       'with in_h_units=%s (default %s) stored masses are compared with %s' % (show(flag), show(default), show(w)[:80]))


def all_terms(r):
    from hconv import terms_of
    seen = set()
    for e, t in terms_of(r):
        if t not in seen:
            seen.add(t)
            yield e, t


def volumes(prog, rep):
    h = P('h')
    f = prog.func('SimHandler.number_volumes')
    rep.saw(f)
    b = P('B')
    for flag, default in ((TRUE, FALSE), (FALSE, TRUE), (NONE, TRUE), (NONE, FALSE)):
        use = flag if flag is not NONE else default
        r = spec(prog, f, dict(in_h_units=flag), dict(default_in_h_units=default, box_edge_h=b, box_edge_no_h=mk('bin', '/', b, h), h=h), selfcls=prog.cls('SimHandler'))
        for x in normal(r):
            for _, v in leaves(x.value):
                p = powers(v, h)
                ok = p is not None and p[0] == {tuple(sorted({P('volume'): 1, b: -3}.items(), key=lambda kv: kv[0].uid)): 1} or \
                    p is not None and monos(p[0]) == {P('volume'): 1, b: -3}
                ok = ok and p[1] == ({} if use is TRUE else {(): 3})
                rep.ob('volume', 'SimHandler.number_volumes in_h_units=%s default=%s' % (show(flag), show(default)), ok, wh(f), 'the number of boxes in a volume is %s' % show(v)[:120])
    f = prog.func('LCHandler.volume')
    rep.saw(f)
    c = prog.cls('LCHandler')
    for shape in ('sphere', 'box', 'circle'):
        md = D((K('shape'), K(shape)), (K('minimum redshift'), P('z0')), (K('maximum redshift'), P('z1')), (K('open angle'), P('angle')), (K('aspect ratio'), P('aspect')))
        for flag, default in ((TRUE, FALSE), (FALSE, TRUE), (NONE, TRUE), (NONE, FALSE)):
            use = flag if flag is not NONE else default
            r = spec(prog, f, dict(in_h_units=flag, shape=NONE), dict(metadata=md, h=h, default_in_h_units=default), selfcls=c)
            for x in normal(r):
                for _, v in leaves(x.value):
                    p = powers(v, h)
                    if p is None or v is NONE:
                        rep.ob('volume', 'LCHandler.volume %s' % shape, False, wh(f), 'the volume is %s' % show(v)[:120])
                        continue
                    vol = any(y.op == 'mcall' and y.a[0] in ('comoving_volume', 'comoving_distance', 'comoving_transverse_distance') for y in subterms(v))
                    rep.ob('volume', 'LCHandler.volume %s in_h_units=%s default=%s' % (shape, show(flag), show(default)),
                           not vol or p[1] == ({(): 3} if use is TRUE else {}), wh(f), 'with in_h_units=%s (default %s) the volume of a %s lightcone is %s' % (show(flag), show(default), shape, show(v)[-120:]))


def monos(p):
    return dict(list(p)[0]) if len(p) == 1 and list(p.values()) == [1] else None


def mixing(prog, rep):
    """no comparison / sum of quantities in different conventions"""
    lc = prog.cls('GenericLCMaker')
    base = Conv()
    attrs = attr_convs(prog, lc, base)
    groups = []
    for c in [lc] + sorted(prog.subclasses(lc), key=lambda c: c.qual):
        for n, f in sorted(c.methods.items()):
            groups.append((f, c, attrs, {}))
    for cls in ('SimHandler', 'SnapHandler', 'LCHandler'):
        c = prog.cls(cls)
        for n, f in sorted(c.methods.items()):
            if 'in_h_units' in f.params:
                for v in (TRUE, FALSE):
                    groups.append((f, c, {}, {'in_h_units': v}))
            else:
                groups.append((f, c, {}, {}))
    cats = prog.cls('SimCatalogs')
    for c in [cats] + sorted(prog.subclasses(cats), key=lambda c: c.qual):
        a2 = {k: v for k, v in attr_convs(prog, c, base).items() if k == 'box_edge'} or {'box_edge': (1, 0, 1)}
        for n, f in sorted(c.methods.items()):
            groups.append((f, c, a2, {}))
    for f, c, at, bind in groups:
        rep.saw(f)
        try:
            r = spec(prog, f, bind, selfcls=c, attr_types={}) if bind else result(prog, f, selfcls=c)
        except RecursionError:
            continue
        cv = Conv(at)
        done = set()
        n = 0
        for e, t in all_terms(r):
            if e.stack and len(e.stack) > 3:
                continue
            for x in subterms(t):
                if x in done:
                    continue
                done.add(x)
                cv(x)
        known = set()
        for t, a, b, ca, cb in cv.clash:
            names = '/'.join(sorted({hint(a), hint(b)}))
            if (names, ca == cb) in known:
                continue
            known.add((names, ca == cb))
            w = where_of(r, t) or wh(f)
            rep.ob('convention', '%s %s' % (cn(f.qual) if not f.cls or f.cls is c else c.name + '.' + f.name, names), ca[2] == cb[2], w,
                   '%s: %s carries h^%g, %s carries h^%g' % (cn(f.qual), show(a)[:80], ca[2], show(b)[:80], cb[2]))
        for e in r.ev('mcall'):
            if 'in_h_units' in e.kws and e.name != '__init__' and not e.stack:
                for v in list(e.args) + [v for k, v in e.kws.items() if k != 'in_h_units']:
                    k, ch = cv(v), e.kws['in_h_units']
                    if k is not None and k[:2] != (0, 0):
                        ok = ch.op == 'const' and ch.a[0] is (k[2] == sum(k[:2]))
                        rep.ob('choice-matches', '%s -> %s' % (cn(f.qual), e.name), ok, e.where, '%s hands %s (h^%g) to %s with in_h_units=%s' % (cn(f.qual), show(v)[:60], k[2], e.name, show(ch)))
            elif e.name == 'get_mass_index' and not e.stack and e.args and 'in_h_units' not in e.kws and len(e.args) < 3:
                k = cv(e.args[0])
                rep.ob('choice-matches', '%s -> %s' % (cn(f.qual), e.name), k is None or k[2] == 0, e.where, '%s hands a mass limit in h units to %s without saying so' % (cn(f.qual), e.name))
        for e in r.ev('call'):
            b = e.binding or {}
            if 'in_h_units' in e.callee.params and not e.stack and e.callee.name != '__init__':
                for p, v in b.items():
                    k = cv(v)
                    if p in ('in_h_units', 'self') or k is None or k[:2] == (0, 0):
                        continue
                    ch = b.get('in_h_units')
                    ok = ch is not None and ch.op == 'const' and ch.a[0] is (k[2] == sum(k[:2]))
                    rep.ob('choice-matches', '%s -> %s %s' % (cn(f.qual), e.callee.name, p), ok, e.where,
                           '%s hands %s (h^%g) to %s with in_h_units=%s' % (cn(f.qual), show(v)[:60], k[2], e.callee.name, show(ch) if ch is not None else 'default'))


def hint(t):
    """short stable name of a quantity"""
    names = []
    for x in find(t, lambda x: x.op == 'attr' and x.a[1] in ('box_edge_h', 'box_edge_no_h', 'box_edge', 'assign_D', 'assign_z', 'minimum_mass') or
                  x.op == 'mcall' and ('distance' in x.a[0] or 'volume' in x.a[0] or x.a[0].startswith('assign_')) or
                  x.op == 'sub' and x.a[1].op == 'const' and isinstance(x.a[1].a[0], str)):
        n = x.a[1].a[0] if x.op == 'sub' else x.a[1] if x.op == 'attr' else x.a[0]
        if any(w in str(n) for w in ('box_edge', 'distance', 'assign', 'volume', 'mass')) and n not in names and isinstance(n, str):
            names.append(n)
    return '+'.join(sorted(names)[:3]) or t.op


def where_of(r, t):
    for e in r.events:
        for v in list(e.__dict__.values()):
            if isinstance(v, T) and t in subterms(v):
                return e.where
    return None


def recorded(prog, rep):
    """distance limits written into the snapshot tables"""
    cats = prog.cls('SimCatalogs')
    mkconv = lambda: Conv({'distance_min': (1, 0, 0), 'distance_max': (1, 0, 0), 'transverse_distance_min': (1, 0, 0), 'transverse_distance_max': (1, 0, 0)})
    snap = prog.cls('Snapshot') if any(c.name == 'Snapshot' for c in prog.classes.values()) else None
    for c in sorted(prog.subclasses(cats), key=lambda c: c.qual):
        for n, f in sorted(c.methods.items()):
            r = result(prog, f, selfcls=c)
            conv = mkconv()
            for x in r.exits:
                hv = final(x, 'h')
                if hv is not None and hv is not NONE:
                    conv.memo[hv] = (0, 0, 1)
            for e in r.ev('setsub'):
                if e.idx.op == 'const' and e.idx.a[0] in ('distance_min', 'distance_max', 'transverse_distance_min', 'transverse_distance_max') and not e.stack:
                    for _, v in leaves(e.value):
                        k = conv(v)
                        rep.ob('recorded', '%s %s' % (cn(f.qual), e.idx.a[0]), k == (1, 0, 1), e.where, '%s is recorded as %s' % (e.idx.a[0], show(v)[:100]))
