"""Adding, mapping and sampling a field leave the field, and a beam handed in, as they were."""
import instr
from instr import *
from gridstate import G, State, written
from props import G03

ASSUMPTIONS = [
    'numpy functions return views or copies as documented; response and noise functions leave the axes and settings they are given alone',
    'a transform undone over the same axes counts as the original data (rounding is not considered)',
    'the Grid methods are followed through on three-axis grids with two properties and two-axis maps',
]
KS = K(51)


def check(prog, rep):
    rep.rule('field', 'every attribute of a field has the value it had before the operation, whether it completed or not', 1500)
    rep.rule('beam', 'every attribute of a beam handed in has the value it had before', 300)
    rep.rule('maps', 'sampling leaves every attribute of the maps as it was', 300)
    rep.rule('shared', 'no array or list of a map, or of the copy an instrument keeps, is, contains or views one of a field or beam of the user', 150)
    rep.rule('arguments', 'positions handed in are not written to', 8)
    if prog.func(CLS + '.__init__') is None:
        rep.notes.append('no instrument found')
        return
    try:
        Check(prog, rep).all()
    except Lost as x:
        rep.notes.append('not followed further: %s' % x)


class Whole(Bench):
    """a session with the Grid methods followed through"""

    def maker(self, f, made):
        return lambda b: None

    def run(self, meth, bind, fail=None, models=None, inline=None):
        return Bench.run(self, meth, bind, fail=fail, models=models, inline=inline or (lambda a, b: True))


class Check(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.types = prog.cls('Grid').qual

    # ---------------------------------------------------------------- set up

    def whole(self, b, name, g):
        """a grid of the user in the session"""
        t = mk('obj', 'grid ' + name)
        self.put(b, t, g)
        b.watch = dict(b.watch, **{name: (t, g)})
        return t

    def put(self, b, t, g):
        if t.op == 'obj':
            b.types[t.a[0]] = self.types
        for k in [k for k in b.heap if k[0] is t]:
            del b.heap[k]
        for a, v in g.heap.items():
            b.heap[(t, a)] = v

    def grid(self, tag, n=3, props=2):
        g = G(n=n, props=props, tag=tag)
        g.u, g.g = [K('deg'), K('deg'), K('GHz')][:n], [K('Jy')] * props
        g.heap['axunits'], g.heap['gridunits'] = V(*g.u), V(*g.g)
        return g

    def session(self, dets, **units):
        b = Whole(self.prog, self.rep)
        b.watch, b.kept = {}, {}
        b = only(b, '__init__', dict(UNITS, **units))
        for d in dets:
            b = only(b, 'add_detector', d)
        return b

    # ---------------------------------------------------------------- the sequences

    def all(self):
        one = [det('A')]
        two = [det('A'), det('B', (1, 0))]
        same = [det('A'), det('B', spatial_response=cb('sA'), spatial_kwargs=kw('skA'))]
        three = two + [det('C', spatial_response=cb('sA'), spatial_kwargs=kw('skA'))]
        first = True
        for what, dets in (('one detector', one), ('two detectors', two), ('two detectors with one beam', same), ('three detectors', three)):
            for inplace in (TRUE, FALSE):
                for idx in (K(0), K(1)):
                    if dets is not two and idx.a[0] == 1 and inplace is FALSE:
                        continue
                    w = '%s, property %s%s' % (what, idx.a[0], ', copied' if inplace is FALSE else '')
                    b = self.session(dets)
                    b = self.add(b, w, 'f', inplace, idx)
                    b = self.add(b, w, 'g', inplace, K(0))
                    for h, k in (('', dict(kernel_size=KS)), (', by area', dict(kernel_size=KS, spatial_response_norm=K('area'))), (', padded', dict(kernel_size=KS, pad=K(4))),
                                 (', not normalised', dict(spatial_response_norm=K('none'))), (', own beam', dict(beam='beam')), (', own beam padded', dict(beam='beam', pad=P('pad')))):
                        if dets is not two and h not in ('', ', own beam'):
                            continue
                        self.observe(b, w + h, k, deep=dets is three and idx.a[0] == 0)
        # responses by name
        for s in ('gauss', 'spec-gauss'):
            for f in ('gauss', 'boxcar'):
                b = self.session([det('A', spatial_response=K(s), spatial_kwargs=NONE, spectral_response=K(f), spectral_kwargs=NONE, noise_function=K('white'), noise_kwargs=NONE)])
                b = self.add(b, '%s, %s' % (s, f), 'f', TRUE, K(0))
                self.observe(b, '%s, %s' % (s, f), dict(kernel_size=KS))
        # additions that are refused
        for what, k in (('name in use', dict(name=K('f'))), ('no such property', dict(field_property_idx=K(7))), ('unit', {}), ('flux unit', {}), ('Fourier', {})):
            b = self.session(two)
            b = self.add(b, what, 'f', TRUE, K(0))
            b = b.fork()
            g = self.grid('h')
            if what == 'unit':
                g.u[0] = K('rad')
                g.heap['axunits'] = V(*g.u)
            if what == 'flux unit':
                g.g[0] = K('K')
                g.heap['gridunits'] = V(*g.g)
            if what == 'Fourier':
                g.heap['fourier_space'] = V(FALSE, TRUE, FALSE)
            t = self.whole(b, 'h', g)
            for p in (TRUE, FALSE):
                self.step(b, 'refused (%s)' % what, 'add_field', dict(dict(grid=t, name=K('h'), field_property_idx=K(0), in_place=p), **k))
        # other operations
        b = self.session(two)
        for n in 'fg':
            b = self.add(b, 'other operations', n, TRUE, K(0))
        for meth, k in (('del_fields', dict(field_names=L(K('f')))), ('add_detector', det('C')), ('del_detectors', dict(detector_names=L(K('A')))), ('set_spatial_respones', dict(detector_names=L(), spatial_response=cb('z'))),
                        ('set_spectral_respones', dict(detector_names=L(), spectral_response=cb('z')))):
            self.step(b, meth, meth, k)

    def add(self, b, what, name, inplace, idx):
        b = b.fork()
        t = self.whole(b, name, self.grid(name))
        r = self.step(b, what, 'add_field', dict(grid=t, name=K(name), field_property_idx=idx, in_place=inplace))
        if len(r) != 1:
            raise Lost('add_field completes in %d ways' % len(r))
        b = r[0][1]
        held = entry(value(b, 'fields'), K(name))
        if held is not None and held is not t and held.op == 'new':
            # the instrument's copy, from here on with symbols of its own
            self.share(r[0][0], b, held, 'the copy of %s' % name, what, 'add_field')
            n = b.heap.get((held, 'n_properties'))
            if n is not None and n.op == 'const':
                g = self.grid('c' + name, props=n.a[0])
                self.put(b, held, g)
                b.watch = dict(b.watch, **{'copy of ' + name: (held, g)})
        return b

    def observe(self, b, what, k, deep=False):
        b = b.fork()
        k = dict(k)
        if k.get('beam') is not None:
            k['beam'] = self.whole(b, 'beam', self.grid('beam', props=1))
        names = sorted(n for n in b.watch if n in ('f', 'g'))
        done = None
        for ask in [[n] for n in names] + ([names] if len(names) > 1 else []):
            bind = dict(k, field_names=L(*[K(n) for n in ask]))
            done = self.step(b, '%s, mapping %s' % (what, ' and '.join(ask)), 'map_fields', bind)
        for n in range(1, 8) if deep else ():
            self.step(b, '%s, failing at response %d' % (what, n), 'map_fields', bind, fail=nth(n))
        for x, s in done or ():
            maps = value(s, 'maps')
            if maps is None or maps.op != 'dict':
                continue
            for q, t in maps.a[0]:
                if t.op not in ('new', 'obj'):
                    continue
                self.share(x, s, t, 'the map of %s' % q.a[0], what, 'map_fields')
                p, n = s.heap.get((t, 'n_properties')), s.heap.get((t, 'n_dimensions'))
                if any(c is None or c.op != 'const' or not isinstance(c.a[0], int) for c in (p, n)):
                    continue
                if not any(t is w for w, _ in s.watch.values()):
                    g = self.grid('m' + str(q.a[0]), n=n.a[0], props=p.a[0])
                    self.put(s, t, g)
                    s.watch = dict(s.watch, **{'map of %s' % q.a[0]: (t, g)})
            for sig in (TRUE, FALSE):
                for noise in (TRUE, FALSE):
                    r = self.step(s, '%s, sampling' % what, 'sample_fields', dict(positions=P('positions'), field_names=L(*[K(n) for n in names]), dt=P('dt'), sample_signal=sig, sample_noise=noise))
            if deep:
                for n in range(1, 4):
                    self.step(s, '%s, sampling fails at %d' % (what, n), 'sample_fields', dict(positions=P('positions'), field_names=L(*[K(n) for n in names]), dt=P('dt')), fail=nth(n))
                self.step(s, '%s, mapped again' % what, 'map_fields', bind)

    # ---------------------------------------------------------------- what is required

    def step(self, b, what, meth, bind, fail=None):
        """an operation and what it left of everything handed in: [(exit, state)]"""
        f = self.prog.lookup(b.cls, meth)
        r = b.run(meth, bind, fail=fail)
        grids = [g for t, g in b.watch.values()]
        out = []
        done = set()
        for x in r.exits:
            if x.kind not in ('raise', 'return', 'fall') and x not in normal(r):
                continue
            for name, (t, g) in sorted(b.watch.items()):
                st = State(x, t)
                now = tuple(st.get(a) for a in G03.ATTRS)
                if x.kind == 'raise' and (t, now) in done:
                    continue
                done.add((t, now))
                rule = 'beam' if name == 'beam' else 'maps' if name.startswith('map') else 'field'
                if rule == 'maps' and meth != 'sample_fields':
                    continue
                G03.untouched(As(self.rep, rule, at(f)), f, '%s: %s%s,' % (meth, what, ', error' if x.kind == 'raise' else ''), x, st, g, name, grids)
        own = {z: (name, z) for name, (t, g) in b.watch.items() for z in g.A + g.C + g.F + g.FE + [g.grid] if meth == 'sample_fields' or not name.startswith('map')}
        own.update({z: ('positions', z) for k, z in bind.items() if k == 'positions'})
        bad = {}
        for e, got in written(r, set(own)):
            for z in got:
                bad.setdefault(own[z][0], []).append(e)
        for name in sorted({n for n, z in own.values()}):
            rule = 'arguments' if name == 'positions' else 'beam' if name == 'beam' else 'maps' if name.startswith('map') else 'field'
            es = bad.get(name, ())
            self.rep.ob(rule, '%s: %s, arrays of %s' % (meth, what, name), not es, at(f), 'writes into an array of %s at line %s' % (name, ', '.join(sorted({'%s:%s' % (e.func.module.path, e.line) for e in es}))))
        for x in normal(r):
            s = b.fork().keep(x)
            out.append((x, s))
        return out

    def share(self, x, b, t, who, what, meth):
        f = self.prog.lookup(b.cls, meth)
        ns = State(x, t)
        for name, (o, g) in sorted(b.watch.items()):
            if o is t:
                if not name.startswith(('copy', 'map')):
                    self.rep.ob('shared', '%s, %s' % (what, who), False, at(f), '%s is the grid of the user' % who)
                continue
            if name.startswith(('copy', 'map')):
                continue
            st = State(x, o)
            own = set(g.A + g.C + g.F + g.FE + [g.grid])
            for a in G03.MUTABLE:
                if ns.loc(a) is None:
                    continue
                same = [q for q in G03.MUTABLE if isinstance(ns.loc(a), int) and ns.loc(a) == st.loc(q)]
                got = {z for y in G03.entries(ns.get(a)) for z in roots(y)} & own
                self.rep.ob('shared', '%s, %s %s, %s' % (what, who, a, name), not same and not got, at(f), '%s of %s is or views %s of %s' % (a, who, ', '.join(same) or ', '.join(sorted(show(z) for z in got)), name))


class As(object):
    """the rules of another check under a name of this one"""

    def __init__(self, rep, rule, where):
        self.rep, self.rule, self.where = rep, rule, where

    def ob(self, rule, con, ok, where, msg):
        self.rep.ob(self.rule, con, ok, self.where, msg)


def nth(n):
    """the n-th call of a response or noise function fails"""
    c = [0]

    def fail(name, args):
        if isinstance(name, T):
            c[0] += 1
            return c[0] == n
        return False
    return fail


def at(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
