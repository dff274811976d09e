"""Every record an instrument keeps has an entry for exactly its detectors and fields."""
from instr import *
from props.I01 import at, counted, sure

ASSUMPTIONS = [
    'names are strings; an instrument is changed through its methods',
    'errors are those the code raises, and those raised by the functions a user passes and by the grid operations called',
]
KS = K(51)


def check(prog, rep):
    rep.rule('records', 'after every addition and removal each record has an entry for exactly the detectors and fields there are', 60)
    rep.rule('all', 'with no names given, mapping and sampling cover every field there is', 20)
    rep.rule('agree', 'records agree with each other also after an operation that raised an error', 20)
    rep.rule('refused', 'an addition with a name in use or an unsuitable input raises an error', 25)
    rep.rule('accepted', 'a suitable addition is accepted', 10)
    rep.rule('as it was', 'an addition that fails leaves every part of the instrument as it was', 25)
    rep.rule('complete', 'every detector has all the information the others have', 4)
    if prog.func(CLS + '.__init__') is None:
        rep.notes.append('no instrument found')
        return
    try:
        Check(prog, rep).all()
    except Lost as x:
        rep.notes.append('not followed further: %s' % x)


DETS, FIELDS = 'ABCD', 'fgh'


class Check(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep

    def all(self):
        prog = self.prog
        b = start(prog, self.rep, [det('A'), det('B', (1, 0))], [('f', {}), ('g', {})])
        m = only(b, 'map_fields', dict(field_names=L(), kernel_size=KS))
        self.learn([b, m, only(b, 'map_fields', dict(field_names=L(K('f')), kernel_size=KS)), only(m, 'set_spatial_respones', dict(detector_names=L(K('A')), spatial_response=cb('z')))])
        for b1, how in ((b, 'not mapped'), (m, 'mapped')):
            self.records(b1, 'A B f g %s' % how, 'AB', 'fg', 'map_fields' if b1 is m else 'add_field')
            self.sequences(b1, how)
        self.additions(m)
        self.unfinished(m)
        self.defaults()

    # ---------------------------------------------------------------- records

    def parts(self, b):
        """[(path, value)] records held by the instrument"""
        out = []
        for (o, a), v in sorted(b.heap.items(), key=lambda kv: (kv[0][0].uid, kv[0][1])):
            if o is ME and not a.startswith('#'):
                out.append((a, v))
                if v.op == 'dict' and all(k.op == 'const' for k, _ in v.a[0]) and not any(k.a[0] in self.known for k, _ in v.a[0]):
                    out += [('%s[%r]' % (a, k.a[0]), w) for k, w in v.a[0] if w.op in ('dict', 'list')]
        return out

    known = set(DETS) | set(FIELDS) | {str(i) for i in range(10)}

    def learn(self, states):
        """which parts are records of what: their entries are those of the detectors, or the fields, in every state"""
        self.of = {}
        have = [{p: sorted(map(str, keys(v) or [])) for p, v in self.parts(b)} for b in states]
        for p in have[0]:
            for kind, names in (('detector', ['A', 'B']), ('field', ['f', 'g'])):
                if all(h.get(p) == names for h in have):
                    self.of[p] = kind
        if 'detector' not in self.of.values() or 'field' not in self.of.values():
            raise Lost('records not found')

    def records(self, b, what, dets, fields, meth, rule='records'):
        f = self.prog.lookup(b.cls, meth)
        want = {'detector': sorted(dets), 'field': sorted(fields)}
        for p, v in self.parts(b):
            ks = keys(v)
            if ks is None:
                continue
            if p in self.of:
                w = want[self.of[p]]
                self.rep.ob(rule, '%s, %s' % (what, p), sorted(map(str, ks)) == w, at(f), '.%s has entries for %s, the %ss are %s (%s)' % (p, self.listed(ks), self.of[p], self.listed(w), what))
            elif ks and all(isinstance(k, str) for k in ks):
                for kind, names in (('detector', DETS), ('field', FIELDS)):
                    mine = [k for k in ks if k in names]
                    if mine:
                        self.rep.ob(rule, '%s, %s' % (what, p), set(mine) <= set(want[kind]), at(f), '.%s has an entry for %s, which is no longer a %s (%s)' % (p, self.listed(sorted(set(mine) - set(want[kind]))), kind, what))

    @staticmethod
    def listed(ks):
        return ', '.join(str(k) for k in ks) or 'nothing'

    def current(self, b, kind):
        """what the records say is there, when they agree"""
        got = {p: sorted(map(str, keys(v) or ['?'] if v.op != 'dict' or v.a[0] else [])) for p, v in self.parts(b) if self.of.get(p) == kind}
        return got

    def sequences(self, b, how):
        g = lambda n: grid(self.prog, 'grid %s' % n)
        add = lambda n, **k: ('add_detector', det(n, **k))
        rem = lambda *n: ('del_detectors', dict(detector_names=L(*[K(x) for x in n])))
        addf = lambda n, t=None, **k: ('add_field', dict(dict(grid=g(t or n), name=K(n) if n else NONE, field_property_idx=K(0)), **k))
        remf = lambda *n: ('del_fields', dict(field_names=L(*[K(x) for x in n])))
        mapf = lambda *n: ('map_fields', dict(field_names=L(*[K(x) for x in n]), kernel_size=KS))
        auto = ('add_detector', det('X', name=NONE))
        for ops, dets, fields in (
                ([add('C')], 'ABC', 'fg'), ([rem('A')], 'B', 'fg'), ([rem('B')], 'A', 'fg'), ([rem('A', 'B')], '', 'fg'), ([add('C'), rem('B', 'A')], 'C', 'fg'),
                ([rem('A'), add('A')], 'AB', 'fg'), ([add('C'), rem('A'), add('D')], 'BCD', 'fg'), ([addf('h')], 'AB', 'fgh'), ([remf('f')], 'AB', 'g'), ([remf('g')], 'AB', 'f'),
                ([remf('f', 'g')], 'AB', ''), ([remf('g', 'f'), addf('f')], 'AB', 'f'), ([remf('f'), addf('f', 'other')], 'AB', 'fg'), ([remf('f'), addf('f', 'other'), mapf()], 'AB', 'fg'),
                ([addf('h', in_place=FALSE)], 'AB', 'fgh'), ([addf('h', _check=FALSE)], 'AB', 'fgh'), ([auto], 'AB2', 'fg'), ([auto, auto], 'AB23', 'fg'), ([auto, rem('A')], 'B2', 'fg'),
                ([addf(None, 'h')], 'AB', 'fg2'), ([addf(None, 'h'), addf(None, 'k')], 'AB', 'fg23'), ([addf('h'), mapf('h'), remf('h')], 'AB', 'fg'),
                ([add('C'), mapf(), rem('C'), mapf('g'), remf('f')], 'AB', 'g'), ([rem('A'), mapf('f'), remf('f'), addf('h'), mapf()], 'B', 'gh'), ([mapf(), remf('g')], 'AB', 'f'),
                ([('set_spatial_respones', dict(detector_names=L(), spatial_response=cb('z'))), remf('g')], 'AB', 'f')):
            s, what = b, []
            for meth, bind in ops:
                bind2 = {k: s.add(v) if isinstance(v, tuple) else v for k, v in bind.items()}
                what.append('%s(%s)' % (meth, ', '.join(show(x) for k, v in bind.items() if k in ('name', 'detector_names', 'field_names') for x in (v.a if v.op == 'list' else [v]))))
                s = only(s, meth, bind2)
            self.records(s, '%s: %s' % (how, ', '.join(what)), dets, fields, ops[-1][0])
            if dets and fields:
                self.every(s, '%s: %s' % (how, ', '.join(what)), fields)
            if dets:
                self.whole(s, '%s: %s' % (how, ', '.join(what)), ops[-1][0])
        for meth, bind in (rem('A', 'nobody'), rem('A', 'A'), rem('nobody'), remf('f', 'nothing'), remf('f', 'f'), mapf('f', 'nothing'),
                           ('set_spatial_respones', dict(detector_names=L(K('A'), K('nobody')), spatial_response=cb('z')))):
            r = b.run(meth, bind)
            f = self.prog.lookup(b.cls, meth)
            for x in r.exits:
                if x.kind == 'raise' and not sure(x):
                    continue
                s = b.fork().keep(x)
                for kind in ('detector', 'field'):
                    got = self.current(s, kind)
                    self.rep.ob('agree', '%s: %s(%s), %s' % (how, meth, show(list(bind.values())[0]), kind), len({tuple(v) for v in got.values()}) <= 1, at(f),
                                'after %s(%s) raised an error: %s' % (meth, show(list(bind.values())[0]), '; '.join('.%s has %s' % (p, self.listed(v)) for p, v in sorted(got.items()))))

    def every(self, b, what, fields):
        try:
            s = only(b, 'map_fields', dict(field_names=L(), kernel_size=KS))
        except Lost:
            return
        f = self.prog.lookup(b.cls, 'sample_fields')
        ask = lambda *n: normal(s.run('sample_fields', dict(positions=P('positions'), field_names=L(*[K(x) for x in n]), dt=P('dt'))))
        for n in fields:
            self.rep.ob('all', '%s, %s' % (what, n), bool(ask(n)), at(self.prog.lookup(b.cls, 'map_fields')), 'mapping without names leaves out %s' % n)
        if len(fields) > 1:
            for x in ask():
                ks = keys(x.value) if x.value.op == 'dict' else None
                if ks is not None:
                    self.rep.ob('all', '%s, sampled' % what, sorted(map(str, ks)) == sorted(fields), at(f), 'sampling without names gives %s, the fields are %s' % (self.listed(ks), self.listed(fields)))

    def whole(self, b, what, meth):
        """every detector has the attributes the others have"""
        ds = value(b, 'detectors')
        if ds is None or ds.op != 'dict':
            return
        have = {k.a[0]: {a for (o, a), v in b.heap.items() if o is v0 and not a.startswith('#')} for k, v0 in ds.a[0] if v0.op == 'new'}
        every = set().union(*have.values()) if have else set()
        for d, a in sorted(have.items()):
            self.rep.ob('complete', '%s, %s' % (what, d), a == every, at(self.prog.lookup(b.cls, meth)), 'detector %s has no %s' % (d, self.listed(sorted(every - a))))

    # ---------------------------------------------------------------- failing additions

    def same(self, b, x):
        """parts of the instrument an exit left different: [what]"""
        s = b.fork().keep(x)
        out = []
        mine = {ME} | {v for p, t in self.parts(b) if t.op == 'dict' for k, v in t.a[0] if v.op in ('new', 'obj')}
        for (o, a), v in b.heap.items():
            if o in mine and not a.startswith('#'):
                now = s.heap.get((o, a))
                if now is not v and eq(now, v) is not True:
                    out.append((o, a, now, v))
        for (o, a), v in s.heap.items():
            if o is ME and not a.startswith('#') and (o, a) not in b.heap:
                out.append((o, a, v, None))
        return [(o, a, n, v) for o, a, n, v in out if n is None or not any(t.op in ('phi', 'unk', 'mu', 'loop') for t in subterms(n))]

    def fails(self, b, what, meth, bind, fail=None, rule='refused'):
        f = self.prog.lookup(b.cls, meth)
        b = b.fork()
        bind = {k: b.add(v) if isinstance(v, tuple) else v for k, v in bind.items()}
        r = b.run(meth, bind, fail=fail)
        ok = [x for x in normal(r) if not any(known(c) for c, p in x.guards)]
        if rule:
            self.rep.ob(rule, what, not ok, at(f), '%s is accepted' % what)
        for x in r.exits:
            if x.kind != 'raise' or not sure(x):
                continue
            d = self.same(b, x)
            self.rep.ob('as it was', what, not d, at(f), 'after %s failed: %s' % (what, '; '.join('%s is %s, it was %s' % (a if o is ME else '%s of %s' % (a, show(o)), show(n, 4) if n is not None else 'gone', show(v, 4) if v is not None else 'not there') for o, a, n, v in d[:3])))

    def additions(self, b):
        bad = K(5)
        D_ = lambda what, **k: self.fails(b, 'adding a detector %s' % what, 'add_detector', det('C', **k))
        D_('with a name in use', name=K('A'))
        D_('with a name in use (last)', name=K('B'))
        D_('called instrument', name=K('instrument'))
        for m in ('spatial', 'spectral', 'noise'):
            fn = m + '_response' if m != 'noise' else 'noise_function'
            D_('with a %s that cannot be called' % fn, **{fn: bad})
            D_('without %s' % fn, **{fn: NONE})
            D_('with %s_kwargs that are no dictionary' % m, **{m + '_kwargs': bad})
            if m != 'noise':
                D_('with an unknown %s' % fn, **{fn: K('nonsense')})
            c = only(b, 'set_%s' % ('noise_functions' if m == 'noise' else m + '_respones'), {'detector_names': L(K('instrument')), fn: cb('default')})
            self.fails(c, 'adding a detector with a default %s without kwargs' % fn, 'add_detector', det('C', **{fn: NONE, m + '_kwargs': NONE}))
        D_('with one pointing offset', pointing_offsets=mk('tuple', K(1)))
        D_('with three pointing offsets', pointing_offsets=mk('tuple', K(1), K(2), K(3)))
        named = only(b, 'add_detector', det('3'))
        self.fails(named, 'adding a detector whose default name is in use', 'add_detector', det('C', name=NONE))
        named = field(b, '3')
        self.fails(named, 'adding a field whose default name is in use', 'add_field', dict(grid=grid(self.prog, 'new grid'), name=NONE))
        n = [0]

        def F_(what, g=None, rule='refused', fail=None, **k):
            n[0] += 1
            self.fails(b, 'adding a field %s' % what, 'add_field', dict(dict(grid=grid(self.prog, 'new grid %d' % n[0], **(g or {})), name=K('h'), field_property_idx=K(0)), **k), fail=fail, rule=rule)
        F_('with a name in use', name=K('f'))
        F_('with a name in use (last)', name=K('g'))
        F_('with a property the grid does not have', field_property_idx=K(2))
        F_('with a negative property', field_property_idx=K(-1))
        F_('with a property the grid does not have, unchecked', field_property_idx=K(2), _check=FALSE)
        F_('without data', dict(grid_active=FALSE))
        F_('in two dimensions', dict(n_dimensions=K(2)))
        for i in range(3):
            F_('with axis %d in Fourier space' % i, dict(fourier_space=V(*[K(j == i) for j in range(3)])))
            u = [K('deg'), K('deg'), K('GHz')]
            for other in (('arcmin', 'rad') if i < 2 else ('Hz', 'um')) + ('furlong',):
                w = list(u)
                w[i] = K(other)
                F_('with axis %d in %s' % (i, other), dict(axunits=V(*w)))
        F_('in mJy', dict(gridunits=V(K('mJy'), K('Jy'))))
        F_('with the second property in mJy', dict(gridunits=V(K('Jy'), K('mJy'))), field_property_idx=K(1))
        F_('in unknown units', dict(gridunits=V(K('sheep'), K('Jy'))))
        for i, p in enumerate(((1.5, 0.1, 0.2), (0.1, 1.5, 0.2), (0.1, 0.1, 2.5))):
            F_('with pixels too large along axis %d' % i, dict(pixel_size=V(*[K(x) for x in p])))
        F_('that cannot be copied', rule=None, in_place=FALSE, fail=lambda name, args: isinstance(name, str) and '.Grid.' in name)

        def ok(what, meth, bind, base=b):
            s = base.fork()
            bind = {k: s.add(v) if isinstance(v, tuple) else v for k, v in bind.items()}
            r = s.run(meth, bind)
            f = self.prog.lookup(b.cls, meth)
            self.rep.ob('accepted', what, bool(normal(r)), at(f), '%s raises an error' % what)
        G = lambda **k: dict(grid=grid(self.prog, 'good grid', **k), name=K('h'), field_property_idx=K(0))
        ok('a field in the units of the instrument', 'add_field', G())
        ok('a field without units', 'add_field', G(axunits=V(NONE, NONE, NONE), gridunits=V(NONE, NONE)))
        ok('a field whose other property has other units', 'add_field', G(gridunits=V(K('Jy'), K('Msun'))))
        ok('a field at the resolution of the instrument', 'add_field', G(pixel_size=V(K(1.0), K(1.0), K(2.0))))
        ok('the last property', 'add_field', dict(G(), field_property_idx=K(1)))
        ok('a field by default name', 'add_field', dict(G(), name=NONE))
        ok('a detector', 'add_detector', det('C'))
        ok('a detector by default name', 'add_detector', det('C', name=NONE))
        ok('a detector with named responses', 'add_detector', det('C', spatial_response=K('gauss'), spectral_response=K('boxcar'), noise_function=K('white')))
        ok('a detector named like a field', 'add_detector', det('f'))
        ok('a field named like a detector', 'add_field', dict(G(), name=K('A')))
        ok('a detector without kwargs', 'add_detector', det('C', spatial_kwargs=NONE, spectral_kwargs=NONE, noise_kwargs=NONE))

    def unfinished(self, b):
        """additions during which something the user passed, or a grid operation, fails"""
        for n in range(1, 4):
            for nom in (NONE, K(1.0)):
                self.fails(b, 'adding a detector with call %d failing' % n, 'add_detector', det('C', nominal_frequency=nom), fail=counted(n), rule=None)

    def defaults(self):
        """detectors made from the defaults of the instrument"""
        prog = self.prog
        u = dict(UNITS, default_spatial_response=cb('s'), default_spatial_kwargs=kw('s'), default_spectral_response=cb('f'), default_spectral_kwargs=kw('f'),
                 default_noise_function=cb('n'), default_noise_kwargs=kw('n'))
        b = start(prog, self.rep, (), (), u)
        b = field(b, 'f')
        f = prog.lookup(b.cls, 'add_detector')
        r = b.run('add_detector', dict(name=K('A'), nominal_frequency=K(1.0)))
        self.rep.ob('accepted', 'a detector made of defaults', bool(normal(r)), at(f), 'a detector with all defaults set raises an error')
        for x in normal(r)[:1]:
            s = b.fork().keep(x)
            self.records(s, 'a detector made of defaults', 'A', 'f', 'add_detector')


def known(c):
    return None if c.op == 'const' else c
