"""What is sampled from a field is what mapping it now would give."""
from instr import *

ASSUMPTIONS = [
    'response and noise functions depend on their arguments only',
    'Grid operations not in place leave the grid they are given alone (G03, I02)',
    'an instrument is changed through its methods; a grid added in place is not changed by the user between mapping and sampling',
]
POS, DT, KS = P('positions'), P('dt'), K(51)


def check(prog, rep):
    rep.rule('current', 'when sampling a field succeeds, the result is the one mapping the field anew with the same settings would give', 150)
    rep.rule('usable', 'a field that was just mapped can be sampled', 40)
    rep.rule('own settings', 'later changes to the dictionaries a user passed do not change a detector', 6)
    if prog.func(CLS + '.__init__') is None:
        rep.notes.append('no instrument found')
        return
    try:
        Check(prog, rep).all()
    except Lost as x:
        rep.notes.append('not followed further: %s' % x)


class Check(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep

    def all(self):
        prog, rep = self.prog, self.rep
        b0 = start(prog, rep, [det('A'), det('B', (1, 0))], [('f', {}), ('g', {})])
        full = dict(kernel_size=KS)
        b = only(b0, 'map_fields', dict(field_names=L(), **full))
        self.usable(b, 'all mapped', ('f', 'g'))
        m = {'f': full, 'g': full}
        self.mapped(b0, 'never mapped', m)
        own = dict(beam=b0.add(grid(prog, 'beam')))
        bb = only(b0, 'map_fields', dict(field_names=L(K('f')), **own))
        self.usable(bb, 'mapped with own beam', ('f',))
        self.mapped(bb, 'one mapped with own beam', {'f': own, 'g': full})
        for what, ops in self.changes():
            for b1, how in self.after(b, ops):
                self.mapped(b1, '%s%s' % (what, how), m)
        for what, ops in self.changes():
            for b1, how in self.after(bb, ops):
                self.mapped(b1, 'own beam, %s%s' % (what, how), {'f': own, 'g': full})
        # a change, then only one field mapped anew, then a change again
        part = [('map_fields', dict(field_names=L(K('g')), **full), None)]
        first = self.changes()
        for what, ops in first:
            for b1, how in self.after(b, ops + part):
                self.mapped(b1, '%s, g mapped%s' % (what, how), m)
        again = [('map_fields', dict(field_names=L(), **full), None)]
        for what, ops in first[:7]:
            for what2, ops2 in first[:16]:
                for b1, how in self.after(b, ops + again + ops2):
                    self.mapped(b1, '%s, mapped, %s%s' % (what, what2, how), m)
        # mapping that fails on the way
        for what, ops in first[:7]:
            for n in range(1, 9):
                for b1, how in self.after(b, ops + [('map_fields', dict(field_names=L(), **full), n)]):
                    self.mapped(b1, '%s, mapping fails at call %d%s' % (what, n, how), m)
        self.settings(b)

    def changes(self):
        sets = [('set_spatial_respones', 'spatial'), ('set_spectral_respones', 'spectral'), ('set_noise_functions', 'noise')]
        out = []
        new = lambda m, *names: dict({'detector_names': L(*[K(n) for n in names]), (m + '_response' if m != 'noise' else 'noise_function'): cb('new ' + m), m + '_kwargs': kw('new ' + m)})
        out.append(('detector added', [('add_detector', det('C'), None)]))
        out.append(('detector removed', [('del_detectors', dict(detector_names=L(K('A'))), None)]))
        out.append(('last detector removed', [('del_detectors', dict(detector_names=L(K('B'))), None)]))
        for meth, m in sets[:2]:
            out.append(('%s response of one detector' % m, [(meth, new(m, 'B'), None)]))
            out.append(('%s response of all detectors' % m, [(meth, new(m), None)]))
        out.append(('detector replaced', [('del_detectors', dict(detector_names=L(K('A'))), None), ('add_detector', det('A', spectral_response=cb('other')), None)]))
        out.append(('field replaced', [('del_fields', dict(field_names=L(K('f'))), None), ('add_field', dict(grid=grid(self.prog, 'other grid'), name=K('f'), field_property_idx=K(1)), None)]))
        out.append(('field added', [('add_field', dict(grid=grid(self.prog, 'grid h'), name=K('h'), field_property_idx=K(0)), None)]))
        out.append(('detectors swapped', [('del_detectors', dict(detector_names=L(K('A'), K('B'))), None), ('add_detector', det('B'), None), ('add_detector', det('A'), None)]))
        for meth, m in sets[:2]:
            out.append(('%s response and default' % m, [(meth, new(m, 'A', 'instrument'), None)]))
            out.append(('%s settings only' % m, [(meth, dict(new(m, 'A'), **{m + '_response': cb('s' + 'A' if m == 'spatial' else 'fA')}), None)]))
            out.append(('%s default only' % m, [(meth, new(m, 'instrument'), None)]))
            out.append(('%s by name' % m, [(meth, dict(new(m, 'A', 'B'), **{m + '_response': K('gauss')}), None)]))
            out.append(('%s refused' % m, [(meth, dict(new(m, 'A', 'B'), **{m + '_kwargs': K(3)}), None)]))
            out.append(('%s with an unknown detector' % m, [(meth, new(m, 'A', 'nobody'), None)]))
        out.append(('noise', [(sets[2][0], new('noise', 'A'), None)]))
        out.append(('addition refused', [('add_detector', det('C', noise_function=K(5)), None)]))
        out.append(('removal refused', [('del_detectors', dict(detector_names=L(K('A'), K('nobody'))), None)]))
        out.append(('repeated removal refused', [('del_detectors', dict(detector_names=L(K('A'), K('A'))), None)]))
        out.append(('added and removed', [('add_detector', det('C'), None), ('del_detectors', dict(detector_names=L(K('C'))), None)]))
        return out

    def after(self, b, ops):
        """the states a sequence of operations can leave: [(state, how it went)]"""
        states = [(b, '')]
        for meth, bind, fail in ops:
            out = []
            for s, how in states:
                s = s.fork()
                bind2 = {}
                for k, v in bind.items():
                    bind2[k] = s.add(v) if isinstance(v, tuple) else v
                r = s.run(meth, bind2, fail=counted(fail) if fail else None)
                for x in r.exits:
                    if sure(x):
                        out.append((s.fork().keep(x), how + (', error' if x.kind == 'raise' else '')))
            states = out[:4]
        return states

    def samples(self, b, names, noise=FALSE):
        r = b.run('sample_fields', dict(positions=POS, field_names=L(*[K(n) for n in names]), dt=DT, sample_noise=noise, sample_signal=TRUE))
        return [(x, b.fork().keep(x)) for x in normal(r)]

    def usable(self, b, what, names):
        f = self.prog.lookup(b.cls, 'sample_fields')
        for n in names:
            self.rep.ob('usable', '%s, %s' % (what, n), bool(self.samples(b, [n])), at(f), 'sampling %s raises an error although it was just mapped' % n)

    def mapped(self, b, what, settings):
        """samples taken now against samples taken after mapping now"""
        f = self.prog.lookup(b.cls, 'sample_fields')
        names = [n for n in ('f', 'g', 'h') if n in (keys(value(b, 'fields')) or ())]
        if not names:
            return
        for some in [[n] for n in names] + ([names, names[::-1]] if len(names) > 1 else []):
            got = self.samples(b, some)
            con = '%s, %s' % (what, ' and '.join(some))
            if not got:
                self.rep.ob('current', con, True, at(f), '')
                continue
            # mapped anew as the user did last
            want = self.anew(b, some, {n: settings.get(n, dict(kernel_size=KS)) for n in some})
            if want is None:
                continue
            self.rep.ob('usable', con, bool(want), at(f), 'sampling raises an error although %s was just mapped' % ' and '.join(some))
            vs = [canon(x.value, s) for x, s in got]
            if any(v not in want for v in vs):       # or, some of them, with the defaults
                for k in range(1, 2 ** len(some)):
                    want = want | (self.anew(b, some, {n: {} if k >> i & 1 else settings.get(n, dict(kernel_size=KS)) for i, n in enumerate(some)}) or set())
            for v in vs:
                if any(t.op in ('phi', 'mu', 'loop', 'unk') and t.a[0] != 'itself' for t in subterms(v)) or not want:
                    continue
                self.rep.ob('current', con, v in want, at(f), 'samples of %s come from a map that is no longer what mapping it gives (%s)' % (' and '.join(some), what))

    def anew(self, b, some, how):
        """what sampling can give after mapping now; None when mapping is not followed"""
        try:
            for n in some:
                b = only(b, 'map_fields', dict(field_names=L(K(n)), **how[n]))
        except Lost:
            return None
        return {canon(x.value, s) for x, s in self.samples(b, some)}

    def settings(self, b):
        rep = self.rep
        for meth, m in (('set_spatial_respones', 'spatial'), ('set_spectral_respones', 'spectral'), ('set_noise_functions', 'noise')):
            f = self.prog.lookup(b.cls, meth)
            arg = m + '_kwargs'
            for names in (L(K('A')), L(), L(K('instrument'))):
                self.own(f, b.run(meth, {'detector_names': names, (m + '_response' if m != 'noise' else 'noise_function'): cb('new'), arg: kw('new')}), arg)
        f = self.prog.lookup(b.cls, 'add_detector')
        r = b.run('add_detector', det('C'))
        for m in ('spatial', 'spectral', 'noise'):
            self.own(f, r, m + '_kwargs')

    def own(self, f, r, arg):
        for x in normal(r):
            loc = r.locs.get(arg)
            held = sorted(a for (o, a), l in x.state.heap.items() if isinstance(l, int) and l == loc)
            self.rep.ob('own settings', '%s %s' % (f.qual, arg), not held, at(f), 'the %s passed in are kept as they are (in .%s): changing them later changes the detector without its maps being outdated' % (arg, ', .'.join(held)))


def counted(n):
    """the n-th outside call fails"""
    c = [0]

    def fail(name, args):
        if isinstance(name, T) or isinstance(name, str) and '.Grid.' in name:
            c[0] += 1
            return c[0] == n
        return False
    return fail


def sure(x):
    """nothing unknown had to hold for this exit, or only what holds of any input the sequence is about"""
    return x.kind != 'raise' or not any(known(c) is None for c, p in x.guards)


def known(c):
    return c.a[0] if c.op == 'const' else None


def at(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
