"""Every detector's map and samples come from its own response, pointing and noise."""
from instr import *
from props.I01 import at

ASSUMPTIONS = [
    'Grid.convolve, Grid.collapse_dimension and Grid.sample do what G01-G06 and their documentation say',
    'response and noise functions depend on their arguments only',
]
KS = 51
POS, DT = P('positions'), P('dt')
SKY, SPEC = {0, 1}, 2


def check(prog, rep):
    rep.rule('spatial', 'the map of a detector comes from the field convolved with its own spatial response over the two sky axes', 20)
    rep.rule('spectral', 'the map of a detector is averaged over frequency with its own spectral response, evaluated at the frequencies of the field', 20)
    rep.rule('property', 'the map shows the property of the grid the field was added with', 20)
    rep.rule('map units', 'the map has one entry per detector, in the units of the property mapped', 8)
    rep.rule('beam', 'the beam has the cells of the field and is evaluated on its own axes, centred on the sky axes, at the frequencies of the field', 20)
    rep.rule('beam scale', 'the beam is scaled frequency by frequency, as asked', 6)
    rep.rule('signal', 'the samples of a detector are its own entry of the map of the field asked for', 15)
    rep.rule('pointing', 'the map is sampled at the positions moved by the pointing offset of the detector', 15)
    rep.rule('noise', 'the noise of a detector comes from its own noise function, for the number of samples and the time step given', 10)
    rep.rule('set', 'a response that is set arrives at exactly the detectors named, all when none are named', 15)
    if prog.func(CLS + '.__init__') is None:
        rep.notes.append('no instrument found')
        return
    try:
        Check(prog, rep).all()
    except Lost as x:
        rep.notes.append('not followed further: %s' % x)


#            name  spatial   setting  offset
PATTERNS = (
    (('A', 'P', 1, (0, 0)), ('B', 'Q', 1, (1, 0)), ('C', 'Q', 1, (0, 0)), ('D', 'P', 2, (1, 0))),
    (('A', 'P', 1, (2, 1)), ('B', 'P', 1, (1, 2)), ('C', 'P', 1, (2, 1)), ('D', 'P', 1, (0, 0))),
    (('D', 'P', 1, (0, 0)), ('C', 'Q', 1, (0, 1)), ('B', 'P', 1, (0, 0)), ('A', 'Q', 2, (0, 1))),
)


class Check(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep

    def all(self):
        for pat in PATTERNS:
            self.dets = {n: dict(fn=cb('s' + s), kw={'w': K(w)}, spec=cb('f' + n), noise=cb('n' + n), off=o) for n, s, w, o in pat}
            self.order = [p[0] for p in pat]
            ds = [det(n, o, spatial_response=cb('s' + s), spatial_kwargs=D((K('w'), K(w)))) for n, s, w, o in pat]
            b = start(self.prog, self.rep, ds, [('f', dict(field_property_idx=K(1), g=self.grid('f'))), ('g', dict(g=self.grid('g')))])
            self.props = {'f': 1, 'g': 0}
            for norm in ('peak', 'area', 'none') if pat is PATTERNS[0] else ('peak',):
                m = only(b, 'map_fields', dict(field_names=L(), kernel_size=K(KS), spatial_response_norm=K(norm), pad=P('pad')))
                self.maps(m, norm)
            m2 = only(b, 'map_fields', dict(field_names=L(K('g'))))
            self.maps(m2, 'peak', ('g',), res=True)
            own = b.fork()
            given = own.add(grid(self.prog, 'beam'))
            m3 = only(own, 'map_fields', dict(field_names=L(), beam=given))
            self.maps(m3, None, beam=given)
            for noise in (TRUE, FALSE):
                for signal in (TRUE, FALSE):
                    if noise is TRUE or signal is TRUE:
                        self.samples(m, noise, signal)
            # fields copied when added
            c = start(self.prog, self.rep, ds[:1])
            for idx in (0, 1):
                c2 = field(c, 'f', field_property_idx=K(idx), in_place=FALSE)
                self.copied(only(c2, 'map_fields', dict(field_names=L(), kernel_size=K(KS))), idx)
            # detectors removed and added again: another order
            c = only(only(b, 'del_detectors', dict(detector_names=L(K(self.order[0])))), 'add_detector', ds[0])
            self.order = self.order[1:] + self.order[:1]
            m = only(c, 'map_fields', dict(field_names=L(), kernel_size=K(KS)))
            self.maps(m, 'peak')
            self.samples(m, TRUE, TRUE)
        self.setting(b)

    def grid(self, n):
        t, h = grid(self.prog, 'grid ' + n)
        h[t, 'center_point'] = V(*[P('c%s%d' % (n, i)) for i in range(3)])
        h[t, 'side_length'] = V(*[P('s%s%d' % (n, i)) for i in range(3)])
        h[t, 'pixel_size'] = V(K(0.1), K(0.125), K(0.2))
        h[t, 'gridunits'] = V(K('mJy'), K('Jy')) if n == 'f' else V(K('Jy'), K('mJy'))
        return t, h

    # ---------------------------------------------------------------- maps

    def made(self, b, t):
        """{parameter: value} of the operation that made a grid, and its name"""
        m = b.heap.get((t, '#made'))
        if m is None:
            return None, {}
        if m.op == 'call':
            return m.a[0].a[0].rsplit('.', 1)[-1], dict(m.a[2])
        f = self.prog.lookup(self.prog.classes.get(t.a[1]), '__init__')
        it = Interp(self.prog)
        got, prob = it.bindargs(f, list(m.a[0]), list(m.a[1]), True)
        return 'Grid', got

    def chain(self, b, t):
        """the operations that made a grid, last first, and what they started from"""
        out = []
        while len(out) < 12:
            op, k = self.made(b, t)
            if op not in ('copy', 'convolve', 'collapse_dimension') or k.get('self') is None:
                break
            out.append((op, k, t))
            t = k['self']
        return out, t

    def maps(self, b, norm, names=('f', 'g'), beam=None, res=False):
        rep, f = self.rep, self.prog.lookup(b.cls, 'map_fields')
        for n in names:
            m = entry(value(b, 'maps'), K(n))
            if m is None:
                continue
            fld = entry(value(b, 'fields'), K(n))
            con = '%s%s of %s' % (n, '' if norm else ' with own beam', ''.join(self.order))
            cols = columns(b.heap.get((m, 'grid')))
            if cols is None:
                rep.notes.append('map of %s not followed: %s' % (con, show(b.heap[m, 'grid'], 4) if (m, 'grid') in b.heap else m))
                continue
            rep.ob('map units', '%s, entries' % con, len(cols) == len(self.order), at(f), 'the map of %s has %d entries for %d detectors' % (n, len(cols), len(self.order)))
            k = b.heap.get((m, 'n_properties'))
            if k is not None and k.op == 'const':
                rep.ob('map units', '%s, number' % con, k.a[0] == len(self.order), at(f), 'the map of %s says it has %s properties for %d detectors' % (n, k.a[0], len(self.order)))
            u = b.heap.get((m, 'gridunits'))
            if u is not None and u.op in ('vec', 'list') and all(x.op == 'const' for x in u.a):
                rep.ob('map units', '%s, units' % con, [x.a[0] for x in u.a] == ['Jy'] * len(self.order), at(f), 'the map of %s has units %s' % (n, show(u)))
            if len(cols) != len(self.order):
                continue
            for d, c in zip(self.order, cols):
                self.column(b, f, n, fld, d, c, norm, beam, res)

    def copied(self, b, idx):
        rep, f = self.rep, self.prog.lookup(b.cls, 'add_field')
        fld, m = entry(value(b, 'fields'), K('f')), entry(value(b, 'maps'), K('f'))
        cols = columns(b.heap.get((m, 'grid'))) if m is not None else None
        op, k = self.made(b, fld) if fld is not None else (None, {})
        if op != 'copy' or not cols or cols[0][1] is None:
            return
        kept, p = whole(k.get('properties')) if k.get('properties') not in (None, NONE) else [0, 1], cols[0][1]
        if kept is not None:
            rep.ob('property', 'a copied grid, property %d' % idx, p < len(kept) and kept[p] == idx, at(f), 'of a grid added with property %d and copied with properties %s, property %d is mapped' % (idx, kept, p))

    def column(self, b, f, n, fld, d, c, norm, beam, res):
        rep, con, me = self.rep, '%s of %s in %s%s' % (n, d, ''.join(self.order), '' if norm else ' with own beam'), self.dets[d]
        g, prop = c
        if g.op != 'attr' or g.a[1] != 'grid':
            return
        chain, base = self.chain(b, g.a[0])
        for op, k, t in chain:          # of the grid the instrument holds
            ps = k.get('properties') if op == 'copy' else None
            if ps is not None and ps is not NONE and prop is not None:
                ps = whole(ps)
                prop = None if ps is None else ps[prop] if prop < len(ps) else 'out of %s' % ps
        if prop is not None:
            rep.ob('property', con, prop == self.props[n], at(f), 'the map of field %s (property %d of its grid) shows property %s' % (n, self.props[n], prop))
        steps = [c for c in chain if c[0] != 'copy']
        if not steps or steps[0][0] != 'collapse_dimension':
            return
        op, k, t = steps[0]
        cube = [q for _, _, q in chain[chain.index(steps[0]) + 1:]] + [base]
        ax, mode, w, conv = k.get('ax'), k.get('mode'), k.get('weights'), k.get('self')
        axs = whole(ax)
        if axs is not None:
            rep.ob('spectral', '%s, axis' % con, axs == [SPEC], at(f), 'the cube is averaged along axis %s' % axs)
        if mode is not None and mode.op == 'const':
            rep.ob('spectral', '%s, mode' % con, mode.a[0] == 'average', at(f), 'the cube is collapsed with mode %r' % mode.a[0])
        if w is None or w is NONE:
            rep.ob('spectral', '%s, weights' % con, False, at(f), 'the cube is averaged without the spectral response')
        elif user(w):
            ok = w.a[0] is me['spec'] and kwargs(w) == {'w': P('fk' + d)} and len(w.a[1]) == 1
            rep.ob('spectral', '%s, weights' % con, ok, at(f), 'detector %s is averaged with %s' % (d, show(w, 5)))
            x = w.a[1][0] if w.a[1] else None
            if x is not None and x.op == 'sub' and x.a[0].op == 'attr':
                src = x.a[0].a[0]
                rep.ob('spectral', '%s, frequencies' % con, src in cube and x.a[0].a[1] == 'axes_centers' and whole(x.a[1]) == [SPEC], at(f), 'the spectral response of %s is evaluated at %s' % (d, show(x, 4)))
        if len(steps) < 2 or steps[1][0] != 'convolve':
            return
        op, k, t = steps[1]
        src = k.get('source')
        rep.ob('spatial', '%s, field' % con, base is fld, at(f), 'what is convolved is %s' % show(base, 3))
        axs = whole(k.get('ax'))
        if axs is not None:
            rep.ob('spatial', '%s, axes' % con, set(axs) == SKY, at(f), 'the field is convolved along axes %s' % axs)
        if beam is not None:
            rep.ob('spatial', '%s, beam' % con, src is beam, at(f), 'the beam given is not the one used')
            return
        v = b.heap.get((src, 'grid'))
        if v is None:
            return
        calls = [t for t in subterms(v) if user(t)]
        if len(calls) != 1:
            return
        t = calls[0]
        rep.ob('spatial', '%s, response' % con, t.a[0] is me['fn'] and kwargs(t) == me['kw'], at(f), 'detector %s is convolved with %s' % (d, show(t, 3)))
        args = [a for a in t.a[1]]
        if len(args) == 3 and all(a.op == 'sub' and a.a[0].op == 'attr' for a in args):
            rep.ob('beam', '%s, arguments' % con, all(a.a[0].a[0] is src and a.a[0].a[1] == 'axes_centers' and whole(a.a[1]) == [i] for i, a in enumerate(args)), at(f), 'the beam of %s is evaluated at %s' % (d, ', '.join(show(a, 3) for a in args)))
        op, k = self.made(b, src)
        if op == 'Grid':
            c, s, p, u = k.get('center_point'), k.get('side_length'), k.get('pixel_size'), k.get('axunits')
            h = lambda a, i: b.heap[fld, a].a[i]
            if c is not None and c.op in ('list', 'tuple', 'vec') and len(c.a) == 3:
                zero = [x.op == 'const' and x.a[0] == 0 for x in c.a[:2]]
                rep.ob('beam', '%s, centre' % con, all(zero) and c.a[2] is h('center_point', 2), at(f), 'the beam of %s is centred at %s' % (d, show(c, 3)))
            px = [h('pixel_size', i) for i in range(3)]
            if p is not None and p.op in ('list', 'tuple', 'vec'):
                rep.ob('beam', '%s, cells' % con, [eq(x, y) for x, y in zip(p.a, px)] == [True] * 3, at(f), 'the beam of %s has cells %s' % (d, show(p, 3)))
            if s is not None and s.op in ('list', 'tuple', 'vec') and len(s.a) == 3:
                if s.a[2].op in ('param', 'const'):
                    rep.ob('beam', '%s, bandwidth' % con, s.a[2] is h('side_length', 2), at(f), 'the beam of %s covers %s in frequency' % (d, show(s.a[2], 3)))
                for i in (0, 1):
                    if s.a[i].op == 'const':
                        if res:
                            k = s.a[i].a[0] / px[i].a[0]
                            rep.ob('beam', '%s, size %d' % (con, i), abs(k % 2 - 1) < 1e-6, at(f), 'the beam of %s has %s cells along axis %d, which has no cell at its centre' % (d, k, i))
                        else:
                            rep.ob('beam', '%s, size %d' % (con, i), abs(s.a[i].a[0] - KS * px[i].a[0]) < 1e-9, at(f), 'the beam of %s is %s wide for kernel_size %d' % (d, show(s.a[i]), KS))
        got = scaling(v, t)
        if got is not None:
            rep.ob('beam scale', '%s %s' % (con, norm), got == norm, at(f), 'the beam of %s asked for with spatial_response_norm=%r is scaled by %s' % (d, norm, got))

    # ---------------------------------------------------------------- samples

    def samples(self, b, noise, signal):
        rep, f = self.rep, self.prog.lookup(b.cls, 'sample_fields')
        for n in ('f', 'g', None):
            r = b.run('sample_fields', dict(positions=POS, field_names=L(K(n)) if n else L(), dt=DT, sample_noise=noise, sample_signal=signal))
            for x in normal(r):
                s = b.fork().keep(x)
                for name in (n,) if n else ('f', 'g'):
                    v = x.value if n else entry(x.value, K(name))
                    cols = flatcols(v)
                    what = '%s of %s%s' % (name, ''.join(self.order), '' if n else ' among all')
                    if cols is None:
                        if v is not None:
                            rep.notes.append('samples of %s not followed: %s' % (what, show(v, 4)))
                        continue
                    rep.ob('signal', '%s, number' % what, len(cols) == len(self.order), at(f), '%d columns of samples for %d detectors' % (len(cols), len(self.order)))
                    if len(cols) == len(self.order):
                        for i, (d, c) in enumerate(zip(self.order, cols)):
                            self.one(b, s, f, '%s: %s' % (what, d), name, i, d, c, noise, signal)

    def one(self, b, s, f, con, name, i, d, c, noise, signal):
        rep, me = self.rep, self.dets[d]
        con += ' %s%s' % ('' if signal is TRUE else 'noise only', '' if noise is TRUE else 'signal only')
        terms = addends(c)
        if terms is None:
            return
        fn = [t for t in terms if user(t)]
        sg = [t for t in terms if any(u.op == 'call' and u.a[0].op == 'bm' and u.a[0].a[0].endswith('.sample') for u in subterms(t))]
        rest = [t for t in terms if t not in fn and t not in sg and not (t.op == 'const' and t.a[0] == 0)]
        if rest:
            return
        want = 1 if noise is TRUE else 0
        ok = len(fn) == want and all(t.a[0] is me['noise'] and kwargs(t) == {'w': P('nk' + d)} for t in fn)
        rep.ob('noise', con, ok, at(f), 'the noise of detector %s is %s' % (d, ' + '.join(show(t, 3) for t in fn) or 'left out'))
        for t in fn:
            a = list(t.a[1])
            if len(a) == 2:
                rows = a[0]
                good = rows.op == 'call' and rows.a[0].op == 'ext' and rows.a[0].a[0] == 'builtins.len' and rows.a[1][0] is POS or \
                    rows.op == 'sub' and rows.a[0].op == 'attr' and rows.a[0].a == (POS, 'shape') and whole(rows.a[1]) == [0]
                if good or rows in (POS, DT) or rows.op == 'const' or rows.op == 'sub':
                    rep.ob('noise', '%s, samples' % con, good and a[1] is DT, at(f), 'noise is made for %s samples with time step %s' % (show(rows, 3), show(a[1], 3)))
        if signal is not TRUE:
            rep.ob('signal', con, not sg, at(f), 'signal is part of samples without signal')
            return
        rep.ob('signal', '%s, present' % con, len(sg) == 1, at(f), 'the signal of detector %s is there %d times' % (d, len(sg)))
        if len(sg) != 1:
            return
        t, pick = sg[0], None
        if t.op == 'sub':
            pick = t.a[1]
            t = t.a[0]
        if t.op != 'call' or t.a[0].op != 'bm':
            return
        m, k = t.a[0].a[1], dict(t.a[2])
        rep.ob('signal', '%s, map' % con, m is entry(value(b, 'maps'), K(name)), at(f), 'field %s is sampled from %s' % (name, show(m, 2)))
        props = k.get('properties')
        col = column(pick)
        if props is None or props is NONE:
            got = col
        else:
            ps = [x.a[0] for x in props.a] if props.op in ('vec', 'list', 'tuple') and all(x.op == 'const' for x in props.a) else [props.a[0]] if props.op == 'const' else None
            got = ps[col] if ps is not None and col is not None and col < len(ps) else ps[0] if ps is not None and col is None and len(ps) == 1 and pick is None else None
        if got is not None:
            rep.ob('signal', '%s, entry' % con, got == i, at(f), 'detector %s (number %d) gets entry %s of the map' % (d, i, got))
        p = k.get('positions')
        if p is not None and p.op == 'bin' and p.a[0] in ('+', '-') and POS in p.a[1:]:
            o = p.a[2] if p.a[1] is POS else p.a[1]
            if o.op in ('tuple', 'list', 'vec') and all(x.op == 'const' for x in o.a):
                rep.ob('pointing', con, p.a[0] == '+' and tuple(x.a[0] for x in o.a) == me['off'], at(f), 'detector %s with offset %s samples at positions %s %s' % (d, me['off'], p.a[0], show(o)))
        elif p is POS:
            rep.ob('pointing', con, me['off'] == (0, 0), at(f), 'detector %s samples without its pointing offset %s' % (d, me['off']))

    # ---------------------------------------------------------------- setting responses

    def setting(self, b):
        rep = self.rep
        ds = value(b, 'detectors')
        names = [k.a[0] for k, v in ds.a[0]] if ds is not None and ds.op == 'dict' else []
        attrs = {'spatial': ('spatial_response', 'spatial_kwargs'), 'spectral': ('spectral_response', 'spectral_kwargs'), 'noise': ('noise_function', 'noise_kwargs')}
        for meth, m in (('set_spatial_respones', 'spatial'), ('set_spectral_respones', 'spectral'), ('set_noise_functions', 'noise')):
            f = self.prog.lookup(b.cls, meth)
            for some in ((), tuple(names[1:2]), tuple(names[:2]), ('instrument',), (names[2], 'instrument')):
                s = only(b, meth, {'detector_names': L(*[K(n) for n in some]), (m + '_response' if m != 'noise' else 'noise_function'): cb('new'), m + '_kwargs': kw('new')})
                hit = {n for n in some if n != 'instrument'} if some else set(names)
                what = '%s(%s)' % (meth, ', '.join(some))
                for n in names:
                    o = entry(value(s, 'detectors'), K(n))
                    for kind, (fn, kws) in sorted(attrs.items()):
                        mine = n in hit and kind == m
                        now, was = s.heap.get((o, fn)), b.heap.get((o, fn))
                        if now is None and was is None or s.heap.get((o, kws)) is None:
                            continue
                        rep.ob('set', '%s, %s of %s' % (what, fn, n), now is (cb('new') if mine else was), at(f), 'after %s the %s of %s is %s' % (what, fn, n, show(now) if now is not None else 'missing'))
                        now, was = s.heap.get((o, kws)), b.heap.get((o, kws))
                        rep.ob('set', '%s, %s of %s' % (what, kws, n), now is (kw('new') if mine else was), at(f), 'after %s the %s of %s are %s' % (what, kws, n, show(now, 3) if now is not None else 'missing'))
                for kind, (fn, kws) in sorted(attrs.items()):
                    mine = 'instrument' in some and kind == m
                    now, was = value(s, 'default_' + fn), value(b, 'default_' + fn)
                    if now is None and was is None:
                        continue
                    rep.ob('set', '%s, default %s' % (what, fn), now is (cb('new') if mine else was), at(f), 'after %s the default %s is %s' % (what, fn, show(now) if now is not None else 'missing'))


def whole(t):
    """integers in an axis argument"""
    if t is None:
        return None
    if t.op == 'const' and isinstance(t.a[0], int):
        return [t.a[0]]
    if t.op in ('list', 'tuple', 'vec') and all(x.op == 'const' for x in t.a):
        return [x.a[0] for x in t.a]
    return None


def user(t):
    return t.op == 'call' and t.a[0].op == 'obj' and t.a[0].a[0].startswith('callable ')


def kwargs(t):
    return dict(t.a[2]) if len(t.a) > 2 else {}


def ext(t, *names):
    return t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in names


def axis(t, pos=1, default=None):
    k = dict(t.a[2]) if len(t.a) > 2 else {}
    a = k.get('axis') or (t.a[1][pos] if len(t.a[1]) > pos else None)
    return whole(a) if a is not None else default


FULL = mk('slice', NONE, NONE, NONE)


def picks(i):
    """(entries of an index, number that come after an ellipsis or None)"""
    return list(i.a) if i.op in ('tuple', 'list') else [i]


def prop_of(t):
    """(three-or-more-dimensional array, index along its last axis or None)"""
    if t.op == 'sub':
        i = picks(t.a[1])
        if len(i) == 3 and i[0] is FULL and i[1] is FULL and i[2].op == 'const' or len(i) == 2 and i[0].op == 'const' and i[0].a[0] is Ellipsis and i[1].op == 'const':
            return t.a[0], i[-1].a[0]
    return t, None


def columns(t):
    """[(array of one detector, property)] of a map with the detectors along its last axis; None when not followed"""
    if t is None:
        return None
    if t.op == 'sub' and ext(t.a[0], 'numpy.stack') and t.a[0].a[1] and t.a[0].a[1][0].op in ('list', 'tuple'):
        i, s = picks(t.a[1]), t.a[0]
        ax = axis(s, default=[0])
        if ax in ([2], [-2]) and (len(i) == 4 and all(x is FULL for x in i[:3]) or len(i) == 2 and i[0].op == 'const' and i[0].a[0] is Ellipsis) and i[-1].op == 'const':
            return [(x, i[-1].a[0]) for x in s.a[1][0].a]
        if ax in ([3], [-1]) and len(i) == 4 and i[0] is FULL and i[1] is FULL and i[3] is FULL and i[2].op == 'const':
            return [(x, i[2].a[0]) for x in s.a[1][0].a]
        return None
    if ext(t, 'numpy.stack', 'numpy.dstack') and t.a[1] and t.a[1][0].op in ('list', 'tuple'):
        if ext(t, 'numpy.dstack') or axis(t, default=[0]) in ([2], [-1]):
            got = [prop_of(x) for x in t.a[1][0].a]
            return got if all(p is not None for x, p in got) else None
        return None
    out = {}
    while t.op == 'upd':
        i = picks(t.a[1])
        if not (len(i) == 3 and i[0] is FULL and i[1] is FULL or len(i) == 2 and i[0].op == 'const' and i[0].a[0] is Ellipsis) or i[-1].op != 'const':
            return None
        v = prop_of(t.a[2])
        if v[1] is None:
            return None
        out.setdefault(i[-1].a[0], v)
        t = t.a[0]
    if out and sorted(out) == list(range(len(out))) and ext(t, 'numpy.zeros', 'numpy.empty', 'numpy.full', 'numpy.ones', 'numpy.zeros_like', 'numpy.empty_like'):
        return [out[i] for i in range(len(out))]
    return None


def flatcols(t):
    """columns of a two-dimensional array of samples"""
    if t is None:
        return None
    if ext(t, 'numpy.stack', 'numpy.column_stack') and t.a[1] and t.a[1][0].op in ('list', 'tuple'):
        if ext(t, 'numpy.column_stack') or axis(t, default=[0]) in ([1], [-1]):
            return list(t.a[1][0].a)
        return None
    if t.op == 'attr' and t.a[1] == 'T' and ext(t.a[0], 'numpy.array', 'numpy.stack', 'numpy.vstack') and t.a[0].a[1] and t.a[0].a[1][0].op in ('list', 'tuple') and axis(t.a[0], default=[0]) == [0]:
        return list(t.a[0].a[1][0].a)
    out = {}
    while t.op == 'upd':
        i = column(t.a[1])
        if i is None:
            return None
        out.setdefault(i, t.a[2])
        t = t.a[0]
    if out and sorted(out) == list(range(len(out))) and ext(t, 'numpy.zeros', 'numpy.empty', 'numpy.full', 'numpy.zeros_like', 'numpy.empty_like'):
        return [out[i] for i in range(len(out))]
    return None


def addends(t):
    if t.op == 'bin' and t.a[0] == '+':
        a, b = addends(t.a[1]), addends(t.a[2])
        return None if a is None or b is None else a + b
    if t.op in ('phi', 'unk', 'mu', 'loop'):
        return None
    return [t]


def column(i):
    if i is None:
        return None
    i = picks(i)
    if len(i) == 2 and i[0] is FULL and i[1].op == 'const':
        return i[1].a[0]
    if len(i) == 2 and i[0].op == 'const' and i[0].a[0] is Ellipsis and i[1].op == 'const':
        return i[1].a[0]
    return None


def scaling(v, t):
    """how an evaluated response is scaled: peak, area, none; None when not followed"""
    if v is t or v.op in ('sub', 'call', 'mcall') and not any(x.op == 'bin' for x in subterms(v)) and not any(ext(x, 'numpy.max', 'numpy.sum', 'numpy.amax') for x in subterms(v)):
        return 'none'
    if v.op == 'bin' and v.a[0] == '/':
        num, den = v.a[1], v.a[2]
        red = [x for x in subterms(den) if ext(x, 'numpy.max', 'numpy.amax', 'numpy.sum', 'numpy.nanmax', 'numpy.nansum', 'numpy.mean') or x.op in ('mcall',) and x.a[0] in ('max', 'sum', 'mean')]
        if len(red) != 1 or scaling(num, t) != 'none':
            return None
        x = red[0]
        name = x.a[0].a[0].rsplit('.', 1)[-1] if x.op == 'call' else x.a[0]
        arg = x.a[1][0] if x.op == 'call' else x.a[1]
        if arg is not num:
            return None
        k = dict(x.a[2]) if x.op == 'call' else dict(x.a[3])
        ax = whole(k.get('axis')) if k.get('axis') is not None else None
        if ax is None:
            return 'the %s over all frequencies' % name if k.get('axis') is None and not (x.op == 'call' and len(x.a[1]) > 1) else None
        if SPEC in ax or not SKY <= set(ax):
            return 'the %s over axes %s' % (name, ax)
        return {'max': 'peak', 'amax': 'peak', 'sum': 'area'}.get(name, name)
    return None
