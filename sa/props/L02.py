"""Light cone columns: every row describes one halo, found again through the recorded source."""
from common import *
from lcrows import Lc, Col, Mat, Ix, Rec, Seq, Bad, ARR, builds, extenders, stored, datanode, loops, canon, same, show_pop, poly, stem, rowcount, turn

ASSUMPTIONS = [
    'a catalogue column holds one value per halo of its snapshot, in the same order for every column (S02)',
    'repeating the box appends whole copies of the catalogue, so the remainder of a row number is the catalogue row',
    'interpolators and random generators act entry by entry',
]
BASIC = ('pos_x', 'pos_y', 'pos_z', 'ra', 'dec', 'redshift', 'mass')
SIM = ('Indexing', 'sim_indices')


def text(path):
    return '/'.join(str(p.a[0]) if p.op == 'const' else '<key>' for p in path)


def kind(v):
    return v is None or isinstance(v, Bad) and v


def check(prog, rep):
    rep.rule('same halos', 'all columns stored together are the same selection of the same halos in the same order', 14)
    rep.rule('recorded source', 'the recorded source index is the catalogue row the other columns were taken from, the recorded snapshot is the one that catalogue belongs to', 2)
    rep.rule('own column', 'the stored mass is the halo\'s mass; position columns come from the halo\'s position; the redshift is that of the distance of the stored position', 8)
    rep.rule('appended together', 'every column grows by exactly the number of rows written, and the rows are written where it grew', 8)
    rep.rule('first block', 'data sets are created in the first turn of all loops and extended in every other one', 1)
    rep.rule('own light cone', 'orientation arrays are read at the number of the light cone being written', 4)
    rep.rule('added property', 'a property added later is taken from the snapshot and row recorded in the row it is written to', 4)
    rep.rule('limit', 'a light cone takes the halos of at least the minimum mass, properties added later are looked up among no fewer', 1)
    rep.rule('redshift law', 'redshifts and comoving distances in the units of the positions are interpolated from one another in the cosmology of the simulation', 0)
    law(prog, rep)
    taken = {}
    for nm, f, res in builds(prog):
        rep.saw(f)
        build(prog, rep, nm, f, res)
        limit(rep, nm, f, prefixes(res, 'build'), taken)
    for nm, f, res in extenders(prog):
        rep.saw(f)
        extend(prog, rep, nm, f, res)
        longer(rep, nm, f, prefixes(res, 'extend'), taken)


CURVES = ('interp1d', 'InterpolatedUnivariateSpline', 'CubicSpline', 'PchipInterpolator', 'Akima1DInterpolator', 'make_interp_spline', 'UnivariateSpline')


def law(prog, rep):
    """the interpolations between redshift and distance that builders keep"""
    from flow import Interp
    f = prog.func('GenericLCMaker.__init__')
    if f is None:
        return
    res = Interp(prog, inline=lambda a, b: b.module is a.module, depth=3).run(f, selfcls=f.cls)
    seen = set()
    for x in res.exits:
        if x.kind == 'raise':
            continue
        for (o, a), v in x.state.heap.items():
            v = x.state.store[v] if isinstance(v, int) else v
            if o is not mk('param', 'self') or a not in ("assign_z", "assign_D") or (a, v) in seen:
                continue
            seen.add((a, v))
            if v.op != 'call' or v.a[0].op != 'ext' or v.a[0].a[0].split('.')[-1] not in CURVES:
                rep.notes.append('%s is not an interpolation that is followed' % a)
                continue
            k = dict(v.a[2]) if len(v.a) > 2 and v.a[2] else {}
            k = {(q.a[0] if hasattr(q, 'op') else q): w for q, w in k.items()}
            xs = v.a[1][0] if v.a[1] else k.get('x')
            ys = v.a[1][1] if len(v.a[1]) > 1 else k.get('y')
            if xs is None or ys is None:
                continue
            kinds = [quantity(t) for t in (xs, ys)]
            if None in kinds:
                rep.notes.append('%s: points not followed' % a)
                continue
            want = ['D', 'z'] if a == 'assign_z' else ['z', 'D']
            got = [q[0] for q in kinds]
            bad = ''
            if got != want:
                bad = 'interpolates %s from %s' % (got[1], got[0])
            elif kinds[0][1] is not kinds[1][1]:
                bad = 'distances and redshifts of different points are paired'
            rep.ob('redshift law', 'GenericLCMaker.' + a, not bad, wh(f), bad)


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def quantity(t):
    """('z', grid) for evenly made numbers, ('D', grid) for little h times their comoving distance, ('?', grid) for another quantity of theirs"""
    if is_call(t, 'numpy.linspace', 'numpy.arange', 'numpy.logspace', 'numpy.geomspace'):
        return ('z', t)
    p = poly(t)
    at = list(p.atoms())
    ms = [a for a in at if named(a)]
    if len(ms) != 1:
        return None
    m = named(ms[0])
    rest = [a for a in at if a is not ms[0]]
    grid = m[1]
    if grid is None or not is_call(grid, 'numpy.linspace', 'numpy.arange', 'numpy.logspace', 'numpy.geomspace'):
        return None
    if p != poly(ms[0]) * (poly(rest[0]) if len(rest) == 1 else poly(K(1))) or len(rest) > 1:
        return ('a combination of distances', grid) if all('cosmo_h' in show(a, 9) for a in rest) else None
    if rest and 'cosmo_h' not in show(rest[0], 9):
        return None
    if m[0] not in ('comoving_distance', 'comoving_transverse_distance'):
        return (m[0], grid)
    return ('D', grid) if rest else ('comoving distances without little h', grid)


def named(a):
    """(method of a cosmology, its argument)"""
    while a.op == 'attr' and a.a[1] == 'value':
        a = a.a[0]
    if a.op == 'mcall' and a.a[0] in ('to', 'to_value'):
        return None
    if a.op == 'mcall' and len(a.a[2]) == 1 and (a.a[0].endswith('_distance') or a.a[0] in ('age', 'lookback_time')):
        return a.a[0], a.a[2][0]
    if a.op == 'call' and a.a[0].op == 'attr' and len(a.a[1]) == 1 and (a.a[0].a[1].endswith('_distance') or a.a[0].a[1] in ('age', 'lookback_time')):
        return a.a[0].a[1], a.a[1][0]
    return None


MASSES = [9, 7, 7, 5, 3, 2]
LIMITS = [10, 9, 8, 7, 6, 5, 4, 3, 2, 1]


class No(Exception):
    pass


def prefixes(res, what):
    """numbers of halos taken from the head of a snapshot, and where"""
    lc = Lc()
    out = {}

    def add(p, ev):
        for s in p.a[1]:
            if s.op == 'prefix':
                out.setdefault(s.a[0], ev.where)
    if what == 'build':
        for w in stored(res.events, lc)[0]:
            v = lc.of(w.value)
            if isinstance(v, Col) and v.pop is not None and v.pop.a[0].op == 'snap':
                add(v.pop, w.ev)
    else:
        for e in res.events:
            if e.kind == 'setsub' and isinstance(e.value, T):
                v = lc.of(e.value)
                if v is None:
                    for x in subterms(e.value):
                        if x.op == 'phi' and x.a[0].op == 'cmp' and K('masscheck') in x.a[0].a[1:]:
                            v = Lc({x.a[0]: False}).of(e.value)
                            break
                if isinstance(v, Col) and v.pop is not None and v.pop.a[0].op == 'via':
                    add(v.pop.a[0].a[1], e)
    return lc, out


def measure(lc, t, lim):
    """value of a number computed from the masses of a snapshot, most massive first; arrays as lists"""
    def pick(p):
        xs = list(range(len(MASSES)))
        for s in p.a[1]:
            if s.op == 'prefix':
                xs = xs[:num(ev(s.a[0]))]
            elif s.op == 'where':
                keep = [True] * len(xs)
                for c in s.a[0]:
                    v = ev(c, [MASSES[i] for i in xs])
                    keep = [a and b for a, b in zip(keep, v if isinstance(v, list) else [v] * len(xs))]
                xs = [i for i, k in zip(xs, keep) if k]
            else:
                raise No
        return xs

    def num(v):
        if isinstance(v, (bool, int)):
            return int(v)
        raise No

    def each(g, a, b):
        if isinstance(a, list) or isinstance(b, list):
            n = len(a) if isinstance(a, list) else len(b)
            return [g(x, y) for x, y in zip(a if isinstance(a, list) else [a] * n, b if isinstance(b, list) else [b] * n)]
        return g(a, b)

    def ev(t, col=None):
        op = t.op
        if op == 'const' and isinstance(t.a[0], (int, float)):
            return t.a[0]
        if op == 'halo' and t.a[0] is K('mass') and col is not None:
            return col
        if op == 'attr' and t.a[1] == 'minimum_mass':
            return lim
        if op == 'mcall' and t.a[0] == 'get_mass_index':
            return len(MASSES)
        if op == 'len' and len(t.a) == 1 and t.a[0].op == 'pop':
            return len(pick(t.a[0]))
        if op == 'phi':
            return ev(t.a[1] if ev(t.a[0], col) else t.a[2], col)
        if op == 'not':
            v = ev(t.a[0], col)
            return [not x for x in v] if isinstance(v, list) else not v
        if op in ('and', 'or'):
            vs = [ev(x, col) for x in t.a]
            out = vs[0]
            for v in vs[1:]:
                out = each((lambda x, y: x and y) if op == 'and' else (lambda x, y: x or y), out, v)
            return out
        import operator as o
        if op == 'cmp' and t.a[0] in ('<', '<=', '==', '!='):
            return each({'<': o.lt, '<=': o.le, '==': o.eq, '!=': o.ne}[t.a[0]], ev(t.a[1], col), ev(t.a[2], col))
        if op == 'bin' and t.a[0] in ('+', '-', '*'):
            return each({'+': o.add, '-': o.sub, '*': o.mul}[t.a[0]], ev(t.a[1], col), ev(t.a[2], col))
        f, xs = None, []
        if op == 'call' and t.a[0].op == 'ext' and not (len(t.a) > 2 and t.a[2]):
            f, xs = t.a[0].a[0].split('.')[-1], t.a[1]
        elif op == 'mcall' and not t.a[2]:
            f, xs = t.a[0], [t.a[1]]
        if op == 'sub' and is_const(t.a[1], 0) and is_call(t.a[0], 'numpy.where', 'numpy.nonzero'):
            f, xs = 'flatnonzero', t.a[0].a[1]
        if f is not None and len(xs) == 1:
            v = ev(xs[0], col)
            if f in ('int', 'int64', 'float', 'bool'):
                return int(v) if not isinstance(v, list) else v
            if not isinstance(v, list):
                raise No
            if f == 'flatnonzero':
                return [i for i, x in enumerate(v) if x]
            if f in ('amax', 'max'):
                if not v:
                    raise No
                return max(v)
            if f in ('amin', 'min'):
                if not v:
                    raise No
                return min(v)
            if f in ('sum', 'count_nonzero'):
                return sum(map(int, v))
            if f == 'len':
                return len(v)
            if f in ('any', 'all'):
                return any(v) if f == 'any' else all(v)
            if f in ('array', 'asarray'):
                return v
            raise No
        if op == 'sub' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], int):
            v = ev(t.a[0], col)
            if isinstance(v, list) and v:
                return v[t.a[1].a[0]]
            raise No
        c = lc.of(t)
        if isinstance(c, Col) and c.e is mk('halo', K('mass')) and c.pop is not None and c.pop.a[0].op == 'snap':
            return [MASSES[i] for i in pick(c.pop)]
        if op == 'attr' and t.a[1] == 'size':
            v = ev(t.a[0], col)
            if isinstance(v, list):
                return len(v)
        raise No
    return num(ev(t))


def table(lc, t):
    try:
        return [measure(lc, t, k) for k in LIMITS]
    except (No, RecursionError, TypeError, IndexError):
        return None


def limit(rep, nm, f, got, taken):
    lc, ps = got
    for t, at in ps.items():
        v = table(lc, t)
        if v is None:
            rep.notes.append('%s: mass limit not followed' % nm)
            taken[None] = nm
            continue
        bad = [(k, n) for k, n in zip(LIMITS, v) if n != sum(m >= k for m in MASSES)]
        rep.ob('limit', nm, not bad, at, 'of halos of masses %s a minimum mass of %s takes the first %d' % ((MASSES,) + bad[0]) if bad else '')
        taken.setdefault(nm, []).append(v)


def longer(rep, nm, f, got, taken):
    lc, ps = got
    for t, at in ps.items():
        v = table(lc, t)
        if v is None:
            rep.notes.append('%s: mass limit not followed' % nm)
            continue
        for b, ws in taken.items():
            for w in ws if b is not None else ():
                bad = [(k, x, y) for k, x, y in zip(LIMITS, v, w) if x < y]
                rep.ob('limit', '%s after %s' % (nm, b), not bad, at, 'of halos of masses %s a minimum mass of %s gives the light cone %d and the look-up %d' % (MASSES, bad[0][0], bad[0][2], bad[0][1]) if bad else '')


def build(prog, rep, nm, f, res):
    lc = Lc()
    writes, sizes = stored(res.events, lc)
    rows = [w for w in writes if w.path and (w.path[0] is K('Lightcone Basic') or text(w.path) == 'Indexing/sim_indices')]
    vals = []
    for w in rows:
        v = lc.of(w.value)
        at = w.ev.where
        c = '%s: %s %s' % (nm, text(w.path), 'first rows' if w.at == 'new' else 'further rows')
        if isinstance(v, Bad):
            rep.ob('same halos', c, False, at, v.why)
            continue
        if not isinstance(v, ARR) or isinstance(v, Rec) and v.pop is None:
            if v is None or lc.hasrows(w.value):
                rep.notes.append('%s not followed' % c)
                continue
            rep.notes.append('%s has no rows' % c)
            continue
        vals.append((w, v, c))
    # blocks written by the same turn
    if not vals:
        return
    pops = {}
    for w, v, c in vals:
        pops.setdefault(v.pop, []).append((w, v, c))
    ref = max(pops, key=lambda p: len(pops[p]))
    for w, v, c in vals:
        if isinstance(v, Rec):
            for k, x in sorted(v.f.items()):
                if isinstance(x, ARR):
                    rep.ob('same halos', '%s %s' % (c, k), x.pop is ref, w.ev.where, 'rows of %s stored beside rows of %s' % (show_pop(x.pop), show_pop(ref)))
        rep.ob('same halos', c, v.pop is ref, w.ev.where, 'rows of %s stored beside rows of %s' % (show_pop(v.pop), show_pop(ref)) if stem(v.pop) is not stem(ref) and show_pop(v.pop) != show_pop(ref) else 'the selection or order of these rows differs from that of the other columns')
    snap = ref.a[0].a[0] if ref.a[0].op == 'snap' else None
    for w, v, c in vals:
        if isinstance(v, Rec):
            source(rep, w, v, c, snap)
    columns(rep, vals, ref, lc, nm)
    placement(rep, nm, writes, sizes, vals, ref, lc, res)
    created(rep, nm, vals)
    cone(rep, nm, res, vals, lc)


def source(rep, w, v, c, snap):
    i, s = v.f.get('index'), v.f.get('snap')
    if isinstance(i, Bad):
        rep.ob('recorded source', c + ' index', False, w.ev.where, i.why)
    elif isinstance(i, Ix):
        tiled = any(x.op == 'tile' for x in i.src.a[1])
        good = i.mod is not None or not tiled
        num = i.mod if i.mod is not None else i.src
        cut = [x for x in num.a[1] if x.op not in ('prefix',)]
        rep.ob('recorded source', c + ' index', good and not cut, w.ev.where, 'the recorded index numbers %s, not the catalogue' % show_pop(num))
    elif isinstance(i, Col):
        rep.ob('recorded source', c + ' index', False, w.ev.where, 'the recorded index is not a row number')
    else:
        rep.notes.append('%s: recorded index not followed' % c)
    if isinstance(s, T) and snap is not None:
        a, b = canon(s), canon(snap)
        if a.op == b.op == 'row' or a is b or a.op in ('lidx', 'const') and b.op == 'row':
            rep.ob('recorded source', c + ' snap', a is b, w.ev.where, 'the recorded snapshot (%s) is not the one whose catalogue was read (%s)' % (show(s, 4), show(snap, 4)))
        elif not any(x.op == 'lidx' or x.op == 'each' for x in subterms(b)) and b.op == 'const':
            rep.notes.append('%s: recorded snapshot not followed' % c)
        else:
            loop = {x for x in subterms(snap) if x.op in ('lidx', 'each')}
            if loop and not loop & set(subterms(s)):
                rep.ob('recorded source', c + ' snap', False, w.ev.where, 'the recorded snapshot (%s) does not depend on the snapshot being read' % show(s, 4))
            else:
                rep.notes.append('%s: recorded snapshot not followed' % c)
    elif isinstance(s, ARR):
        rep.ob('recorded source', c + ' snap', False, w.ev.where, 'the recorded snapshot is not the snapshot number')


def halos(e):
    return {x.a[0].a[0] for x in subterms(e) if x.op == 'halo' and x.a[0].op == 'const'}


def columns(rep, vals, ref, lc, nm):
    pos = {}
    for w, v, c in vals:
        k = w.path[-1].a[0] if w.path[-1].op == 'const' else None
        if k == 'mass' and isinstance(v, Col):
            rep.ob('own column', c, v.e is mk('halo', K('mass')), w.ev.where, 'the stored mass is not the mass of the catalogue: %s' % show(v.e, 3))
        if k in ('pos_x', 'pos_y', 'pos_z'):
            if isinstance(v, Ix):
                rep.ob('own column', c, False, w.ev.where, 'a row number is stored as a position')
                continue
            if isinstance(v, Col):
                h = halos(v.e)
                if h:
                    rep.ob('own column', c, h <= {'pos_x', 'pos_y', 'pos_z'}, w.ev.where, 'computed from %s' % ', '.join(sorted(map(str, h))))
                pos.setdefault(w.at == 'new', {})[k] = v.e
    if ref.a[0].op != 'snap':
        return
    # distance of the stored position
    for w, v, c in vals:
        k = w.path[-1].a[0] if w.path[-1].op == 'const' else None
        p = pos.get(w.at == 'new', {})
        if k == 'redshift' and isinstance(v, Col) and len(p) == 3:
            d = v.e
            if d.op == 'mcall' and d.a[0] == 'assign_z' and len(d.a[2]) == 1:
                arg = d.a[2][0]
            elif d.op == 'call' and len(d.a[1]) == 1:
                arg = d.a[1][0]
            elif d.op == 'halo':
                rep.ob('own column', c, False, w.ev.where, 'the redshift is not computed from the distance')
                continue
            else:
                rep.notes.append('%s: redshift not followed' % c)
                continue
            want = poly(p['pos_x']) * poly(p['pos_x']) + poly(p['pos_y']) * poly(p['pos_y']) + poly(p['pos_z']) * poly(p['pos_z'])
            got = poly(mk('bin', '**', arg, K(2)))
            if got == want:
                rep.ob('own column', c, True, w.ev.where)
            elif turned(got.atoms() | want.atoms()) and (is_call(arg, 'numpy.sqrt') or arg.op == 'bin'):
                rep.ob('own column', c, False, w.ev.where, 'the redshift is not that of the distance of the stored position')
            else:
                rep.notes.append('%s: distance of the redshift not compared' % c)


def turned(atoms):
    """all entries are taken from the same rotated (or all from unrotated) positions"""
    k = {x.a[:2] if x.op == 'dot' else None for x in atoms if x.op == 'dot' or any(y.op == 'halo' for y in subterms(x))}
    return len(k) == 1


def count_of(t, files, path, lc):
    """is this an earlier number of rows: a counter's entry or the present size of the data set"""
    if t.op == 'sub' and is_const(t.a[1], 0) and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape':
        n = datanode(t.a[0].a[0])
        return n is not None and n[1] == path
    if t.op == 'attr' and t.a[1] == 'size' or is_call(t, 'builtins.len'):
        n = datanode(t.a[0] if t.op == 'attr' else t.a[1][0])
        return n is not None and n[1] == path
    return t.op == 'sub' and any(x.op == 'mu' for x in subterms(t.a[0]))


def atoms1(r):
    """Rat as integer combination of atoms"""
    if not r.ispoly():
        return None
    out = {}
    for k, v in r.n.items():
        if k == ():
            out[None] = v
        elif len(k) == 1 and k[0][1] == 1:
            out[k[0][0]] = v
        else:
            return None
    return out


def placement(rep, nm, writes, sizes, vals, ref, lc, res):
    n = poly(rowcount(ref))
    ups = counters(res, lc)
    for base, idx, val, ev in ups:
        old = mk('sub', base, idx)
        v = lc.scalar(val)
        d = poly(v) - poly(lc.scalar(old))
        g = [x for x in ev.guards if x[0].op != 'iter']
        if d == n or rowcount(ref) in d.atoms():
            rep.ob('appended together', '%s: row counter' % nm, d == n, ev.where, 'the number of rows grows by something else than the rows written')
            rep.ob('appended together', '%s: row counter in every turn' % nm, not any(isblock(x) for x in g), ev.where, 'rows are only counted in some turns')
    for w, v, c in vals:
        if w.at == 'new':
            continue
        i = w.at
        if i.op != 'slice' or i.a[2] is not NONE and not is_const(i.a[2], 1):
            rep.notes.append('%s: written at %s' % (c, show(i, 3)))
            continue
        size = [s for node, s, ev in sizes if node[1] == w.path]
        if len(size) != 1:
            rep.ob('appended together', c, len(size) > 1, w.ev.where, 'rows are written without making room for them') if not size and i.a[1] is NONE else rep.notes.append('%s: size not followed' % c)
            continue
        N = poly(lc.scalar(size[0]))
        if i.a[0].op == 'neg' and i.a[1] is NONE:      # the last k rows (k = 0 would be all of them)
            rep.ob('appended together', c, False, w.ev.where, 'written at [-k:], which is the whole data set when no halo is selected')
            continue
        s = poly(lc.scalar(i.a[0])) if i.a[0] is not NONE else poly(K(0))
        stop = N if i.a[1] is NONE else poly(lc.scalar(i.a[1]))
        if (N - s) == n and stop == N:
            old = atoms1(s)
            ok = old is not None and all(a is not None and count_of(a, None, w.path, lc) for a in old)
            if ok:
                rep.ob('appended together', c, True, w.ev.where)
            elif old is not None and all(a is None for a in old):
                rep.ob('appended together', c, False, w.ev.where, 'rows are not written after the ones already stored')
            else:
                rep.notes.append('%s: earlier number of rows not followed' % c)
        elif rowcount(ref) in (N - s).atoms() or (N - s).const() is not None:
            rep.ob('appended together', c, False, w.ev.where, 'the data set does not grow by the number of rows written there')
        elif all(x.op in ('len', 'sub', 'mu', 'call') for x in (N - s).atoms()) and (N - s).ispoly() and any(x.op == 'len' for x in (N - s).atoms()):
            rep.ob('appended together', c, False, w.ev.where, 'the data set does not grow by the number of rows written there')
        else:
            rep.notes.append('%s: growth not followed' % c)
    # every stored data set also grows
    new = {w.path for w, v, c in vals if w.at == 'new'}
    more = {w.path for w, v, c in vals if w.at != 'new'}
    und = {w.path for w in writes if w.at != 'new'}
    if more:
        for p in sorted(new, key=text):
            rep.ob('appended together', '%s: %s is extended' % (nm, text(p)), p in und, vals[0][0].ev.where, 'rows after the first block are never stored')


def isblock(g):
    """guard on the turn of a loop"""
    return any(x.op == 'lidx' for x in subterms(g[0]))


def counters(res, lc):
    out = []
    for e in res.events:
        if e.kind == 'setsub' and e.idx.op == 'lidx' and any(x.op == 'mu' for x in subterms(e.base)) and lc.hasrows(e.value):
            v = lc.scalar(e.value)
            if any(x.op == 'len' and x.a[0].op == 'pop' for x in subterms(v)):
                out.append((e.base, e.idx, e.value, e))
    return out


def created(rep, nm, vals):
    for w, v, c in vals:
        g = [x for x in w.ev.guards]
        file = {x for x in subterms(w.file) if x.op == 'lidx'}
        ls = [x for x in loops(g)]
        turns = {}
        other = False
        for x, p in g:
            if x.op == 'iter':
                continue
            if w.at == 'new':
                if x.op == 'cmp' and x.a[0] == '==' and p and {x.a[1].op, x.a[2].op} == {'lidx', 'const'}:
                    i = x.a[1] if x.a[1].op == 'lidx' else x.a[2]
                    if is_const(x.a[2] if i is x.a[1] else x.a[1], 0):
                        turns[i] = True
                        continue
                other = True
        if w.at != 'new':
            continue
        if not turns:
            rep.notes.append('%s: creation is not tied to the first turn' % c)
            continue
        need = [turn(x) for x in ls if turn(x) not in file]
        # loops over the columns themselves are unrolled
        miss = [x for x in need if x not in turns]
        rep.ob('first block', c, not miss and not other, w.ev.where, 'the data set is created again in a later turn of the loop over %s' % ', '.join(show(x.a[0], 3) for x in miss) if miss else 'creation depends on more than the first turn')
    # written in every other turn
    conds = {}
    for w, v, c in vals:
        key = frozenset((x, p) for x, p in w.ev.guards if x.op != 'iter')
        conds.setdefault(w.at == 'new', set()).add(key)
    a, b = conds.get(True), conds.get(False)
    if a and b and len(a) == 1 and len(b) == 1:
        a, b = next(iter(a)), next(iter(b))
        if a and all(p for x, p in a):
            xs = {x for x, p in a}
            ok = None
            if len(b) == 1:
                (y, q), = b
                if not q:
                    ok = set(y.a) == xs if y.op == 'and' else xs == {y}
                elif y.op == 'or':
                    from flow import mknot
                    ok = {mknot(z) for z in y.a} == xs
                else:
                    from flow import mknot
                    ok = xs == {mknot(y)}
            if ok is not None:
                rep.ob('first block', '%s: first or further rows' % nm, ok, vals[-1][0].ev.where, 'rows of some blocks are not stored')
    elif a and b and any(len(x) > len(y) for x in a for y in a):
        pass


def cone(rep, nm, res, vals, lc):
    """per-light-cone arrays recorded as attributes"""
    kept = {}
    for e in res.events:
        if e.kind == 'setsub' and e.idx.op == 'const' and isinstance(e.idx.a[0], str) and e.value.op == 'sub' and e.value.a[1].op == 'lidx':
            kept[e.value.a[0]] = (e.idx.a[0], e.value.a[1])
    for w, v, c in vals:
        file = {x for x in subterms(w.file) if x.op == 'lidx'}
        if len(file) != 1:
            rep.notes.append('%s: file number not followed' % c)
            continue
        file = next(iter(file))
        if v.pop is not None and v.pop.a[0].op == 'snap':
            numbers(rep, c, w.ev, w.file, v.pop.a[0].a[0])
        if isinstance(v, (Col,)) and w.at == 'new':
            for x in subterms(v.e):
                if x.op == 'sub' and x.a[0] in kept:
                    a, i = kept[x.a[0]]
                    if x.a[1].op in ('lidx', 'const', 'each'):
                        rep.ob('own light cone', '%s uses %s' % (c, a), x.a[1] is file, w.ev.where, '%s of another light cone is used' % a)


def numbers(rep, c, e, file, snap):
    a = {x for x in subterms(file) if x.op == 'lidx'}
    b = {x if x.op == 'lidx' else mk('lidx', x.a[0]) for x in subterms(snap) if x.op in ('lidx', 'each')}
    if a and b:
        rep.ob('own light cone', c + ' file number', not a & b, e.where, 'the light cone file is chosen by the number of the snapshot')


def extend(prog, rep, nm, f, res):
    lc = Lc()
    for e in res.events:
        if e.kind != 'setsub':
            continue
        n = datanode(e.base)
        if n is None or len(n[1]) < 2 or n[1][0] is not K('Lightcone Full') or e.idx.op == 'const' and isinstance(e.idx.a[0], str):
            continue
        key = n[1][1]
        c = '%s: %s' % (nm, keytext(key))
        v = lc.of(e.value)
        if v is None:
            for x in subterms(e.value):
                if x.op == 'phi' and x.a[0].op == 'cmp' and K('masscheck') in x.a[0].a[1:]:
                    v = Lc({x.a[0]: False}).of(e.value)
                    break
        if isinstance(v, Bad):
            rep.ob('added property', c, False, e.where, v.why)
            continue
        if not isinstance(v, Col):
            rep.notes.append('%s: value not followed' % c)
            continue
        b = v.pop.a[0]
        if b.op != 'via':
            rep.ob('added property', c, False, e.where, 'values are not looked up through the recorded source index') if b.op == 'snap' else rep.notes.append('%s: rows not followed' % c)
            continue
        ix, cat = b.a[0], b.a[1]
        if ix.a[0].op != 'lcfile' or cat.a[0].op != 'snap':
            rep.notes.append('%s: rows not followed' % c)
            continue
        rep.ob('added property', c + ' file', ix.a[0].a[0] is n[0] or same_file(ix.a[0].a[0], n[0]), e.where, 'the source index of another light cone is used')
        numbers(rep, c, e, n[0], cat.a[0].a[0])
        cut = [x for x in cat.a[1] if x.op != 'prefix']
        rep.ob('added property', c + ' catalogue', not cut, e.where, 'source rows are looked up in %s' % show_pop(cat))
        snap = cat.a[0].a[0]
        if any(x.op != 'where' for x in ix.a[1] + v.pop.a[1]):
            rep.ob('added property', c + ' order', False, e.where, 'the values looked up are re-ordered before they are stored')
        cs = [y for x in ix.a[1] if x.op == 'where' for y in x.a[0]]
        eq = [y for y in cs if y.op == 'cmp' and y.a[0] == '==' and mk('source snap') in y.a[1:]]
        if len(eq) == 1 and len(cs) == 1:
            s = eq[0].a[2] if eq[0].a[1] is mk('source snap') else eq[0].a[1]
            ok = canon(s) is canon(snap)
            rep.ob('added property', c + ' snapshot', ok, e.where, 'rows of snapshot %s are filled from snapshot %s' % (show(s, 3), show(snap, 3)))
        elif not cs:
            rep.ob('added property', c + ' snapshot', False, e.where, 'rows of every snapshot are filled from one snapshot')
            continue
        else:
            rep.ob('added property', c + ' snapshot', False, e.where, 'the rows filled are not those of the snapshot read')
            continue
        # where the rows go
        i = e.idx
        n_ = poly(rowcount(ix))
        if i.op == 'slice':
            s, t = lc.scalar(i.a[0]), lc.scalar(i.a[1])
            d = poly(t) - poly(s)
            ok = d == n_ or d == poly(rowcount(v.pop))
            if ok or all(x.op in ('len', 'const') for x in d.atoms()):
                rep.ob('added property', c + ' length', ok, e.where, 'more or fewer rows are filled than were looked up')
            first(rep, c, e, s, ix, lc)
        else:
            m = lc.of(i)
            if isinstance(m, Seq) and len(m.items) == 1:
                m = m.items[0]
            if isinstance(m, Col):
                rep.ob('added property', c + ' place', m.pop is not None and mk('where', tuple(cs)) in (mk('where', (m.e,)),), e.where, 'other rows are filled than were looked up')
            elif isinstance(m, Ix):
                rep.ob('added property', c + ' place', m.pop is ix, e.where, 'other rows are filled than were looked up')
            else:
                rep.notes.append('%s: place not followed' % c)
        content(rep, c, e, key, v)


def first(rep, c, e, s, ix, lc):
    """start of the block: first row recorded for that snapshot"""
    for a in alternatives(s):
        if is_const(a, 0):
            continue
        x = None
        if is_call(a, 'numpy.amin', 'numpy.min', 'builtins.min') and len(a.a[1]) == 1:
            x = lc.of(a.a[1][0])
        elif a.op == 'mcall' and a.a[0] == 'min' and not a.a[2]:
            x = lc.of(a.a[1])
        elif a.op == 'sub' and is_const(a.a[1], 0):
            x = lc.of(a.a[0])
        elif is_call(a, 'numpy.argmax') and len(a.a[1]) == 1:
            x = lc.of(a.a[1][0])
            if isinstance(x, Col):
                x = Ix(x.pop, mk('pop', x.pop.a[0], x.pop.a[1] + (mk('where', (x.e,)),)))
        elif is_call(a, 'numpy.amax', 'numpy.max', 'builtins.max') and len(a.a[1]) == 1 and isinstance(lc.of(a.a[1][0]), Ix):
            rep.ob('added property', c + ' place', False, e.where, 'the rows do not start at the first row of the snapshot')
            continue
        if isinstance(x, Seq) and len(x.items) == 1:
            x = x.items[0]
        if isinstance(x, Ix):
            rep.ob('added property', c + ' place', x.pop is ix, e.where, 'the rows start at the first row of something else')
        else:
            rep.notes.append('%s: start not followed (%s)' % (c, show(a, 3)))
    if is_const(s, 0):
        rep.ob('added property', c + ' place', False, e.where, 'rows of every snapshot are written to the start of the column')


def alternatives(s):
    if s.op == 'phi':
        return alternatives(s.a[1]) + alternatives(s.a[2])
    return [s]


def same_file(a, b):
    """both handles open the file of the same light cone"""
    x = {y for y in subterms(a) if y.op == 'lidx'}
    z = {y for y in subterms(b) if y.op == 'lidx'}
    return x == z and len(x) == 1


def keytext(k):
    if k.op == 'const':
        return str(k.a[0])
    if k.op == 'bin' and k.a[0] == '+' and k.a[2].op == 'const':
        return '<key>' + str(k.a[2].a[0])
    return '<key>'


def content(rep, c, e, key, v):
    x = v.e
    if x.op == 'phi' and x.a[0].op == 'cmp' and x.a[0].a[0] == '==' and key in x.a[0].a[1:]:
        other = x.a[0].a[2] if x.a[0].a[1] is key else x.a[0].a[1]
        ok = x.a[2] is mk('halo', key)
        rep.ob('added property', c + ' values', ok or x.a[2].op != 'halo', e.where, 'another column is stored under this name')
        rep.ob('added property', c + ' check column', x.a[1] is mk('halo', K('mass')) or not is_const(other, 'masscheck'), e.where, 'the mass check column does not hold masses')
    elif x.op == 'halo':
        rep.ob('added property', c + ' values', x.a[0] is key, e.where, 'another column (%s) is stored under this name' % show(x.a[0], 2))
