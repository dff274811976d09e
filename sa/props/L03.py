"""Light cone slabs: half-open ranges that share their boundaries, only and all halos in range and field."""
from common import *
from flow import Interp, mknot
from axes import rat, atom, name
from lcrows import Lc, Col, Mat, Ix, Seq, Bad, builds, stored, canon, poly, loops, rowcount, snapname

ASSUMPTIONS = [
    'cosmology functions are monotonic, so consecutive redshift ranges are consecutive distance ranges',
    'catalogues are stored with decreasing mass (S02), so a prefix is a mass selection',
    'whether the repeated box covers a slab (number of blocks, buffer distance, random orientation) is geometry at run time and is not decided here',
    'rounding of the last block\'s upper edge is not modelled',
]
ME = P('self')


def check(prog, rep):
    rep.rule('half-open slab', 'a halo is taken when lower limit <= distance < upper limit', 6)
    rep.rule('outer limits', 'the slab of a snapshot is its distance range cut to the requested redshifts', 8)
    rep.rule('blocks tile the slab', 'the blocks of a slab start at its lower limit, each ends where the next starts, the last ends at the upper limit', 2)
    rep.rule('field of view', 'exactly the halos inside the requested field are kept', 6)
    rep.rule('mass limit', 'exactly the halos with at least the minimum mass are kept', 6)
    rep.rule('mass look-up', 'the tabulated mass cut used covers every halo of at least the requested mass', 1)
    rep.rule('snapshots used', 'every snapshot whose range overlaps the requested redshifts is used', 2)
    rep.rule('shared boundary', 'the upper limit of a snapshot is computed exactly like the lower limit of the next', 8)
    rep.rule('room', 'light spheres that reach farther than the box holds in every direction are refused', 0)
    for nm, f, res in builds(prog):
        rep.saw(f)
        build(rep, nm, res)
    room(prog, rep)
    used(prog, rep)
    lookup(prog, rep)
    boundaries(prog, rep)
    metadata(prog, rep)


# ---------------------------------------------------------------- light spheres in their box
def room(prog, rep):
    f = prog.func('SphereMaker.__init__')
    if f is None or 'mode' not in f.posparams:
        return
    rep.saw(f)
    for mode, most in (('sphere', 0.5), ('hemisphere', 0.5), ('quarter', 0.5), ('eighth', 1)):
        res = Interp(prog, inline=lambda a, b: b.module is a.module, depth=4).run(f, bind={'mode': K(mode)}, selfcls=f.cls)
        got = set()
        for x in res.exits:
            if x.kind != 'raise':
                continue
            for g in x.state.guards:
                c = g[0]
                if c.op != 'cmp' or c.a[0] not in ('<', '<=', '>', '>=') or len(c.a) != 3:
                    continue
                l, r = (c.a[1], c.a[2]) if c.a[0][0] == '<' else (c.a[2], c.a[1])
                if not g[1]:
                    l, r = r, l
                if not any(z.op == 'param' and z.a[0] == 'redshift_max' for z in subterms(r)):
                    continue
                p = poly(l)
                at = list(p.atoms())
                if len(at) != 1 or at[0].op != 'attr' or not at[0].a[1].startswith('box_edge') or any(z is at[0] for z in subterms(r)):
                    continue
                k = (p * atom(at[0]).inv()).const() if hasattr(rat(1), 'inv') else None
                if k is not None and p == rat(k) * atom(at[0]):
                    got.add(float(k))
        if got:
            rep.ob('room', 'SphereMaker.__init__ mode %s' % mode, min(got) <= most + 1e-9, '%s:%d %s' % (f.module.path, f.node.lineno, f.qual),
                   'a radius of %g box edges is accepted, the box holds %g in every direction' % (min(got), most))
        else:
            rep.notes.append('SphereMaker.__init__ mode %s: comparison with the box not found' % mode)


# ---------------------------------------------------------------- selection in the builders
def build(rep, nm, res):
    lc = Lc()
    writes, _ = stored(res.events, lc)
    new = {}
    for w in writes:
        if w.at == 'new' and w.path[0] is K('Lightcone Basic') and w.path[-1].op == 'const':
            new[w.path[-1].a[0]] = (lc.of(w.value), w)
    p = []
    for k in ('pos_x', 'pos_y', 'pos_z'):
        v = new.get(k, (None, None))[0]
        if not isinstance(v, Col):
            rep.notes.append('%s: positions not followed' % nm)
            return
        p.append(v)
    at = new['pos_x'][1].ev.where
    ref = p[0].pop
    if ref.a[0].op != 'snap' or any(x.pop is not ref for x in p):
        rep.notes.append('%s: selection not followed' % nm)
        return
    cs = [c for s in ref.a[1] if s.op == 'where' for c in s.a[0]]
    cs = [y for c in cs for y in (c.a if c.op == 'and' else (c,))]
    q = [poly(x.e) for x in p]
    d2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2]
    lows, highs, field, unknown = [], [], [], []
    for c in cs:
        if c.op != 'cmp' or c.a[0] not in ('<', '<=', '>', '>='):
            unknown.append(c)
            continue
        o, a, b = c.a
        if o in ('>', '>='):
            o, a, b = {'>': '<', '>=': '<='}[o], b, a
        x, y = dist(a, d2), dist(b, d2)
        if y and not x:
            l = limit(a, y)
            (lows.append((o, l)) if l is not None else unknown.append(c))
        elif x and not y:
            l = limit(b, x)
            (highs.append((o, l)) if l is not None else unknown.append(c))
        else:
            g = region(o, a, b, q, d2)
            if g is not None:
                field.append(g)
            else:
                unknown.append(c)
    slab(rep, nm, at, ref, lows, highs, unknown)
    view(rep, nm, at, field, unknown, ref)
    mass(rep, nm, at, ref, lc)


def dist(t, d2):
    """1: this is the distance, 2: its square"""
    x = poly(t)
    if x == d2:
        return 2
    if is_call(t, 'numpy.sqrt', 'math.sqrt') and poly(t.a[1][0]) == d2:
        return 1
    return 0


def limit(t, k):
    if k == 1:
        return t
    if t.op == 'bin' and t.a[0] == '**' and is_const(t.a[2], 2):
        return t.a[1]
    if t.op == 'bin' and t.a[0] == '*' and t.a[1] is t.a[2]:
        return t.a[1]
    if extreme(t)[0] or any(canon(x).op == 'row' for x in poly(t).atoms()) and only(poly(t)) is not None:
        return mk('unsquared', t)
    return None


def extreme(t):
    """('max' | 'min', items)"""
    n = name(t)
    if n in ('numpy.amax', 'numpy.max', 'builtins.max', 'numpy.maximum', 'numpy.fmax', 'numpy.nanmax'):
        k = 'max'
    elif n in ('numpy.amin', 'numpy.min', 'builtins.min', 'numpy.minimum', 'numpy.fmin', 'numpy.nanmin'):
        k = 'min'
    elif t.op == 'phi' and t.a[0].op == 'cmp' and t.a[0].a[0] in ('<', '<=', '>', '>=') and set(t.a[0].a[1:]) == set(t.a[1:]):
        o, a, b = t.a[0].a
        if o in ('>', '>='):
            a, b = b, a
        return ('min' if t.a[1] is a else 'max'), [a, b]
    else:
        return None, [t]
    it = list(t.a[1])
    if len(it) == 1 and is_call(it[0], 'numpy.array', 'numpy.asarray') and it[0].a[1]:
        it = [it[0].a[1][0]]
    if len(it) == 1 and it[0].op in ('list', 'tuple'):
        it = list(it[0].a)
    out = []
    for x in it:
        k2, i2 = extreme(x)
        out += i2 if k2 == k else [x]
    return k, out


def slab(rep, nm, at, ref, lows, highs, unknown):
    if not lows or not highs:
        if unknown:
            rep.notes.append('%s: distance limits not followed' % nm)
        else:
            rep.ob('half-open slab', nm, False, at, 'no %s limit of the distance' % ('lower' if not lows else 'upper'))
        return
    if len(lows) > 1 or len(highs) > 1:
        rep.notes.append('%s: several distance limits' % nm)
        return
    (ol, lo), (oh, hi) = lows[0], highs[0]
    for x in (lo, hi):
        if x.op == 'unsquared':
            rep.ob('half-open slab', nm + ': units', False, at, 'a squared distance is compared with a distance')
            return
    rep.ob('half-open slab', nm, (ol, oh) in (('<=', '<'), ('<', '<=')), at, 'distance equal to a limit is %s' % ('taken twice' if ol == '<=' else 'never taken'))
    snap = ref.a[0].a[0]
    k, items = extreme(hi)
    parts = [x for x in poly(lo).atoms() if x.op == 'lidx' and is_call(x.a[0], 'builtins.range')]
    if not parts:
        outer(rep, nm, at, lo, hi, snap)
        return
    if len(set(parts)) != 1:
        rep.notes.append('%s: blocks not followed' % nm)
        return
    i = parts[0]
    cnt = i.a[0].a[1]
    if len(cnt) not in (1, 2) or i.a[0].a[2]:
        rep.notes.append('%s: blocks not followed' % nm)
        return
    n = poly(cnt[-1])
    lo_ = poly(lo)
    fin = None
    if hi.op == 'phi':                         # the last block is closed by itself
        f = final_turn(hi.a[0], i, n)
        if f is None:
            rep.notes.append('%s: blocks not followed' % nm)
            return
        fin, hi = (hi.a[1], hi.a[2]) if f else (hi.a[2], hi.a[1])
        k, items = extreme(hi)
    first = lo_.subst({i: poly(cnt[0]) if len(cnt) == 2 else rat(0)})
    nxt = lo_.subst({i: atom(i) + rat(1)})
    his = [x for x in items if i in poly(x).atoms()]
    rest = [x for x in items if x not in his]
    if k not in ('min', None) or len(his) != 1:
        rep.notes.append('%s: blocks not followed' % nm)
        return
    hi0 = his[0]
    h = poly(hi0)
    rep.ob('blocks tile the slab', nm + ': next block', h == nxt, at, 'a block does not end where the next one starts')
    last = h.subst({i: n - rat(1)})
    start_t, end_t = only(first), only(last)
    ends = set(extreme(end_t)[1]) if end_t is not None else None
    if fin is not None and end_t is not None:
        k2, own = extreme(fin)
        own = {end_t if poly(x).subst({i: n - rat(1)}) == last else x for x in own}
        rep.ob('blocks tile the slab', nm + ': end of the last block', own == {end_t} or len(own) > 1 and k2 == 'min' and (own == ends or end_t in own and own <= ends | {end_t}), at,
               'the last block ends at %s instead of the end of the slab' % show(fin, 4)) if i not in subterms(fin) or end_t in own else rep.notes.append('%s: last block not followed' % nm)
    rep.ob('blocks tile the slab', nm + ': last block', end_t is not None and (set(rest) <= (ends or set()) or set(rest) == {end_t}), at, 'the blocks together end at %s instead of the end of the slab' % short_rat(last))
    rep.ob('blocks tile the slab', nm + ': first block', start_t is not None, at, 'the first block does not start at the start of the slab (%s)' % short_rat(first))
    if start_t is not None and end_t is not None:
        outer(rep, nm, at, start_t, end_t, snap)


def final_turn(c, i, n):
    """True when c holds in exactly the last turn (i = n - 1), False when in exactly the others"""
    if c.op == 'not':
        v = final_turn(c.a[0], i, n)
        return None if v is None else not v
    if c.op != 'cmp' or c.a[0] not in ('==', '!=', '<', '<=', '>', '>='):
        return None
    d = poly(c.a[1]) - poly(c.a[2])
    o = c.a[0]
    e = atom(i) - (n - rat(1))
    if o in ('==', '!='):
        return (o == '==') if d == e or d == -e else None
    if o in ('>', '>='):
        d, o = -d, {'>': '<', '>=': '<='}[o]
    # d < 0 or d <= 0
    if d == e and o == '<' or d == e + rat(1) and o == '<=':
        return False
    if d == -e and o == '<=' or d == -e - rat(1) and o == '<':
        return True
    return None


def short_rat(r):
    return repr(r)[:120]


def only(r):
    """the single atom a Rat consists of"""
    a = list(r.atoms())
    return a[0] if len(a) == 1 and r == atom(a[0]) else None


def outer(rep, nm, at, lo, hi, snap):
    for t, want, col, z, other in ((lo, 'max', 'distance_min', 'redshift_min', 'redshift_max'), (hi, 'min', 'distance_max', 'redshift_max', 'redshift_min')):
        k, items = extreme(t)
        rows, zs, rest = [], [], []
        for x in items:
            c = canon(x)
            if c.op == 'row':
                rows.append(c)
            elif any(y is mk('attr', ME, z) or y is mk('attr', ME, other) for y in subterms(x)):
                zs.append(x)
            else:
                rest.append(x)
        c = '%s: %s limit' % (nm, 'lower' if want == 'max' else 'upper')
        if rest:
            rep.notes.append('%s not followed' % c)
            continue
        if k is None and len(items) == 1:
            rep.ob('outer limits', c, False, at, 'only %s limits the slab' % ('the snapshot\'s range' if rows else 'the requested redshift'))
            continue
        good = k == want and len(rows) == 1 and len(zs) == 1
        rep.ob('outer limits', c, good, at, 'should be the %s of the snapshot\'s and the requested limit' % ('larger' if want == 'max' else 'smaller'))
        if not good:
            continue
        rep.ob('outer limits', c + ' of the snapshot', is_const(rows[0].a[1], col) and same_row(rows[0], canon(snap)), at, 'uses %s of another kind or snapshot' % show(rows[0].a[1], 2))
        s = set(subterms(zs[0]))
        rep.ob('outer limits', c + ' requested', mk('attr', ME, z) in s and mk('attr', ME, other) not in s, at, 'uses %s' % other)


def same_row(a, b):
    return b.op != 'row' or a.a[0] is b.a[0] and a.a[2] is b.a[2]


def region(o, a, b, q, d2):
    """('x'|'y'|'z'|'r', limit term): angular limit, or ('+x', 0): half space"""
    if is_const(a, 0):
        for k, v in zip('xyz', q):
            y = poly(b)
            if y == v:
                return '+' + k, rat(0)
            if y == -v:
                return '-' + k, rat(0)
    if is_const(b, 0):
        for k, v in zip('xyz', q):
            y = poly(a)
            if y == v:
                return '-' + k, rat(0)
            if y == -v:
                return '+' + k, rat(0)
    x, sgn = a, False
    if is_call(a, 'numpy.abs', 'numpy.absolute', 'builtins.abs', 'numpy.fabs'):
        x, sgn = a.a[1][0], True
    # ratio of a coordinate to the distance
    y = poly(mk('bin', '**', x, K(2)))
    if sgn:
        for k, v in zip('xyz', q):
            if same_ratio(x, v * v, d2):
                return k, poly(b)
    if same_ratio(x, q[0] * q[0] + q[1] * q[1], d2):
        return 'r', poly(b)
    return None


def same_ratio(x, num, d2):
    """x**2 == num / d2"""
    if x.op == 'bin' and x.a[0] == '/':
        n, d = poly(mk('bin', '**', x.a[1], K(2))), poly(mk('bin', '**', x.a[2], K(2)))
        return n * d2 == num * d
    return False


def view(rep, nm, at, field, unknown, ref):
    mode = nm.rsplit(' ', 1)[1]
    half = poly(mk('bin', '/', mk('attr', ME, 'openangle'), K(2)))
    asp = half * poly(mk('attr', ME, 'aspect'))
    want = {'box': [('x', half), ('y', asp)], 'circle': [('r', half)]}.get(mode)
    for c in unknown:
        h = {x.a[0].a[0] for x in subterms(c) if x.op == 'halo' and x.a[0].op == 'const'}
        if h - {'pos_x', 'pos_y', 'pos_z', 'mass'}:
            rep.ob('field of view', '%s: extra condition' % nm, False, at, 'halos are excluded by their %s' % ', '.join(sorted(h)))
    if want is not None:
        for k, l in want:
            got = [x for x in field if x[0] == k]
            c = '%s: %s' % (nm, {'x': 'width', 'y': 'height', 'r': 'radius'}[k])
            if len(got) == 1:
                rep.ob('field of view', c, got[0][1] == l, at, 'limit is %s instead of %s' % (short_rat(got[0][1]), short_rat(l)))
            elif not unknown:
                rep.ob('field of view', c, False, at, 'not limited' if not got else 'limited twice')
            else:
                rep.notes.append('%s not followed' % c)
        extra = [x for x in field if x[0] not in [k for k, _ in want]]
        rep.ob('field of view', '%s: nothing else' % nm, not extra, at, 'halos inside the field are excluded (%s)' % ', '.join(x[0] for x in extra)) if not unknown or extra else rep.notes.append('%s: other conditions not followed' % nm)
        return
    n = {'sphere': 0, 'eighth': 0, 'hemisphere': 1, 'quarter': 2}.get(mode)
    if n is None:
        return
    if unknown:
        rep.notes.append('%s: field not followed' % nm)
        return
    axes = [x[0][-1] for x in field]
    rep.ob('field of view', nm, len(field) == n and len(set(axes)) == n and all(x[0][0] in '+-' for x in field), at, 'restricted to the half spaces %s' % (', '.join(x[0] for x in field) or '(none)'))


def mass(rep, nm, at, ref, lc):
    pre = [s for s in ref.a[1] if s.op == 'prefix']
    cs = [c for s in ref.a[1] if s.op == 'where' for c in s.a[0]]
    lim = mk('attr', ME, 'minimum_mass')
    direct = [c for c in cs if mk('halo', K('mass')) in subterms(c)]
    if not pre:
        if direct:
            rep.ob('mass limit', nm, any(is_min(c, lim) for c in direct), at, 'the mass condition is not "at least the minimum mass"')
        else:
            rep.ob('mass limit', nm, False, at, 'halos below the minimum mass are not excluded')
        return
    n = pre[0].a[0]
    cutoff(rep, nm, at, n, lc, lim, ref)


def is_min(c, lim):
    if c.op != 'cmp':
        return False
    o, a, b = c.a
    h = mk('halo', K('mass'))
    return (o == '<=' and a is lim and b is h) or (o == '>=' and a is h and b is lim)


def cutoff(rep, nm, at, n, lc, lim, ref):
    """the number of rows kept is the number of halos of at least the minimum mass"""
    alts = []

    def walk(t, g):
        if t.op == 'phi':
            walk(t.a[1], g + [t.a[0]])
            walk(t.a[2], g + [mknot(t.a[0])])
        else:
            alts.append((t, g))
    walk(n, [])
    seen = False
    for t, g in alts:
        c = '%s: rows kept' % nm
        if is_const(t, 0):
            continue
        p = None
        off = 0
        x = poly(t)
        if t.op == 'len':
            p = t.a[0]
        elif t.op == 'bin' and t.a[0] in '+-' or is_call(t, 'numpy.amax', 'numpy.max', 'builtins.max'):
            a = [y for y in x.atoms()]
            if len(a) == 1 and (x - atom(a[0])).const() is not None:
                off = (x - atom(a[0])).const()
                b = a[0]
                if is_call(b, 'numpy.amax', 'numpy.max', 'builtins.max') or b.op == 'mcall' and b.a[0] == 'max':
                    ix = lc.of(b.a[1][0] if b.op == 'call' else b.a[1])
                    if isinstance(ix, Seq) and len(ix.items) == 1:
                        ix = ix.items[0]
                    if isinstance(ix, Ix):
                        p = ix.pop
                        off -= 1
                elif b.op == 'len':
                    p = b.a[0]
                elif b.op == 'sub' and is_const(b.a[1], -1):
                    ix = lc.of(b.a[0])
                    if isinstance(ix, Ix):
                        p = ix.pop
                        off -= 1
        elif t.op == 'mcall' and t.a[0] == 'get_mass_index':
            rep.ob('mass limit', c, False, at, 'only the tabulated cut below the minimum mass is applied')
            seen = True
            continue
        elif is_call(t, 'numpy.count_nonzero', 'numpy.sum') and len(t.a[1]) == 1 or t.op == 'mcall' and t.a[0] == 'sum':
            v = lc.of(t.a[1][0] if t.op == 'call' else t.a[1])
            if isinstance(v, Col):
                p = mk('pop', v.pop.a[0], v.pop.a[1] + (mk('where', (v.e,)),))
        if p is None:
            rep.notes.append('%s not followed: %s' % (c, show(t, 3)))
            continue
        seen = True
        cs = [y for s in p.a[1] if s.op == 'where' for y in s.a[0]]
        rep.ob('mass limit', c, off == 0, at, 'one halo too %s is kept' % ('many' if off > 0 else 'few'))
        rep.ob('mass limit', nm + ': condition', len(cs) == 1 and is_min(cs[0], lim), at, 'the condition is %s' % (', '.join(show(y, 4) for y in cs) or 'missing'))
        for s in p.a[1]:
            if s.op == 'prefix':
                m = s.a[0]
                r = m.a[2] if m.op == 'mcall' and m.a[0] == 'get_mass_index' else None
                kws = dict(m.a[3]) if r is not None else {}
                if r is not None:
                    a0 = r[0] if r else kws.get('mass')
                    a1 = r[1] if len(r) > 1 else kws.get('snap')
                    if a0 is not None and a1 is not None:
                        rep.ob('mass limit', nm + ': look-up', a0 is lim and canon(a1) is canon(ref.a[0].a[0]), at, 'the tabulated cut is looked up for another mass or snapshot')
    if alts and not seen and all(is_const(t, 0) for t, _ in alts):
        rep.ob('mass limit', '%s: rows kept' % nm, False, at, 'no halo is kept')


# ---------------------------------------------------------------- snapshots used
def used(prog, rep):
    for c in ('LCMaker', 'SphereMaker'):
        f = prog.func(c + '.__init__')
        rep.saw(f)
        it = Interp(prog, inline=lambda a, b: b.module is a.module, depth=4)
        r = it.run(f, selfcls=f.cls)
        ex = [e for e in r.exits if e.kind != 'raise']
        if not ex:
            continue
        t = final(ex[0], 'snapshots_use')
        zmin, zmax = final(ex[0], 'redshift_min'), final(ex[0], 'redshift_max')
        if t is None:
            rep.notes.append('%s: snapshots used not followed' % c)
            continue
        cs = None
        for x in subterms(t):
            if x.op == 'phi' and x.a[0].op in ('and', 'cmp'):
                y = [z for z in subterms(x.a[0]) if is_const(z, 'redshift_min', 'redshift_max', 'redshift', 'distance_min', 'distance_max', 'index')]
                a, b = x.a[1], x.a[2]
                if y and grows(a, b):
                    cs = list(x.a[0].a) if x.a[0].op == 'and' else [x.a[0]]
                    break
                if y and grows(b, a):
                    n = mknot(x.a[0])
                    cs = list(n.a) if n.op == 'and' else [n]
                    break
            if x.op == 'sub' and ismask(x.a[1]):
                cs = masks(x.a[1])
                break
        if cs is None:
            rep.notes.append('%s: snapshots used not followed' % c)
            continue
        lower = upper = 0
        bad = []
        for k in cs:
            if k.op != 'cmp' or k.a[0] not in ('<', '<=', '>', '>='):
                bad.append(k)
                continue
            o, a, b = k.a
            if o in ('>', '>='):
                a, b = b, a
            if column(b) == 'redshift_max' and same_z(a, zmin, 'redshift_min'):
                lower += 1
            elif column(a) == 'redshift_min' and same_z(b, zmax, 'redshift_max'):
                upper += 1
            else:
                bad.append(k)
        rep.ob('snapshots used', c, not bad, at_(f), 'snapshots overlapping the requested range can be left out: %s' % ', '.join(show(x, 4) for x in bad)[:200])


def column(t):
    return t.a[1].a[0] if t.op == 'sub' and t.a[1].op == 'const' else None


def same_z(a, z, attr):
    return a is z or a is mk('attr', ME, attr) or a is P(attr)


def grows(a, b):
    return is_call(a, 'numpy.concatenate', 'numpy.append', 'numpy.hstack', 'numpy.r_') and (b in subterms(a) or True) or a.op == 'app' or a.op == 'list' and len(a.a) == 1


def ismask(i):
    return i.op == 'cmp' or i.op == 'bin' and i.a[0] == '&' or i.op == 'and' or is_call(i, 'numpy.logical_and')


def masks(i):
    if i.op == 'bin' and i.a[0] == '&':
        return masks(i.a[1]) + masks(i.a[2])
    if i.op == 'and':
        return [y for x in i.a for y in masks(x)]
    if is_call(i, 'numpy.logical_and'):
        return masks(i.a[1][0]) + masks(i.a[1][1])
    return [i]


# ---------------------------------------------------------------- tabulated mass cuts
def lookup(prog, rep):
    f = prog.func('SimHandler.get_mass_index')
    rep.saw(f)
    it = Interp(prog, inline=lambda a, b: b.module is a.module, depth=3)
    r = it.run(f, selfcls=f.cls)
    ts = [e.value for e in r.exits if e.kind == 'return']
    if not ts:
        return
    alts = []

    def walk(t, g):
        if t.op == 'phi':
            walk(t.a[1], g + [t.a[0]])
            walk(t.a[2], g + [mknot(t.a[0])])
        elif is_call(t, 'builtins.int') and len(t.a[1]) == 1:
            walk(t.a[1][0], g)
        else:
            alts.append((t, g))
    for t in ts:
        walk(t, [])
    entry = every = False
    for t, g in alts:
        if is_const(t, 0):
            continue
        if iscount_all(t):
            every = True
            continue
        i = entry_index(t)
        if i is None:
            rep.notes.append('get_mass_index: %s not followed' % show(t, 3))
            continue
        if i.op == 'const' and isinstance(i.a[0], int):
            rep.ob('mass look-up', 'SimHandler.get_mass_index: mass below all cuts', False, at_(f), 'entry %d of the table is used: halos lighter than the lowest cut are dropped' % i.a[0])
            continue
        off, k = offset(i)
        if k is None:
            rep.notes.append('get_mass_index: %s not followed' % show(i, 3))
            continue
        entry = True
        rep.ob('mass look-up', 'SimHandler.get_mass_index: entry', off == 0, at_(f), 'the entry next to the first cut not above the mass is used')
        sign = above(k)
        if sign is not None:
            rep.ob('mass look-up', 'SimHandler.get_mass_index: cuts counted', sign, at_(f), 'the cuts below the mass are counted instead of those above')
    if entry:
        rep.ob('mass look-up', 'SimHandler.get_mass_index: mass below all cuts', every, at_(f), 'no value for masses below the lowest cut')


def iscount_all(t):
    """number of halos of the snapshot"""
    x = None
    if is_call(t, 'builtins.len') and t.a[1]:
        x = t.a[1][0]
    elif t.op == 'attr' and t.a[1] == 'size':
        x = t.a[0]
    elif t.op == 'sub' and is_const(t.a[1], 0) and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape':
        x = t.a[0].a[0]
    if x is not None and x.op == 'sub' and x.a[1].op == 'slice':
        x = x.a[0]
    return x is not None and x.op == 'sub' and x.a[1].op == 'const' and x.a[1].a[0] not in ('mass_cuts', 'index', 'min_mass') and x.a[0].op == 'sub' and snapname(x.a[0].a[1]) is not None


def entry_index(t):
    """table['index'][i] or table[i]['index']"""
    if t.op == 'sub' and t.a[0].op == 'sub' and is_const(t.a[0].a[1], 'index'):
        return t.a[1]
    if t.op == 'sub' and is_const(t.a[1], 'index') and t.a[0].op == 'sub':
        return t.a[0].a[1]
    return None


def offset(i):
    x = poly(i)
    a = [y for y in x.atoms()]
    if len(a) == 1 and (x - atom(a[0])).const() is not None:
        return (x - atom(a[0])).const(), a[0]
    return None, None


def above(k):
    """does this count the cuts above the mass"""
    m = None
    if is_call(k, 'builtins.len') and k.a[1] and k.a[1][0].op == 'sub':
        m = k.a[1][0].a[1]
    elif is_call(k, 'numpy.count_nonzero', 'numpy.sum', 'builtins.sum') and k.a[1]:
        m = k.a[1][0]
    elif k.op == 'mcall' and k.a[0] == 'sum':
        m = k.a[1]
    if m is None or m.op != 'cmp':
        return None
    o, a, b = m.a
    if o in ('>', '>='):
        a, b = b, a
    d = poly(b) - poly(a)          # counted when positive
    cut = [x for x in d.atoms() if x.op == 'sub' and is_const(x.a[1], 'min_mass')]
    if len(cut) != 1:
        return None
    c = d.subst({cut[0]: rat(1)}) - d.subst({cut[0]: rat(0)})
    return c.const() is not None and c.const() > 0


# ---------------------------------------------------------------- snapshot ranges
def commuted(t):
    """terms with sums in a fixed order"""
    from terms import rebuild
    return rebuild(t, lambda n: mk('bin', n.a[0], n.a[2], n.a[1]) if n.op == 'bin' and n.a[0] in '+*' and n.a[1].uid > n.a[2].uid else None)


def swap(t):
    from terms import subst
    a, b, c = ME, P('other'), mk('tmp')
    return subst(subst(subst(t, {a: c}), {b: a}), {c: b})


def branch(t, last):
    """value with (True) or without another snapshot on this side"""
    while t is not None and t.op == 'phi' and t.a[0].op in ('cmp', 'not'):
        c, x, y = t.a
        neg = c.op == 'not'
        if neg:
            c = c.a[0]
        if c.op == 'cmp' and c.a[0] in ('==', '!=', 'is', 'is not') and P('other') in c.a[1:] and any(z.op == 'const' for z in c.a[1:]):
            eq = c.a[0] in ('==', 'is')
            t = (x if eq != neg else y) if last else (y if eq != neg else x)
        else:
            break
    return t


def boundaries(prog, rep):
    out = {}
    for q in ('dif_lowerz_snap', 'dif_higherz_snap'):
        f = prog.func('Snapshot.' + q)
        rep.saw(f)
        it = Interp(prog, inline=lambda a, b: b.module is a.module, depth=4)
        r = it.run(f, selfcls=f.cls)
        ex = [e for e in r.exits if e.kind != 'raise']
        if len(ex) != 1:
            rep.notes.append('Snapshot.%s not followed' % q)
            return
        out[q] = (ex[0], f)
    lo, f = out['dif_lowerz_snap']
    hi, g = out['dif_higherz_snap']
    for a, b in (('redshift_min', 'redshift_max'), ('distance_min', 'distance_max'), ('transverse_distance_min', 'transverse_distance_max'), ('time_end', 'time_start')):
        x, y = final(lo, a), final(hi, b)
        if x is None or y is None:
            rep.ob('shared boundary', 'Snapshot %s' % a, False, at_(f), '%s is not set' % (a if x is None else b))
            continue
        x, y = branch(x, False), branch(y, False)
        cos = mk('attr', ME, 'cosmology')
        # both snapshots belong to the same simulation
        x = same_cosmo(x)
        y = same_cosmo(swap(y))
        rep.ob('shared boundary', 'Snapshot %s / %s' % (a, b), commuted(x) is commuted(y), at_(g), 'the boundary differs seen from the two snapshots: %s against %s' % (show(x, 4)[:120], show(y, 4)[:120]))
    z = branch(final(lo, 'redshift_min'), True)
    d = branch(final(lo, 'distance_min'), True)
    rep.ob('shared boundary', 'Snapshot lowest limit', is_const(z, 0) and is_const(d, 0), at_(f), 'the last snapshot does not extend to redshift 0')


def same_cosmo(t):
    from terms import subst
    return subst(t, {mk('attr', P('other'), 'cosmology'): mk('cosmo'), mk('attr', ME, 'cosmology'): mk('cosmo')})


PAIRS = (('redshift_min', 'redshift_max'), ('distance_min', 'distance_max'), ('transverse_distance_min', 'transverse_distance_max'), ('time_start', 'time_end'))
COLS = [x for p in PAIRS for x in p]


def metadata(prog, rep):
    for f in prog.funcs.values() if hasattr(prog, 'funcs') else ():
        if f.name.rsplit('.', 1)[-1] != 'download_meta' or not f.cls:
            continue
        table(prog, rep, f)


def table(prog, rep, f):
    it = Interp(prog, inline=lambda a, b: False, depth=2)
    r = it.run(f, selfcls=f.cls)
    c = f.qual.split('.')[-2]
    cols, pairs = {}, []
    for e in r.events:
        b = strip(e.base) if e.kind == 'setsub' else None
        if e.kind == 'setsub' and e.idx.op == 'const' and e.idx.a[0] in COLS and b.op == 'sub':
            cols.setdefault(e.idx.a[0], []).append((e.value, b.a[1], e))
        elif e.kind == 'setsub' and b.op == 'sub' and b.a[1].op == 'const' and b.a[1].a[0] in COLS:
            cols.setdefault(b.a[1].a[0], []).append((e.value, e.idx, e))
        elif e.kind == 'mcall' and e.name in ('dif_lowerz_snap', 'dif_higherz_snap'):
            pairs.append(e)
    if not cols:
        return
    rep.saw(f)
    fac = {}
    for k, l in cols.items():
        for v, i, e in l:
            at = [x for x in subterms(v) if x.op == 'attr' and x.a[1] in COLS]
            if len(at) != 1:
                rep.notes.append('%s: %s not followed' % (c, k))
                continue
            rep.ob('shared boundary', '%s: column %s' % (c, k), at[0].a[1] == k, e.where, 'filled with %s' % at[0].a[1])
            b = at[0].a[0]
            j = mk('lidx', b.a[0]) if b.op == 'each' else b.a[1] if b.op == 'sub' else None
            if i.op == 'lidx' and j is not None and j.op in ('lidx', 'const', 'bin'):
                rep.ob('shared boundary', '%s: row of %s' % (c, k), j is i, e.where, 'taken from another snapshot')
            fac[k] = poly(v).subst({at[0]: rat(1)})
    for a, b in PAIRS:
        if a in fac and b in fac:
            rep.ob('shared boundary', '%s: scale of %s and %s' % (c, a, b), fac[a] == fac[b], at_(f), 'the two limits are scaled differently')
    # neighbours
    for e in pairs:
        if not e.args:
            continue
        a, b = e.recv, e.args[0]
        if a.op != 'sub' or b.op == 'const':
            ok = None
            if a.op == 'sub' and a.a[1].op == 'const' and b.op == 'const':
                first = is_const(a.a[1], 0)
                ok = (e.name == 'dif_higherz_snap') == first
                rep.ob('shared boundary', '%s: outermost snapshots' % c, ok, e.where, 'the %s snapshot is given an open end on the wrong side' % ('first' if first else 'last'))
            continue
        if b.op != 'sub':
            continue
        if len(loops(e.guards)) != 1:
            continue
        d = poly(b.a[1]) - poly(a.a[1])
        if d.const() is None:
            continue
        want = 1 if e.name == 'dif_lowerz_snap' else -1
        rep.ob('shared boundary', '%s: neighbour in %s' % (c, e.name), d.const() == want, e.where, 'paired with the snapshot %+d away (snapshots are ordered from high to low redshift)' % d.const())
    names = {e.name for e in pairs if loops(e.guards)}
    if pairs:
        rep.ob('shared boundary', '%s: both sides' % c, names == {'dif_lowerz_snap', 'dif_higherz_snap'} or not names, at_(f), 'limits are only set on one side')
    # precision of the columns
    for t in {x for e in r.events for x in ([e.value] if e.kind == 'setsub' and isinstance(getattr(e, 'value', None), T) else [])}:
        pass
    ty = {}
    for e in r.events:
        for x in [y for v in (getattr(e, 'base', None), getattr(e, 'value', None)) if isinstance(v, T) for y in subterms(v)]:
            if x.op in ('tuple', 'list') and len(x.a) == 2 and x.a[0].op == 'const' and x.a[0].a[0] in COLS and x.a[1].op in ('const', 'ext'):
                ty[x.a[0].a[0]] = x.a[1]
    for a, b in PAIRS:
        if a in ty and b in ty:
            rep.ob('shared boundary', '%s: precision of %s and %s' % (c, a, b), ty[a] is ty[b], at_(f), 'the two limits are rounded differently when stored')


def at_(f):
    return '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
