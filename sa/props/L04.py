"""Orientation of a light cone: positions and vector properties undergo the same recorded transformation."""
from common import *
from flow import Interp
from terms import rebuild
from axes import rat, atom, Rat
from lcrows import Lc, Col, Bad, builds, extenders, stored, poly, datanode

ASSUMPTIONS = [
    'numpy.cross, numpy.linalg.norm and numpy.linalg.inv have their documented meaning',
    'wrapping into the (repeated) periodic box leaves the physical position unchanged as long as coordinates are along the box axes',
    'spin is a pseudovector: it changes sign with the parity of the flips; velocities and the other vectors do not',
]
ME = P('self')
AX = 'xyz'
NAMES = ('box flips', 'line of sight transformation matrix', 'position angle transformation matrix')


def check(prog, rep):
    rep.rule('recorded', 'everything needed to repeat the orientation is stored with each light cone', 12)
    rep.rule('same orientation', 'vector properties undergo the linear part of the transformation of the positions, from the stored values', 24)
    rep.rule('box axes', 'coordinates are wrapped into the periodic box only along the box axes', 6)
    rep.rule('displacement', 'positions are displaced by the stored start position and, along the line of sight, by the distance added back after rotation', 12)
    rep.rule('rotation', 'the matrices are proper rotations', 3)
    rep.rule('pointing', 'the line of sight vector stored is the first axis of the stored matrix', 1)
    out = [x for x in extenders(prog) if x[0] == 'add_pos_properties']
    ext = vectors(rep, *out[0]) if out else {}
    for nm, f, res in builds(prog):
        rep.saw(f)
        build(rep, nm, res, ext)
    matrices(prog, rep)


# ---------------------------------------------------------------- linear part of a stored coordinate
class Lin(object):
    """scale * base + shift;  base: ('h', key) | ('mod', Lin, modulus) | ('dot', matrices, [Lin], i)"""

    def __init__(self, scale, shift, base):
        self.scale, self.shift, self.base = scale, shift, base


class Lost(Exception):
    pass


def bearing(t):
    return any(x.op == 'halo' for x in subterms(t))


def lin(e):
    p = poly(e)
    h = [a for a in p.atoms() if bearing(a)]
    if len(h) != 1:
        raise Lost('%d coordinates' % len(h))
    a = h[0]
    rest, one = p.subst({a: rat(0)}), p.subst({a: rat(1)})
    if rest is None or one is None:
        raise Lost('not linear')
    c = one - rest
    if c * atom(a) + rest != p:
        raise Lost('not linear')
    return Lin(c, rest, base(a))


def base(a):
    if a.op == 'halo':
        return ('h', a.a[0])
    if a.op == 'image' and a.a[0].op == 'halo':
        return ('h', a.a[0].a[0])
    if a.op == 'bin' and a.a[0] == '%' and not bearing(a.a[2]):
        return ('mod', lin(a.a[1]), a.a[2])
    if is_call(a, 'numpy.mod', 'numpy.remainder') and not bearing(a.a[1][1]):
        return ('mod', lin(a.a[1][0]), a.a[1][1])
    if a.op == 'dot':
        return ('dot', factors(a.a[0]), [lin(x) for x in a.a[1]], a.a[2])
    raise Lost(show(a, 2))


def factors(m):
    """matrices of a product, first applied last"""
    if m.op == 'bin' and m.a[0] == '@':
        return factors(m.a[1]) + factors(m.a[2])
    if is_call(m, 'numpy.matmul', 'numpy.dot') and len(m.a[1]) == 2:
        return factors(m.a[1][0]) + factors(m.a[1][1])
    if is_call(m, 'numpy.linalg.multi_dot') and len(m.a[1]) == 1 and m.a[1][0].op in ('list', 'tuple'):
        return [y for x in m.a[1][0].a for y in factors(x)]
    if m.op == 'attr' and m.a[1] == 'T':
        x = m.a[0]
        if x.op == 'attr' and x.a[1] == 'T':
            return factors(x.a[0])
        f = factors(x)
        return [mk('attr', y, 'T') for y in reversed(f)] if len(f) > 1 else [m]
    return [m]


def literal(m):
    """3x3 numbers"""
    if is_call(m, 'numpy.eye', 'numpy.identity') and m.a[1] and is_const(m.a[1][0], 3) and len(m.a[1]) == 1:
        return [[int(i == j) for j in range(3)] for i in range(3)]
    if is_call(m, 'numpy.array', 'numpy.asarray') and m.a[1]:
        m = m.a[1][0]
    if m.op == 'attr' and m.a[1] == 'T':
        x = literal(m.a[0])
        return x and [list(r) for r in zip(*x)]
    if m.op in ('list', 'tuple') and len(m.a) == 3:
        out = []
        for r in m.a:
            if r.op not in ('list', 'tuple') or len(r.a) != 3:
                return None
            c = [poly(x).const() for x in r.a]
            if None in c:
                return None
            out.append(c)
        return out
    return None


def linear(l, c=None):
    """normal form of the linear part: {(matrix path, key): coefficient}
    a path is a tuple of (matrix, row, column) entries applied from left to right"""
    c = l.scale if c is None else l.scale * c
    b = l.base
    if b[0] == 'h':
        return {((), b[1]): c}
    if b[0] == 'mod':
        return linear(b[1], c)
    ms, ch, i = b[1:]
    rows = [{i: (rat(1), ())}]
    cur = {i: [(rat(1), ())]}
    for m in ms:
        v = literal(m)
        nxt = {}
        for r, ts in cur.items():
            for k in range(3):
                if v is not None:
                    if v[r][k]:
                        nxt.setdefault(k, []).extend((s * rat(v[r][k]), p) for s, p in ts)
                else:
                    nxt.setdefault(k, []).extend((s, p + ((m, r, k),)) for s, p in ts)
        cur = nxt
    out = {}
    for k, ts in cur.items():
        for (p2, key), s2 in linear(ch[k], c).items():
            for s, p in ts:
                q = (p + p2, key)
                out[q] = out.get(q, rat(0)) + s * s2
    return {k: v for k, v in out.items() if v != rat(0)}


def wraps(l, turned=False):
    """[(modulus, after a rotation)]"""
    b = l.base
    if b[0] == 'h':
        return []
    if b[0] == 'mod':
        return [(b[2], has_dot(b[1]))] + wraps(b[1])
    return [x for y in b[2] for x in wraps(y)]


def has_dot(l):
    b = l.base
    return b[0] == 'dot' and any(literal(m) is None for m in b[1]) or b[0] != 'h' and any(has_dot(x) for x in (b[2] if b[0] == 'dot' else [b[1]]))


def net(l):
    """total displacement in front of the first rotation, per coordinate"""
    b = l.base
    if b[0] == 'h':
        return l.shift
    if b[0] == 'mod':
        return l.scale * net(b[1]) + l.shift
    return None


def inner(l):
    """(displacement after rotations, coordinates in front of them)"""
    b = l.base
    if b[0] == 'mod':
        raise Lost('wrapped after rotation')
    if b[0] == 'dot':
        ch = b[2]
        if any(x.base[0] == 'dot' for x in ch):
            if any(x.shift != rat(0) for x in ch):
                raise Lost('displaced between rotations')
            inn = inner(ch[0])[1]
            return l.shift, inn
        return l.shift, ch
    return l.shift, None


# ---------------------------------------------------------------- added vector properties
def isattrs(t):
    while t.op in ('upd', 'mut', 'merged'):
        t = t.a[0]
    if t.op == 'phi':
        return isattrs(t.a[1]) and isattrs(t.a[2])
    if t.op in ('mu', 'loop'):
        return isattrs(t.a[2])
    return t.op == 'attr' and t.a[1] == 'attrs'


def attrof(t):
    if t.op == 'sub' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], str) and isattrs(t.a[0]):
        return t.a[1].a[0]
    if t.op == 'mcall' and t.a[0] == 'get' and t.a[2] and isattrs(t.a[1]) and t.a[2][0].op == 'const':
        return t.a[2][0].a[0]
    return None


def decided(c, key, val):
    """truth of a condition when key is val"""
    if c.op == 'not':
        x = decided(c.a[0], key, val)
        return None if x is None else not x
    if c.op in ('and', 'or'):
        x = [decided(y, key, val) for y in c.a]
        if None in x:
            return None
        return all(x) if c.op == 'and' else any(x)
    if c.op != 'cmp':
        return None

    def v(t):
        if t is key:
            return val
        if t.op == 'const':
            return t.a[0]
        if t.op in ('list', 'tuple', 'set') and all(x.op == 'const' for x in t.a):
            return [x.a[0] for x in t.a]
        if t.op == 'bin' and t.a[0] == '+':
            a, b = v(t.a[1]), v(t.a[2])
            return a + b if isinstance(a, str) and isinstance(b, str) else None
        return None
    o, a, b = c.a[0], v(c.a[1]), v(c.a[2])
    if a is None or b is None:
        return None
    try:
        return {'==': lambda: a == b, '!=': lambda: a != b, 'in': lambda: a in b, 'not in': lambda: a not in b}[o]()
    except (KeyError, TypeError):
        return None


def vectors(rep, nm, f, res):
    """{('v' | 'spin', component): (Lin with stored values as attribute reads, where)}"""
    rep.saw(f)
    out = {}
    ws, _ = stored(res.events, Lc())
    for w in ws:
        if w.path[0] is not K('Lightcone Full') or w.at == 'new' or len(w.path) < 2:
            continue
        n = w.path[-1]
        key, comp = None, None
        if n.op == 'bin' and n.a[0] == '+' and n.a[2].op == 'const' and n.a[2].a[0] in ('_x', '_y', '_z'):
            key, comp = n.a[1], n.a[2].a[0][1]
        if key is None:
            rep.notes.append('%s: stored name %s not followed' % (nm, show(n, 3)))
            continue
        for val in ('v', 'spin'):
            dec = {}
            for t in subterms(w.value):
                if t.op in ('cmp', 'not', 'and', 'or'):
                    d = decided(t, key, val)
                    if d is not None:
                        dec[t] = d
            lc = Lc(dec)
            v = lc.of(w.value)
            if not isinstance(v, Col):
                rep.notes.append('%s: %s_%s not followed' % (nm, val, comp))
                continue
            e = undecide(v.e, dec)
            try:
                out[val, comp] = (lin(keyed(e, key)), w.ev.where)
            except Lost as x:
                rep.notes.append('%s: %s_%s not followed: %s' % (nm, val, comp, x))
    return out


def undecide(t, dec):
    def f(x):
        if x.op == 'phi' and x.a[0] in dec:
            return x.a[1] if dec[x.a[0]] else x.a[2]
        return x
    return rebuild(t, f)


def keyed(t, key):
    """names of read columns: key + '_x' -> x"""
    def f(x):
        if x.op == 'halo':
            n = x.a[0]
            if n.op == 'bin' and n.a[0] == '+' and n.a[1] is key and n.a[2].op == 'const' and n.a[2].a[0] in ('_x', '_y', '_z'):
                return mk('halo', K(n.a[2].a[0][1]))
        return x
    return rebuild(t, f)


# ---------------------------------------------------------------- builders
def recorded(res, which=None):
    """{attribute: (value, where, file term)}; which: only attribute managers it accepts"""
    out, other = {}, False
    for e in res.events:
        if which is not None and not which(e.base if e.kind == 'setsub' else e.recv if e.kind == 'mcall' else NONE):
            continue
        if e.kind == 'setsub' and isattrs(e.base):
            if e.idx.op == 'const' and isinstance(e.idx.a[0], str):
                out.setdefault(e.idx.a[0], []).append((e.value, e.where))
        elif e.kind == 'mcall' and isattrs(e.recv):
            if e.name == 'create' and len(e.args) > 1 and e.args[0].op == 'const':
                out.setdefault(e.args[0].a[0], []).append((e.args[1], e.where))
            elif e.name == 'modify' and len(e.args) > 1 and e.args[0].op == 'const':
                out.setdefault(e.args[0].a[0], []).append((e.args[1], e.where))
            elif e.name == 'update' and e.args and e.args[0].op == 'dict':
                for k, v in e.args[0].a[0]:
                    if k.op == 'const':
                        out.setdefault(k.a[0], []).append((v, e.where))
                    else:
                        other = True
            elif e.name not in ('keys', 'values', 'items', 'get'):
                other = True
        elif e.kind == 'call' and any(isattrs(x) for x in list(e.args or ())):
            other = True
    return out, other


def choices(t):
    """conditions on which the value depends that leave its ingredients open: comparisons of two quantities of the light cones, or of its number"""
    out = []
    for x in subterms(t):
        if x.op == 'phi' and x.a[0] not in out and not any(y.op in ('halo', 'image') for y in subterms(x.a[0])):
            c = x.a[0]
            while c.op in ('not', 'call', 'mcall'):
                if c.op == 'not':
                    c = c.a[0]
                elif is_call(c, 'numpy.any', 'numpy.all', 'builtins.any', 'builtins.all', 'builtins.bool') and len(c.a[1]) == 1:
                    c = c.a[1][0]
                elif c.op == 'mcall' and c.a[0] in ('any', 'all') and not c.a[2]:
                    c = c.a[1]
                else:
                    break
            if c.op == 'cmp' and c.a[0] in ('==', '!=', '<', '<=', '>', '>='):
                l, r = [one_of(y) for y in c.a[1:3]]
                if None not in (l, r) and ('i' in (l, r) or l == r == 'v'):
                    out.append(x.a[0])
    return out


def one_of(t):
    """'i' the number of a light cone, 'c' a constant, 'v' an entry of an array kept per light cone"""
    if t.op in ('const', 'param'):
        return 'c'
    if t.op == 'bin' and t.a[0] in ('+', '-', '*', '//', '%'):
        l, r = one_of(t.a[1]), one_of(t.a[2])
        return None if None in (l, r) or 'v' in (l, r) else 'i' if 'i' in (l, r) else 'c'
    if t.op == 'lidx' or t.op == 'each' and is_call(t.a[0], 'builtins.range'):
        return 'i'
    if t.op in ('sub', 'each', 'row'):
        return 'v'
    return None


def build(rep, nm, res, ext):
    lc = Lc()
    ws, _ = stored(res.events, lc)
    ws = [w for w in ws if w.at == 'new' and w.path[0] is K('Lightcone Basic') and w.path[-1].op == 'const' and w.path[-1].a[0] in ('pos_x', 'pos_y', 'pos_z')]
    cs = []
    for w in ws:
        cs += [c for c in choices(w.value) if c not in cs]
    if 0 < len(cs) <= 3:
        for n in range(2 ** len(cs)):
            dec = {c: bool(n >> i & 1) for i, c in enumerate(cs)}
            one(rep, '%s, when %s' % (nm, ' and '.join('%s is %s' % (show(c, 6), v) for c, v in dec.items())), res, ext, lc, ws, dec)
    else:
        one(rep, nm, res, ext, lc, ws, {})


def one(rep, nm, res, ext, lc, ws, dec):
    pos = {}
    for w in ws:
        v = lc.of(undecide(w.value, dec) if dec else w.value)
        if isinstance(v, Col):
            try:
                pos[w.path[-1].a[0][-1]] = (lin(short(v.e)), w.ev.where)
            except Lost as x:
                rep.notes.append('%s: %s not followed: %s' % (nm, show(w.path[-1]), x))
    if len(pos) != 3:
        rep.notes.append('%s: positions not followed' % nm)
        return
    attrs, other = recorded(res)
    if dec:
        attrs = {k: [(undecide(x[0], dec),) + tuple(x[1:]) for x in v] for k, v in attrs.items()}
    at = pos['x'][1]
    table = {}
    for a in NAMES + ('start position',):
        if a in attrs:
            table[a] = attrs[a][-1][0]
            rep.ob('recorded', '%s: %s' % (nm, a), True, attrs[a][-1][1])
        elif not other:
            rep.ob('recorded', '%s: %s' % (nm, a), False, at, 'not stored with the light cone')
    used_flips(rep, nm, pos, table.get('box flips'), attrs)
    # wrapping
    for k, (l, w) in pos.items():
        bad = [m for m, t in wraps(l) if t]
        rep.ob('box axes', '%s: pos_%s' % (nm, k), not bad, w, 'rotated coordinates are wrapped into the box')
    moved(rep, nm, pos, table, attrs)
    # vector properties
    flips = table.get('box flips')
    for (val, k), (l, w) in sorted(ext.items(), key=lambda x: x[0]):
        c = '%s: %s_%s' % (nm, val, k)
        used = {attrof(t) for t in l_terms(l)} - {None}
        miss = [u for u in used if u not in attrs]
        if miss:
            if not other:
                rep.ob('same orientation', c, False, w, 'reads %s, which this builder does not store' % ', '.join(sorted(miss)))
            continue
        d = {u: attrs[u][-1][0] for u in used}
        if any(len({v for v, _ in attrs[u]}) > 1 for u in used):
            rep.notes.append('%s: attribute written twice' % c)
            continue
        got, want = linear(resolve(l, d)), linear(pos[k][0])
        got = {(p, name_of(q)): reduce(v, flips) for (p, q), v in got.items()}
        want = {(p, name_of(q)): reduce(v * (parity(flips) if val == 'spin' and flips is not None else rat(1)), flips) for (p, q), v in want.items()}
        if l_shift(l):
            rep.ob('same orientation', c, False, w, 'the vector is displaced like a position')
            continue
        if wraps(l):
            rep.ob('same orientation', c, False, w, 'the vector is wrapped into the box like a position')
            continue
        if got == want:
            rep.ob('same orientation', c, True, w)
            continue
        why = differ(got, want, flips)
        if why is None:
            rep.notes.append('%s: not compared' % c)
        else:
            rep.ob('same orientation', c, False, w, why)


def offset(t):
    """the number of another light cone than the one at hand"""
    return t.op == 'bin' and t.a[0] in ('+', '-') and t.a[1].op == 'lidx' and t.a[2].op == 'const' and t.a[2].a[0] not in (0, False)


def used_flips(rep, nm, pos, rec, attrs):
    """the recorded flips are the array the coordinates are multiplied with"""
    if rec is None:
        return
    fs = set()
    for l, w in pos.values():
        for r in linear(l).values():
            for a in r.atoms():
                if a.op == 'sub' and a.a[1].op == 'const' and a.a[0].op == 'sub' and a.a[0].a[1].op == 'lidx':
                    fs.add(a.a[0])
                elif a.op == 'sub' and a.a[1].op == 'const' and a.a[0].op == 'sub' and offset(a.a[0].a[1]):
                    fs.add(a.a[0])
    if len(fs) != 1:
        return
    f, = fs
    v = short(plain(rec))
    where = attrs['box flips'][-1][1]
    if v is f:
        rep.ob('recorded', '%s: box flips used' % nm, True, where)
    elif offset(f.a[1]):
        if v.op == 'sub' and v.a[0] is f.a[0] and v.a[1].op == 'lidx':
            rep.ob('recorded', '%s: box flips used' % nm, False, where, 'the stored flips are those of another light cone than the ones applied to the positions')
    elif v.op == 'neg' and v.a[0] is f or v.op == 'bin' and f in v.a[1:] or is_call(v, 'numpy.abs', 'numpy.absolute', 'numpy.negative', 'numpy.flip', 'numpy.sort', 'numpy.zeros_like', 'numpy.ones_like') and v.a[1][:1] == (f,) or v.op == 'sub' and v.a[0] is f.a[0] and v.a[1].op == 'const':
        rep.ob('recorded', '%s: box flips used' % nm, False, where, 'the stored flips are not those applied to the positions')


def plain(t):
    while is_call(t, 'numpy.array', 'numpy.asarray', 'numpy.copy') and t.a[1]:
        t = t.a[1][0]
    return t


def l_terms(l):
    for r in (l.scale, l.shift):
        for a in r.atoms():
            for t in subterms(a):
                yield t
    b = l.base
    if b[0] == 'mod':
        for t in subterms(b[2]):
            yield t
        for t in l_terms(b[1]):
            yield t
    elif b[0] == 'dot':
        for m in b[1]:
            for t in subterms(m):
                yield t
        for x in b[2]:
            for t in l_terms(x):
                yield t


def l_shift(l):
    b = l.base
    if l.shift != rat(0):
        return True
    return any(l_shift(x) for x in ([b[1]] if b[0] == 'mod' else b[2] if b[0] == 'dot' else []))


def resolve(l, d):
    """attribute reads replaced by what the builder stored there"""
    def term(t):
        def f(x):
            a = attrof(x)
            return short(d[a]) if a is not None and a in d else x
        return index(rebuild(t, f))

    def r(p):
        env = {a: poly(term(a)) for a in p.atoms()}
        return p.subst(env)
    b = l.base
    if b[0] == 'mod':
        b = ('mod', resolve(b[1], d), term(b[2]))
    elif b[0] == 'dot':
        b = ('dot', [y for m in b[1] for y in factors(term(m))], [resolve(x, d) for x in b[2]], b[3])
    return Lin(r(l.scale), r(l.shift), b)


def index(t):
    """entries of literal arrays"""
    def f(x):
        if x.op == 'sub' and x.a[1].op == 'const' and isinstance(x.a[1].a[0], int):
            b = x.a[0]
            if is_call(b, 'numpy.array', 'numpy.asarray') and len(b.a[1]) == 1:
                b = b.a[1][0]
            if b.op in ('list', 'tuple') and -len(b.a) <= x.a[1].a[0] < len(b.a):
                return b.a[x.a[1].a[0]]
            if b.op == 'bin' and b.a[0] in '+-*/':
                y = [v if v.op == 'const' or single(v) else f(mk('sub', v, x.a[1])) for v in b.a[1:]]
                if any(v.op == 'const' or single(v) for v in b.a[1:]):
                    return mk('bin', b.a[0], *y)
            if b.op == 'neg':
                return mk('neg', f(mk('sub', b.a[0], x.a[1])))
        return x
    return rebuild(t, f)


def single(t):
    """reduction to one number"""
    return is_call(t, 'numpy.prod', 'numpy.product', 'numpy.sum', 'numpy.linalg.norm', 'numpy.linalg.det', 'math.prod') and len(t.a[1]) == 1 and not t.a[2] or t.op == 'mcall' and t.a[0] in ('prod', 'sum') and not t.a[2] and not t.a[3]


def short(t):
    """an array filled entry by entry in a loop, read at the loop position, is the entry"""
    def f(x):
        if x.op == 'sub' and x.a[1].op == 'lidx' and x.a[0].op == 'loop':
            lp = x.a[0]
            new = lp.a[3] if len(lp.a) > 3 else None
            if new is not None and new.op == 'upd' and new.a[0].op == 'mu':
                u = new.a[1] if len(new.a) == 2 else None
                if u is None and len(new.a) >= 3 and new.a[1] is x.a[1]:
                    return mk('entry', new.a[2], x.a[1])
        return x
    return rebuild(t, f)


def name_of(q):
    return K(q.a[0][-1]) if q.op == 'const' and isinstance(q.a[0], str) else q


def flip(flips, j):
    return atom(mk('sub', flips, K(j)))


def parity(flips):
    f = short(flips)
    return flip(f, 0) * flip(f, 1) * flip(f, 2)


def reduce(r, flips):
    """flips are +-1: squares are one, their product is written out"""
    if flips is None:
        return r
    f = short(flips)
    env = {}
    for a in r.atoms():
        if is_call(a, 'numpy.prod', 'numpy.product', 'math.prod') and len(a.a[1]) == 1 and a.a[1][0] is f or a.op == 'mcall' and a.a[0] == 'prod' and a.a[1] is f and not a.a[2]:
            env[a] = parity(flips)
    r = r.subst(env)
    fl = {mk('sub', f, K(j)) for j in range(3)}

    def q(p):
        o = {}
        for m, c in p.items():
            k = tuple((t, e % 2 if t in fl else e) for t, e in m if not (t in fl and e % 2 == 0))
            o[k] = o.get(k, 0) + c
        return {k: c for k, c in o.items() if c}
    return Rat(q(r.n), q(r.d))


def differ(got, want, flips):
    """why the two linear maps differ (None: something was not followed)"""
    mg, mw = {tuple(m for m, _, _ in p) for p, q in got}, {tuple(m for m, _, _ in p) for p, q in want}
    if any(q.op != 'const' for p, q in list(got) + list(want)):
        return None
    if mg != mw:
        if len(mg) == 1 and len(mw) == 1:
            a, b = next(iter(mg)), next(iter(mw))
            if sorted(x.uid for x in a) == sorted(x.uid for x in b):
                return 'the rotations are applied in another order than to the positions'
            if len(a) != len(b):
                return '%d rotations are applied, %d to the positions' % (len(a), len(b))
            for x, y in zip(a, b):
                if mk('attr', x, 'T') is y or mk('attr', y, 'T') is x:
                    return 'a rotation is inverted compared to the positions'
            if set(known(a)) | set(known(b)):
                return 'another matrix than for the positions is applied'
            return None
        return 'other rotations than for the positions are applied'
    kg, kw = {(tuple((r, c) for _, r, c in p), q) for p, q in got}, {(tuple((r, c) for _, r, c in p), q) for p, q in want}
    if kg != kw:
        return 'the components are exchanged compared to the positions'
    if flips is None:
        return None
    fl = {mk('sub', short(flips), K(j)) for j in range(3)}
    for k in got:
        a, b = got[k], want[k]
        if a != b:
            if a.atoms() | b.atoms() <= fl:
                return 'the flips are not those of the positions'
            if {x for x in a.atoms() - b.atoms() if x.op not in ('const',)} - fl and not b.atoms() - a.atoms():
                return 'the vector is multiplied by %s' % ', '.join(show(x, 3) for x in a.atoms() - b.atoms())
    return None


def known(ms):
    return [m for m in ms if m.op == 'entry' or m.op == 'sub' and m.a[1].op == 'lidx']


# ---------------------------------------------------------------- displacement
def moved(rep, nm, pos, table, attrs):
    start = table.get('start position')
    if start is None:
        return
    start = short(start)
    sv = [poly(index(mk('sub', start, K(j)))) for j in range(3)]
    los = table_get(attrs, 'line of sight vector')
    if not any(has_dot(l) for l, w in pos.values()):
        for k, (l, w) in pos.items():
            n = net(l)
            key = linear(l)
            if n is None or len(key) != 1:
                rep.notes.append('%s: displacement of pos_%s not followed' % (nm, k))
                continue
            (_, q), = key
            j = AX.index(q.a[0][-1]) if q.op == 'const' and q.a[0][-1] in AX else None
            if j is None:
                continue
            d = n + sv[j]
            edges = {m for m, _ in wraps(l)}
            ok = d == rat(0) or any((d - rat(s) * poly(m)) == rat(0) for m in edges for s in (1, -1, 2, -2))
            rep.ob('displacement', '%s: pos_%s' % (nm, k), ok, w, 'the total displacement is not the stored start position (difference %s)' % repr(d)[:80])
        return
    try:
        parts = {k: inner(l) for k, (l, w) in pos.items()}
    except Lost as x:
        rep.notes.append('%s: displacement not followed: %s' % (nm, x))
        return
    after = {}
    for k, (l, w) in pos.items():
        i = l.base[3] if l.base[0] == 'dot' else None
        if i is None or parts[k][1] is None:
            rep.notes.append('%s: displacement not followed' % nm)
            return
        after[i] = (parts[k][0], w, k)
    if set(after) != {0, 1, 2}:
        rep.ob('displacement', nm, False, pos['x'][1], 'two position columns are the same coordinate')
        return
    D = after[0][0]
    rep.ob('displacement', '%s: line of sight coordinate' % nm, after[0][2] == 'z', after[0][1], 'the coordinate along the line of sight is stored as pos_%s' % after[0][2])
    for i in (1, 2):
        rep.ob('displacement', '%s: transverse coordinate %d' % (nm, i), after[i][0] == rat(0), after[i][1], 'displaced across the line of sight')
    if los is None:
        rep.notes.append('%s: line of sight vector not recorded' % nm)
        return
    los = short(los)
    ch = parts['z'][1]
    for j, l in enumerate(ch):
        n = net(l)
        if n is None:
            rep.notes.append('%s: displacement not followed' % nm)
            return
        n = n.subst({a: poly(index(short(a))) for a in n.atoms()})
        v = poly(index(mk('sub', los, K(j))))
        rep.ob('displacement', '%s: box coordinate %s' % (nm, AX[j]), n == -sv[j] - D * v, pos[AX[j]][1], 'the displacement in the box differs from the stored start position and the distance added back along the line of sight')


def table_get(attrs, a):
    return attrs[a][-1][0] if a in attrs else None


# ---------------------------------------------------------------- the matrices
def matrices(prog, rep):
    for q in ('LCMaker._initialize_pa', 'LCMaker._initialize_los'):
        f = prog.func(q)
        if f is None:
            rep.notes.append('%s not found' % q)
            continue
        rep.saw(f)
        it = Interp(prog, inline=lambda a, b: b.module is a.module, depth=3)
        r = it.run(f, selfcls=f.cls)
        for e in r.exits:
            if e.kind != 'return' or e.value.op != 'tuple':
                continue
            for k, x in enumerate(e.value.a):
                ok = rotation(x)
                if ok is None and not transposed(x):
                    continue
                if ok is not None:
                    rep.ob('rotation', '%s value %d' % (q, k), ok == '', at_(f), ok)
                if q.endswith('los'):
                    b = rowsof(x)
                    if b is None and transposed(x):
                        rep.ob('pointing', q, False, at_(f), 'the matrix is transposed: its columns, not its rows, are the axes')
                    if b is not None and b[0] == 'rows':
                        first = b[1][0]
                        rep.ob('pointing', q, any(y is first for y in e.value.a), at_(f), 'the first axis of the matrix is not the returned line of sight')
    for nm, f, res in builds(prog):
        attrs, _ = recorded(res)
        for a in NAMES[1:]:
            if a in attrs:
                m = attrs[a][-1][0]
                ok = rotation(m)
                if ok is not None:
                    rep.ob('rotation', '%s: %s' % (nm, a), ok == '', attrs[a][-1][1], ok)
        # vector and matrix come from the same call
        v, m = table_get(attrs, 'line of sight vector'), table_get(attrs, NAMES[1])
        if v is not None and m is not None:
            x, y = short(v), short(m)
            if x.op == y.op == 'entry':
                a, b = x.a[0], y.a[0]
                if a.op == b.op == 'sub' and a.a[1].op == b.a[1].op == 'const':
                    rep.ob('pointing', '%s: stored vector and matrix' % nm, a.a[0] is b.a[0] and a.a[1] is not b.a[1], attrs[NAMES[1]][-1][1], 'line of sight vector and matrix come from different pointings')


def transposed(m):
    if is_call(m, 'numpy.linalg.inv') and len(m.a[1]) == 1:
        b = rowsof(m.a[1][0])
    elif m.op == 'attr' and m.a[1] == 'T':
        b = rowsof(m.a[0])
    else:
        return False
    return b is not None and b[0] == 'rows' and basis(b[1]) == ''


def rowsof(m):
    """('rows', [three vectors]) of an orthonormal-by-construction matrix, or ('num', 3x3 terms)"""
    if is_call(m, 'numpy.linalg.inv') and len(m.a[1]) == 1:
        x = m.a[1][0]
        if x.op == 'attr' and x.a[1] == 'T':
            return rowsof(x.a[0])
        if is_call(x, 'numpy.transpose', 'numpy.column_stack') and len(x.a[1]) == 1:
            return rowsof(mk('call', mk('ext', 'numpy.array'), x.a[1], ())) if is_call(x, 'numpy.column_stack') else rowsof(x.a[1][0])
        return None
    if is_call(m, 'numpy.array', 'numpy.asarray', 'numpy.vstack', 'numpy.stack') and len(m.a[1]) == 1 and m.a[1][0].op in ('list', 'tuple') and len(m.a[1][0].a) == 3:
        r = list(m.a[1][0].a)
        if all(x.op in ('list', 'tuple') and len(x.a) == 3 for x in r):
            return 'num', [list(x.a) for x in r]
        if not any(x.op in ('list', 'tuple', 'const') for x in r):
            return 'rows', r
    return None


def rotation(m):
    """'' | what is wrong | None (not a matrix that is followed)"""
    v = literal(m)
    if v is not None:
        x = [[rat(c) for c in r] for r in v]
    else:
        b = rowsof(m)
        if b is None:
            return None
        if b[0] == 'rows':
            return basis(b[1])
        x = [[trig(poly(c)) for c in r] for r in b[1]]
    for i in range(3):
        for j in range(i, 3):
            s = rat(0)
            for k in range(3):
                s = s + x[i][k] * x[j][k]
            s = trig(s)
            if s != rat(1 if i == j else 0):
                return 'the axes of the matrix are not perpendicular unit vectors' if s.const() is not None or all(is_call(a, 'numpy.cos', 'numpy.sin') for a in s.atoms()) else None
    det = rat(0)
    for a, b, c, s in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (0, 2, 1, -1), (1, 0, 2, -1), (2, 1, 0, -1)):
        det = det + rat(s) * x[0][a] * x[1][b] * x[2][c]
    det = trig(det)
    if det == rat(1):
        return ''
    return 'the matrix is a mirror reflection' if det == rat(-1) else None


def trig(r):
    """sin**2 -> 1 - cos**2"""
    if not r.ispoly():
        return r
    for _ in range(8):
        out, done = rat(0), True
        for m, c in r.n.items():
            x = rat(c)
            for t, e in m:
                for _ in range(e if not (is_call(t, 'numpy.sin', 'math.sin') and e >= 2) else e - 2):
                    x = x * atom(t)
                if is_call(t, 'numpy.sin', 'math.sin') and e >= 2:
                    co = atom(mk('call', mk('ext', t.a[0].a[0].replace('sin', 'cos')), t.a[1], t.a[2]))
                    x = x * (rat(1) - co * co)
                    done = False
            out = out + x
        r = out
        if done:
            break
    return r


def unit(t):
    """vector in front of division by its norm"""
    if t.op == 'bin' and t.a[0] == '/' and is_call(t.a[2], 'numpy.linalg.norm') and t.a[2].a[1] and t.a[2].a[1][0] is t.a[1]:
        return t.a[1]
    if t.op == 'bin' and t.a[0] == '/' and is_call(t.a[2], 'numpy.sqrt'):
        y = t.a[2].a[1][0]
        v = t.a[1]
        sq = mk('bin', '**', v, K(2))
        if is_call(y, 'numpy.sum') and y.a[1] and y.a[1][0] in (sq, mk('bin', '*', v, v)) or is_call(y, 'numpy.dot') and y.a[1] == (v, v):
            return v
    return None


def cross(t):
    return t.a[1] if is_call(t, 'numpy.cross') and len(t.a[1]) == 2 else None


def basis(r):
    """three vectors: unit, perpendicular, right-handed"""
    a, b, c = r
    n = [unit(x) for x in r]
    if n[0] is None and cross(a) is None:
        return 'the first axis is not normalized' if a.op in ('mcall', 'call', 'phi', 'loop') else None
    # c = a x b or b x a with b = unit(cross(.., a ..))
    for (i, j, k), s in (((0, 1, 2), 1), ((0, 2, 1), -1), ((1, 2, 0), 1), ((1, 0, 2), -1), ((2, 0, 1), 1), ((2, 1, 0), -1)):
        p, q, w = r[i], r[j], r[k]          # is w = p x q, q perpendicular to p, both unit
        x = cross(w)
        if x is not None and any(v in x and unit(u) is not None and unit(u) in x for u, v in ((p, q), (q, p))):
            return 'an axis of the matrix is not normalized'
        if x is None or set(x) != {p, q}:
            continue
        sg = s if x[0] is p else -s
        for u, v in ((p, q), (q, p)):
            y = unit(v)
            if y is None and cross(v) is not None:
                if u in cross(v):
                    return 'an axis of the matrix is not normalized'
            if y is None:
                continue
            z = cross(y)
            if z is not None and any(zz is u or zz is unit(u) for zz in z) and unit(u) is not None:
                return '' if sg == 1 else 'the matrix is a mirror reflection'
    return None


def at_(f):
    return '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
