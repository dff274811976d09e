"""Gridding counts every object inside the grid once, in the cell holding it, and none outside."""
from gridstate import *
from rows import Rows, Mat, Col, Seq, Moved, Bad, Len, isnan
from axes import name, rat
from flow import conj
from terms import children, subst
import vec as vecs
import itertools
from fractions import Fraction

ASSUMPTIONS = [
    'numpy array operations act row by row as documented; numpy.add.at adds repeated indices, assignment through an index list does not',
    'positions are finite; cell sizes and counts are positive',
    'analysed on three-axis grids with two properties and one generic object',
]
SELF = P('self')
INT = {'numpy.int64', 'numpy.int32', 'numpy.intp', 'builtins.int'}


def wh(f, e=None):
    return '%s:%d %s' % (f.module.path, getattr(e, 'lineno', f.node.lineno) if e is not None else f.node.lineno, f.qual)


def check(prog, rep):
    rep.rule('cell', 'each object goes to the cell its position lies in along every axis', 8)
    rep.rule('inside', 'an object is kept exactly when its position lies within the grid along every axis', 8)
    rep.rule('aligned', 'values are selected with the same objects as positions, and each object brings its own value', 8)
    rep.rule('adds', 'objects in one cell add up', 3)
    rep.rule('counted', 'the recorded number of objects grows by the number of objects kept', 2)
    rep.rule('outside-nan', 'sampling returns the cell value inside the grid and nan outside', 1)
    rep.rule('blocks', 'objects processed in blocks are taken together with their own arguments, every object once', 1)
    rep.rule('catalogue', 'a catalogue is gridded at the coordinates of its objects, each property in its place, over the box asked for', 10)
    handlers(prog, rep)
    catalogue(prog, rep)
    arrays(prog, rep)
    sampling(prog, rep)
    spectra(prog, rep)
    whole(prog, rep)


class Setup(object):
    """generic object at (p0, p1, ...) relative to the axes `names` of the grid"""

    def __init__(self, g, names):
        self.g, self.names = g, names
        self.p = [P('p%d' % i) for i in names]
        self.v = View([g], {})
        self.ax = self.v.ax
        self.extremes = {}

    def X(self, i):
        g = self.g
        p, c, N, d = atom(P('p%d' % i)), atom(g.c[i]), atom(g.N[i]), atom(g.d[i])
        return (p - c + N * d * rat_half()) * d.inv()

    # cells -----------------------------------------------------------
    def unwrap(self, e):
        """(rounding, inner): rounding None, 'floor', 'trunc' or 'other'"""
        n = name(e)
        how = None
        x = None
        if n in ('numpy.floor', 'math.floor') or n in ('numpy.floor_divide',) and False:
            how, x = 'floor', e.a[1][0]
        elif n in ('numpy.trunc', 'numpy.fix') or n in INT:
            how, x = 'trunc', e.a[1][0]
        elif n in ('numpy.ceil', 'numpy.rint', 'numpy.round', 'numpy.around'):
            how, x = 'other', e.a[1][0]
        elif e.op == 'mcall' and e.a[0] == 'astype':
            d = e.a[2][0] if e.a[2] else None
            t = d.a[0] if d is not None and d.op in ('const', 'ext') else None
            if not isinstance(t, str):
                return None
            if 'int' in t or t in ('i', 'i8', 'i4'):
                how, x = 'trunc', e.a[1]
            elif 'float' in t:
                return self.unwrap(e.a[1])
            else:
                return None
        elif e.op == 'bin' and e.a[0] == '//':
            how, x = 'floor', mk('bin', '/', e.a[1], e.a[2])
        if how is None:
            return None, e
        k = self.unwrap(x)
        if k is None:
            return None
        if k[0] is None:
            return how, k[1]
        return k            # rounding a rounded value changes nothing

    def literal(self, c, p):
        """(axis, side, strict, threshold) of a bound on one position, None when it is not one"""
        if c.op != 'cmp' or c.a[0] not in ('<', '<='):
            return None
        a, op, b = c.a[1], c.a[0], c.a[2]
        if not p:
            a, b, op = b, a, '<=' if op == '<' else '<'
        rounded, by = {}, {}

        def hide(y):
            k = self.unwrap(y)
            if k is not None and k[0]:
                q = P('#%d' % y.uid)
                rounded[q], by[y] = k, q
            elif k is not None and k[1] is not y:
                by[y] = k[1]
            elif (name(y) in ('numpy.max', 'numpy.min', 'numpy.amax', 'numpy.amin') and y.a[1] and y.a[1][0].op == 'vec' and len(y.a[1]) == 1
                  or y.op == 'mcall' and y.a[0] in ('max', 'min') and y.a[1].op == 'vec' and not y.a[2]):
                v = y.a[1] if y.op == 'mcall' else y.a[1][0]
                xs = [self.ax.scalar(z) for z in v.a]
                if None not in xs:
                    by[y] = P('@%d' % y.uid)
                    self.extremes[by[y]] = ('max' if 'max' in (name(y) or y.a[0]) else 'min', xs)
                    self.ax.integers.add(by[y])
            else:
                for z in children(y):
                    hide(z)
        hide(a)
        hide(b)
        ra, rb = self.ax.scalar(subst(a, by)), self.ax.scalar(subst(b, by))
        if ra is None or rb is None:
            return None
        D = rb - ra
        qs = [q for q in list(rounded) + self.p if q in D.atoms()]
        if len(qs) != 1:
            return None
        q = qs[0]
        lin = linear(D, q, self.p)
        if lin is None:
            return None
        B, d0 = lin
        s = positive(B)
        if s is None:
            return None
        t = -(d0 * B.inv())                       # q > t or q >= t when s > 0, below otherwise
        side, strict = ('lower' if s > 0 else 'upper'), op == '<'
        if q in rounded:
            how, x = rounded[q]
            if how == 'other' or not self.ax.integral(t):
                return None
            # whole numbers: q >= t lower, q < t upper
            if side == 'lower':
                t, strict = (t + rat(1), False) if strict else (t, False)
            else:
                t, strict = (t, True) if strict else (t + rat(1), True)
            if how == 'trunc':
                k = t.const()
                if side == 'lower' and (k is None or k <= 0):
                    if k is None:
                        return None
                    t, strict = t - rat(1), True    # rounding toward zero lets values down to -1 in
                elif side == 'upper' and k is not None and k <= 0:
                    return None
            x = self.ax.scalar(x)
            if x is None:
                return None
            for i in self.names:
                if x == self.X(i):
                    return (i, side, strict, t)
            for i in self.names:
                q = P('p%d' % i)
                if q in x.atoms():
                    lin = linear(x, q, self.p)
                    if lin is None or not positive(lin[0]):
                        return None
                    B, d0 = lin
                    if positive(B) < 0:
                        return None
                    t = (t - d0) * B.inv()
                    return (i, side, strict, self.cells(i, t))
            return None
        i = int(q.a[0][1:])
        return (i, side, strict, self.cells(i, t))

    def cells(self, i, t):
        """position t in cells from the lower edge"""
        return self.X(i).subst({P('p%d' % i): t})

    def bounds(self, sel):
        """None when not readable, else list of problems: positions for which the selection does not say `inside`"""
        lits = {}

        def read(c):
            if c.op in ('and', 'or', 'not'):
                return all(read(x) for x in c.a)
            if c.op == 'const':
                return True
            if c.op == 'slice':
                return False
            b = self.literal(c, True)
            if b is not None:
                lits[c] = b
            return b is not None
        if not all([read(c) for c in sel]):
            return None
        out = []
        n = len(self.g.N)
        for world in ((10, 20, 30), (30, 20, 10), (20, 30, 10)):
            val = {x: rat(world[i]) for i, x in enumerate(self.g.N)}
            val.update({x: rat(1) for x in self.g.d})
            val.update({x: rat(0) for x in self.g.c})
            for q, (how, xs) in self.extremes.items():
                ks = [x.subst(val).const() for x in xs]
                if None in ks:
                    return None
                val[q] = rat(max(ks) if how == 'max' else min(ks))
            num = {}
            points = {i: {0, world[i]} for i in self.names}
            for c, (i, side, strict, thr) in lits.items():
                k = thr.subst(val)
                k = k.const() if k is not None else None
                if k is None:
                    return None
                num[c] = (i, side, strict, k)
                points[i].add(k)
            cand = {}
            for i in self.names:
                p = sorted(points[i])
                q = [p[0] - 1, p[-1] + 1] + p + [Fraction(a + b) / 2 for a, b in zip(p, p[1:])]
                cand[i] = sorted(q)

            def true(c, x):
                if c.op == 'const':
                    return bool(c.a[0])
                if c.op == 'not':
                    return not true(c.a[0], x)
                if c.op == 'and':
                    return all(true(y, x) for y in c.a)
                if c.op == 'or':
                    return any(true(y, x) for y in c.a)
                i, side, strict, k = num[c]
                return (x[i] > k if strict else x[i] >= k) if side == 'lower' else (x[i] < k if strict else x[i] <= k)
            for combo in itertools.product(*[cand[i] for i in self.names]):
                x = dict(zip(self.names, combo))
                off = [i for i in self.names if not 0 <= x[i] < world[i]]
                if all(true(c, x) for c in sel) != (not off):
                    for i in off or self.names:
                        if not off and 0 < x[i] < world[i] - 1 and len(self.names) > 1 and any(x[k] in (0,) or x[k] > world[k] - 1 for k in self.names):
                            continue
                        out.append((i, '%s an object %s cells from the lower edge along axis %d of a grid of %s cells' % ('keeps' if off else 'drops', x[i], i, ' x '.join(str(world[k]) for k in self.names))))
                    break
        return [m for m in dict.fromkeys(out)]


def linear(D, q, ps):
    """(slope, intercept) of D in q, None when it is not linear in q alone"""
    d0, d1, d2 = (D.subst({q: rat(k)}) for k in (0, 1, 2))
    if d0 is None or d1 is None or d2 is None or (d2 - d1) != (d1 - d0):
        return None
    B = d1 - d0
    if any(o in B.atoms() or o in d0.atoms() for o in ps if o is not q):
        return None
    return B, d0


def rat_half():
    return Frac(1, 2)


def positive(r):
    """sign of a product of positive atoms, None when unknown"""
    if len(r.n) != 1 or len(r.d) != 1:
        return None
    (a,), (b,) = r.n.values(), r.d.values()
    return 1 if a * b > 0 else -1


# ------------------------------------------------------------------ gridding
def catalogue(prog, rep):
    for np_, props, vals in ((FALSE, L(K(1), K(0)), 'two'), (FALSE, L(K(1)), 'one'), (FALSE, L(K(0), K(1)), 'one'), (FALSE, NONE, 'none'), (FALSE, L(K(0)), 'flat'), (TRUE, NONE, 'two'), (TRUE, NONE, 'flat'), (TRUE, NONE, 'none')):
        g = G()
        f, r = grid_spec(prog, 'add_from_cat', g, dict(positions=P('positions'), values=NONE if vals == 'none' else P('values'), new_props=np_, properties=props))
        rep.saw(f)
        s = Setup(g, (0, 1, 2))
        env = {P('positions'): Mat(s.p)}
        if vals == 'two':
            env[P('values')] = Mat([P('v0'), P('v1')])
        elif vals == 'one':
            env[P('values')] = Mat([P('v0')])
        elif vals == 'flat':
            env[P('values')] = Col(P('v0'))
        con = 'add_from_cat new_props=%s properties=%s values=%s' % (show(np_), show(props), vals)
        want = None
        order = vecs.ints(props) if props is not NONE else [0, 1]
        want = {p: (K(1) if vals == 'none' else P('v%d' % (k if vals == 'two' else 0))) for k, p in enumerate(order)}
        events(prog, rep, f, r, con, s, Rows(env, {g.grid: 3}), None if np_ is TRUE else want, vals)
        counted(prog, rep, f, r, con, s, g, Rows(env, {g.grid: 3}))


def arrays(prog, rep):
    for ax in (0, 1, 2, -1):
        for np_, props in ((FALSE, NONE), (FALSE, L(K(1))), (TRUE, NONE)):
            g = G()
            f, r = grid_spec(prog, 'add_from_pos_plus_array', g, dict(positions=P('positions'), values=P('values'), ax=K(ax), new_prop=np_, properties=props))
            rep.saw(f)
            names = tuple(i for i in range(3) if i != ax % 3)
            s = Setup(g, names)
            env = {P('positions'): Mat(s.p), P('values'): Col(P('v[]'))}
            con = 'add_from_pos_plus_array ax=%d new_prop=%s properties=%s' % (ax, show(np_), show(props))
            events(prog, rep, f, r, con, s, Rows(env, {g.grid: 3}), None if np_ is TRUE else {p: P('v[]') for p in (vecs.ints(props) if props is not NONE else (None,))}, 'array', ax % 3)
            counted(prog, rep, f, r, con, s, g, Rows(env, {g.grid: 3}))


def fresh(rows, t):
    """grid-shaped new array behind an accumulation target"""
    while t.op == 'mut':
        t = t.a[0]
    if name(t) in ('numpy.moveaxis', 'numpy.swapaxes'):
        b = fresh(rows, t.a[1][0])
        return b
    return t


def target(rows, t, n=3):
    def strip_mut(x):
        from terms import rebuild
        return rebuild(x, lambda y: strip_mut(y.a[0]) if y.op == 'mut' else None)
    t = strip_mut(t)
    base = fresh(rows, t)
    if base not in rows.grids and name(base) in ('numpy.zeros', 'numpy.zeros_like', 'numpy.full'):
        rows.grids[base] = n
        rows.memo.pop(t, None)
        rows.memo.pop(base, None)
    return rows.of(t)


def events(prog, rep, f, r, con, s, rows, want, kind, arr_ax=None):
    done = {}
    reached(prog, rep, f, r, con, s.g)
    filled, plain = set(), True
    for e in r.events:
        if e.kind != 'extcall' or e.name != 'numpy.add.at':
            continue
        if len(e.args) < 3:
            continue
        tgt, idx, val = e.args[:3]
        where = wh(f, e.node)
        rep.ob('adds', con, True, where, '')
        m = target(rows, tgt)
        i = rows.iterate(rows.of(idx), idx) if rows.of(idx) is not None and not isinstance(rows.of(idx), Bad) else rows.of(idx)
        v = rows.of(val)
        if isinstance(i, Seq) and any(isinstance(x, Bad) for x in i.items) or isinstance(v, Bad):
            rep.ob('aligned', con, False, where, 'rows are selected with a condition computed for a different set of rows')
            continue
        if not isinstance(i, Seq) or not isinstance(m, Moved):
            continue
        sels = {x.sel for x in i.items if isinstance(x, Col)}
        if len(sels) != 1:
            if len(sels) > 1:
                rep.ob('aligned', con, False, where, 'the indices along different axes belong to different objects')
            continue
        sel = sels.pop()
        axes = list(m.order)
        seen = set()
        for k, x in enumerate(i.items):
            if k >= len(axes):
                break
            a = axes[k]
            if isinstance(x, Col):
                seen.add(a)
                u = s.unwrap(x.e)
                if u is None or a == 'property':
                    rep.ob('cell', '%s axis %s' % (con, a), a != 'property', where, 'the property axis is indexed with cell numbers') if a == 'property' else None
                    continue
                inner = s.ax.scalar(u[1])
                if inner is None:
                    continue
                if a not in s.names:
                    rep.ob('cell', '%s axis %s' % (con, a), False, where, 'axis %s is indexed with the position along another axis' % a)
                    continue
                low = any(b is not None and b[0] == a and b[1] == 'lower' and b[3].zero() and not b[2] for b in [s.literal(c, p) for l in sel for c, p in conj(l, True)])
                ok = inner == s.X(a) and (u[0] == 'floor' or u[0] == 'trunc' and low)
                rep.ob('cell', '%s axis %s' % (con, a), ok, where, 'the cell number along axis %s is %s of %r, expected the whole part of %r' % (a, u[0] or 'no rounding', inner, s.X(a)))
        prob = s.bounds(sel)
        if prob is not None:
            for a in s.names:
                mine = [p for i, p in prob if i == a]
                rep.ob('inside', '%s axis %d' % (con, a), not mine, where, mine[0] if mine else '')
        if isinstance(v, (Col, Mat)):
            rep.ob('aligned', con, v.sel == sel, where, 'the values added are not selected by the same conditions as the positions')
            if want is not None:
                p = next((const(x) if isinstance(x, T) else None for k, x in enumerate(i.items) if k < len(axes) and axes[k] == 'property'), None)
                filled.add(p)
                if isinstance(v, Col) and p in want:
                    rep.ob('aligned', '%s property %s' % (con, p), v.e is want[p] or not readable(v.e), where, 'property %s receives %s, expected %s' % (p, show(v.e, 4), show(want[p])))
                elif isinstance(v, Col) and kind == 'array' and None in want:
                    rep.ob('aligned', '%s all properties' % con, v.e is want[None] or not readable(v.e), where, 'receives %s' % show(v.e, 4))
            done[id(e)] = 1
    if want is not None and None not in want and filled and None not in filled and len(done) == sum(e.kind == 'extcall' and e.name == 'numpy.add.at' for e in r.events) and not any(e.kind == 'setsub' for e in r.events):
        rep.ob('aligned', con + ' every property', filled >= set(want), wh(f), 'properties %s are asked for, values are added to %s' % (sorted(want), sorted(filled)))
    # gridded data changed through lists of cells without accumulating
    for e in r.events:
        if e.kind == 'setsub' and isinstance(e.base, T):
            b = strip(e.base)
            m = rows.of(b) if b.op in ('param', 'call') else None
            if m is None and b.op == 'call':
                m = target(rows, b)
            i = rows.of(e.idx) if isinstance(m, Moved) else None
            if isinstance(i, Seq) and any(isinstance(x, Col) for x in i.items):
                rep.ob('adds', con, False, wh(f, e.node), 'cells are assigned through a list of cell numbers: of several objects in one cell only the last counts')
    return bool(done)


def stores(prog, f, attrs, seen=None):
    """whether a function, or one it calls by a name of the program, stores one of the attributes"""
    import ast
    seen = set() if seen is None else seen
    if f.qual in seen:
        return False
    seen.add(f.qual)
    names = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Attribute):
            if x.attr in attrs and isinstance(x.ctx, (ast.Store, ast.Del)):
                return True
            names.add(x.attr)
        elif isinstance(x, ast.Name):
            names.add(x.id)
            if x.id in ('setattr', 'vars'):
                return True
    if '__dict__' in names:
        return True
    return any(h.name in names and stores(prog, h, attrs, seen) for h in prog.funcs.values())


def reached(prog, rep, f, r, con, g):
    """something is put in the grid"""
    put = any(e.kind in ('setsub', 'ifcall', 'calldyn') or e.kind in ('setattr', 'aug') and getattr(e, 'attr', None) == 'grid' or e.kind == 'extcall' and (e.name.endswith('.at') or e.name.split('.')[0] not in ('numpy', 'builtins', 'math', 'warnings') or e.name == 'builtins.setattr'
              or any(isinstance(a, T) and g.grid in subterms(a) for a in list(e.args) + list((getattr(e, 'kws', None) or {}).values()))) for e in r.events)
    if not put:
        put = any(e.kind == 'call' and (e.callee.name.startswith('add') or stores(prog, e.callee, ('grid',))) for e in r.events)
    rep.ob('adds', con + ' reached', put, wh(f), 'no value is put in the grid')


def readable(e):
    return e.op in ('param', 'const') or e.op == 'bin'


def counted(prog, rep, f, r, con, s, g, rows):
    kept = [State(x, SELF, g.heap).get('n_objects') for x in normal(r)]
    if kept and all(n is g.heap['n_objects'] for n in kept) and not any(e.kind == 'setattr' and e.attr == 'n_objects' for e in r.events):
        rep.ob('counted', con, any(e.kind == 'call' and stores(prog, e.callee, ('n_objects',)) for e in r.events), wh(f), 'the object count stays what it was whatever is added')
    for x in normal(r):
        n = State(x, SELF, g.heap).get('n_objects')
        t = n
        if t is None or t is g.heap['n_objects']:
            continue
        for conds, v in leaves(t):
            if v is g.heap['n_objects'] or v.op != 'bin' or v.a[0] != '+' or g.heap['n_objects'] not in v.a[1:]:
                continue
            k = rows.of(v.a[2] if v.a[1] is g.heap['n_objects'] else v.a[1])
            if isinstance(k, Len):
                p = s.bounds(k.sel)
                if p is not None:
                    rep.ob('counted', con, not p, wh(f), 'the object count grows by the number of objects of another selection, which ' + (p[0][1] if p else ''))
            elif isinstance(k, T) and isinstance(const(k), int):
                rep.ob('counted', con, False, wh(f), 'the object count grows by %d whatever the number of objects' % const(k))


# ------------------------------------------------------------------ sampling
def sampling(prog, rep):
    for props in (NONE, L(K(1)), L(K(1), K(0)), K(0)):
        g = G()
        f, r = grid_spec(prog, 'sample', g, dict(positions=P('positions'), properties=props))
        rep.saw(f)
        s = Setup(g, (0, 1, 2))
        rows = Rows({P('positions'): Mat(s.p)}, {g.grid: 3})
        con = 'sample properties=%s' % show(props)
        for x in normal(r):
            v = rows.of(x.value)
            if isinstance(v, Bad):
                rep.ob('aligned', con, False, wh(f), 'rows are selected with a condition computed for a different set of rows')
            if not isinstance(v, Col) or v.sel:
                continue
            e = v.e
            while e.op == 'part':
                e = e.a[0]
            if e.op != 'phi':
                rep.ob('outside-nan', con, e.op != 'cell', wh(f), 'values are returned without regard to positions outside the grid')
                continue
            c, a, b = e.a
            pol = True
            if not (isnan(a) or isnan(b)):
                rep.ob('outside-nan', con, False, wh(f), 'positions outside the grid get %s' % show(a, 3))
                continue
            if isnan(a):
                inside, cellv = mknot_(c), b
            else:
                inside, cellv = c, a
            while cellv.op == 'part':
                cellv = cellv.a[0]
            p = s.bounds(frozenset([inside]))
            if p is not None:
                rep.ob('outside-nan', con, not p, wh(f), 'the selection of positions given cell values ' + (p[0][1] if p else ''))
            if cellv.op == 'cell':
                n = g.n + 1
                order, idx = cellv.a[1:1 + n], cellv.a[1 + n:]
                for k, i in enumerate(idx):
                    a = const(order[k]) if k < len(order) else None
                    if not isinstance(a, int):
                        continue
                    if i.op == 'phi':
                        # the branch taken for positions inside
                        pol = same_cond(i.a[0], c)
                        if pol is None:
                            continue
                        i = i.a[2] if isnan(e.a[1]) == pol else i.a[1]
                    u = s.unwrap(i)
                    inner = s.ax.scalar(u[1]) if u else None
                    if inner is not None:
                        rep.ob('cell', '%s axis %d' % (con, a), inner == s.X(a) and u[0] in ('floor', 'trunc'), wh(f), 'the cell number along axis %d is %s of %r' % (a, u[0], inner))


def mknot_(c):
    from flow import mknot
    return mknot(c)


def same_cond(a, b):
    if a is b:
        return True
    if mknot_(a) is b:
        return False
    return None


# ------------------------------------------------------------------ blocks
def spectra(prog, rep):
    for careful in (TRUE, FALSE):
        for args in (NONE, P('arguments')):
            g = G()
            f, r = grid_spec(prog, 'add_from_spec_func', g, dict(positions=P('positions'), spec_function=P('sf'), spec_function_arguments=args, spec_ax=K(2), new_prop=FALSE, properties=NONE, is_cumulative=FALSE,
                                                                 eval_as_loop=FALSE, careful_with_memory=careful))
            rep.saw(f)
            ax = Axes({})
            con = 'add_from_spec_func careful_with_memory=%s spec_function_arguments=%s' % (show(careful), show(args))
            for e in r.events:
                if e.kind != 'call' or e.callee.name != 'add_from_pos_plus_array':
                    continue
                pos, val = e.binding.get('positions'), e.binding.get('values')
                a = cuts(pos, P('positions'))
                if a is None or val is None:
                    continue
                inner = [x for x in subterms(val) if x.op == 'call' and x.a[0] is P('sf')]
                if len(inner) != 1 or len(inner[0].a[1]) < 2:
                    continue
                b = cuts(inner[0].a[1][1], args if args is not NONE else None)
                if b is None:
                    continue
                where = wh(f, e.node)
                rep.ob('blocks', con + ' pairing', (a[0], a[1]) == (b[0], b[1]), where, 'positions %s are gridded with the spectra of arguments %s' % (a[2], b[2]))
                t = tiles(ax, a)
                if t is not None:
                    rep.ob('blocks', con + ' cover', not t, where, t)


def whole(prog, rep):
    """the calls made for five objects taken two at a time"""
    from flow import Interp
    import concrete
    cls = prog.cls('Grid')
    f = prog.lookup(cls, 'add_from_spec_func')
    if f is None:
        return
    g = G()
    rows = [mk('obj', 'position %d' % i) for i in range(5)]
    pos = V(*rows)
    for new, given in ((TRUE, NONE), (FALSE, NONE), (FALSE, P('properties'))):
        for careful in (TRUE, FALSE):
            it = Interp(prog, inline=lambda a, b: not b.name.startswith(("add_", "_check")), depth=5, unroll=32)
            it.exact, it.vec = True, True
            it.models = concrete.models()
            e = lambda n: mk('ext', n)
            same = lambda a, k: a[0] if a and a[0] is pos else None
            it.models.update({e('numpy.array'): same, e('numpy.atleast_2d'): same, e('numpy.asarray'): same, e('numpy.prod'): lambda a, k: K(2), e('numpy.ceil'): lambda a, k: K(-(-a[0].a[0] // 1)) if a[0].op == 'const' else None,
                              e('builtins.len'): lambda a, k: K(5) if a[0] is pos else None})
            it.preset = {(pos, 'shape'): mk('tuple', K(5), K(2)), (pos, 'ndim'): K(2)}
            b = dict(positions=pos, spec_function=P('sf'), spec_function_arguments=P('arguments'), spec_ax=K(2), new_prop=new, properties=given, is_cumulative=FALSE, eval_as_loop=FALSE, careful_with_memory=careful)
            r = it.run(f, bind={k: v for k, v in b.items() if k in f.params}, selfcls=cls, heap=g.heap)
            ex = normal(r)
            con = 'add_from_spec_func careful_with_memory=%s new_prop=%s properties=%s' % (show(careful), show(new), show(given))
            if len(ex) != 1:
                continue
            calls = [e for e in r.events if e.kind == 'call' and e.callee.name.startswith('add_') and e.callee.cls is not None]
            other = [e for e in r.events if e.kind == 'call' and e.callee.cls is not None and not e.callee.name.startswith('_') and e not in calls]
            done = calls or [e for e in r.events if e.kind == 'setattr' and e.attr == 'grid' or e.kind == 'extcall' and e.name == 'numpy.add.at' or e.kind == 'setsub'] or other
            where = wh(f, calls[0].node if calls else f.node)
            rep.saw(f)
            if not done and any(e.kind == 'call' for e in r.events if e.kind == 'call' and stores(prog, e.callee, ('grid',))):
                done = True
            rep.ob('blocks', con + ' reached', bool(done), where, 'no object is put in the grid')
            if not calls or any(e.callee.name != 'add_from_pos_plus_array' for e in calls) or any(e.binding.get(k) is None for e in calls for k in ('new_prop', 'properties', 'positions')):
                continue
            taken = [e.binding['positions'] for e in calls]
            if all(t.op == 'vec' for t in taken):
                got = [x for t in taken for x in t.a]
                rep.ob('blocks', con + ' every object', sorted(got, key=repr) == sorted(rows, key=repr), where, 'of five objects taken in blocks, %d are gridded' % len(got))
            for i, e in enumerate(calls):
                n, p = e.binding['new_prop'], e.binding['properties']
                first = i == 0
                if n.op == 'const':
                    rep.ob('blocks', con + ' new property in block %d' % min(i, 1), n.a[0] == (new is TRUE and first), where, 'block %d %s a property of its own' % (i, 'makes' if n.a[0] else 'does not make'))
                if p.op not in ('const', 'param'):
                    continue
                if new is FALSE or first:
                    rep.ob('blocks', con + ' properties in block %d' % min(i, 1), p is given, where, 'block %d goes to properties %s' % (i, show(p)))
                elif p.op == 'const':
                    rep.ob('blocks', con + ' properties in block %d' % min(i, 1), p is not NONE, where, 'block %d is added to all properties instead of the new one' % i)


def handlers(prog, rep):
    """the grids catalogue handlers make of themselves"""
    from flow import Interp
    import concrete
    from lcrows import poly
    me = P('self')
    F = lambda *a: mk('tuple', *[K(x) for x in a])
    # the box of a simulation is 80 long in h units and 160 without; a light cone covers 4 x 8, redshifts 1 to 3
    held = {'SnapHandler': {'box_edge_h': K(80.), 'box_edge_no_h': K(160.), 'default_in_h_units': FALSE, 'box_edge': K(160.), 'h': K(.5)},
            'LCHandler': {'open_angle': K(4.), 'aspect_ratio': K(2.), 'minimum_redshift': K(1.), 'maximum_redshift': K(3.), 'shape': K('box'), 'default_in_h_units': FALSE, 'h': K(.5)}}
    lims = {'SnapHandler': ('xlim', 'ylim', 'zlim'), 'LCHandler': ('ralim', 'declim', 'zlim')}
    coords = {'SnapHandler': ('pos_x', 'pos_y', 'pos_z'), 'LCHandler': ('ra', 'dec', 'redshift')}
    full = {('SnapHandler', True): [(0., 80.)] * 3, ('SnapHandler', False): [(0., 160.)] * 3, ('LCHandler', True): [(-2., 2.), (-4., 4.), (1., 3.)]}
    full['LCHandler', False] = full['LCHandler', True]
    for cn in ('SnapHandler', 'LCHandler'):
        if cn not in prog.classes and not any(q.endswith('.' + cn) for q in prog.classes):
            continue
        cls = prog.cls(cn)
        f, ret = prog.lookup(cls, 'grid'), prog.lookup(cls, 'return_property')
        if f is None or ret is None:
            continue
        rep.saw(f)
        for inh in (True, False):
            for given in ((None, None, None), ((1., 2.), (.25, 2.25), (1.5, 2.)), ((2., 1.), None, None), (None, None, (3., 2.)), (None, (-1., 0.), None)):
                for rest in (None, 12.) if cn == 'LCHandler' else (None,):
                    it = Interp(prog, inline=lambda a, b: b.name not in ('__init__', 'return_property'), depth=5, unroll=32)
                    it.exact, it.vec = True, True
                    it.models = concrete.models()
                    it.models[('func', ret.qual)] = lambda b: mk('catalogue', b.get('property_name', NONE))
                    it.preset = {(me, k): v for k, v in held[cn].items()}
                    b = dict(property_names=mk('tuple', K('b'), K('a')), in_h_units=K(inh), use_all_inds=FALSE, res=NONE, norm=NONE)
                    b.update({k: NONE if g is None else F(*g) for k, g in zip(lims[cn], given)})
                    if rest is not None:
                        b['restfreq'] = K(rest)
                    elif cn == 'LCHandler':
                        b['restfreq'] = NONE
                    r = it.run(f, bind={k: v for k, v in b.items() if k in f.params or k in ('property_names',)}, selfcls=cls)
                    made = [e for e in r.events if e.kind == 'call' and e.callee.name == '__init__' and e.callee.cls is not None and e.callee.cls.name == 'Gridder']
                    if len(made) != 1 or not normal(r):
                        rep.notes.append('grid of %s not followed' % cn)
                        continue
                    e = made[0]
                    con = '%s.grid limits %s in_h_units=%s%s' % (cn, '/'.join('-' if g is None else '%g..%g' % g for g in given), inh, ' restfreq' if rest else '')
                    where = wh(f, e.node)
                    cat = lambda n: mk('catalogue', K(n))
                    pos, val = e.binding.get('positions'), e.binding.get('values')
                    if pos is not None and pos.op == 'vec':
                        ok = len(pos.a) == 3
                        for k, (x, n) in enumerate(zip(pos.a, coords[cn])):
                            if rest is not None and k == 2:
                                ok = ok and (poly(x) * (poly(K(1)) + poly(cat(n))) == poly(K(rest)) or not poly(x).atoms() <= {cat(c) for c in coords[cn]})
                            else:
                                ok = ok and x is cat(n)
                        rep.ob('catalogue', con + ' positions', ok, where, 'objects are gridded at %s' % show(pos, 4))
                    if val is not None and val.op == 'vec':
                        rep.ob('catalogue', con + ' values', list(val.a) == [cat('b'), cat('a')], where, 'properties b, a are gridded as %s' % show(val, 4))
                    want = [g or d for g, d in zip(given, full[cn, inh])]
                    if rest is not None and given[2] is None:
                        want[2] = (rest / 4, rest / 2)
                    for k, key in (('centre', 'center_point'), ('size', 'side_length')):
                        t = e.binding.get(key)
                        if t is None or t.op not in ('list', 'tuple', 'vec') or not all(x.op == 'const' and isinstance(x.a[0], (int, float)) for x in t.a):
                            continue
                        exp = [(a + c) / 2 if k == 'centre' else abs(a - c) for a, c in want]
                        rep.ob('catalogue', '%s %s' % (con, k), len(t.a) == 3 and all(abs(x.a[0] - y) < 1e-9 for x, y in zip(t.a, exp)), where, 'the %s of the box is %s, not %s' % (k, show(t), exp))


def cuts(t, src):
    """(lower, upper, text) of the slice taken of an argument, None when not recognised"""
    found = []

    def rec(x):
        x = strip(x)
        if x.op == 'phi':
            rec(x.a[1])
            rec(x.a[2])
        elif x.op == 'sub' and x.a[1].op == 'slice' and x.a[1].a[2] in (NONE, K(1)):
            found.append((x.a[1].a[0], x.a[1].a[1]))
        elif x.op == 'sub' and x.a[1].op in ('tuple', 'list'):
            rec(x.a[0])
        elif name(x) in ('numpy.array', 'numpy.asarray', 'numpy.reshape') and x.a[1]:
            rec(x.a[1][0])
    rec(t)
    if not found or len(set(found)) != 1:
        return None
    lo, hi = found[0]
    return lo, hi, '%s to %s' % (show(lo, 4), show(hi, 4))


def tiles(ax, c):
    """problem with blocks lo..hi of the loop they sit in; '' when every object is covered once, None when not readable"""
    lo, hi = ax.scalar(c[0]), ax.scalar(c[1])
    if lo is None or hi is None:
        return None
    loops = [x for x in set(lo.atoms()) | set(hi.atoms()) if loop_range(x) is not None]
    if len(loops) != 1:
        return None
    i = loops[0]
    k = hi - lo
    r = loop_range(i)
    if i in k.atoms():
        return 'blocks differ in size'
    step = rat(1) if len(r) == 1 else ax.scalar(r[2]) if len(r) == 3 else None
    first = rat(0) if len(r) == 1 else ax.scalar(r[0])
    if step is None or first is None:
        return None
    nxt = lo.subst({i: atom(i) + step})
    if nxt is None:
        return None
    if nxt != hi:
        return 'blocks of %r objects start every %r objects' % (k, nxt - lo)
    z = lo.subst({i: first})
    if z is not None and not z.zero():
        return 'the first block starts at object %r' % z
    if len(r) == 1:
        m = r[0]
        while name(m) in INT | {'builtins.max', 'numpy.maximum'} or m.op == 'mcall' and m.a[0] == 'astype':
            m = m.a[1][0] if name(m) else m.a[1]
        if name(m) in ('numpy.floor', 'math.floor', 'builtins.round', 'numpy.round') or m.op == 'bin' and m.a[0] == '//' and name(m.a[1]) == 'builtins.len':
            return 'the last, incomplete block is left out'
    return ''


def loop_range(x):
    """arguments of the range a loop variable runs over"""
    if x.op in ('lidx', 'elem') and x.a and isinstance(x.a[0], T) and name(x.a[0]) == 'builtins.range':
        return x.a[0].a[1]
    return None
