"""Light cone files hold everything opening, extending and measuring them reads."""
import fnmatch
from common import *
from flow import Interp
from store import Store, node, bare
from sources import dictval
from lcrows import builds, extenders, datanode, MODES
from props.L04 import recorded, isattrs, attrof
from props.S01 import metadata_read

ASSUMPTIONS = [
    'the simulation\'s metadata has the cosmology and box entries (S01, S02)',
    'h5py: assigning a data set to a name links it, with its attributes; assigning values creates a data set without attributes',
    'a data set of fixed shape cannot have a chunk larger than it, nor an empty one',
]
ME, PATH = P('self'), P('path')
NEEDED = ('mass', 'pos_x', 'pos_y', 'pos_z', 'ra', 'dec', 'redshift')
MEANING = {'minimum redshift': ('redshift_min',), 'maximum redshift': ('redshift_max',), 'open angle': ('openangle',), 'aspect ratio': ('aspect',),
           'mass cut': ('minimum_mass',), 'parent sim': ('sim',)}
HELD = {'shape': 'shape', 'minimum_redshift': 'minimum redshift', 'maximum_redshift': 'maximum redshift', 'open_angle': 'open angle', 'aspect_ratio': 'aspect ratio'}


class One(Store):
    """every path is the light cone file"""

    def __init__(self):
        Store.__init__(self)
        self.paths = []

    def call(self, it, ctx, st, n, ft, args, kws):
        if ft.op == 'ext' and ft.a[0] == 'h5py.File':
            if args:
                self.paths.append((args[0], ctx))
            args = [PATH] + list(args[1:])
            kws = {k: v for k, v in kws.items() if k != 'name'}
        return Store.call(self, it, ctx, st, n, ft, args, kws)


def check(prog, rep):
    rep.rule('opening', 'a light cone of every kind can be opened: every entry, attribute and column read is stored', 6)
    rep.rule('volume', 'the volume of a light cone of every kind can be computed from its own file', 6)
    rep.rule('use', 'the columns read for maps are stored', 6)
    rep.rule('extending', 'adding properties reads only what every builder stores', 12)
    rep.rule('entry meaning', 'stored entries hold the builder\'s quantity of that name, and are read back as such', 20)
    rep.rule('column attributes', 'every column is stored with its unit and h dependence', 40)
    rep.rule('all columns', 'the group that is read holds every column built', 6)
    rep.rule('every light cone', 'each of the light cones gets entries and columns', 6)
    rep.rule('file name', 'files are written and read under the same name', 3)
    rep.rule('empty light cone', 'properties can be added to light cones without halos or with fewer halos than a chunk', 2)
    simkeys = set(metadata_read(prog))
    made = {}
    for nm, f, res in builds(prog):
        rep.saw(f)
        mode = nm.rsplit(' ', 1)[1]
        w = written(rep, nm, f, res, mode, simkeys)
        if w is not None:
            made[mode] = (nm, f) + w
    names = writers(prog, rep)
    for mode, (nm, f, attrs, cols, paths, copied) in made.items():
        read(prog, rep, nm, mode, attrs, cols, names)
    extend(prog, rep, made)


# ---------------------------------------------------------------- what a builder stores
def extra(g, loopvar=True):
    return [x for x in g if x[0].op != 'iter']


def written(rep, nm, f, res, mode, simkeys):
    attrs, other = recorded(res, root)
    wh = at_(f)
    vals = {}
    for a, ws in attrs.items():
        ok = [v for v, _ in ws]
        vals[a] = ok[-1]
    copied = False
    base = None
    for e in res.events:
        if e.kind == 'setsub' and isattrs(e.base) and root(e.base) and e.idx.op == 'const':
            g = frozenset(extra(e.guards))
            base = g if base is None else base & g
    sometimes = {}
    for e in res.events:
        if e.kind == 'setsub' and isattrs(e.base) and root(e.base) and e.idx.op == 'const':
            sometimes.setdefault(e.idx.a[0], []).append(frozenset(extra(e.guards)) - base)
    sometimes = {a for a, gs in sometimes.items() if all(gs) and not covers(gs)}
    for e in res.events:
        if e.kind == 'setsub' and isattrs(e.base) and datapath(e.base) == () and e.idx.op != 'const':
            src = [t for t in subterms(e.idx) if t is mk('attr', ME, 'metadata')]
            if src and any(t is mk('attr', ME, 'metadata') for t in subterms(e.value)):
                copied = True
            else:
                other = True
        if e.kind == 'setsub' and isattrs(e.base) and datapath(e.base) == () and e.idx.op == 'const':
            turns(rep, nm, e, 'entry %r' % e.idx.a[0])
        if e.kind == 'mcall' and e.name == 'update' and isattrs(e.recv) and e.args and e.args[0] is mk('attr', ME, 'metadata'):
            copied = True
    if other and not copied:
        rep.notes.append('%s: entries not followed' % nm)
        return None
    if copied:
        for k in simkeys:
            vals.setdefault(k, mk('sub', mk('attr', ME, 'metadata'), K(k)))
    for a in sometimes:
        del vals[a]
    # entries
    for a, names in MEANING.items():
        if a in vals and a in attrs:
            v, w = attrs[a][-1]
            m = {t.a[1] for t in subterms(v) if t.op == 'attr' and t.a[0] is ME}
            if v.op == 'attr' and v.a[0] is ME:
                rep.ob('entry meaning', '%s: %s' % (nm, a), v.a[1] in names, w, 'holds self.%s' % v.a[1])
            elif m and not m & set(names):
                rep.ob('entry meaning', '%s: %s' % (nm, a), False, w, 'holds %s' % show(v, 3))
    if 'shape' in attrs:
        v, w = attrs['shape'][-1]
        if v.op == 'const':
            rep.ob('entry meaning', '%s: shape' % nm, v.a[0] == mode, w, 'a %s light cone is stored as %r' % (mode, v.a[0]))
    # columns
    created, paths = {}, set()
    for e in res.events:
        if e.kind == 'mcall' and e.name in ('create_dataset', 'create_group', 'require_group'):
            n = datanode(e.recv)
            if n is None or not e.args:
                continue
            p = n[1] + (e.args[0],)
            paths.add(p)
            turns(rep, nm, e, '/'.join(show(x, 1) for x in p)) if len(p) == 1 else None
            if e.name == 'create_dataset' and p[0] in (K('Lightcone Basic'), K('Lightcone Full')) and len(p) == 2:
                created[p] = e
    if not created:
        rep.notes.append('%s: columns not followed' % nm)
        return None
    for p, e in created.items():
        has(rep, nm, p, e, res.events)
    basic = {p[1] for p in created if p[0] is K('Lightcone Basic')}
    full = {p[1] for p in created if p[0] is K('Lightcone Full')}
    link = None
    for e in res.events:
        if e.kind != 'setsub':
            continue
        n = datanode(e.base)
        if n is None:
            continue
        p = n[1] + (e.idx,)
        v = datanode(e.value)
        if p[0] is not K('Lightcone Full') or len(p) > 2:
            continue
        if v is not None and v[1] and v[1][0] is K('Lightcone Basic') and len(v[1]) == len(p):
            if len(p) == 1:
                link = ('all', e)
            elif p[1] is v[1][1]:
                if p[1].op == 'const':
                    full.add(p[1])
                else:
                    link = ('all', e)
            elif p[1].op == v[1][1].op == 'const':
                rep.ob('all columns', '%s: %s' % (nm, show(p[1])), False, e.where, 'is the column %s' % show(v[1][1]))
        elif v is not None and len(v[1]) == 3 or e.value.op == 'sub' and datanode(e.value.a[0]) is not None and e.value.a[1].op == 'slice' or e.value.op == 'call':
            rep.ob('column attributes', '%s: column %s read by the handler' % (nm, show(p[1], 2) if len(p) > 1 else ''), False, e.where, 'the values are copied without unit and h dependence')
            link = ('all', e)
    if link is not None:
        full |= basic
        paths.add((K('Lightcone Full'),))
        turns(rep, nm, link[1], 'columns')
        own = frozenset(extra(link[1].guards))
        for c in created.values():
            own -= frozenset(extra(c.guards))
        for c, _ in own:
            if any(x.op in ('each', 'elem') for x in subterms(c)):
                rep.ob('all columns', '%s: columns' % nm, False, link[1].where, 'some columns are left out')
    for e in res.events:
        if e.kind == 'delsub' and e.idx.op == 'const' and (datanode(e.base) or (0, 0))[1] == (K('Lightcone Full'),):
            full.discard(e.idx)
    if not full or not all(x.op == 'const' for x in full):
        if not full and not any(p[0] is K('Lightcone Full') for p in paths):
            rep.ob('all columns', nm, False, wh, 'the group read by handlers is never made')
        else:
            rep.notes.append('%s: columns read by handlers not followed' % nm)
        return None
    for c in sorted(x.a[0] for x in basic):
        rep.ob('all columns', '%s: %s' % (nm, c), K(c) in full, wh, 'not in the group read by handlers')
    return vals, {x.a[0] for x in full}, paths, copied


def root(t):
    return datapath(t) == ()


def datapath(t):
    """path of the node an attribute manager belongs to"""
    while t.op in ('upd', 'mut', 'merged'):
        t = t.a[0]
    if t.op == 'phi':
        return datapath(t.a[1])
    if t.op in ('mu', 'loop'):
        return datapath(t.a[2])
    n = datanode(t.a[0]) if t.op == 'attr' else None
    return n[1] if n is not None else None


def turns(rep, nm, e, what):
    """stored in every turn of the loop over light cones"""
    its = [g[0].a[0] for g in e.guards if g[0].op == 'iter' and g[1]]
    first = [x for x in its if is_call(x, 'builtins.range')]
    bad = None
    for c, p in extra(e.guards):
        if any(x.op == 'lidx' and its and x.a[0] is its[0] for x in subterms(c)):
            bad = 'stored only for some light cones'
    if its and is_call(its[0], 'builtins.range'):
        a = its[0].a[1]
        n = a[-1] if len(a) < 3 else a[1]
        if len(a) == 2 and not is_const(a[0], 0):
            bad = 'the first light cones are left out'
        if n.op == 'bin' and n.a[0] == '-' and n.a[2].op == 'const':
            bad = 'the last light cones are left out'
    rep.ob('every light cone', '%s: %s' % (nm, what), bad is None, e.where, bad or '')


def has(rep, nm, p, e, events):
    """unit and h dependence are stored with the column"""
    base = set(extra(e.guards))
    c = '%s: %s' % (nm, '/'.join(str(x.a[0]) if x.op == 'const' else '<key>' if x.op == 'each' else show(x, 2) for x in p))
    unknown = False
    for a, src in (('units', 'key_units'), ('h dependence', 'key_h_dependence')):
        gs = []
        for x in events:
            if x.kind == 'setsub' and isattrs(x.base) and datapath(x.base) == p:
                if x.idx.op != 'const':
                    unknown = True
                elif x.idx.a[0] == a:
                    gs.append((frozenset(extra(x.guards)) - base, x))
            elif x.kind == 'mcall' and x.name in ('create', 'update') and isattrs(x.recv) and datapath(x.recv) == p:
                if x.name == 'create' and x.args and x.args[0].op == 'const':
                    if x.args[0].a[0] == a:
                        gs.append((frozenset(extra(x.guards)) - base, x))
                else:
                    unknown = True
        ok = any(not g for g, _ in gs) or covers([g for g, _ in gs])
        if ok or not unknown:
            rep.ob('column attributes', '%s %s' % (c, a), ok, e.where, '%s %s stored' % (a, 'is only sometimes' if gs else 'is not'))
        for g, x in gs:
            v = x.value if x.kind == 'setsub' else x.args[1]
            if v.op == 'sub' and v.a[0].op == 'attr' and v.a[0].a[1] in ('key_units', 'key_h_dependence'):
                rep.ob('column attributes', '%s source of %s' % (c, a), v.a[0].a[1] == src, x.where, 'is taken from %s' % v.a[0].a[1])
                k, i = p[-1], v.a[1]
                if i is k:
                    continue
                if k.op == i.op == 'const':
                    rep.ob('column attributes', '%s column of %s' % (c, a), k.a[0][:4] == i.a[0][:4], x.where, 'is that of %s' % i.a[0])
                elif i.op == 'const' and not g:
                    rep.ob('column attributes', '%s column of %s' % (c, a), False, x.where, 'is that of %s for every property' % i.a[0])


def covers(gs):
    s = set(gs)
    for g in s:
        for c, p in g:
            if frozenset([(c, p)]) in s and frozenset([(c, not p)]) in s:
                return True
    # one condition decided both ways, other guards alike
    for g in s:
        for c, p in g:
            if (g - {(c, p)}) | {(c, not p)} in s and len(g) == 1:
                return True
    return False


# ---------------------------------------------------------------- file names
def sample(t):
    """file name for number 7"""
    if is_call(t, 'os.path.join'):
        return sample(t.a[1][-1])
    if t.op == 'mcall' and t.a[0] == 'format' and t.a[1].op == 'const' and len(t.a[2]) == 1 and not t.a[3]:
        try:
            return t.a[1].a[0].format(7)
        except (ValueError, IndexError, KeyError):
            return None
    if t.op == 'bin' and t.a[0] == '%' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], str):
        try:
            return t.a[1].a[0] % 7
        except (ValueError, TypeError):
            return None
    if t.op in ('fstr', 'joined'):
        return None
    return None


def writers(prog, rep):
    out = {}
    for nm, f, res in builds(prog) + extenders(prog):
        for e in res.events:
            if e.kind == 'extcall' and e.name == 'h5py.File' and e.args:
                t = e.args[0]
                if any(x is mk('attr', ME, 'lc_path') for x in subterms(t)):
                    s = sample(t)
                    if s is not None:
                        fixed = not any(x.op in ('lidx', 'each') for x in subterms(t))
                        out.setdefault(s, []).append((nm, e.where))
    return out


# ---------------------------------------------------------------- reading
def tree(attrs, cols):
    at = {'units': P('unit'), 'h dependence': P('hd')}
    return {'@': {k: v for k, v in attrs.items()}, 'Lightcone Full': {c: (P('val ' + c), at) for c in sorted(cols)}}


def missing(r):
    return [(e.idx.a[0], e.where) for e in r.events if e.kind == 'getsub' and e.base.op == 'dict' and e.idx.op == 'const' and
            all(k.op == 'const' for k, _ in e.base.a[0]) and all(k is not e.idx for k, _ in e.base.a[0])]


def read(prog, rep, nm, mode, attrs, cols, names):
    f = prog.func('LCHandler.__init__')
    rep.saw(f)
    kind = 'a %s light cone' % mode
    symbolic = {a: K(mode) if a == 'shape' else P('stored ' + a) for a in attrs}
    host = One()
    it = Interp(prog, inline=lambda a, b: True, depth=6, unroll=64)
    it.host, it.preset = host, host.preset(PATH, tree(symbolic, cols))
    r = it.run(f, selfcls=f.cls)
    miss = missing(r)
    bad = [(m, at_(f)) for m, _ in host.faults] + [('%r is read but is not stored' % k, w) for k, w in miss]
    ok = normal(r)
    rep.ob('opening', kind, bool(ok) and not bad, bad[0][1] if bad else at_(f), bad[0][0] if bad else 'cannot be opened')
    for p, ctx in host.paths:
        s = sample(p)
        if s is not None and names:
            rep.ob('file name', 'LCHandler, %s' % kind, s in names, at_(f), 'reads %r, builders write %s' % (s, ', '.join(sorted(names))))
            break
    if len(names) > 1:
        few = min(names.items(), key=lambda x: len(x[1]))
        rep.ob('file name', few[1][0][0], False, few[1][0][1], 'uses %r where others use %s' % (few[0], ', '.join(sorted(set(names) - {few[0]}))))
    if not ok or bad:
        return
    x = ok[0]
    for a, key in HELD.items():
        v = final(x, a)
        if v is not None and key in symbolic:
            if v.op == 'const' or v.op == 'param' and str(v.a[0]).startswith('stored '):
                rep.ob('entry meaning', 'LCHandler.%s, %s' % (a, kind), v is symbolic[key], at_(f), 'is %s' % show(v))
    heap = {}
    for (o, a), loc in x.state.heap.items():
        if o is ME:
            v = x.state.store[loc] if isinstance(loc, int) else loc
            heap[o, a] = v
    for q, bind, rule in (('volume', {}, 'volume'), ('grid', dict(ralim=tup2(), declim=tup2(), property_names=mk('tuple', K('mass'))), 'use'), ('eval_stat_evo', {}, 'use')):
        g = prog.lookup(f.cls, q)
        if g is None:
            continue
        if q == 'grid' and mode in ('box', 'circle'):
            bind = dict(property_names=mk('tuple', K('mass')))
        rep.saw(g)
        host = One()
        it = Interp(prog, inline=lambda a, b: True, depth=5, unroll=64)
        pre = host.preset(PATH, tree(symbolic, cols))
        pre.update(heap)
        it.host, it.preset = host, pre
        r = it.run(g, bind=defaults(it, g, bind), selfcls=f.cls)
        miss = missing(r)
        bad = [(m, at_(g)) for m, _ in host.faults] + [('%r is read but is not stored' % k, w) for k, w in miss]
        ok = [y for y in normal(r) if q != 'volume' or y.value is not None and y.value is not NONE]
        why = bad[0][0] if bad else 'always fails'
        rep.ob(rule, 'LCHandler.%s of %s' % (q, kind), bool(ok) and not bad, bad[0][1] if bad else at_(g), why)


def tup2():
    return mk('tuple', P('low'), P('high'))


# ---------------------------------------------------------------- extending
def extend(prog, rep, made):
    for nm, f, res in extenders(prog):
        rep.saw(f)
        reads = {}
        for e in res.events:
            a = attrof(mk('sub', e.base, e.idx)) if e.kind == 'getsub' else None
            if a is not None:
                if datapath(e.base) == ():
                    reads.setdefault(a, e.where)
            elif e.kind == 'getsub' and e.idx.op == 'const' and isinstance(e.idx.a[0], str):
                n = datanode(e.base)
                if n is not None and any(x is mk('attr', ME, 'lc_path') for x in subterms(n[0])):
                    if n[1] == ():
                        reads.setdefault((e.idx,), e.where)
                    elif n[1] == (K('Indexing'),):
                        reads.setdefault((K('Indexing'), e.idx), e.where)
        own = {a for a in recorded(res)[0]}
        for mode, (bn, bf, attrs, cols, paths, copied) in made.items():
            for k, w in sorted(reads.items(), key=lambda x: str(x[0])):
                if isinstance(k, tuple):
                    rep.ob('extending', '%s of %s: %s' % (nm, mode, '/'.join(x.a[0] for x in k)), k in paths, w, 'is read but %s does not make it' % bn)
                elif k not in own:
                    rep.ob('extending', '%s of %s: %s' % (nm, mode, k), k in attrs, w, 'is read but %s does not store it' % bn)
        for e in res.events:
            if e.kind == 'mcall' and e.name == 'create_dataset' and e.args:
                n = datanode(e.recv)
                if n is None or n[1] != (K('Lightcone Full'),):
                    continue
                has(rep, nm, n[1] + (e.args[0],), e, res.events)
                turns(rep, nm, e, 'new column')
                chunking(rep, nm, e)


def chunking(rep, nm, e):
    c = e.kws.get('chunks')
    s = e.kws.get('shape', e.args[1] if len(e.args) > 1 else None)
    if c is None or s is None or e.kws.get('maxshape') is not None:
        if c is None:
            rep.ob('empty light cone', nm, True, e.where)
        return
    for label, n, k in (('no halos', 0, 2500), ('fewer halos than a chunk', 7, 2500), ('a chunk of halos', 2500, 2500), ('more halos than a chunk', 9000, 2500)):
        v = choose(c, s, n, k)
        if v is None:
            rep.notes.append('%s: chunks of a light cone with %s not followed' % (nm, label))
            continue
        if v == 'none':
            rep.ob('empty light cone', '%s: %s' % (nm, label), True, e.where)
        else:
            rep.ob('empty light cone', '%s: %s' % (nm, label), 0 < v <= n, e.where, 'the data set cannot be created: chunks of %d for %d halos' % (v, n))


def choose(t, s, n, k):
    """chunk length used for n halos when the index data set has chunks of k ('none': not chunked)"""
    if t is NONE or t.op == 'const' and t.a[0] in (None, True):
        return 'none'
    if t is s:
        return n
    if t.op == 'phi':
        b = truth(t.a[0], s, n, k)
        return None if b is None else choose(t.a[1] if b else t.a[2], s, n, k)
    if t.op == 'attr' and t.a[1] == 'chunks':
        return k
    if t.op == 'attr' and t.a[1] == 'shape':
        return n
    if t.op in ('tuple', 'list') and len(t.a) == 1:
        return number(t.a[0], s, n, k)
    return None


def number(t, s, n, k):
    if t.op == 'const' and isinstance(t.a[0], int):
        return t.a[0]
    if t.op == 'phi':
        b = truth(t.a[0], s, n, k)
        return None if b is None else number(t.a[1] if b else t.a[2], s, n, k)
    if t.op == 'sub' and is_const(t.a[1], 0, -1):
        if t.a[0].op == 'attr' and t.a[0].a[1] == 'shape' or t.a[0] is s:
            return n
        if t.a[0].op == 'attr' and t.a[0].a[1] == 'chunks':
            return k
        x = choose(t.a[0], s, n, k)
        return x if isinstance(x, int) else None
    if t.op == 'attr' and t.a[1] == 'size' or t.op == 'len' or is_call(t, 'builtins.len'):
        return n
    if is_call(t, 'builtins.min', 'builtins.max', 'numpy.minimum', 'numpy.maximum') and len(t.a[1]) == 2:
        x = [number(y, s, n, k) for y in t.a[1]]
        return None if None in x else min(x) if 'min' in t.a[0].a[0] else max(x)
    return None


def truth(c, s, n, k):
    if c.op == 'not':
        b = truth(c.a[0], s, n, k)
        return None if b is None else not b
    if c.op in ('and', 'or'):
        b = [truth(x, s, n, k) for x in c.a]
        return None if None in b else all(b) if c.op == 'and' else any(b)
    if c.op == 'const':
        return bool(c.a[0])
    if c.op == 'cmp' and c.a[0] in ('<', '<=', '>', '>=', '==', '!='):
        x, y = number(c.a[1], s, n, k), number(c.a[2], s, n, k)
        if x is None or y is None:
            return None
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[c.a[0]]
    x = number(c, s, n, k)
    return None if x is None else bool(x)


def at_(f):
    return '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
