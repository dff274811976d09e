"""Formatting raw snapshots: one ordering for all columns, listed snapshots are the stored ones."""
from common import *
from flow import Interp
from store import Store, node, bare, full
import vec as vecs
import prov

ASSUMPTIONS = [
    'unit transforms and array functions applied to a whole raw column act row by row',
    'a simulation loader returns one row per halo for every field it is asked for',
    'snapshot metadata has one row per snapshot, found by its index column',
    'formatting is followed for small sets of concrete snapshot numbers (absent, present, requested, without metadata); the code treats every number alike',
]
ME = P('self')
PATH = K('/d/data.hdf5')
CONCAT = ('numpy.concatenate', 'numpy.hstack', 'numpy.append', 'numpy.r_')


def meta(ids):
    return mk('obj', 'meta', tuple(ids))


class Host(Store):
    """Data file plus tables of snapshot metadata with concrete snapshot numbers"""

    def owns(self, t):
        return Store.owns(self, t) or t.op == 'obj' and t.a[0] == 'meta'

    def table(self, t):
        return t.op == 'obj' and t.a[0] == 'meta'

    def getsub(self, it, ctx, st, n_, n, i):
        if not self.table(n):
            return Store.getsub(self, it, ctx, st, n_, n, i)
        v = vecs.V(*[K(x) for x in n.a[1]])
        if i.op == 'const' and isinstance(i.a[0], str):
            return v if i.a[0] == 'index' else mk('col', n, i)
        if i.op == 'const' and isinstance(i.a[0], int):
            return meta((n.a[1][i.a[0]],)) if -len(n.a[1]) <= i.a[0] < len(n.a[1]) else None
        s = vecs.select(it, v, i)
        return meta(vecs.consts(s)) if s is not None else mk('sub', n, i)

    def setsub(self, it, ctx, st, n_, n, i, v):
        return False if self.table(n) else Store.setsub(self, it, ctx, st, n_, n, i, v)

    def delsub(self, it, ctx, st, n_, n, i):
        return False if self.table(n) else Store.delsub(self, it, ctx, st, n_, n, i)

    def entries(self, it, st, n):
        return L(*[meta((x,)) for x in n.a[1]]) if self.table(n) else Store.entries(self, it, st, n)

    def getattr(self, it, st, n, attr):
        if self.table(n):
            return K(len(n.a[1])) if attr == 'size' else mk('tuple', K(len(n.a[1]))) if attr == 'shape' else None
        return Store.getattr(self, it, st, n, attr)

    def method(self, it, ctx, st, n_, n, name, args, kws):
        if self.table(n):
            if name in ('copy', 'astype', 'tolist'):
                return n
            if name == '__len__':
                return K(len(n.a[1]))
            if name == 'take' and args:
                return self.getsub(it, ctx, st, n_, n, args[0])
            return None
        return Store.method(self, it, ctx, st, n_, n, name, args, kws)

    def call(self, it, ctx, st, n, ft, args, kws):
        nm = ft.a[0] if ft.op == 'ext' else None
        if nm in CONCAT and args:
            parts = list(args[0].a) if args[0].op in ('list', 'tuple') else list(args[:2])
            if parts and all(self.table(x) for x in parts):
                return meta([y for x in parts for y in x.a[1]])
        if args and self.table(args[0]):
            if nm == 'builtins.len' or nm == 'numpy.size':
                return K(len(args[0].a[1]))
            if nm == 'numpy.sort':
                return meta(sorted(args[0].a[1])) if kws.get('order', K('index')) is K('index') else None
            if nm in ('numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.atleast_1d'):
                return args[0]
            if nm == 'numpy.unique':
                return meta(sorted(set(args[0].a[1])))
            if nm == 'numpy.delete' and len(args) > 1:
                c = vecs.consts(args[1]) if args[1].op in ('vec', 'list', 'tuple') else [args[1].a[0]] if args[1].op == 'const' else None
                return meta([x for i, x in enumerate(args[0].a[1]) if i not in c]) if c is not None else None
        return Store.call(self, it, ctx, st, n, ft, args, kws)


def fields(*n):
    return L(*[mk('tuple', K(x), K('f'), K('unit of ' + x), K('h of ' + x)) for x in n])


BASIC = {'p': ('pos_x', 'pos_y', 'pos_z'), 'm': ('mass',)}
DM = {'d': ('dd',), 'e': ('ea', 'eb')}
MATTER = {'t': ('ta', 'none', 'tb')}
TRANS = ('p', 'd')
ALL = {**BASIC, **DM, **MATTER}


def source(name):
    """(raw key, component or None) of a column"""
    for k, v in ALL.items():
        if name in v:
            return k, (v.index(name) if len(v) > 1 else None)


def names(g):
    return [x for v in g.values() for x in v if not x.startswith('none')]


def stored(cols):
    return {c: (P('old ' + c), {'units': K('unit of ' + c), 'h dependence': K('h of ' + c)}) for c in cols}


CASES = {
    'no file yet': dict(old=None, args={}, want={3: 'new', 7: 'new'}),
    'no file yet, basic fields only': dict(old=None, args={'basic': TRUE}, want={3: 'new', 7: 'new'}, cols=names(BASIC)),
    'file with another snapshot': dict(old=[9], args={}, want={9: 'old', 3: 'new', 7: 'new'}),
    'file with one of the snapshots': dict(old=[3], args={}, want={3: 'old', 7: 'new'}),
    'file with one of the snapshots, overwrite': dict(old=[3], args={'overwrite': TRUE}, want={3: 'new', 7: 'new'}),
    'file with all the snapshots': dict(old=[3, 7], args={}, want={3: 'old', 7: 'old'}),
    'file with all the snapshots, overwrite': dict(old=[3, 7], args={'overwrite': TRUE}, want={3: 'new', 7: 'new'}),
    'file with other snapshots, remake': dict(old=[3, 9], args={'remake': TRUE}, want={3: 'new', 7: 'new'}),
    'file with basic fields only': dict(old=[9], args={}, want={9: 'old', 3: 'new', 7: 'new'}, cols=names(BASIC), oldcols=names(BASIC)),
    'file with part of the fields': dict(old=[9], args={}, want={9: 'old', 3: 'new', 7: 'new'}, cols=names(BASIC) + ['dd'], oldcols=names(BASIC) + ['dd']),
    'a requested snapshot without metadata': dict(old=None, args={}, meta=(3, 9), want={3: 'new'}),
    'adding a snapshot without metadata': dict(old=[9], args={}, meta=(3, 9), want={9: 'old', 3: 'new'}),
    'snapshots without halos': dict(old=None, args={}, n=0, want={3: 'new', 7: 'new'}),
    'empty file': dict(old=[], args={}, want={3: 'new', 7: 'new'}),
}


def run(prog, f, case, host=None, base='/d', models=None, fail=None):
    host = host or Host()
    PATH = K(base + '/data.hdf5')
    it = Interp(prog, inline=lambda a, b: b.name not in ('_loader', '_get_rawsnapfiles'), depth=6)
    it.vec, it.host = True, host
    it.fail = fail
    it.preset = {(ME, 'path'): K(base), (ME, 'snaps'): vecs.V(K(3), K(7)), (ME, 'snap_meta'): meta(case.get('meta', (3, 7, 9))),
                 (ME, 'metadata'): D((K('cosmo_h'), P('h')), (K('name'), P('simulation name'))), (ME, 'h'): P('h'), (ME, 'sim'): K('sim'),
                 (ME, 'transform_keys'): D(*[(K(k), P('transform ' + k)) for k in TRANS])}
    for a, g in (('basic_fields', BASIC), ('dm_fields', DM), ('matter_fields', MATTER)):
        it.preset[(ME, a)] = D(*[(K(k), fields(*v)) for k, v in g.items()])
    n = case.get('n', 5)

    def loader(a, k):
        s = k.get('snapshot', a[1] if len(a) > 1 else K('?'))
        return mk('tuple', D(*[(K(x), mk('raw', K(x), s)) for x in ALL]), K(n))
    it.models = {(ME, '_loader'): loader, **(models or {})}
    it.models[mk('ext', 'os.path.join')] = lambda a, k: K('/'.join(x.a[0] for x in a)) if all(x.op == 'const' for x in a) else None
    old = case['old']
    there = K(old is not None)
    it.models[mk('ext', 'os.path.exists')] = it.models[mk('ext', 'os.path.isfile')] = lambda a, k: there if a and a[0] is PATH else None
    if old is not None:
        tree = {'Snapshot %d' % s: stored(case.get('oldcols', names(ALL))) for s in old}
        tree['@'] = {'cosmo_h': P('h'), 'name': P('simulation name'), 'snapshots': meta(old), 'number_snaps': K(len(old))}
        it.preset.update(host.preset(PATH, tree))
        for s in old:
            it.preset[(node('attrs', PATH, ('Snapshot %d' % s,), None), 'kids')] = D((K('metadata'), meta((s,))))
    r = it.run(f, bind=defaults(it, f, {**dict(remake=FALSE, overwrite=FALSE, basic=FALSE, realtime_clean_raw=FALSE), **case['args']}), selfcls=f.cls)
    return it, host, r


class View(object):
    def __init__(self, host, it, st):
        self.h, self.it, self.st = host, it, st

    def kids(self, n):
        k = self.h.kids(self.it, self.st, n)
        return {x.a[0]: v for x, v in k.a[0]} if k is not None else None

    def attrs(self, n):
        return self.kids(node('attrs', n.a[2], n.a[3], None))

    def value(self, n):
        return self.h.get(self.it, self.st, n, 'value')


def check(prog, rep):
    rep.rule('snapshots-stored', 'after formatting, the file holds the requested snapshots (that have metadata) and keeps the ones that were not to be replaced', 10)
    rep.rule('all-fields-stored', 'each new snapshot has a data set for every field (or for those of the file it is added to)', 10)
    rep.rule('listed-stored', 'the stored snapshot metadata lists exactly the snapshots stored, with their number', 10)
    rep.rule('own-metadata', 'the metadata kept with a snapshot is that of the snapshot', 10)
    rep.rule('own-column', 'each data set holds its own raw field of its own snapshot, converted once, with its own unit and h dependence', 40)
    rep.rule('same-rows', 'all data sets of a snapshot hold the same halos in the same order', 40)
    rep.rule('mass-sorted', 'halos are stored in order of decreasing mass', 6)
    rep.rule('mass-cuts', 'the entry of a mass cut counts the halos of at least that mass', 3)
    rep.rule('listed-once-complete', 'a snapshot is listed only after its data are in the file under its name, and gets that name only when complete', 10)
    f = prog.func('SimCatalogs.format')
    if f is None:
        rep.notes.append('SimCatalogs.format not found')
        return
    rep.saw(f)
    wh = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    for name, case in CASES.items():
        it, host, r = run(prog, f, case)
        one(rep, f, wh, name, case, it, host, r)


def ob(rep, rule, wh, ok, msg):
    rep.ob(rule, 'SimCatalogs.format', ok, wh, msg)


def one(rep, f, wh, name, case, it, host, r):
    exits = [e for e in r.exits if e.kind != 'raise']
    unknown = [e for e in exits if e.guards and not all(concrete(g) for g in e.guards)]
    if not exits:
        if r.exits:
            ob(rep, 'snapshots-stored', wh, False, 'with %s, formatting ends with an error: %s' % (name, show(r.exits[0].value)[:80]))
        return
    if len(exits) > 1 and unknown:
        rep.notes.append('%s: %d ways to end, not all decided' % (name, len(exits)))
    for e in exits:
        final_state(rep, f, wh, name, case, it, host, e)
    order(rep, wh, name, case, it, host)
    for m, ctx in host.faults:
        if "is deleted but is not there" in m or "is linked but" in m or "is created but" in m:
            ob(rep, 'snapshots-stored', wh, False, 'with %s: %s' % (name, m))


def concrete(g):
    return all(x.op not in ('param', 'call', 'mcall', 'attr') for x in subterms(g[0] if isinstance(g, tuple) else g))


def final_state(rep, f, wh, name, case, it, host, e):
    v = View(host, it, e.state)
    root = node('file', PATH, (), None)
    groups = v.kids(root)
    if groups is None:
        rep.notes.append('%s: contents of the file are not known' % name)
        return
    want = {'Snapshot %d' % s: k for s, k in case['want'].items()}
    ob(rep, 'snapshots-stored', wh, set(groups) == set(want), 'with %s, the file holds %s instead of %s' % (name, sorted(groups), sorted(want)))
    at = v.attrs(root) or {}
    listed = at.get('snapshots')
    if listed is not None and listed.op == 'obj' and listed.a[0] == 'meta':
        ob(rep, 'listed-stored', wh, sorted(listed.a[1]) == sorted(case['want']), 'with %s, the file lists snapshots %s but holds %s' % (name, list(listed.a[1]), sorted(case['want'])))
    elif listed is None:
        ob(rep, 'listed-stored', wh, False, 'with %s, the snapshots are not listed in the file' % name)
    else:
        rep.notes.append('%s: list of snapshots %s' % (name, show(listed)[:80]))
    num = at.get('number_snaps')
    if num is None or num.op == 'const':
        ob(rep, 'listed-stored', wh, num is not None and num.a[0] == len(case['want']), 'with %s, the number of snapshots is given as %s instead of %d' % (name, num and num.a[0], len(case['want'])))
    for k in ('cosmo_h', 'name'):
        ob(rep, 'listed-stored', wh, k in at, 'with %s, simulation metadata entry %r is not in the file' % (name, k)) if case['old'] is None else None
    for g, n in groups.items():
        if g not in want:
            continue
        s = int(g.split()[1])
        a = v.attrs(n) or {}
        md = a.get('metadata')
        if md is None or md.op == 'obj' and md.a[0] == 'meta':
            ob(rep, 'own-metadata', wh, md is not None and md.a[1] == (s,), 'with %s, %r carries the metadata of %s' % (name, g, md and list(md.a[1])))
        cols = v.kids(n)
        if cols is None:
            rep.notes.append('%s: contents of %s not known' % (name, g))
            continue
        if want[g] == 'old':
            ok = all(v.value(c).op == 'param' for c in cols.values() if v.value(c) is not None)
            ob(rep, 'snapshots-stored', wh, ok, 'with %s, %r was not to be replaced but its data are changed' % (name, g))
            continue
        if any(c[0] == 'unknown' and c[2].a[3][:len(n.a[3])] == n.a[3] for c in host.changes):
            rep.notes.append('%s: data sets of %s are given names that are not followed' % (name, g))
            continue
        wanted = set(case.get('cols', names(ALL)))
        have = set(cols) - {'mass_cuts'}
        ob(rep, 'all-fields-stored', wh, have == wanted, 'with %s, %r lacks %s%s' % (name, g, sorted(wanted - have), ' and has also %s' % sorted(have - wanted) if have - wanted else ''))
        if case.get('n', 5) == 0:
            continue
        columns(rep, wh, name, g, s, {c: v.value(x) for c, x in cols.items()}, {c: v.attrs(x) or {} for c, x in cols.items()})


def unfilled(t):
    """a column of a new record array no statement fills"""
    name = None
    while True:
        if t.op == 'sub' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], str):
            if name is not None:
                return False
            name, t = t.a[1].a[0], t.a[0]
        elif t.op == 'sub':
            t = t.a[0]
        elif t.op == 'upd' and name is not None and t.a[1].op == 'const' and isinstance(t.a[1].a[0], str) and t.a[1].a[0] != name:
            t = t.a[0]
        else:
            return name is not None and t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.empty', 'numpy.zeros')


def columns(rep, wh, name, g, s, vals, attrs):
    chains = {}
    for c in sorted(vals):
        if c == 'mass_cuts' or source(c) is None:
            continue
        k, comp = source(c)
        for a, w in (('units', 'unit of ' + c), ('h dependence', 'h of ' + c)):
            x = attrs[c].get(a)
            if x is None or x.op == 'const':
                ob(rep, 'own-column', wh, x is not None and x.a[0] == w, '%s of %r in %r is %s' % (a, c, g, x and x.a[0]))
        if vals[c] is None:
            continue
        row, ch = prov.norm(vals[c])
        if row is None and unfilled(vals[c]):
            ob(rep, 'own-column', wh, False, 'nothing is put in column %r of %r: it holds whatever was in memory' % (c, g))
            continue
        if row is None:
            rep.notes.append('%s: contents of column %s are not understood: %s' % (name, c, show(vals[c])[:80]))
            continue
        chains[c] = ch
        raw = mk('raw', K(k), K(s))
        trans = [x for x in subterms(row) if x.op == 'rowcall' and x.a[0].op == 'param' and x.a[0].a[0].startswith('transform')]
        raws = {x for x in subterms(row) if x.op == 'raw'}
        comps = {x.a[1].a[0] for x in subterms(row) if x.op == 'component'}
        if not raws:
            rep.notes.append('%s: column %s is %s' % (name, c, show(row)[:80]))
            continue
        ob(rep, 'own-column', wh, raws == {raw}, 'column %r of %r is made from raw field %s' % (c, g, [(x.a[0].a[0], x.a[1].a[0] if x.a[1].op == 'const' else show(x.a[1])) for x in raws]))
        ob(rep, 'own-column', wh, comps == ({comp} if comp is not None else set()), 'column %r of %r is component %s of its raw field instead of %s' % (c, g, sorted(comps), comp))
        t = mk('param', 'transform ' + k)
        ob(rep, 'own-column', wh, [x.a[0] for x in trans] == ([t] if k in TRANS else []), 'column %r of %r goes through conversions %s' % (c, g, [x.a[0].a[0] for x in trans]))
        mixed = [x for x in subterms(row) if x.op == 'mixed']
        ob(rep, 'same-rows', wh, not mixed, 'column %r of %r combines differently ordered rows' % (c, g))
    if 'mass' not in chains:
        return
    ref = chains['mass']
    for c, ch in chains.items():
        ob(rep, 'same-rows', wh, ch == ref, 'with %s, column %r of %r is ordered by %s but mass by %s' % (name, c, g, said(ch), said(ref)))
    d = descending(ref, mk('raw', K('m'), K(s)))
    if d is None:
        rep.notes.append('%s: ordering %s' % (name, said(ref)))
    else:
        ob(rep, 'mass-sorted', wh, d, 'with %s, rows of %r are ordered by %s, not by decreasing mass' % (name, g, said(ref)))
    cuts(rep, wh, name, g, vals.get('mass_cuts'), ref)


def said(ch):
    if not ch:
        return 'the raw file'
    return ', then '.join('reversed' if x is prov.REV else repr(x)[:90] for x in ch)


def descending(ch, m):
    """True / False / None for an order of decreasing mass"""
    if not ch:
        return False
    x = ch[0]
    if x.op != 'argsort' or x.a[1]:
        return None
    key = x.a[0]
    raws = {y for y in subterms(key) if y.op == 'raw'}
    if raws and m not in raws:
        return False
    if key is m:
        return True if ch[1:] == (prov.REV,) else False if len(ch) == 1 else None
    if key.op == 'neg' and key.a[0] is m or key.op == 'bin' and key.a[0] == '*' and m in key.a[1:] and K(-1) in key.a[1:]:
        return True if len(ch) == 1 else False if ch[1:] == (prov.REV,) else None
    return None


def cuts(rep, wh, name, g, t, ref):
    if t is None:
        ob(rep, 'mass-cuts', wh, False, 'with %s, %r has no mass cuts' % (name, g))
        return
    ok = None
    for x in subterms(t):
        if x.op != 'cmp' or x.a[0] not in ('<', '<=', '>', '>='):
            continue
        side = []
        for y in x.a[1:]:
            row, ch = prov.norm(y)
            side.append((row, ch))
        for k in (0, 1):
            row, ch = side[k]
            if row is not None and row.op == 'raw' and row.a[0] is K('m') and 'min_mass' in [z.a[0] for z in subterms(x.a[2 - k]) if z.op == 'const']:
                op = x.a[0] if k == 0 else {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[x.a[0]]
                if op != '>=':
                    ob(rep, 'mass-cuts', wh, False, 'a mass cut of %r compares the masses with %s instead of >=' % (g, op))
                    return
                how = counted(t, x)
                if how is None:
                    continue
                if how == 'last' and ch != ref:
                    ob(rep, 'mass-cuts', wh, False, 'the mass cuts of %r are positions in the order of %s but the data are in the order of %s' % (g, said(ch), said(ref)))
                    return
                ok = how != 'off'
    if ok is None:
        rep.notes.append('%s: form of the mass cuts not recognised' % name)
    else:
        ob(rep, 'mass-cuts', wh, ok, 'the mass cuts of %r are not the number of halos above the cut' % g)


def counted(t, c):
    """'count' / 'last' (last position + 1) / 'off' / None"""
    found = None
    for x in subterms(t):
        if x.op != 'upd' or x.a[1].op == 'const' and isinstance(x.a[1].a[0], str):
            continue
        v = x.a[2]
        if c not in set(subterms(v)):
            continue
        vs = [y for _, y in leaves(v)]
        for y in vs:
            if is_const(y, 0) or c not in set(subterms(y)):
                continue
            k = form(y, c)
            if k is None:
                return None
            found = k
    return found


def where(t, c):
    if t.op == 'sub' and is_const(t.a[1], 0) and is_call(t.a[0], 'numpy.where', 'numpy.nonzero') and t.a[0].a[1][0] is c:
        return True
    return is_call(t, 'numpy.flatnonzero') and t.a[1][0] is c


def form(y, c):
    if y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] in ('numpy.sum', 'numpy.count_nonzero', 'builtins.sum') and y.a[1][0] is c:
        return 'count'
    if y.op == 'mcall' and y.a[0] == 'sum' and y.a[1] is c:
        return 'count'
    if is_call(y, 'builtins.len') and where(y.a[1][0], c):
        return 'count'
    if y.op == 'attr' and y.a[1] == 'size' and where(y.a[0], c):
        return 'count'
    k, m = 0, y
    if y.op == 'bin' and y.a[0] in '+-':
        for i in (1, 2):
            if y.a[3 - i].op == 'const' and isinstance(y.a[3 - i].a[0], int) and (y.a[0] == '+' or i == 1):
                k, m = (1 if y.a[0] == '+' else -1) * y.a[3 - i].a[0], y.a[i]
    last = is_call(m, 'builtins.max', 'numpy.max', 'numpy.amax') and where(m.a[1][0], c) or m.op == 'sub' and is_const(m.a[1], -1) and where(m.a[0], c) or m.op == 'mcall' and m.a[0] == 'max' and where(m.a[1], c)
    if last:
        return 'last' if k == 1 else 'off'
    if m is not y and form(m, c) == 'count':
        return 'off' if k else 'count'
    return None


def order(rep, wh, name, case, it, host):
    """replay of the changes made to the file"""
    root = bare(node('file', PATH, (), None))
    have = {'Snapshot %d' % s for s in (case['old'] or [])}
    built = {}
    for i, (what, nm, n, guards, value, ctx) in enumerate(host.changes):
        if what == 'truncate':
            have = set()
        elif n is root and what in ('create', 'link'):
            have.add(nm)
            if what == 'create':
                built[nm] = n.a[3] + (nm,)
            elif value is not None and Store.owns(host, value):
                built[nm] = value.a[3]
                later = [(w, k) for w, k, m, *_ in host.changes[i + 1:] if m.a[3][:len(value.a[3])] == value.a[3] and m.a[3] and w != 'link']
                ob(rep, 'listed-once-complete', wh, not later, 'with %s, %r gets its name before it is complete (%s %s comes later)' % (name, nm, *(later[0] if later else ('', ''))))
        elif n is root and what == 'delete':
            have.discard(nm)
        elif what == 'attr' and nm == 'snapshots' and value is not None and value.op == 'obj' and value.a[0] == 'meta':
            bad = ['Snapshot %d' % s for s in value.a[1] if 'Snapshot %d' % s not in have]
            ob(rep, 'listed-once-complete', wh, not bad, 'with %s, %s is listed before it is in the file' % (name, bad))
    for nm, p in built.items():
        if p == (nm,):         # filled in under its own name
            idx = [i for i, c in enumerate(host.changes) if c[2].a[3][:1] == (nm,)]
            first = [i for i, c in enumerate(host.changes) if c[0] == 'create' and c[1] == nm and c[2] is root]
            ob(rep, 'listed-once-complete', wh, not (first and idx and max(idx) > first[-1]), 'with %s, %r has its name before it is complete' % (name, nm))
