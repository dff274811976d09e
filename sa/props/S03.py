"""Every row of a snapshot table, and every lookup in one, describes one and the same snapshot."""
import fnmatch
import math
import concrete
from instr import *
from terms import poly

ASSUMPTIONS = [
    'file names and the answers of the simulation servers have the forms the code documents; redshifts differ between snapshots and fall with their number',
    'astropy is taken at its word: age falls with redshift, z_at_value inverts age',
    'rounding to the precision of the stored table is left out of account',
]
FIELDS = ('redshift', 'redshift_min', 'redshift_max', 'time_start', 'time_end', 'distance_min', 'distance_max', 'transverse_distance_min', 'transverse_distance_max')
DIST = {'distance': 'comoving_distance', 'transverse_distance': 'comoving_transverse_distance'}
E_ = lambda n: mk('ext', n)
DIR = K('/d')


def check(prog, rep):
    rep.rule('row', 'the table has one row per selected snapshot, with the number and redshift of that snapshot, whatever order the server lists them in', 20)
    rep.rule('bounds', 'a snapshot begins where the one before ends, half way in time; the first begins at its own redshift and the last ends today', 20)
    rep.rule('distance', 'distances are those of the redshift they stand next to, times little h', 20)
    rep.rule('file', 'the file read for a snapshot is the one whose redshift the table gives', 6)
    rep.rule('cosmology', 'cosmologies are built from the parameters of the simulation at hand', 3)
    rep.rule('lookup', 'looking up a snapshot by redshift or number gives the snapshot holding it, with its own redshift', 12)
    rep.rule('mass', 'the number of halos to read for a mass limit leaves out none above the limit', 6)
    Check(prog, rep).all()


class Page(Host):
    """comparisons, with all else left to the models"""


class Check(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep

    def all(self):
        for name, sims in (('UchuuCatalogs', ['UniverseMachine-uchuu']), ('UniversemachineCatalogs', ['_testbox', 'UniverseMachine-BolshoiPlanck', 'UniverseMachine-SMDPL', 'UniverseMachine-MDPL2']),
                           ('IllustrisCatalogs', ['Illustris-1', 'TNG100-1'])):
            cls = self.prog.cls(name)
            if cls is None or self.prog.lookup(cls, 'download_meta') is None:
                self.rep.notes.append('no %s' % name)
                continue
            for sim in sims:
                for how, files, snaps in self.scenes(name, sim):
                    try:
                        self.tables(cls, sim, how, files, snaps)
                    except Lost as x:
                        self.rep.notes.append('%s, %s: %s' % (sim, how, x))
        self.handler()
        self.cosmologies()

    # ---------------------------------------------------------------- tables

    def scenes(self, name, sim):
        zs = [11.5, 9.1, 3.13, 1.5, 0.49, 0.03]
        orders = {'listed from high redshift to low': [0, 1, 2, 3, 4, 5], 'listed from low redshift to high': [5, 4, 3, 2, 1, 0], 'listed in no order': [2, 0, 5, 3, 1, 4]}
        picks = {'': [0, 1, 2, 3, 4, 5], ', some selected': [1, 2, 4], ', one selected': [3]}
        if sim == '_testbox':
            for p, s in (('all selected', [0, 1, 2]), ('some selected', [0, 2]), ('one selected', [1])):
                yield p, None, s
            return
        for o, order in sorted(orders.items()):
            for p, s in sorted(picks.items()):
                if name.startswith('Uchuu'):
                    files = [('Uchuu_UM_z%dp%02d_data1.h5' % (int(z), round(100 * (z - int(z)))), z) for z in zs]
                elif name.startswith('Univ'):
                    a = ['%.6f' % (1 / (1 + z)) for z in zs]
                    files = [('sfr_catalog_%s.%s' % (x, 'txt' if 'Bolshoi' in sim else 'bin'), 1 / float(x) - 1) for x in a]
                else:
                    files = [(50 + 2 * i, z) for i, z in enumerate(zs)]
                yield o + p, [files[i] for i in order], s

    def interp(self):
        it = Interp(self.prog, inline=lambda a, b: b.cls is None or b.cls.name != '_SimIMPaths', depth=7, unroll=400)
        it.host, it.exact, it.vec = Page(), True, True
        it.models = concrete.models()
        it.models.update({E_('os.path.exists'): lambda a, k: K(a[0] is DIR), E_('fnmatch.fnmatch'): lambda a, k: K(fnmatch.fnmatch(a[0].a[0], a[1].a[0])) if len(a) == 2 and all(x.op == 'const' for x in a) else None,
                          E_('numpy.intersect1d'): self.sets(lambda x, y: x & y), E_('numpy.setdiff1d'): self.sets(lambda x, y: x - y)})
        Bench.serial += 1
        it.nalloc = 1000 * Bench.serial
        return it

    @staticmethod
    def sets(fn):
        def go(a, k):
            x, y = concrete.nums(a[0]), concrete.nums(a[1])
            return concrete.arr(sorted(fn(set(x), set(y)))) if x is not None and y is not None and not k else None
        return go

    def listed(self, g):
        """names a module writes out"""
        for m in self.prog.modules.values():
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and g.a[0] == '%s.%s' % (m.name, x.id) for x in s.targets):
                    xs = [x.value for x in ast.walk(s.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                    return L(*[K(x) for x in xs])
        return g

    def one(self, r, what):
        ex = [x for x in normal(r)]
        if len(ex) != 1:
            bad = [x for x in r.exits if x not in ex]
            raise Lost('%s: %d ways through (%s)' % (what, len(ex), ', '.join(sorted({str(getattr(x, 'value', ''))[:40] for x in bad}))))
        return ex[0]

    def mine(self, x):
        return {a: (x.state.store[l] if isinstance(l, int) else l) for (o, a), l in x.state.heap.items() if o is ME}

    def tables(self, cls, sim, how, files, snaps):
        prog, rep = self.prog, self.rep
        init, meta = prog.lookup(cls, '__init__'), prog.lookup(cls, 'download_meta')
        tag = '%s, %s' % (sim, how)
        where = '%s:%s %s' % (meta.module.path, meta.node.lineno, meta.qual)
        ill = sim.startswith(('Ill', 'TNG'))
        page = mk('obj', 'page')
        it = self.interp()
        it.models[E_('requests.get')] = lambda a, k: page
        it.preset = {} if files is None or ill else {(page, 'text'): K(' '.join('<a href="%s">x</a>' % f for f, z in files))}
        want = [(f, z) for f, z in sorted(files, key=lambda p: -p[1])] if files is not None else None
        numbers = [want[i][0] if ill else i for i in snaps]
        bind = {'sim': K(sim), 'path': DIR, 'snaps': L(*[K(i) for i in numbers]), 'updatepath': FALSE}
        if ill:
            bind['api_key'] = K('key')
        r = it.run(init, bind=defaults(it, init, bind), selfcls=cls)
        x = self.one(r, 'setting up')
        own = self.mine(x)
        if files is None:
            v = own.get('web_files')
            v = self.listed(v) if v is not None and v.op == 'glob' else v
            names = concrete.nums(v.a[1][0] if v is not None and v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] in ('numpy.array', 'numpy.asarray') and v.a[1] else v)
            if names is None:
                raise Lost('file names of %s not known' % sim)
            own.update(web_files=concrete.arr(names), snaps=concrete.arr(numbers), allsnaps=concrete.arr(range(len(names))))
            want = sorted([(f, 1 / float(re_num(f)) - 1) for f in names], key=lambda p: -p[1])
        it = self.interp()
        it.preset = {(o, a): v for (o, a), v in ((k, x.state.store[l] if isinstance(l, int) else l) for k, l in x.state.heap.items()) if o is not ME}
        info = {'name': K(sim), 'boxsize': K(75000.0), 'num_snapshots': K(len(want)), 'cosmology': K('c'), 'omega_0': K(0.31), 'omega_L': K(0.69), 'omega_B': K(0.047), 'hubble': K(0.71), 'num_files_groupcat': K(8)}
        if ill:
            snap = mk('obj', 'snapshots page')
            it.models[E_('requests.get')] = lambda a, k: snap if a and a[0].op == 'const' and str(a[0].a[0]).rstrip('/').endswith('snapshots') else page
            it.models[(page, 'json')] = lambda a, k: D(*[(K(n), v) for n, v in sorted(info.items())])
            it.models[(snap, 'json')] = lambda a, k: L(*[D((K('number'), K(n)), (K('redshift'), K(z))) for n, z in files])
        r = it.run(meta, bind=defaults(it, meta, {'redownload': FALSE}), selfcls=cls, heap=own)
        rep.saw(meta)
        if r.exits and all(x.kind == 'raise' for x in r.exits):
            rep.ob('row', '%s: rows' % tag, False, where, 'the table cannot be made: line %s raises an error' % getattr(r.exits[0].node, 'lineno', 0))
            return
        x = self.one(r, 'making the table')
        now = self.mine(x)
        table = now.get('snap_meta')
        if table is None or table is NONE:
            raise Lost('no table')
        t = Table(table)
        md = {k.a[0]: v for k, v in now['metadata'].a[0] if k.op == 'const'} if now.get('metadata') is not None and now['metadata'].op == 'dict' else {}
        n = t.rows()
        rows = [(numbers[j], want[i][1]) for j, i in enumerate(snaps)]
        if n is None:
            raise Lost('number of rows not known')
        if not rep.ob('row', '%s: rows' % tag, n == len(rows), where, '%d snapshots are selected, the table has %d rows' % (len(rows), n)):
            return
        cells = []
        for i, (num, z) in enumerate(rows):
            c = {f: t.cell(i, f) for f in FIELDS + ('index',)}
            cells.append(c)
            for f in FIELDS:
                if c[f] is not None and unset(c[f]):
                    c[f] = MISSING
            for f, v in (('index', num), ('redshift', z)):
                if c[f] is MISSING:
                    rep.ob('row', '%s: %s of snapshot %s' % (tag, f, num), False, where, 'the %s is not put in the table' % f)
                elif c[f] is not None and c[f].op == 'const':
                    rep.ob('row', '%s: %s of snapshot %s' % (tag, f, num), close(c[f].a[0], v), where, 'the table gives %s, not %s' % (c[f].a[0], v))
        self.bounds(tag, where, rows, cells, md)
        for e in r.events:
            if e.kind == 'extcall' and e.name and e.name.endswith('FlatLambdaCDM'):
                self.parameters('%s: %s' % (tag, e.func.qual), e, lambda p: md.get(p))
        if not ill:
            self.files(cls, tag, now, rows, want, snaps)

    def bounds(self, tag, where, rows, cells, md):
        rep = self.rep
        h = md.get('cosmo_h')
        for i, c in enumerate(cells):
            z = rows[i][1]
            miss = [f for f in FIELDS if c[f] is MISSING]
            for f in miss:
                rep.ob('bounds', '%s: %s of snapshot %s' % (tag, f, rows[i][0]), False, where, '%s is not put in the table' % f)
            for side, zk, tk, o in (('max', 'redshift_max', 'time_start', i - 1), ('min', 'redshift_min', 'time_end', i + 1)):
                zb, tb = c[zk], c[tk]
                if zb in (None, MISSING) or tb in (None, MISSING):
                    continue
                inner = 0 <= o < len(rows)
                zg, tg = red(zb), lin(tb)
                if inner:
                    mean = {('age', z): 0.5, ('age', rows[o][1]): 0.5}
                    if tg is not None:
                        rep.ob('bounds', '%s: %s of snapshot %s' % (tag, tk, rows[i][0]), same(tg, mean), where, '%s is not half way in time between snapshots %s and %s: %s' % (tk, rows[i][0], rows[o][0], tell(tg)))
                    if zg is not None and (zg[0] == 'at' or part(md, z, zg[1], rows[o][1]) is not None):
                        rep.ob('bounds', '%s: %s of snapshot %s' % (tag, zk, rows[i][0]), same(zg[1], mean) if zg[0] == 'at' else abs(part(md, z, zg[1], rows[o][1]) - 0.5) < 0.01, where,
                               '%s is not the redshift half way in time between snapshots %s and %s' % (zk, rows[i][0], rows[o][0]))
                else:
                    end = z if side == 'max' else 0
                    if zg is not None:
                        rep.ob('bounds', '%s: %s of snapshot %s' % (tag, zk, rows[i][0]), zg[0] == 'z' and close(zg[1], end), where, '%s of the %s snapshot is not %s' % (zk, 'first' if side == 'max' else 'last', end))
                    if tg is not None:
                        rep.ob('bounds', '%s: %s of snapshot %s' % (tag, tk, rows[i][0]), same(tg, {('age', end): 1.0}), where, '%s of the %s snapshot is not the age at redshift %s' % (tk, 'first' if side == 'max' else 'last', end))
                for d, fn in sorted(DIST.items()):
                    f = '%s_%s' % (d, side)
                    if c[f] in (None, MISSING) or h is None or h.op != 'const' or zg is None:
                        continue
                    g = lin(c[f])
                    if g is None:
                        continue
                    key = zkey(zg)
                    expect = {(fn, key): h.a[0]} if key != 0 else {}
                    rep.ob('distance', '%s: %s of snapshot %s' % (tag, f, rows[i][0]), same(g, expect), where, '%s is not little h times %s at %s: %s' % (f, fn, 'redshift_' + side, tell(g)))

    def files(self, cls, tag, now, rows, want, snaps):
        """the raw file of each selected snapshot"""
        f = self.prog.lookup(cls, '_get_rawsnapfiles')
        if f is None or len(f.posparams) != 2:
            return
        for i, (num, z) in zip(snaps, rows):
            r = self.interp().run(f, bind={f.posparams[1]: K(num)}, selfcls=cls, heap=now)
            x = normal(r)
            if len(x) != 1 or x[0].value is None:
                continue
            got = concrete.nums(x[0].value)
            if not got or not all(isinstance(g, str) for g in got):
                continue
            stem = want[i][0].split('data1')[0]
            where = '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
            self.rep.saw(f)
            self.rep.ob('file', '%s: files of snapshot %s' % (tag, num), all(g.startswith(stem) for g in got), where, 'snapshot %s has redshift %.4g in the table but is read from %s' % (num, z, sorted(got)[0]))

    # ---------------------------------------------------------------- cosmology

    def parameters(self, tag, e, param):
        rep = self.rep
        f = e.func
        a = dict(zip(('H0', 'Om0', 'Tcmb0', 'Neff', 'm_nu', 'Ob0'), e.args))
        a.update(e.kws)
        where = e.where
        h, om, ob = param('cosmo_h'), param('cosmo_omega_matter'), param('cosmo_omega_baryon')
        if a.get('H0') is not None and h is not None:
            p = poly(a['H0'])
            q = poly(mk('bin', '*', K(100), h))
            strip = lambda p: {tuple(sorted(((str(x), n) for x, n in m if not (x.op == 'ext' and 'units' in str(x.a[0]))))): c for m, c in p.items()}
            unit = lambda p: {tuple(sorted((str(x.a[0]).split('.')[-1], n) for x, n in m if x.op == 'ext' and 'units' in str(x.a[0]))) for m in p}
            x, y = strip(p), strip(q)
            rep.ob('cosmology', '%s: H0' % tag, set(x) == set(y) and all(close(x[k], y[k]) for k in x) and unit(p) <= {(), (('Mpc', -1), ('km', 1), ('s', -1))}, where, 'H0 is not 100 h km/s/Mpc with h of this simulation')
        for n, v, text in (('Om0', om, 'matter'), ('Ob0', ob, 'baryon')):
            if v is not None:
                rep.ob('cosmology', '%s: %s' % (tag, n), a.get(n) is v or (a.get(n) is not None and a[n].op == 'const' and v.op == 'const' and close(a[n].a[0], v.a[0])), where, 'the density of %s is not that of this simulation' % text)

    def cosmologies(self):
        """the other classes with a cosmology of their own"""
        prog, rep = self.prog, self.rep
        for cls in sorted(prog.classes.values(), key=lambda c: c.qual):
            f = prog.lookup(cls, '__init__')
            if f is None or f.cls is not cls or not any(isinstance(n, ast.Call) and (n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else '').endswith('LambdaCDM')
                                                        for n in ast.walk(f.node)) or 'metadata' in f.params:
                continue
            self.attrs = D(*[(K(k), K(v)) for k, v in (('box_edge', 100.0), ('cosmo_h', 0.5), ('cosmo_omega_baryon', 0.05), ('cosmo_omega_lambda', 0.7), ('cosmo_omega_matter', 0.3), ('shape', 'box'),
                                                       ('minimum redshift', 0.1), ('maximum redshift', 3.0), ('open angle', 0.1), ('aspect ratio', 2.0))] +
                           [(K('snapshots'), V(D((K('index'), K(9)), (K('redshift'), K(1.5)), (K('redshift_min'), K(0.0)), (K('redshift_max'), K(1.5)))))])
            md = {k.a[0]: v for k, v in self.attrs.a[0]}
            bind = {k: v for k, v in {'sim': K('TNG100-1'), 'in_h_units': FALSE, 'overwrite': TRUE, 'init_snaps': FALSE}.items() if k in f.params}
            it = self.interp()
            h5 = mk('obj', 'hdf5 file')
            it.models.update({E_('h5py.File'): lambda a, k: h5, E_('os.path.exists'): lambda a, k: TRUE, E_('numpy.sort'): sort_records, E_('numpy.copy'): lambda a, k: a[0] if a[0].op == 'vec' else None})
            it.preset = {(mk('with', h5), 'attrs'): self.attrs, (h5, 'attrs'): self.attrs}
            r = it.run(f, bind=defaults(it, f, bind), selfcls=cls)
            rep.saw(f)
            for e in r.events:
                if e.kind != 'extcall' or not e.name:
                    continue
                if e.name.endswith('FlatLambdaCDM'):
                    self.parameters('%s in %s' % (e.func.qual, cls.name), e, lambda p: md.get(p))
                elif e.name.endswith('interp1d') and len(e.args) >= 2:
                    x, y = e.args[:2]
                    if any(s.op == 'const' for s in (x, y)):
                        continue
                    for z, d in ((x, y), (y, x)):
                        p = poly(d)
                        if len(p) != 1:
                            continue
                        (m, c), = p.items()
                        q = method(bare(m[0][0])) if len(m) == 1 and m[0][1] == 1 else None
                        if q is not None and q[1].endswith('_distance') and len(q[2]) == 1:
                            rep.ob('distance', '%s: table of distances %d' % (e.func.qual, x is z), q[1] == 'comoving_distance' and q[2][0] is z and close(c, md['cosmo_h'].a[0]), e.where,
                                   'the table does not hold little h times the comoving distance of each of its redshifts')

    # ---------------------------------------------------------------- lookups

    SNAPS = [(7, 4.0, 2.6, 4.0), (9, 1.5, 1.0, 2.6), (12, 0.6, 0.0, 1.0)]

    def handler(self):
        prog, rep = self.prog, self.rep
        cls = prog.cls('SimHandler')
        if cls is None:
            rep.notes.append('no SimHandler')
            return
        for how, order in (('from high redshift to low', [0, 1, 2]), ('from low redshift to high', [2, 1, 0]), ('one snapshot', [1])):
            snaps = [self.SNAPS[i] for i in order]
            if len(snaps) == 1:
                snaps = [(9, 1.5, 0.0, 1.5)]
            rec = V(*[D((K('index'), K(n)), (K('redshift'), K(z)), (K('redshift_min'), K(a)), (K('redshift_max'), K(b))) for n, z, a, b in snaps])
            for persistent in (False, True):
                try:
                    self.lookups(cls, how + (', handlers kept' if persistent else ''), snaps, rec, persistent)
                except Lost as x:
                    rep.notes.append('lookups, %s: %s' % (how, x))

    def run(self, cls, meth, bind, own, more=(), models=()):
        f = self.prog.lookup(cls, meth)
        if f is None:
            raise Lost('no %s' % meth)
        it = self.interp()
        h5 = mk('obj', 'hdf5 file')
        it.models[E_('h5py.File')] = lambda a, k: h5
        it.models[E_('numpy.sort')] = sort_records
        it.models.update(dict(models))
        it.models[E_('numpy.argsort')] = it.models[E_('numpy.argsort')]
        it.models[E_('numpy.copy')] = lambda a, k: a[0] if a[0].op == 'vec' else None
        it.preset = {(mk('with', h5), 'attrs'): self.attrs, (h5, 'attrs'): self.attrs}
        it.preset.update(dict(more))
        self.rep.saw(f)
        return f, it.run(f, bind=defaults(it, f, bind), selfcls=cls, heap=own)

    def lookups(self, cls, how, snaps, rec, persistent):
        rep, prog = self.rep, self.prog
        self.attrs = D((K('box_edge'), K(100.0)), (K('cosmo_h'), K(0.5)), (K('cosmo_omega_baryon'), K(0.05)), (K('cosmo_omega_matter'), K(0.3)), (K('snapshots'), rec))
        f, r = self.run(cls, '__init__', {'sim': K('TNG100-1'), 'init_snaps': FALSE, 'in_h_units': FALSE}, {})
        ex = normal(r)
        if not ex:
            raise Lost('setting up does not end: %s' % [(x.kind, str(x.value)[:80], getattr(x.node, 'lineno', 0)) for x in r.exits])
        x = ex[0]
        own = self.mine(x)
        other = {(o, a): (x.state.store[l] if isinstance(l, int) else l) for (o, a), l in x.state.heap.items() if o is not ME}
        if persistent:
            f, r = self.run(cls, 'initialize_all_snaps', {'remake': TRUE}, own, other)
            x = self.one(r, 'making handlers')
            own = self.mine(x)
            other = {(o, a): (x.state.store[l] if isinstance(l, int) else l) for (o, a), l in x.state.heap.items() if o is not ME}
        hi = max(b for n, z, a, b in snaps)
        edges = sorted({a for n, z, a, b in snaps} | {hi})
        probe = sorted({0.0, hi, hi * 1.01 + .1, -0.1} | {z for n, z, a, b in snaps} | set(edges) | {e + 1e-3 for e in edges} | {e - 1e-3 for e in edges})
        for z in probe:
            ok = {n for n, _, a, b in snaps if a <= z <= b}
            f, r = self.run(cls, 'z_to_snap', {'z': K(z)}, own, other)
            where = '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
            ex = normal(r)
            if len(r.exits) != 1:
                continue
            if not ok:
                rep.ob('lookup', '%s: redshift %.4g' % (how, z), not ex, where, 'a redshift outside the simulation gives a snapshot')
            elif not ex:
                rep.ob('lookup', '%s: redshift %.4g' % (how, z), False, where, 'the redshift lies in snapshot %s but is refused' % sorted(ok)[0])
            elif ex[0].value is not None and ex[0].value.op == 'const':
                rep.ob('lookup', '%s: redshift %.4g' % (how, z), ex[0].value.a[0] in ok, where, 'redshift %.4g lies in snapshot %s, not %s' % (z, sorted(ok), ex[0].value.a[0]))
        for n in [s[0] for s in snaps] + [8, 0]:
            mine = [s for s in snaps if s[0] == n]
            f, r = self.run(cls, 'extract_snap_meta', {'snap': K(n)}, own, other)
            where = '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
            ex = normal(r)
            if len(r.exits) == 1:
                if not mine:
                    rep.ob('lookup', '%s: row of snapshot %d' % (how, n), not ex, where, 'a snapshot that is not there gives a row')
                elif ex and ex[0].value is not None and ex[0].value.op == 'dict':
                    d = {k.a[0]: v for k, v in ex[0].value.a[0]}
                    rep.ob('lookup', '%s: row of snapshot %d' % (how, n), d.get('index') is K(n), where, 'asking for snapshot %d gives the row of snapshot %s' % (n, d.get('index')))
                elif not ex:
                    rep.ob('lookup', '%s: row of snapshot %d' % (how, n), False, where, 'snapshot %d is refused' % n)
            if not mine:
                continue
            f, r = self.run(cls, 'get_snap', {'snap': K(n)}, own, other)
            where = '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
            ex = normal(r)
            if r.exits and not ex and all(q.kind == 'raise' for q in r.exits):
                rep.ob('lookup', '%s: handler of snapshot %d' % (how, n), False, where, 'the handler of snapshot %d cannot be had' % n)
            if len(ex) != 1 or ex[0].value is None or ex[0].value.op != 'new':
                continue
            o, x = ex[0].value, ex[0]
            at = lambda a: (lambda l: None if l is None else x.state.store[l] if isinstance(l, int) else l)(x.state.heap.get((o, a), other.get((o, a))))
            zz, gg = at('redshift'), at('groupname')
            if zz is not None and zz.op == 'const':
                rep.ob('lookup', '%s: redshift of the handler of snapshot %d' % (how, n), close(zz.a[0], mine[0][1]), where, 'the handler of snapshot %d is given redshift %s' % (n, zz.a[0]))
            if gg is not None and gg.op == 'const':
                rep.ob('lookup', '%s: data of the handler of snapshot %d' % (how, n), gg.a[0] == 'Snapshot %d' % n, where, 'the handler of snapshot %d reads %r' % (n, gg.a[0]))
        if not persistent:
            self.masses(cls, how, own, other, snaps)
            self.stats(cls, how, own, other, snaps)

    def stats(self, cls, how, own, other, snaps):
        """statistics of all snapshots: each stands next to the redshift of the snapshot it is of"""
        get = self.prog.lookup(cls, 'get_snap')
        if get is None or self.prog.lookup(cls, 'snap_stat') is None:
            return
        held = {n: mk('obj', 'handler of snapshot %d' % n) for n, _, _, _ in snaps}
        models = {('func', get.qual): lambda b: held.get(b['snap'].a[0]) if b.get('snap') is not None and b['snap'].op == 'const' else None}
        for n, h in held.items():
            models[h, 'eval_stat'] = lambda a, k, n=n: mk('obj', 'value of snapshot %d' % n)
        f, r = self.run(cls, 'snap_stat', {'stat_function': P('function'), 'kwargs': P('kwargs'), 'give_args_in_h_units': FALSE}, own, other, models)
        where = '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
        ex = normal(r)
        t = ex[0].value if len(ex) == 1 else None
        if t is None or t.op not in ('tuple', 'list') or len(t.a) != 2 or any(x.op not in ('list', 'tuple', 'vec') for x in t.a):
            self.rep.notes.append('statistics of snapshots not followed')
            return
        vals, zs = t.a
        num = [next((n for n, _, _, _ in snaps if x is mk('obj', 'value of snapshot %d' % n)), None) for x in vals.a]
        if None in num or not all(z.op == 'const' for z in zs.a):
            self.rep.notes.append('statistics of snapshots not followed')
            return
        self.rep.ob('lookup', '%s: statistics' % how, sorted(num) == sorted(held), where, 'of snapshots %s the statistics of %s are given' % (sorted(held), num))
        z = dict((n, z) for n, z, _, _ in snaps)
        self.rep.ob('lookup', '%s: redshifts of the statistics' % how, len(num) == len(zs.a) and all(close(x.a[0], z[n]) for n, x in zip(num, zs.a)), where, 'the statistics of snapshots %s stand next to redshifts %s' % (num, [x.a[0] for x in zs.a]))

    def masses(self, cls, how, own, other, snaps):
        cuts = [(1000.0, 2), (100.0, 5), (10.0, 9)]
        h5 = mk('obj', 'hdf5 file')
        n = snaps[0][0]
        grp = mk('sub', mk('with', h5), K('Snapshot %d' % n))
        table = V(*[D((K('min_mass'), K(m)), (K('index'), K(i))) for m, i in cuts])
        for units, fac in ((True, 1.0), (False, 0.5)):
            for m in (5000.0, 1000.0, 999.0, 100.0, 60.0, 10.0, 9.0, 1.0):
                f = self.prog.lookup(cls, 'get_mass_index')
                if f is None:
                    return
                it = self.interp()
                it.models[E_('h5py.File')] = lambda a, k: h5
                total = mk('const', 40)
                it.preset = dict(other)
                it.presub = {}
                host = Cuts(grp, table)
                it.host = host
                r = it.run(f, bind=defaults(it, f, {'mass': K(m / fac), 'snap': K(n), 'in_h_units': K(units)}), selfcls=cls, heap=own)
                self.rep.saw(f)
                where = '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
                ex = normal(r)
                if len(r.exits) != 1 or len(ex) != 1 or ex[0].value is None:
                    continue
                v = ex[0].value
                fits = [i for c, i in cuts if c <= m]
                tag = '%s: limit %g%s' % (how, m / fac, ' with little h' if units else ' without little h')
                if v.op == 'const' and isinstance(v.a[0], int):
                    # every halo of a mass >= the limit has a place below the entry of a cut that does not exceed the limit
                    self.rep.ob('mass', tag, bool(fits) and v.a[0] >= min(fits), where, 'only %s halos are read though halos above the limit reach further' % v.a[0])
                elif not v.op == 'const':
                    self.rep.ob('mass', tag, True, where, '')


class Cuts(Host):
    """a snapshot group whose mass cuts are known"""

    def __init__(self, grp, table):
        Host.__init__(self)
        self.grp, self.table = grp, table

    def owns(self, t):
        return t is self.grp

    def getsub(self, it, ctx, st, n, b, i):
        return self.table if i is K('mass_cuts') else None

    def setsub(self, *a):
        return False

    def method(self, *a):
        return None

    def getattr(self, *a):
        return None


# -------------------------------------------------------------------- values

MISSING = mk('unk', 'not in the table')


class Table(object):
    """cells of a record array filled step by step"""

    def __init__(self, t):
        self.t, self.memo = t, {}

    def root(self):
        t = self.t
        while t.op == 'upd':
            t = t.a[0]
        return t

    def names(self, root):
        d = dict(root.a[2]).get('dtype') if len(root.a) > 2 else None
        if d is None or d.op not in ('list', 'tuple') or any(x.op != 'tuple' or not x.a or x.a[0].op != 'const' for x in d.a):
            return None
        return [x.a[0].a[0] for x in d.a]

    def rows(self):
        r = self.root()
        if r.op != 'call' or r.a[0].op != 'ext' or not r.a[1]:
            return None
        a = r.a[1][0]
        if r.a[0].a[0] in ('numpy.zeros', 'numpy.empty', 'numpy.ones'):
            return a.a[0] if a.op == 'const' else None
        if r.a[0].a[0] in ('numpy.array', 'numpy.asarray'):
            return len(a.a) if a.op in ('list', 'tuple', 'vec') else None
        return None

    def cell(self, i, f):
        return self.of(self.t, i, f)

    def of(self, t, i, f):
        k = (t, i, f)
        if k not in self.memo:
            self.memo[k] = self.of_(t, i, f)
        return self.memo[k]

    def of_(self, t, i, f):
        if t.op == 'upd':
            b, idx, v = t.a
            if idx.op != 'const':
                return None
            if idx.a[0] == f:
                return self.entry(v, i, f)
            if isinstance(idx.a[0], int) and idx.a[0] % (self.rows() or 1) == i:
                return self.field(v, i, f)
            return self.of(b, i, f)
        if t.op == 'call' and t.a[0].op == 'ext':
            if t.a[0].a[0] in ('numpy.zeros', 'numpy.empty'):
                return MISSING
            names = self.names(t)
            if t.a[0].a[0] in ('numpy.array', 'numpy.asarray') and names and f in names and t.a[1][0].op in ('list', 'vec', 'tuple'):
                row = t.a[1][0].a[i]
                if row.op == 'tuple' and len(row.a) == len(names):
                    return row.a[names.index(f)]
        return None

    def field(self, v, i, f):
        """entry f of a row"""
        if v.op == 'upd':
            if v.a[1].op != 'const':
                return None
            return v.a[2] if v.a[1].a[0] == f else self.field(v.a[0], i, f)
        if v.op == 'sub':
            return self.of(v.a[0], i, f)
        if v.op == 'tuple':
            names = self.names(self.root())
            return v.a[names.index(f)] if names and f in names and len(names) == len(v.a) else None
        return None

    def entry(self, v, i, f):
        """entry i of a column"""
        if v.op == 'upd':
            if v.a[1].op != 'const' or not isinstance(v.a[1].a[0], int):
                return None
            return v.a[2] if v.a[1].a[0] % (self.rows() or 1) == i else self.entry(v.a[0], i, f)
        if v.op == 'sub' and v.a[1] is K(f):
            return self.of(v.a[0], i, f)
        if v.op in ('vec', 'list', 'tuple') and len(v.a) == (self.rows() or -1):
            return v.a[i]
        return None


def bare(t):
    """a quantity without its unit"""
    while True:
        if t.op == 'attr' and t.a[1] == 'value':
            t = t.a[0]
        elif t.op == 'mcall' and t.a[0] in ('to', 'to_value'):
            t = t.a[1]
        elif t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('to', 'to_value'):
            t = t.a[0].a[0]
        elif t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.float', 'numpy.float64', 'numpy.float32') and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t


def method(t):
    """(receiver, name, arguments) of a method call"""
    if t.op == 'mcall':
        return t.a[1], t.a[0], t.a[2], t.a[3] if len(t.a) > 3 else ()
    if t.op == 'call' and t.a[0].op == 'attr':
        return t.a[0].a[0], t.a[0].a[1], t.a[1], t.a[2] if len(t.a) > 2 else ()
    return None


FOLD = {'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'log10': math.log10, 'abs': abs, 'absolute': abs, 'float': float, 'float64': float}


def unset(t):
    """made of an attribute of a new object that nothing was assigned to"""
    if t.op == 'bin':
        return unset(t.a[1]) or unset(t.a[2])
    return t.op == 'attr' and t.a[0].op == 'new'


def number(t):
    """the value of arithmetic on numbers; None when other things come in"""
    t = bare(t)
    if t.op == 'const' and isinstance(t.a[0], (int, float)):
        return t.a[0]
    try:
        if t.op == 'bin':
            a, b = number(t.a[1]), number(t.a[2])
            if a is None or b is None:
                return None
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: float(a) ** b}[t.a[0]]()
        if t.op == 'call' and t.a[0].op == 'ext' and len(t.a[1]) == 1 and not (len(t.a) > 2 and t.a[2]):
            f, x = FOLD.get(t.a[0].a[0].split('.')[-1]), number(t.a[1][0])
            return None if f is None or x is None else f(x)
        if t.op == 'neg':
            x = number(t.a[0])
            return None if x is None else -x
    except (KeyError, ArithmeticError, ValueError, TypeError):
        pass
    return None


def part(md, z, zm, zo):
    """how far in time zm lies on the way from z to zo, in the cosmology of the simulation"""
    om = md.get('cosmo_omega_matter')
    if om is None or om.op != 'const' or not (isinstance(zm, (int, float)) and not isinstance(zm, complex) and zm > -1):
        return None
    om = om.a[0]
    age = lambda x: math.asinh(math.sqrt((1 - om) / om) * (1 + x) ** -1.5)
    return (age(zm) - age(z)) / (age(zo) - age(z))


def red(t):
    """what a redshift is: ('z', value) or ('at', the time it is the redshift of)"""
    t = bare(t)
    v = number(t)
    if v is not None:
        return ('z', v)
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0].endswith('z_at_value') and len(t.a[1]) >= 2:
        fn = t.a[1][0]
        if fn.op == 'attr' and fn.a[1] == 'age':
            g = lin(t.a[1][1])
            return None if g is None else ('at', g)
        if fn.op == 'attr' and fn.a[1] == 'lookback_time':
            return None
    return None


def zkey(z):
    return z[1] if z[0] == 'z' else tuple(sorted(z[1].items(), key=repr))


def lin(t):
    """linear combination of ages and distances; None when not known"""
    out = {}
    p = poly(t, None, None)
    for m, c in p.items():
        m = [(bare(x), n) for x, n in m if not (x.op == 'ext' and 'units' in str(x.a[0]))]
        if not m:
            out[()] = out.get((), 0) + c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        x = m[0][0]
        q = method(x)
        if q is None:
            inner = lin(x) if x.op == 'bin' else None
            if inner is None:
                return None
            for k, v in inner.items():
                out[k] = out.get(k, 0) + c * v
            continue
        if len(q[2]) != 1 or not (q[0].op == 'call' and q[0].a[0].op == 'ext' and q[0].a[0].a[0].startswith('astropy.cosmology.')):
            return None
        z = red(q[2][0])
        if z is None:
            return None
        k = (q[1], zkey(z))
        if z == ('z', 0) and q[1].endswith('_distance'):
            continue
        out[k] = out.get(k, 0) + c
    return {k: v for k, v in out.items() if v}


def close(a, b):
    try:
        return math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-9)
    except TypeError:
        return a == b


def alike(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return close(a, b) if isinstance(a, (int, float)) and isinstance(b, (int, float)) else a == b


def same(a, b):
    """equal linear combinations"""
    if len(a) != len(b):
        return False
    left = list(b.items())
    for k, v in a.items():
        m = [p for p in left if alike(k, p[0])]
        if not m or not close(v, m[0][1]):
            return False
        left.remove(m[0])
    return True


def tell(g):
    return ' + '.join('%.4g %s' % (v, k if not k else '%s(%s)' % (k[0], k[1] if isinstance(k[1], (int, float)) else '...')) for k, v in sorted(g.items(), key=repr)) or '0'


def re_num(name):
    import re
    return re.search(r'(\d+\.\d+)', name).group(1)


def sort_records(a, k):
    o = k.get('order')
    if a[0].op != 'vec' or o is None or o.op != 'const' or any(x.op != 'dict' for x in a[0].a):
        return None
    key = lambda x: [v for q, v in x.a[0] if q is o]
    ks = [key(x) for x in a[0].a]
    if any(len(v) != 1 or v[0].op != 'const' for v in ks):
        return None
    return V(*sorted(a[0].a, key=lambda x: key(x)[0].a[0]))


def leaves_sub(t):
    from terms import subterms
    return [s for s in subterms(t) if s.op == 'sub']
