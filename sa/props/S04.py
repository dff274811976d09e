"""A simulation stands for each of its snapshots: what is done to it is done to every snapshot, with the data of that snapshot."""
from common import *
from flow import Interp
from props import L06, S03

ASSUMPTIONS = [
    'the catalogue file holds every snapshot its metadata lists, with the same properties',
    'two cosmologies are the same if they are made from the same parameters',
]
SNAPS = [(7, 0., 0., .4), (5, 1., .4, 1.4), (2, 2., 1.4, 2.6)]      # number, redshift, and the redshifts it stands for
PATH = '/sims/data.hdf5'
X = L06.X


def src(k, n):
    return mk('obj', '%s of light cone %d' % (n, k))


def at(h, **k):
    return dict({'units': K('u'), 'h dependence': K(h)}, **k)


def tree(order):
    snaps = [SNAPS[i] for i in order]
    rec = mk('vec', *[D(*[(K(n), K(v)) for n, v in zip(('index', 'redshift', 'redshift_min', 'redshift_max'), s)]) for s in snaps])
    t = {'@': {'cosmo_h': K(.5), 'cosmo_omega_matter': K(.3), 'cosmo_omega_baryon': K(.05), 'box_edge': K(80.), 'snapshots': rec, 'number_snaps': K(len(snaps)), 'cosmo_name': K('c')}}
    for s in snaps:
        t['Snapshot %d' % s[0]] = {'mass': (src(s[0], 'mass'), at(-1)), 'pos_x': (src(s[0], 'pos_x'), at(-1)), 'old': (src(s[0], 'old'), at(0, userdefined=TRUE)), 'older': (src(s[0], 'older'), at(0, userdefined=TRUE))}
    return t


class Host(L06.Host):
    def getattr(self, it, st, o, attr):
        if o.op == 'new' and attr == 'sims':
            return D((K('sim'), K('/sims')))
        if attr == 'h' and o.op == 'obj' and o.a[0] == 'cosmology':
            return K(.5)
        return L06.Host.getattr(self, it, st, o, attr)

    def owns(self, t):
        return L06.Host.owns(self, t) or t.op == 'obj' and t.a[0] == 'cosmology'


def run(prog, f, bind, order):
    host = Host()
    it = Interp(prog, inline=lambda a, b: b.name != '_checksim' and (b.cls is None or b.cls.name != '_SimIMPaths'), depth=9, unroll=40)
    it.host, it.vec, it.exact = host, True, True
    it.models = L06.models([], [])
    it.models[X('numpy.sort')] = S03.sort_records
    it.models[X('numpy.copy')] = lambda a, k: a[0] if a[0].op == 'vec' else None
    it.models[X('os.path.exists')] = lambda a, k: TRUE
    it.preset = host.preset(K(PATH), tree(order))
    r = it.run(f, bind={k: v for k, v in bind.items() if k in f.params})
    return r, host


# what is done to the simulation, what is done to a snapshot by itself, and what is looked at
OPS = {
    'set_property_range': ('s.set_property_range("pos_x", pmin=a, pmax=b)',) * 2 + ('s.return_property("mass")', 'init', 0),
    'set_property_range, h units': ('s.set_property_range("pos_x", pmin=a, pmax=b, in_h_units=True)',) * 2 + ('s.return_property("mass")', 'init', 0),
    'set_property_range, twice': ('s.set_property_range("pos_x", pmin=a); s.set_property_range("mass", pmax=b, reset=False)',) * 2 + ('s.return_property("mass")', 'init', 0),
    'set_in_h_units': ('s.set_in_h_units(True)',) * 2 + ('(s.return_property("mass"), s.box_edge)', 'init', 0),
    'set_in_h_units, snapshots on demand': ('s.set_in_h_units(True)',) * 2 + ('(s.return_property("mass"), s.box_edge)', '', 0),
    'set_in_h_units, a snapshot set before': ('s.get_snap(number).set_in_h_units(True); s.set_in_h_units(False)', 's.set_in_h_units(True); s.set_in_h_units(False)', '(s.return_property("mass"), s.box_edge)', 'init', 0),
    'set_in_h_units, twice': ('s.set_in_h_units(True); s.set_in_h_units(False)',) * 2 + ('(s.return_property("mass"), s.box_edge)', 'init', 0),
    'set_in_h_units, set again': ('s.set_in_h_units(True); s.get_snap(number).set_in_h_units(False); s.set_in_h_units(True)', 's.set_in_h_units(True)', '(s.return_property("mass"), s.box_edge)', 'init', 0),
    'set_property_range, a snapshot set before': ('s.get_snap(number).set_property_range("pos_x", pmin=a); s.set_property_range("mass", pmax=b, reset=False)', 's.set_property_range("pos_x", pmin=a); s.set_property_range("mass", pmax=b, reset=False)',
                                                 's.return_property("mass")', 'init', 0),
    'set_property_range, reset': ('s.set_property_range("pos_x", pmin=a); s.set_property_range("mass", pmax=b)', 's.set_property_range("mass", pmax=b)', 's.return_property("mass")', 'init', 0),
    'make_property': ('s.make_property(p)',) * 2 + ('s.return_property("made")', 'init', 1),
    'make_property, renamed': ('s.make_property(p, rename="other", kw_remap={"mass": "pos_x"}, other_kws={"e": a})',) * 2 + ('s.return_property("other")', 'init', 1),
    'make_property, written': ('s.make_property(p, write=True)', 's.make_property(p); s.write_property("made")', None, '', 1),
    'make_property, renamed and written': ('s.make_property(p, rename="other", other_kws={"e": a}, write=True)', 's.make_property(p, rename="other", other_kws={"e": a}); s.write_property("other")', None, '', 1),
    'make_property, overwritten': ('s.make_property(p, rename="old", overwrite=True, write=True)', 's.make_property(p, rename="old", overwrite=True); s.write_property("old", overwrite=True)', None, '', 1),
    'delete_property': ('s.delete_property("old")',) * 2 + (None, '', 0),
    'delete_property, two': ('s.delete_property("old", "older")',) * 2 + (None, '', 0),
    'delete_property, snapshots kept': ('s.delete_property("old")',) * 2 + ('s.has_property("old")', 'init', 0),
}
REFUSED = {
    'a property of the simulation is deleted': 's.delete_property("mass")',
    'a property is made over one that is stored': 's.make_property(p, rename="old", write=True)',
    'a property is made over one of the simulation': 's.make_property(p, rename="mass", write=True, overwrite=True)',
    'names do not match properties': 's.make_property(p, rename=["x", "y"], write=True)',
}


def client(prog, sim, gp):
    out = ['from %s import %s' % (sim.module.name, sim.name)]
    if gp is not None:
        out.append('from %s import %s' % (gp.module.name, gp.name))
    make = ['p = Prop("made", fn, ["mass"], h_dependence=0, units="u")']
    fns = {}

    def fn(name, params, lines):
        out.append('def f%d(%s):' % (len(fns), params))
        out.extend('    ' + l for l in lines)
        fns[name] = 'f%d' % len(fns)
    fn('snap', 'number, init, h', ['s = SimHandler("sim", init, h).get_snap(number)', 'return s.return_property("mass"), s.redshift, s.default_in_h_units'])
    fn('from z', 'z, init', ['s = SimHandler("sim", init).get_snap_from_z(z)', 'return s.return_property("mass"), s.redshift'])
    fn('stat', 'fn, e, h', ['s = SimHandler("sim", False)', 'return s.snap_stat(fn, ["mass", "m"], kw_remap={"m": "pos_x"}, other_kws={"e": e}, give_args_in_h_units=h)'])
    fn('one stat', 'number, fn, e, h', ['s = SimHandler("sim", False).get_snap(number)', 'return s.eval_stat(fn, ["mass", "m"], kw_remap={"m": "pos_x"}, other_kws={"e": e}, give_args_in_h_units=h), s.redshift'])
    fn('twice', '', ['s = SimHandler("sim", True)', 's.initialize_all_snaps()'])
    fn('not made', 'a', ['s = SimHandler("sim", False)', 's.set_property_range("mass", pmin=a)'])
    for n, (all_, one, look, init, prop) in OPS.items():
        if prop and gp is None:
            continue
        pre = make if prop else []
        fn('all ' + n, 'number, fn, a, b', pre + ['t = s = SimHandler("sim", %s)' % bool(init), all_] + (['s = t.get_snap(number)', 'return ' + look] if look else []))
        fn('one ' + n, 'number, fn, a, b', pre + ['s = SimHandler("sim", False).get_snap(number)', one] + (['return ' + look] if look else []))
    for n, line in REFUSED.items():
        if gp is not None or 'Prop' not in line:
            fn('no ' + n, 'fn', make + ['s = SimHandler("sim", False)', line])
    m = prog.client('snapshots', '\n'.join(out) + '\n')
    return {n: m.names[f][1] for n, f in fns.items()}


def group(x, k):
    out = {}
    for (o, a), l in x.state.heap.items():
        if o.op == 'obj' and o.a[0] == 'h5' and a in ('kids', 'value') and o.a[3] and o.a[3][0] == 'Snapshot %d' % k:
            out[o, a] = x.state.store[l]
    return out


def check(prog, rep):
    rep.rule('each', 'what is done to a simulation leaves every snapshot as if done to that snapshot', 30)
    rep.rule('own-data', 'the handler given for a snapshot holds the data and redshift of that snapshot', 20)
    rep.rule('refused', 'an operation that would be refused for a snapshot is refused, and leaves the file as it was', 4)
    rep.rule('stat', 'a statistic over the snapshots has one value for each, next to its redshift, evaluated as for that snapshot', 8)
    sim, gp = prog.cls('SimHandler'), prog.cls('Prop')
    fns = client(prog, sim, gp)
    for f in sim.methods.values():
        rep.saw(f)
    at_ = '%s:%d %s' % (sim.module.path, sim.node.lineno, sim.qual)
    w = lambda n: (lambda f: at_ if f is None else '%s:%d %s' % (f.module.path, f.node.lineno, f.qual))(prog.lookup(sim, n))
    orders = [[2, 1, 0], [1, 2, 0]]
    for order in orders:
        tag = ' (listed %s)' % ', '.join(str(SNAPS[i][0]) for i in order)
        for init in (TRUE, FALSE):
            for h in (TRUE, FALSE):
                for s in SNAPS + [(9, 0, 0, 0)]:
                    r, host = run(prog, fns['snap'], dict(number=K(s[0]), init=init, h=h), order)
                    ok = normal(r)
                    con = 'get_snap(%d), snapshots %s, in_h_units=%s%s' % (s[0], 'kept' if init is TRUE else 'on demand', h.a[0], tag)
                    if s[0] == 9:
                        if r.exits:
                            rep.ob('own-data', con, not ok, w('get_snap'), 'a snapshot that does not exist is given')
                        continue
                    if r.exits and not ok:
                        rep.ob('own-data', con, False, w('get_snap'), 'it is refused')
                        continue
                    if len(ok) != 1 or len(r.exits) != 1 or ok[0].value.op != 'tuple':
                        rep.notes.append('%s not followed (%d)' % (con, len(r.exits)))
                        continue
                    v = ok[0].value.a
                    rep.ob('own-data', con + ' data', L06.cones(v[0]) in ({s[0]}, set()), w('get_snap'), 'it holds the data of snapshot %s' % sorted(L06.cones(v[0])))
                    if v[1].op == 'const':
                        rep.ob('own-data', con + ' redshift', v[1].a[0] == s[1], w('get_snap'), 'its redshift is %s, not %s' % (show(v[1]), s[1]))
                    if v[2].op == 'const':
                        rep.ob('own-data', con + ' units', v[2] is h, w('get_snap'), 'its default is in_h_units=%s' % show(v[2]))
            for z, k in ((0., 7), (.2, 7), (.5, 5), (1.2, 5), (1.5, 2), (2.5, 2)):
                r, host = run(prog, fns['from z'], dict(z=K(z), init=init), order)
                ok = normal(r)
                if len(ok) == len(r.exits) == 1 and ok[0].value.op == 'tuple':
                    v = ok[0].value.a
                    rep.ob('own-data', 'get_snap_from_z(%s)%s' % (z, tag), L06.cones(v[0]) in ({k}, set()), w('get_snap_from_z'), 'it is snapshot %s, not %d' % (sorted(L06.cones(v[0])), k))
        stats(prog, rep, fns, order, tag, w)
        for n, (all_, one, look, init, prop) in OPS.items():
            if 'all ' + n not in fns:
                continue
            name = n.split(',')[0]
            for k in [s[0] for s in SNAPS]:
                b = dict(number=K(k), fn=P('fn'), a=P('a'), b=P('b'))
                (r, host), (r1, host1) = run(prog, fns['all ' + n], b, order), run(prog, fns['one ' + n], b, order)
                ok, ok1 = normal(r), normal(r1)
                con = '%s, snapshot %d%s' % (n, k, tag)
                if len(ok1) == 1 and r.exits and not ok:
                    rep.ob('each', con + ' done', False, w(name), 'it is refused for the simulation, though not for the snapshot alone: %s' % (show(r.exits[0].value, 3) if r.exits[0].value is not None else ''))
                    continue
                if len(ok) != 1 or len(ok1) != 1:
                    rep.notes.append('%s not followed (%d, %d ways to finish)' % (con, len(ok), len(ok1)))
                    continue
                if look:
                    x, y = ok[0].value, ok1[0].value
                    if L06.known(x) and L06.known(y):
                        rep.ob('each', con + ' value', x is y, w(name), 'afterwards it has %s, by itself %s' % (show(x, 4), show(y, 4)))
                x, y = group(ok[0], k), group(ok1[0], k)
                if all(map(L06.known, list(x.values()) + list(y.values()))):
                    rep.ob('each', con + ' file', x == y, w(name), 'what is stored for the snapshot differs from what the operation on it alone leaves')
        for n in REFUSED:
            if 'no ' + n not in fns:
                continue
            r, host = run(prog, fns['no ' + n], dict(fn=P('fn')), order)
            if not r.exits:
                continue
            ok = normal(r)
            where = w('delete_property' if 'delete' in REFUSED[n] else 'make_property')
            rep.ob('refused', n + tag, not ok, where, 'it is done')
            if not ok and len(r.exits) == 1:
                old = host.preset(K(PATH), tree(order))
                x = r.exits[0]
                new = {(o, a): x.state.store[l] for (o, a), l in x.state.heap.items() if o.op == 'obj' and o.a[0] == 'h5'}
                rep.ob('refused', n + tag + ': file', all(new.get(k) is v for k, v in old.items()), where, 'it is refused after the file was changed')
        for n, what in (('twice', 'snapshots are made again'), ('not made', 'a range is set without snapshots')):
            r, host = run(prog, fns[n], dict(a=P('a')), order)
            if r.exits:
                rep.ob('refused', what + tag, not normal(r), at_, 'it is done')


def stats(prog, rep, fns, order, tag, w):
    for h in (TRUE, FALSE, NONE):
        r, host = run(prog, fns['stat'], dict(fn=P('fn'), e=P('e'), h=h), order)
        ok = normal(r)
        con = 'snap_stat in_h_units=%s%s' % (h.a[0], tag)
        if len(ok) != 1 or len(r.exits) != 1 or ok[0].value.op not in ('tuple', 'list'):
            rep.notes.append('%s not followed' % con)
            continue
        v = list(ok[0].value.a)
        if len(v) != 2 or any(x.op not in ('vec', 'list', 'tuple') for x in v):
            rep.notes.append('%s: result %s not recognised' % (con, show(ok[0].value)))
            continue
        zs, vals = (v if all(x.op == 'const' for x in v[0].a) else v[::-1])
        rep.ob('stat', con + ' count', len(zs.a) == len(vals.a) == len(SNAPS), w('snap_stat'), '%d values at %d redshifts for %d snapshots' % (len(vals.a), len(zs.a), len(SNAPS)))
        for z, x in zip(zs.a, vals.a):
            s = [q for q in SNAPS if z.op == 'const' and q[1] == z.a[0]]
            if len(s) != 1:
                rep.ob('stat', con + ' redshift', z.op != 'const', w('snap_stat'), 'there is no snapshot at redshift %s' % show(z))
                continue
            r1, host = run(prog, fns['one stat'], dict(number=K(s[0][0]), fn=P('fn'), e=P('e'), h=h), order)
            ok1 = normal(r1)
            if len(ok1) == 1 and ok1[0].value.op == 'tuple' and L06.known(x) and L06.known(ok1[0].value):
                rep.ob('stat', '%s value at %s' % (con, show(z)), x is ok1[0].value.a[0], w('snap_stat'), 'the value is %s, for the snapshot alone %s' % (show(x, 4), show(ok1[0].value.a[0], 4)))
