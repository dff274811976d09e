"""Every supported simulation has a source whose loader produces every listed field."""
import re
from common import *
from sources import sources, fields, dictval, accepted, heap_attr
from props.U01 import raw_units
from program import AnalysisBroken

ASSUMPTIONS = [
    'fields of the Illustris/TNG group catalogues are those of the public data release (names and numbers of columns in table ILL)',
    'record layouts of the UniverseMachine files are those of its data release (LAYOUT)',
]
ILL_COLS = {'SubhaloPos': 3, 'SubhaloVel': 3, 'SubhaloCM': 3, 'SubhaloSpin': 3, 'SubhaloStellarPhotometrics': 8, 'SubhaloHalfmassRadType': 6,
            'SubhaloMassType': 6, 'SubhaloMassInHalfRadType': 6, 'SubhaloMassInMaxRadType': 6, 'SubhaloMassInRadType': 6, 'SubhaloLenType': 6}
for _k in ('Gas', 'Star'):
    for _s in ('', 'HalfRad', 'MaxRad', 'Sfr', 'SfrWeighted'):
        ILL_COLS['Subhalo%sMetalFractions%s' % (_k, _s)] = 10
ILL_INT = {'SubhaloFlag', 'SubhaloGrNr', 'SubhaloIDMostbound', 'SubhaloLen', 'SubhaloLenType', 'SubhaloParent'}
UC_INT = {'id', 'upid', 'desc_id'}
LAYOUT = {
    'numpy.loadtxt': ['id', 'descid', 'upid', 'flags', 'uparent_dist', 'x', 'y', 'z', 'vx', 'vy', 'vz', 'm', 'v', 'mp', 'vmp', 'r', 'rank1', 'rank2', 'ra', 'rarank',
                      'sm', 'icl', 'sfr', 'obs_sm', 'obs_sfr', 'obs_ssfr', 'smhm', 'obs_uv'],
    'numpy.fromfile': [('id', 'i8', 1), ('descid', 'i8', 1), ('upid', 'i8', 1), ('flags', 'i4', 1), ('uparent_dist', 'f4', 1), ('pos', 'f4', 6), ('vmp', 'f4', 1),
                       ('lvmp', 'f4', 1), ('mp', 'f4', 1), ('m', 'f4', 1), ('v', 'f4', 1), ('r', 'f4', 1), ('rank1', 'f4', 1), ('rank2', 'f4', 1), ('ra', 'f4', 1),
                       ('rarank', 'f4', 1), ('a_uv', 'f4', 1), ('sm', 'f4', 1), ('icl', 'f4', 1), ('sfr', 'f4', 1), ('obs_sm', 'f4', 1), ('obs_sfr', 'f4', 1),
                       ('obs_uv', 'f4', 1), ('empty', 'f4', 1)],
}


def numkind(d):
    d = str(d).lstrip('<>=|')
    return {'i': 'int', 'u': 'int', 'f': 'float', 'd': 'float'}.get(d[:1], d) if not d.startswith(('int', 'uint', 'float')) else ('int' if 'int' in d else 'float')


def loader(prog, s):
    t = s.get('_loader')
    q = None
    if t is not None and t.op == 'bm':
        q = t.a[0]
    elif t is not None and t.op == 'func':
        q = t.a[0]
    elif t is None:
        f = prog.lookup(s.cls, '_loader')
        return f
    return prog.funcs.get(q)


def layouts(prog, f):
    """[(reader, [(name, dtype, ncols)])] record tables the loader reads raw files with"""
    r = result(prog, f)
    out = []
    for e in r.events:
        if e.kind == 'extcall' and e.name in LAYOUT:
            t = e.kws.get('dtype')
            if t is None and len(e.args) > 1:
                t = e.args[1]
            if t is not None and is_call(t, 'numpy.dtype'):
                t = kw(t, 'dtype', 0)
            if t is None or t.op != 'list' or not all(x.op == 'tuple' and len(x.a) >= 2 and all(y.op == 'const' for y in x.a[:2]) for x in t.a):
                continue
            out.append((e, [(x.a[0].a[0], x.a[1].a[0], width(x.a[2]) if len(x.a) > 2 else 1) for x in t.a]))
    return r, out


def width(t):
    if t.op == 'const':
        return t.a[0]
    if t.op == 'tuple' and len(t.a) == 1 and t.a[0].op == 'const':
        return t.a[0].a[0]
    return None


def ints(t):
    if t.op in ('list', 'tuple') and all(x.op == 'const' for x in t.a):
        return {x.a[0] for x in t.a}
    if is_call(t, 'builtins.range') and all(x.op == 'const' for x in t.a[1]):
        return set(range(*[x.a[0] for x in t.a[1]]))
    return None


def check(prog, rep):
    rep.rule('name-has-source', 'every accepted simulation name is handled by a source class', 10)
    rep.rule('source-complete', 'a supported simulation gets its snapshot list, web address, loader and field tables', 20)
    rep.rule('field-loaded', 'every listed raw field is read by the loader, with as many columns as are listed', 60)
    rep.rule('numeric-type', 'listed integer/float type matches the raw column', 60)
    rep.rule('listed-once', 'no name is listed twice for one simulation', 20)
    rep.rule('basic-fields', 'mass and positions are always available', 20)
    rep.rule('layout', 'record tables follow the published file layout', 2)
    rep.rule('metadata-complete', 'the metadata saved for a simulation has every entry that formatting and the handlers read', 20)
    rep.rule('files-used', 'every raw file a listed field needs is downloaded, checked for and cleaned up', 2)
    names, m = accepted(prog)
    if not names:
        raise AnalysisBroken('list of accepted simulations not found')
    done = set()
    need = metadata_read(prog)
    for sim, srcs in sources(prog):
        rep.ob('name-has-source', sim, len(srcs) >= 1, m.path, 'simulation %r is accepted but no source class sets itself up for it' % sim)
        for s in srcs:
            rep.saw(s.func)
            where = '%s:%d %s' % (s.func.module.path, s.func.node.lineno, s.func.qual)
            con = '%s %s' % (s.cls.name, sim)
            f = loader(prog, s)
            rep.ob('source-complete', con, f is not None, where, '%s gets no loader' % sim)
            if f is None:
                continue
            rep.saw(f)
            fs = list(fields(s))
            lit = [x for x in fs if x[2] is not None]
            if not lit:
                raise AnalysisBroken('field tables of %s are not literal' % sim)
            r, lay = layouts(prog, f)
            idx = dictval(s.get('datafile_indices'))
            seen = {}
            for tb, key, subs in lit:
                for nm, dt, un, h in subs:
                    if nm in seen and not nm.startswith('none'):
                        rep.ob('listed-once', '%s %s' % (con, nm), False, where, '%s is listed for %s and again for %s; one overwrites the other' % (nm, seen[nm], key))
                    seen[nm] = key
                kcon = '%s %s' % (s.cls.name, key)
                if lay:
                    for e, cols in lay:
                        tab = {n: (d, w) for n, d, w in cols}
                        ok = key in tab
                        rep.ob('field-loaded', kcon, ok, where, 'field %s of %s is not read by %s' % (key, sim, f.name))
                        if ok:
                            d, w = tab[key]
                            if w is not None:
                                rep.ob('field-loaded', kcon, w == len(subs), where, '%s has %d columns in the file and %d listed names' % (key, w, len(subs)))
                            for nm, dt, un, h in subs:
                                rep.ob('numeric-type', kcon, numkind(d) == numkind(dt), where, '%s is declared %r but read as %r' % (nm, dt, d))
                elif idx is not None:
                    rep.ob('field-loaded', kcon, key in idx, where, 'no data file is known for field %s' % key)
                    rep.ob('field-loaded', kcon, len(subs) == 1, where, '%s is a single column' % key)
                    for nm, dt, un, h in subs:
                        rep.ob('numeric-type', kcon, numkind(dt) == ('int' if key in UC_INT else 'float'), where, '%s is declared %r' % (nm, dt))
                else:
                    raw = raw_units(sim)
                    if key in raw or key in ILL_COLS or key in ILL_INT:
                        rep.ob('field-loaded', kcon, len(subs) == ILL_COLS.get(key, 1), where, '%s has %d columns, %d are listed' % (key, ILL_COLS.get(key, 1), len(subs)))
                        for nm, dt, un, h in subs:
                            rep.ob('numeric-type', kcon, numkind(dt) == ('int' if key in ILL_INT else 'float'), where, '%s is declared %r' % (nm, dt))
                    else:
                        rep.ob('field-loaded', kcon, not key.startswith('Subhalo'), where, 'the group catalogues have no field %s' % key)
            rep.ob('listed-once', con, True, where, '')
            metadata(prog, rep, s, need)
            basic = [n for tb, k, subs in lit if tb == 'basic_fields' for n, _, _, _ in subs]
            for n in ('mass', 'pos_x', 'pos_y', 'pos_z'):
                rep.ob('basic-fields', '%s %s' % (con, n), n in basic, where, '%s is not among the basic fields of %s' % (n, sim))
            for e, cols in lay:
                want = LAYOUT[e.name]
                got = cols if e.name == 'numpy.fromfile' else [c[0] for c in cols]
                got = [(n, d.lstrip('<='), w) for n, d, w in got] if e.name == 'numpy.fromfile' else got
                ok = got == want
                bad = next(((a, b) for a, b in zip(got + [None], want + [None]) if a != b), None)
                rep.ob('layout', '%s %s' % (cn(f.qual), e.name), ok, e.where, 'record layout differs from the published one at %s (published %s)' % (bad or ('', '')))
                if e.name == 'numpy.fromfile':
                    t = e.kws.get('dtype')
                    al = kw(t, 'align') if t is not None and t.op == 'call' else None
                    rep.ob('layout', '%s align' % cn(f.qual), al is not None and const(al) is True, e.where, 'the records are C structs and need an aligned dtype')
            if idx is not None and s.cls.qual not in done:
                done.add(s.cls.qual)
                used = {const(idx[k]) for _, k, _ in lit if k in idx}
                files(prog, rep, s, used, set(const(v) for v in idx.values()))


def files(prog, rep, s, used, every):
    f = prog.lookup(s.cls, 'download')
    if f is not None and 'datafiles' in f.params:
        import ast
        d = f.defaults.get('datafiles')
        vals = {n.value for n in ast.walk(d) if isinstance(n, ast.Constant)} if d is not None else None
        if vals:
            rep.ob('files-used', '%s download' % s.cls.name, used <= vals, '%s:%d' % (f.module.path, f.node.lineno), 'listed fields need data files %s, only %s are downloaded' % (sorted(used), sorted(vals)))
            rep.saw(f)
    f = prog.lookup(s.cls, '_get_rawsnapfiles')
    if f is not None:
        rep.saw(f)
        r = result(prog, f)
        for e in r.returns():
            vs = set()
            for t in subterms(e.value):
                x = ints(t)
                if x and len(x) > 1 or x and t.op == 'call':
                    vs |= x
            if e.value.op == 'list':
                vs = {int(m) for t in subterms(e.value) if t.op == 'const' and isinstance(t.a[0], str) for m in re.findall(r'data(\d+)$', t.a[0])} or vs
            if vs:
                rep.ob('files-used', '%s _get_rawsnapfiles' % s.cls.name, every <= vs, '%s:%d' % (f.module.path, f.node.lineno), 'raw files %s are never listed for a snapshot' % sorted(every - vs))


def metadata_read(prog):
    """simulation metadata entries read by Snapshot, SimCatalogs, the handlers and the lightcone makers: {key: where}"""
    out = {}
    for r in all_results(prog):
        for e in r.events:
            if e.kind == 'getsub' and not e.stack and e.idx.op == 'const' and isinstance(e.idx.a[0], str) and (
                    e.idx.a[0].startswith('cosmo_') or e.idx.a[0] == 'box_edge'):
                out.setdefault(e.idx.a[0], e.where)
    return out


def metadata(prog, rep, s, need):
    f = prog.lookup(s.cls, 'download_meta')
    con = '%s %s' % (s.cls.name, s.sim)
    if f is None:
        rep.ob('metadata-complete', con, False, s.func.module.path, '%s cannot obtain metadata' % s.cls.name)
        return
    from flow import Interp
    r = Interp(prog, inline=lambda a, b: True, depth=4).run(f, selfcls=s.cls, heap={'sim': K(s.sim)})
    rep.saw(f)
    for e in r.events:
        if e.kind != 'extcall' or e.name not in ('numpy.save', 'builtins.open') or len(e.args) < 2:
            continue
        for c, t in leaves(e.args[1]):
            d = dictval(t)
            if d is None:
                continue
            miss = sorted(k for k in need if k not in d)
            rep.ob('metadata-complete', con, not miss, e.where, 'metadata of %s lacks %s, read at %s' % (s.sim, miss, need.get(miss[0]) if miss else ''))
