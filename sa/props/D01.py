"""What is removed or replaced was asked for, and is exactly what was named."""
import ast
from common import *
from flow import Interp
from effects import Effects, Fx, plain, shelled, WRITERS, REMOVERS, MOVERS, RUNNERS, DANGER
from textfs import pieces
from store import Store
from sources import sources
from props import S02

ASSUMPTIONS = [
    'commands run without a shell do with their operands what their manual pages say (rm, mv, cp, wget)',
    'numpy adds the usual extension to the names of the files it writes',
    'the registry of paths and the files of a light cone under construction are replaced by design (P01; the light cone directory is confirmed first)',
]
ME = P('self')
BASE = "/d/my sim;$(x)'q"
REFUSE = (('n',), ('', 'n'), ('x', 'N', 'no', 'n'))
ACCEPT = (('y',), ('what', '', 'y'))
FLAGS = ('overwrite', 'remake', 'redownload', 'replace', 'force', 'clobber')
LOSS = ('write', 'remove', 'replace', 'truncate')


def at_(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


class Both(Effects, S02.Host):
    pass


def lost(host, before):
    """effects that lose something that was there: [Fx]"""
    return [e for e in host.fx if e.kind in LOSS and (not e.known or before(e.path))]


def decided(e):
    return all(g[0].op not in ('caught',) for g in e.guards)


def run(prog, f, bind, heap=None, answers=('n',), there=lambda p: True, cls=None, host=None, models=None, skip=(), fail=None, vec=False, depth=6):
    host = host or Effects(answers, there)
    it = Interp(prog, inline=lambda a, b: b.name not in skip and b not in skip, depth=depth)
    it.host, it.fail, it.vec = host, fail, vec
    it.preset = {(ME, k): v for k, v in (heap or {}).items()}
    it.models = models or {}
    r = it.run(f, bind=defaults(it, f, bind), selfcls=cls or f.cls)
    return host, r, it


def heap_of(x, it):
    return {a: (x.state.store[l] if isinstance(l, int) else l) for (o, a), l in x.state.heap.items() if o is ME}


def states(prog, rep=None):
    """[(simulation, class, attributes after construction in the directory BASE with two snapshots)]"""
    c = prog.__dict__.setdefault('_effect_states', [])
    if c:
        return c
    for sim, found in sources(prog):
        for cls in sorted({s.cls for s in found}, key=lambda k: k.qual)[:1]:
            f = prog.lookup(cls, '__init__')
            h, r, it = run(prog, f, {'sim': K(sim), 'path': K(BASE), 'updatepath': FALSE}, cls=cls, skip=('_newsimpath',))
            ok = normal(r)
            if len(ok) != 1:
                if rep is not None:
                    rep.notes.append('%s: construction is not followed' % sim)
                continue
            heap = heap_of(ok[0], it)
            if heap.get('path') is not K(BASE):
                if rep is not None:
                    rep.notes.append('%s: directory %s' % (sim, show(heap['path']) if 'path' in heap else None))
                continue
            heap['snaps'] = L(K(0), K(1))
            heap['metadata'] = D((K('groupcat_number_files'), K(2)), (K('cosmo_h'), P('h')), (K('box_edge'), P('box')), (K('number_snaps'), K(2)), (K('name'), K(sim)))
            w = heap.get('web_files')
            if w is not None:
                ext = '.h5' if 'chuu' in cls.name else '.bin'
                heap['web_files'] = L(*[K('sfr_catalog_%d_data1%s' % (i, ext)) for i in range(3)])
            c.append((sim, cls, heap, h))
    return c


def check(prog, rep):
    rep.rule('refused prompt', 'nothing is removed or replaced, and the operation does not go on, when the prompt is refused', 8)
    rep.rule('not asked', 'existing files are kept unless replacing or removing them was asked for', 12)
    rep.rule('target', 'what is removed is exactly the directory or files of the object being cleaned', 4)
    rep.rule('own raw files', 'the raw files removed with a snapshot are named for it and belong to it alone', 3)
    rep.rule('within', 'everything removed or replaced is inside the directory of the simulation', 3)
    rep.rule('no shell', 'path text reaches a shell only quoted', 1)
    covered = set()
    raw(prog, rep, covered)
    formatting(prog, rep, covered)
    downloads(prog, rep, covered)
    lightcones(prog, rep, covered)
    rest(prog, rep, covered)
    shells(prog, rep)


def raw(prog, rep, covered):
    f0 = prog.func('SimCatalogs.clean_raw')
    if f0 is None:
        rep.notes.append('clean_raw not found')
        return
    fs = {}
    for sim, cls, heap, _ in states(prog, rep):
        fs.setdefault(prog.lookup(cls, 'clean_raw'), (sim, cls, heap))
    for f, (sim, cls, heap) in fs.items():
        rep.saw(f)
        covered.add(f)
        for a in REFUSE:
            h, r, it = run(prog, f, {}, heap, a, cls=cls)
            bad = lost(h, lambda p: True) + [e for e in h.fx if e.kind in ('shell', 'run')]
            rep.ob('refused prompt', '%s answered %s' % (f.qual, '/'.join(a)), not bad, bad[0].where if bad else at_(f), 'with answers %s: %s' % (a, bad[:2]))
        for a in ACCEPT:
            h, r, it = run(prog, f, {}, heap, a, cls=cls)
            gone = [e for e in h.fx if e.kind in LOSS]
            want = BASE + '/raw'
            if not gone and any(e.kind in ('shell', 'run') for e in h.fx):
                rep.notes.append('%s: command not followed: %s' % (f.qual, h.fx))
                continue
            if any(not e.known for e in gone):
                rep.notes.append('%s: %s' % (f.qual, gone))
                continue
            quoted(rep, h)
            ok = all(e.kind == 'remove' and (e.path.rstrip('/') == want or e.path.startswith(want + '/')) for e in gone) and bool(gone)
            rep.ob('target', '%s answered %s' % (f.qual, '/'.join(a)), ok, gone[0].where if gone else at_(f), 'cleaning the raw data of a simulation in %s does: %s' % (BASE, gone))


def formatting(prog, rep, covered):
    f = prog.func('SimCatalogs.format')
    if f is None:
        rep.notes.append('format not found')
        return
    rep.saw(f)
    covered.add(f)
    data = BASE + '/data.hdf5'

    def go(case, args, answers=('n',)):
        host = Both(answers, lambda p: (case['old'] is not None) if p == data else True)
        got = {(ME, '_get_rawsnapfiles'): lambda a, k: L(*[mk('text', 'raw of ', x) if plain(x) is None else K('raw of %s %s' % (plain(x), y)) for x in (list(a) + list(k.values()))[:1] for y in 'ab'])}
        it, host, r = S02.run(prog, f, dict(case, args={**case['args'], **args}), host, BASE, got)
        return host, r
    for name in ('no file yet', 'file with another snapshot', 'file with one of the snapshots, overwrite', 'file with other snapshots, remake'):
        case = S02.CASES[name]
        for a in REFUSE:
            host, r = go(case, {'realtime_clean_raw': TRUE}, a)
            if host.asked == 0 and not any(e.kind == 'remove' for e in host.fx):
                continue
            bad = [e for e in host.fx if e.kind in DANGER]
            rep.ob('refused prompt', '%s (%s) answered %s' % (f.qual, name, '/'.join(a)), not bad, bad[0].where if bad else at_(f), 'with answers %s: %s' % (a, bad[:2]))
    for name, case in list(S02.CASES.items()) + [(k + ', basic fields asked for', dict(c, args={**c['args'], 'basic': TRUE}, basic=1)) for k, c in S02.CASES.items() if c['old']]:
        host, r = go(case, {}, ('n',))
        bad = [e for e in host.fx if e.kind == 'remove' or e.kind in ('shell', 'run')]
        rep.ob('not asked', '%s (%s), raw data' % (f.qual, name), not bad, bad[0].where if bad else at_(f), 'with %s, raw data is removed although that was not asked for: %s' % (name, bad[:2]))
        cut = [e for e in host.fx if e.kind == 'write' and e.path == data]
        if case['old'] and 'remake' not in case['args']:
            rep.ob('not asked', '%s (%s), data file' % (f.qual, name), not cut, cut[0].where if cut else at_(f), 'with %s, the existing data file is emptied' % name)
        if 'basic' in case:
            continue
        for answers, args in ((('y',), {'realtime_clean_raw': TRUE}), (('hm', 'y'), {'realtime_clean_raw': TRUE}), (('n',), {'realtime_clean_raw': TRUE, 'realtime_clean_raw_check': FALSE})):
            host, r = go(case, args, answers)
            gone = [e for e in host.fx if e.kind in ('remove', 'replace')]
            if any(not e.known for e in gone):
                rep.notes.append('%s: %s' % (name, gone[:2]))
                continue
            quoted(rep, host)
            new = [s for s, k in case['want'].items() if k == 'new']
            want = {'%s/raw/raw of %d %s' % (BASE, s, y) for s in new for y in 'ab'}
            have = {e.path for e in gone if e.kind == 'remove'}
            extra = sorted(have - want) + [e for e in gone if e.kind == 'replace']
            rep.ob('target', '%s (%s)' % (f.qual, name), not extra, gone[0].where if gone else at_(f),
                   'with %s, where snapshots %s are formatted, these are removed too: %s' % (name, new, extra[:3]))
    # what the sources name
    seen = set()
    for sim, cls, heap, _ in states(prog, rep):
        g = prog.lookup(cls, '_get_rawsnapfiles')
        if g is None or (g, 'web_files' in heap) in seen:
            continue
        seen.add((g, 'web_files' in heap))
        rep.saw(g)
        names = {}
        for s in (0, 1):
            h, r, it = run(prog, g, {g.posparams[1]: K(s)}, heap, cls=cls)
            vs = [v for x in normal(r) for v in [x.value]]
            names[s] = [plain(y) for y in vs[0].a] if len(vs) == 1 and vs[0].op in ('list', 'tuple', 'vec') else None
        if any(n is None or None in n for n in names.values()):
            rep.notes.append('%s: names of raw files are not followed' % g.qual)
            continue
        clean = all(isinstance(x, str) and x.strip('/.') and not x.startswith('/') and '..' not in x.split('/') for n in names.values() for x in n)
        apart = not any(x == y or x.startswith(y + '/') or y.startswith(x + '/') for x in names[0] for y in names[1])
        rep.ob('own raw files', '%s for %s' % (g.qual, sim), clean and apart and names[0] != [], at_(g), 'raw files of snapshots 0 and 1 are %s and %s' % (names[0][:3], names[1][:3]))


def downloads(prog, rep, covered):
    for sim, cls, heap, h0 in states(prog, rep):
        init = prog.lookup(cls, '__init__')
        covered.add(init)
        bad = lost(h0, lambda p: True)
        rep.ob('not asked', '%s of %s' % (init.qual, sim), not bad, bad[0].where if bad else at_(init), 'opening a simulation that is set up does: %s' % bad[:2])
        for m in ('download', 'download_meta'):
            f = prog.lookup(cls, m)
            if f is None:
                continue
            rep.saw(f)
            covered.add(f)
            h, r, it = run(prog, f, {}, heap, cls=cls)
            bad = [e for e in lost(h, lambda p: True) if not (e.known and e.kind == 'write' and temp(e.path))]
            bad += [e for e in h.fx if e.kind in ('run', 'shell')]
            rep.ob('not asked', '%s of %s' % (f.qual, sim), not bad, bad[0].where if bad else at_(f), 'with everything there already: %s' % bad[:2])
            for there in (lambda p: False, lambda p: True):
                h, r, it = run(prog, f, {'redownload': TRUE} if there('') else {}, heap, there=there, cls=cls)
                quoted(rep, h)
                out = [e for e in h.fx if e.kind in LOSS and e.known and not e.path.startswith(BASE + '/')]
                out += [e for e in h.fx if e.kind == 'remove' and e.known and e.path.rstrip('/') in (BASE, BASE + '/raw')]
                if any(e.kind in LOSS for e in h.fx):
                    rep.ob('within', '%s of %s' % (f.qual, sim), not out, out[0].where if out else at_(f), 'outside what is downloaded: %s' % out[:2])


def temp(p):
    return p.endswith(('.part', '.tmp', '.partial', '.download', '~', '.temp'))


def lightcones(prog, rep, covered):
    base = prog.cls('GenericLCMaker')
    if base is None:
        rep.notes.append('light cone makers not found')
        return
    for c in sorted(prog.subclasses(base), key=lambda k: k.qual):
        f = prog.lookup(c, '__init__')
        if f is None or f in covered or 'overwrite' not in f.params:
            continue
        covered.add(f)
        rep.saw(f)

        def go(flag, answers):
            sim = sources(prog)[0][0]
            return run(prog, f, {**({'sim': K(sim)} if 'sim' in f.params else {}), 'name': K('my lc;'), **({'overwrite': flag} if flag is not None else {})}, {}, answers, cls=c,
                       skip=('_newlcpath', '_newsimpath', '_checkload_path_file', '_checkload_root_file'))
        h, r, it = go(TRUE, ('n',))
        if not normal(r):
            rep.notes.append('%s: construction is not followed' % f.qual)
            continue
        if not h.looked and not go(FALSE, ('n',))[0].looked:
            rep.notes.append('%s: existing light cones are not looked for with os.path' % f.qual)
            continue
        for flag, what in ((None, 'by default'), (K('check'), 'with overwrite="check"')):
            if flag is None and 'overwrite' not in f.defaults:
                continue
            for a in REFUSE:
                h, r, it = go(flag, a)
                bad = lost(h, lambda p: True)
                rep.ob('refused prompt', '%s %s answered %s' % (f.qual, what, '/'.join(a)), not normal(r) and not bad, at_(f),
                       'light cones of an existing name can be built %s although the prompt was answered %s' % (what, a))
        h, r, it = go(FALSE, ('y',))
        rep.ob('not asked', '%s with overwrite=False' % f.qual, not normal(r) and not lost(h, lambda p: True), at_(f), 'light cones of an existing name can be built with overwrite=False')


def called(g, name):
    return any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == name or isinstance(n.func, ast.Name) and n.func.id == name) for n in ast.walk(g.node))


def rest(prog, rep, covered):
    """other functions that write files: with everything there and every flag off, nothing is lost"""
    names = set(WRITERS) | set(REMOVERS) | set(MOVERS) | {'builtins.open', 'h5py.File'}
    direct = set()
    for q, f in sorted(prog.funcs.items()):
        for e in result(prog, f).events:
            if e.kind == 'extcall' and (e.name in names or e.name in RUNNERS):
                direct.add(f)
    registry = prog.cls('_SimIMPaths')
    base = prog.cls('GenericLCMaker')
    catalogs = prog.cls('SimCatalogs')

    def exempt(f):
        return f.cls is not None and (registry is not None and f.cls is registry or base is not None and base in prog.mro(f.cls) or
                                      catalogs is not None and catalogs in prog.mro(f.cls))
    entries, work, done = set(), list(direct), set()
    while work:
        f = work.pop()
        if f in done:
            continue
        done.add(f)
        if exempt(f):
            continue
        if f.name == '__init__' or not f.name.startswith('_'):
            entries.add(f)
            continue
        work += [g for g in prog.funcs.values() if g is not f and called(g, f.name)]
    for f in sorted(entries, key=lambda f: f.qual):
        if f in covered:
            continue
        bind = {p: FALSE for p in f.params if any(w in p for w in FLAGS)}
        bind.update({p: TRUE for p in f.params if 'comp' in p.split('_')})
        h, r, it = run(prog, f, bind, depth=4, skip=('_newproppath', '_newlcpath', '_newsimpath', '_setuppath'))
        if not h.fx and not h.looked:
            continue
        rep.saw(f)
        bad = [e for e in lost(h, lambda p: True) if not (e.known and temp(e.path)) and e.name != 'builtins.open' or e.kind in ('remove', 'shell', 'run')]
        bad = [e for e in bad if decided(e)]
        rep.ob('not asked', '%s with everything there%s' % (f.qual, ' and %s off' % '/'.join(sorted(p for p in bind if bind[p] is FALSE)) if FALSE in bind.values() else ''), not bad, bad[0].where if bad else at_(f),
               'existing files are replaced or removed: %s' % bad[:2])


# ------------------------------------------------------------------------------------------------ shells
def quoted(rep, host):
    for e in host.fx:
        if e.kind != 'shell':
            continue
        ps = [e.path] if e.known else pieces(e.path)
        if ps is None:
            rep.notes.append('%s: command not followed' % e.where)
            continue
        cmd = ''.join(p if isinstance(p, str) else 'X' for p in ps)
        if 'my sim' not in cmd:
            continue
        out = shelled(cmd)
        text = ''.join(c for c, _ in out)
        ok, i = BASE in text, text.find(BASE)
        while i >= 0:
            ok = ok and all(q == 2 or q == 1 and c not in '$`\\!' or c.isalnum() or c == '/' for c, q in out[i:i + len(BASE)])
            i = text.find(BASE, i + 1)
        rep.ob('no shell', e.where.split()[-1] + ' ' + str(e.name), ok, e.where, 'the directory %s reaches the shell as: %s' % (BASE, cmd[:300]))


def shells(prog, rep):
    """every command given to a shell anywhere: parts that come from paths are quoted"""
    for q, f in sorted(prog.funcs.items()):
        h, r, it = Effects([], None), result(prog, f), None
        for e in r.events:
            if e.kind != 'extcall' or e.name not in RUNNERS or not (e.args or 'args' in (e.kws or {})):
                continue
            sh = (e.kws or {}).get('shell')
            c = e.args[0] if e.args else e.kws['args']
            shell = e.name in ('os.system', 'os.popen', 'subprocess.getoutput', 'subprocess.getstatusoutput') or sh is not None and sh is not FALSE
            if not shell:
                if sh is None or sh is FALSE:
                    rep.ob('no shell', '%s %s' % (f.qual, e.name), True, e.where, '')
                continue
            bad = sorted({show(x)[:60] for x in raws(c)})
            rep.ob('no shell', '%s %s' % (f.qual, e.name), not bad, e.where, 'path text is interpreted by the shell: %s' % ', '.join(bad))


def raws(t):
    """parts of a command that come from paths and are not quoted"""
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'shlex.quote':
        return []
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0].startswith(('os.path.', 'pathlib.')):
        return [] if t.a[0].a[0] in ('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.getsize') else [t]
    if t.op == 'phi':
        return [y for x in t.a[1:] if hasattr(x, 'op') for y in raws(x)]
    if t.op == 'attr' and 'path' in t.a[1]:
        return [t]
    if t.op == 'param' and any(w in t.a[0].lower() for w in ('path', 'file', 'dir', 'root', 'folder')):
        return [t]
    out = []
    for x in t.kids() if hasattr(t, 'kids') else kids(t):
        out += raws(x)
    return out


def kids(t):
    out, work = [], list(t.a)
    while work:
        x = work.pop()
        if hasattr(x, 'op'):
            out.append(x)
        elif isinstance(x, (tuple, list)):
            work += list(x)
    return out
