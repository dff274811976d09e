"""What marks something as complete comes after everything it vouches for."""
from common import *
from flow import Interp
from effects import Effects, plain, crashes
from program import AnalysisBroken
from props import S02
from props.D01 import Both, run, states, at_, ME, BASE, FLAGS, called, temp

ASSUMPTIONS = [
    'reading a torn .npy file fails; it is not taken for data',
    'files appear in the order they are written; a replaced file is replaced at once',
    'a file is complete once the call that writes it, or the with block that holds it open, has ended without an error',
]
FETCH = ('urllib.request.urlretrieve', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.copytree')


def check(prog, rep):
    rep.rule('marker last', 'whatever is interrupted, a file that is taken as a sign of completeness is there only if all it vouches for is complete and from the same run', 6)
    rep.rule('error before marker', 'when writing one of the files fails, the sign of completeness does not appear', 6)
    rep.rule('final-name', 'downloaded files get their final name only when they are complete', 3)
    rep.rule('failed download', 'a download that fails leaves no file under its final name', 3)
    rep.rule('raw data kept', 'raw data is removed only when the formatted snapshot is complete and its file is closed', 5)
    rep.rule('raw data kept on error', 'raw data is kept when reading or storing its snapshot fails', 8)
    rep.rule('listed-once-complete', 'a snapshot gets its name and is listed only once it is complete', 10)
    for what, f, reader, bind, heap, writer, wbinds, wheap, cls in pairs(prog, rep):
        markers(prog, rep, what, f, reader, bind, heap, writer, wbinds, wheap, cls)
    downloads(prog, rep)
    formatting(prog, rep)


SKIP = ('_newsimpath', '_newproppath', '_newlcpath', '_setuppath')


def pairs(prog, rep):
    """[(name, function, reader, arguments, attributes, writer, [arguments], attributes, class)] readers and writers of sets of files"""
    for sim, cls, heap, h in states(prog, rep):
        w, i = prog.lookup(cls, 'download_meta'), prog.lookup(cls, '__init__')
        if w is not None:
            yield '%s metadata' % sim, w, i, {'sim': K(sim), 'path': K(BASE), 'updatepath': FALSE}, {}, w, [({}, False), ({'redownload': TRUE}, True)], heap, cls
    direct = {f for q, f in sorted(prog.funcs.items()) if len([e for e in result(prog, f).events if e.kind == 'extcall' and e.name == 'numpy.save']) > 1}
    entries, work, done = set(), list(direct), set()
    while work:
        f = work.pop()
        if f in done:
            continue
        done.add(f)
        if f.name == '__init__':
            entries.add(f)
        elif f.name.startswith('_'):
            work += [g for g in prog.funcs.values() if g is not f and called(g, f.name)]
    for f in sorted(entries, key=lambda f: f.qual):
        flags = {p: FALSE for p in f.params if any(w in p for w in FLAGS)}
        flags.update({p: TRUE for p in f.params if 'comp' in p.split('_')})
        on = {p: TRUE for p in flags}
        yield f.cls.name, f, f, flags, {}, f, [(flags, False)] + ([(on, True)] if any(w in p for p in flags for w in FLAGS) else []), {}, f.cls


class Registered(Effects):
    """the registry of paths knows a root and every name"""

    def compare(self, op, a, b):
        if op in ('is', 'is not', '==', '!=') and NONE in (a, b):
            x = b if a is NONE else a
            if x.op == 'attr' and x.a[1] == 'root':
                return op in ('is not', '!=')
        if op in ('in', 'not in'):
            x = b
            if x.op == 'mcall' and x.a[0] == 'keys':
                x = x.a[1]
            if x.op == 'attr' and x.a[1] in ('props', 'lcs', 'sims'):
                return op == 'in'
        return None


def loads(r):
    out = []
    for e in r.events:
        if e.kind == 'extcall' and e.name in ('numpy.load', 'numpy.loadtxt') and e.args:
            p = plain(e.args[0])
            out.append(p if p is not None else e.args[0])
    return out


def nm(p):
    return p if isinstance(p, str) else show(p)


def markers(prog, rep, what, f, reader, bind, heap, writer, wbinds, wheap, cls):
    rep.saw(f)
    go = lambda g, b, hp, there, host=None: run(prog, g, b, hp, cls=cls, skip=skip, depth=5, host=host or Registered(('n',), there))
    skip = SKIP + tuple(x for x in prog.funcs.values() if x.cls is not None and x.cls.name == '_SimIMPaths')
    h, r, it = go(reader, bind, heap, lambda p: True)
    looked = list(dict.fromkeys(h.looked))
    have = loads(r)
    out = {}
    logs = []
    for b, there in wbinds:
        hw, rw, _ = go(writer, b, wheap, (lambda t: lambda p: t)(there))
        fx = [e for e in hw.fx if e.kind in ('write', 'replace', 'remove')]
        logs.append((b, there, fx, hw))
    written = {e.path for b, t, fx, hw in logs for e in fx if e.kind != 'remove'}
    for m in looked:
        if m not in written:
            continue
        h2, r2, _ = go(reader, bind, heap, lambda p, m=m: p != m)
        lost = set(have) - set(loads(r2))
        vouched = ({e.path for e in h2.fx if e.kind == 'write'} & set(have) | lost) & written
        if len(vouched | {m}) > 1:
            out[m] = vouched - {m}
    if not out:
        rep.notes.append('%s: no sign of completeness found (looked for %s, loaded %s)' % (what, [nm(p)[-40:] for p in looked[:5]], [nm(p)[-40:] for p in have[:5]]))
        return
    for b, there, fx, hw in logs:
        if not fx:
            rep.notes.append('%s: writing is not followed' % what)
            continue
        for m, vs in out.items():
            for p in vs | {m}:
                if p not in {e.path for e in fx}:
                    rep.notes.append('%s: %s is not written' % (what, nm(p)[-50:]))
            bad = None
            for e, st in crashes(fx, lambda p: there):
                s = st.get(m, 'old' if there else None)
                if s in (None, 'torn'):
                    continue
                off = [v for v in sorted(vs, key=nm) if st.get(v, 'old' if there else None) != s]
                if off:
                    bad = (e, off, st)
                    break
            rep.ob('marker last', '%s: %s%s' % (what, nm(m)[-40:], ' written again' if there else ''), bad is None, bad[0].where if bad else at_(writer),
                   '' if bad is None else 'interrupted at %s (%s), %s is there although %s is %s' % (bad[0].where, bad[0].kind, nm(m)[-50:], nm(bad[1][0])[-50:], bad[2].get(bad[1][0], 'old' if there else 'missing')))
            n = len([e for e in fx if e.kind == 'write'])
            for k in range(n):
                cnt = [0]

                def tear(name):
                    cnt[0] += 1
                    return cnt[0] == k + 1
                host = Registered(('n',), (lambda t: lambda p: t)(there))
                host.tear = tear
                hk, rk, _ = go(writer, b, wheap, None, host=host)
                torn = [e for e in hk.fx if e.kind == 'torn']
                if len(torn) != 1 or torn[0].path == m:
                    continue
                ends = crashes([e for e in hk.fx if e.kind in ('write', 'replace', 'remove', 'torn')], lambda p: there)
                st = ends[-1][1] if ends else {}
                s = st.get(m, 'old' if there else None)
                off = [v for v in vs if st.get(v, 'old' if there else None) != s] if s not in (None, 'torn') else []
                rep.ob('error before marker', '%s: %s when %s fails%s' % (what, nm(m)[-40:], nm(torn[0].path)[-40:], ' again' if there else ''), not off, torn[0].where,
                       'when %s cannot be written, %s is there all the same' % (nm(torn[0].path)[-50:], nm(m)[-50:]))


def downloads(prog, rep):
    for sim, cls, heap, h0 in states(prog, rep):
        f = prog.lookup(cls, 'download')
        if f is None:
            continue
        rep.saw(f)
        h, r, it = run(prog, f, {}, heap, cls=cls, there=lambda p: True)
        final = {p for p in h.looked if isinstance(p, str) and p.startswith(BASE + '/raw/')}
        if not final:
            rep.notes.append('%s: how %s finds existing files is not followed' % (sim, f.qual))
            continue
        for b in ({}, {'redownload': TRUE}):
            h, r, it = run(prog, f, b, heap, cls=cls, there=lambda p: False)
            if final & {e.path for e in h.fx if e.known} or any(e.kind == 'run' for e in h.fx):
                break
        got = [e for e in h.fx if e.kind in ('write', 'replace', 'run') and e.known]
        arrived = {e.path for e in got if e.kind in ('write', 'replace')}
        direct = [e for e in got if e.kind == 'write' and e.name in FETCH + ('builtins.open',) and e.path in final]
        direct += [e for e in got if e.kind == 'run' and any(p.startswith(e.path + '/') or p == e.path for p in final)]
        if not direct and not final & arrived:
            rep.notes.append('%s: how files of %s arrive is not followed' % (sim, f.qual))
            continue
        done, early = set(), []
        for e in got:
            if e.kind == 'write':
                done.add(e.path)
            elif e.kind == 'replace' and e.path in final and e.src not in done and isinstance(e.src, str):
                early.append(e)
        how = direct[0].name if direct else ''
        rep.ob('final-name', '%s.%s %s' % (cls.name, f.name, how), not direct and not early, (direct + early)[0].where if direct or early else at_(f),
               'for %s, files are written under the name (%s) that marks them as present' % (sim, (direct + early)[0].path if direct or early else ''))
        if direct and direct[0].kind == 'run':
            continue
        for name in FETCH:
            if not any(e.name == name for e in got):
                continue
            h, r, it = run(prog, f, b, heap, cls=cls, there=lambda p: False, fail=lambda n, a: n == name)
            bad = [e for e in h.fx if e.kind in ('write', 'replace') and e.path in final]
            rep.ob('failed download', '%s %s' % (f.qual, name), not bad, bad[0].where if bad else at_(f), 'for %s, when the download fails: %s' % (sim, bad[:2]))


def formatting(prog, rep):
    f = prog.func('SimCatalogs.format')
    if f is None:
        rep.notes.append('format not found')
        return
    rep.saw(f)
    base = '/d'
    data = base + '/data.hdf5'
    f0 = f

    def go(case, fail=None, models=None):
        host = Both(('y',), lambda p: (case['old'] is not None) if p == data else True)
        host.stores = True
        raws = {(ME, '_get_rawsnapfiles'): lambda a, k: L(*[K('raw of %s %s' % (plain(x), y)) for x in (list(a) + list(k.values()))[:1] for y in 'ab'])}
        raws.update(models or {})
        it, host, r = S02.run(prog, f, dict(case, args={**case['args'], 'realtime_clean_raw': TRUE}), host, base, raws, fail)
        return it, host, r
    for name, case in S02.CASES.items():
        it, host, r = go(case)
        S02.order(rep, at_(f), name, case, it, host)
        gone = [(i, e) for i, e in enumerate(host.fx) if e.kind == 'remove']
        for i, e in gone:
            s = snap_of(e.path)
            if s is None:
                rep.notes.append('%s: what is removed is not followed: %s' % (name, e))
                continue
            g = 'Snapshot %s' % s
            before, after = host.fx[:i], host.fx[i + 1:]
            named = any(x.kind == 'store' and x.what in ('link', 'create') and x.name == g for x in before)
            isopen = 0
            for x in before:
                if x.kind in ('write', 'modify') and x.path == data and x.name == 'h5py.File':
                    isopen += 1
                elif x.kind == 'close' and x.path == data and x.mode in ('w', 'a', 'r+', 'w-', 'x'):
                    isopen -= 1
            later = [x for x in after if x.kind == 'store' and (g in x.node.a[3] or x.name == g)]
            rep.ob('raw data kept', 'SimCatalogs.format, snapshot stored', named and not later, e.where, 'with %s, raw data of snapshot %s is removed before the snapshot is stored' % (name, s))
            rep.ob('raw data kept', 'SimCatalogs.format, file closed', isopen <= 0, e.where, 'with %s, raw data of snapshot %s is removed while the data file is still being written' % (name, s))
    # errors on the way
    for name in ('no file yet', 'file with another snapshot', 'file with all the snapshots, overwrite'):
        case = S02.CASES[name]
        for what, fail in (('reading raw data', lambda n, a: n == '_loader'), ('storing a column', lambda n, a: n == 'create_dataset'),
                           ('opening the data file for writing', lambda n, a: n == 'h5py.File' and len(a) > 1 and plain(a[1]) == 'a')):
            it, host, r = go(case, fail)
            gone = [e for e in host.fx if e.kind in ('remove', 'run', 'shell')]
            rep.ob('raw data kept on error', 'SimCatalogs.format when %s fails' % what, not gone, gone[0].where if gone else at_(f),
                   'with %s, when %s fails, raw data is removed all the same: %s' % (name, what, gone[:2]))


def snap_of(p):
    w = p.split('/raw of ')[-1].split() if isinstance(p, str) and '/raw of ' in p else ()
    return int(w[0]) if w and w[0].isdigit() else None
