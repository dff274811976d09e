"""The registry of data paths, followed through sequences of registrations and sessions."""
import ast
from common import *
from terms import rebuild
from flow import Interp
from textfs import TextFS, text, pieces

ASSUMPTIONS = [
    'names of simulations and properties have no spaces or line breaks; paths have no line breaks',
    'one session at a time writes the registry',
    'os.path.abspath of the same text in one working directory is one path',
]
A, B, C = 'Illustris-1', 'Illustris-1-Dark', 'UniverseMachine-SMDPL'
ME = P('self')
CLS = '_SimIMPaths'
KINDS = (('_newsimpath', 'sims'), ('_newlcpath', 'lcs'), ('_newproppath', 'props'))


def check(prog, rep):
    rep.rule('before setup', 'nothing is registered or found before a root directory was set', 6)
    rep.rule('root kept', 'the root directory that was set is found in later sessions', 2)
    rep.rule('registered', 'a registered path is known at once and in later sessions, under its name, in its registry', 9)
    rep.rule('latest', 'registering again replaces the path, in this and in later sessions', 6)
    rep.rule('declined', 'a path is kept when replacing it was declined', 6)
    rep.rule('absolute', 'registered paths do not depend on the working directory', 3)
    rep.rule('own directory', 'the default directories are inside the root, and differ by registry and name', 3)
    rep.rule('lookup', 'names that were never registered raise an error', 4)
    rep.rule('roles', 'data is looked up in the registry, under the name, where it was registered', 8)
    cls = prog.func(CLS + '.__init__')
    if cls is None:
        rep.notes.append('no path registry found')
        return
    s = Sessions(prog, rep, cls)
    s.all()
    if getattr(s, 'kinds', None):
        lookups(prog, rep, s)


class Lost(Exception):
    pass


class Sessions(object):
    def __init__(self, prog, rep, init):
        self.prog, self.rep, self.init = prog, rep, init
        self.files, self.heap, self.opaque = {}, {}, set()

    def there(self, p):
        return False if base(p) in self.names else True

    def run(self, f, bind, answers=('y',), heap=None, complete=True):
        host = TextFS(answers, self.there, self.opaque)
        it = Interp(self.prog, inline=lambda a, b: True, depth=6, unroll=32)
        pre = host.preset({})
        pre.update(self.files)
        for a, v in (self.heap if heap is None else heap).items():
            pre[(ME, a)] = v
        it.host, it.preset = host, pre
        r = it.run(f, bind=defaults(it, f, bind), selfcls=f.cls)
        self.rep.saw(f)
        ok = normal(r)
        self.host = host
        return ok

    def keep(self, x):
        """state of a finished call becomes the state of the next"""
        for (o, a), l in x.state.heap.items():
            v = x.state.store[l] if isinstance(l, int) else l
            if o.op == 'obj' and o.a[0] == 'textfile' and a == 'text':
                self.files[o, a] = v
            elif o is ME:
                self.heap[a] = v

    def one(self, f, what, bind, answers=('y',), heap=None):
        ok = self.run(f, bind, answers, heap)
        if len(ok) != 1:
            raise Lost('%s: %s' % (what, 'ways to finish: %d' % len(ok)))
        if any(v.op == 'unk' and 'contents' in str(v.a[0]) for (o, a), l in ok[0].state.heap.items() if o.op == 'obj' and o.a[0] == 'textfile'
               for v in [ok[0].state.store[l] if isinstance(l, int) else l]):
            raise Lost('%s: what is written is not followed' % what)
        return ok[0]

    def all(self):
        rep, prog = self.rep, self.prog
        r = Interp(prog, inline=lambda a, b: True, depth=6).run(self.init, selfcls=self.init.cls)
        opened = [e.args[0] for e in r.events if e.kind == 'extcall' and e.name in ('builtins.open', 'io.open') and e.args]
        self.names = {base(p) for p in opened} - {None}
        if not self.names:
            rep.notes.append('files of the registry not followed')
            return
        kinds = [(prog.lookup(self.init.cls, m), a) for m, a in KINDS]
        kinds = [(f, a) for f, a in kinds if f is not None]
        setup = prog.lookup(self.init.cls, '_setuppath')
        if len(kinds) != len(KINDS) or setup is None:
            rep.notes.append('registering not found')
            return
        self.kinds, self.setup = kinds, setup
        try:
            self.session(kinds, setup)
        except Lost as x:
            rep.notes.append('sessions not followed further: %s' % x)

    def session(self, kinds, setup):
        rep = self.rep
        x = self.one(self.init, 'first session', {})
        wh = at_(self.init)
        for f, a in kinds:
            v = final(x, a)
            rep.ob('before setup', a, v is not None and v.op == 'dict' and not v.a[0], wh, 'self.%s is %s without a root directory' % (a, show(v) if v is not None else 'missing'))
        self.keep(x)
        for f, a in kinds:
            ok = self.run(f, {f.posparams[1]: K(A)})
            rep.ob('before setup', f.qual, not ok and not self.host.writes, at_(f), 'registers without a root directory')
        root = text(['/', P('root directory')])
        x = self.one(setup, 'setup', {setup.posparams[1]: root})
        self.keep(x)
        R = final(x, 'root')
        if R is None:
            R = final(x, 'root')
        rep.ob('root kept', 'this session', R is not None and any(t is root for t in subterms(R)), at_(setup), 'self.root is %s' % (show(R) if R is not None else None))
        rep.ob('absolute', 'root', R is not None and absolute(R), at_(setup), 'the root is kept as %s' % (show(R) if R is not None else None))
        x = self.again()
        v = final(x, 'root')
        rep.ob('root kept', 'later sessions', v is R, wh, 'the root %s is read as %s' % (show(R), show(v) if v is not None else None))
        expect = {}
        for f, a in kinds:
            v = final(x, a)
            if v is None or v.op != 'dict':
                raise Lost('self.%s after setup' % a)
            expect[a] = {}
        self.keep(x)
        n = 0
        steps = [(A, 'registered', 1, ()), (B, 'registered', 1, ()), (A, 'latest', 1, ('y',)), (B, 'declined', 0, ('n',)),
                 (C, 'registered', 1, ()), (C, 'latest', 1, ('what', 'y')), (A, 'declined', 0, ('', 'n'))]
        for name, rule, change, answers in steps:
            for f, a in kinds:
                n += 1
                p = text(['/', P('path %d' % n)])
                x = self.one(f, '%s of %s' % (f.name, name), {f.posparams[1]: K(name), f.posparams[2]: p}, answers or ('no prompt',))
                v = got(final(x, a), name)
                if change and v is not None and v.op != 'unk' and not expect[a].get(name) is v:
                    if any(t is p for t in subterms(v)):
                        expect[a][name] = v
                        if rule == 'registered':
                            rep.ob('absolute', '%s %s' % (f.name, name), absolute(v), at_(f), 'registers %s' % show(v))
                        rep.ob(rule, '%s %s, this session' % (f.name, name), True, at_(f))
                    else:
                        rep.ob(rule, '%s %s, this session' % (f.name, name), False, at_(f), 'is known as %s' % show(v))
                        raise Lost('stopped at %s' % f.name)
                else:
                    rep.ob(rule, '%s %s, this session' % (f.name, name), v is not None and v is expect[a].get(name), at_(f),
                           'is %s' % ('not known' if v is None else 'still %s' % show(v) if change else 'now %s' % show(v)))
                    if v is not expect[a].get(name):
                        raise Lost('stopped at %s' % f.name)
                self.keep(x)
            x = self.again()
            bad = False
            for f, a in kinds:
                d = entries(final(x, a))
                if d is None:
                    raise Lost('self.%s read as %s' % (a, show(final(x, a))[:80]))
                ok = d == expect[a]
                bad = bad or not ok
                why = next(('%s is %s, was registered as %s' % (k, show(d[k]) if k in d else 'missing', show(v)) for k, v in expect[a].items() if d.get(k) is not v), 'others are registered')
                rep.ob(rule, '%s %s, later sessions' % (f.name, name), ok, at_(f), why)
            if bad:
                raise Lost('stopped after %s' % name)
            self.keep(x)
        autos = {}
        for f, a in kinds:
            for name in ('TNG100-1', 'TNG100-1-Dark'):
                x = self.one(f, '%s of %s in its default directory' % (f.name, name), {f.posparams[1]: K(name)}, ('no prompt',))
                v = got(final(x, a), name)
                if v is not None:
                    autos[f, name] = v
        for (f, name), v in autos.items():
            same = [g.name for (g, m), w in autos.items() if w is v and (g, m) != (f, name)]
            rep.ob('own directory', '%s %s' % (f.name, name), any(t is R for t in subterms(v)) and not same, at_(f), 'is %s%s' % (show(v), ', as for %s' % same[0] if same else ''))

        self.change(kinds, setup, R)

    def change(self, kinds, setup, R):
        """another root is offered, declined, accepted, and changed back"""
        rep, wh = self.rep, at_(setup)
        before = {a: entries(final(self.again(), a)) for f, a in kinds}
        other = text(['/', P('other directory')])
        first = text(['/', P('root directory')])
        b = setup.posparams[1]
        x = self.one(setup, 'another root, declined', {b: other}, ('what', 'n'))
        self.keep(x)
        v = final(x, 'root')
        y = self.again()
        rep.ob('declined', 'root', v is not None and not any(t is other for t in subterms(v)) and final(y, 'root') is v, wh, 'the root is replaced by %s although this was declined' % show(final(y, 'root')))
        if final(y, 'root') is not R:
            raise Lost('the root after it was declined')
        rep.ob('declined', 'paths after the root was kept', all(entries(final(y, a)) == before[a] for f, a in kinds), wh, 'registered paths are lost')
        x = self.one(setup, 'another root', {b: other}, ('y',))
        self.keep(x)
        v = final(x, 'root')
        y = self.again()
        rep.ob('root kept', 'another root', v is not None and any(t is other for t in subterms(v)) and final(y, 'root') is v, wh, 'the root is %s, later %s' % (show(v) if v is not None else None, show(final(y, 'root'))))
        for f, a in kinds:
            rep.ob('root kept', '%s of another root' % a, entries(final(x, a)) == {} and entries(final(y, a)) == {}, wh, 'paths of the former root are found under the new one')
        x = self.one(setup, 'the former root', {b: first}, ('y',))
        self.keep(x)
        for f, a in kinds:
            rep.ob('root kept', '%s of the former root' % a, entries(final(x, a)) == before[a], wh, 'paths of this root are not found again')

    def again(self):
        """a new session on the same files"""
        x = self.one(self.init, 'later session', {}, heap={})
        return x


def base(p):
    if p.op == 'const' and isinstance(p.a[0], str):
        return p.a[0].replace('\\', '/').rsplit('/', 1)[-1]
    if p.op == 'call' and p.a[1] and p.a[0].op == 'ext':
        return base(p.a[1][-1])
    if p.op == 'mcall' and p.a[2]:
        return base(p.a[2][-1])
    if p.op == 'bin' and p.a[0] in ('/', '+'):
        return base(p.a[2])
    return None


def entries(v):
    if v is None or v.op != 'dict' or not all(k.op == 'const' for k, _ in v.a[0]):
        return None
    return {k.a[0]: plain(x) for k, x in v.a[0]}


def plain(v):
    return rebuild(v, whole)


def whole(t):
    if t.op == 'mcall' and t.a[0] == 'join' and any(x.op == 'cutat' for x in subterms(t)):
        ps = pieces(t)
        return t if ps is None else text(ps)
    return t


def got(v, name):
    d = entries(v)
    if d is None:
        raise Lost('entry %s of %s' % (name, show(v)[:80] if v is not None else None))
    return d.get(name)


def absolute(v):
    if is_call(v, 'os.path.abspath', 'os.path.realpath'):
        return True
    if v.op == 'mcall' and v.a[0] in ('resolve', 'absolute'):
        return True
    if is_call(v, 'builtins.str', 'os.path.normpath', 'os.fspath') and v.a[1]:
        return absolute(v.a[1][0])
    if is_call(v, 'os.path.join') and v.a[1]:
        return absolute(v.a[1][0]) or is_call(v.a[1][0], 'os.getcwd')
    return False


class Users(Sessions):
    """classes that look paths up"""

    def start(self, **reg):
        """a fresh registry with some paths registered: reg: kind -> {name: path}"""
        self.files, self.heap = {}, {}
        self.rep_, self.rep = self.rep, Quiet(self.rep)
        try:
            x = self.one(self.init, 'first session', {})
            self.keep(x)
            x = self.one(self.setup, 'setup', {self.setup.posparams[1]: text(['/', P('root directory')])})
            self.keep(x)
            for f, a in self.kinds:
                for name, p in reg.get(a, {}).items():
                    self.keep(self.one(f, 'registering', {f.posparams[1]: K(name), f.posparams[2]: p}))
        finally:
            self.rep = self.rep_
        self.heap = {}

    def use(self, cls, answers=('y',), **bind):
        """exits of constructing the class in a new session; None: not followed"""
        f = self.prog.lookup(cls, '__init__')
        host = TextFS(answers, self.there, self.opaque)
        it = Interp(self.prog, inline=lambda a, b: True, depth=8, unroll=32)
        it.host, it.preset = host, dict(self.files)
        r = it.run(f, bind=defaults(it, f, {k: v for k, v in bind.items() if k in f.params}), selfcls=cls)
        self.rep.saw(f)
        self.host = host
        return normal(r)

    def after(self, cls, what, answers=('y',), **bind):
        ok = self.use(cls, answers, **bind)
        files = []
        for x in ok:
            fs = {}
            for (o, a), l in x.state.heap.items():
                if o.op == 'obj' and o.a[0] == 'textfile' and a == 'text':
                    fs[o, a] = x.state.store[l] if isinstance(l, int) else l
            files.append(fs)
        if not ok or any(f != files[0] for f in files) or any(v.op in ('phi', 'unk') for v in files[0].values()):
            raise Lost('%s: registry afterwards' % what)
        self.files = files[0]
        return ok

    def paths(self, ok, attr):
        out = set()
        for x in ok:
            v = final(x, attr)
            if v is None or v is mk('attr', ME, attr) or v.op in ('unk', 'phi'):
                return None
            out.add(plain(v))
        return out

    def cls(self, name):
        f = self.prog.func(name + '.__init__')
        return f.cls if f is not None else None


class Quiet(object):
    def __init__(self, rep):
        self.rep = rep
        self.notes = []

    def ob(self, *a):
        pass

    def saw(self, f):
        self.rep.saw(f)


def holds(v, p):
    return any(t is p for t in subterms(v))


def lookups(prog, rep, s):
    u = Users(prog, rep, s.init)
    u.names, u.opaque, u.kinds, u.setup = s.names, s.opaque, s.kinds, s.setup
    S, L = text(['/', P('simulation data')]), text(['/', P('light cone data')])
    what = dict(sim=K(A), name=K('cones'), number=K(0), openangle=P('openangle'))
    # names that are not registered
    for c in ('SimHandler', 'LCHandler', 'LCIterator', 'GenericLCMaker', 'LCMaker', 'SphereMaker'):
        cls = u.cls(c)
        if cls is None:
            continue
        f = prog.lookup(cls, '__init__')
        try:
            other = dict(what, sim=K(B))
            u.start(sims={A: S}, lcs={A: L})
            known = u.use(cls, **what)
            u.start(sims={A: S}, lcs={A: L})
            ok = u.use(cls, **other)
            if not known or not u.host.opened:
                rep.notes.append('%s: not followed' % c)
                continue
            rep.ob('lookup', c, not ok, at_(f), 'an unregistered simulation is accepted')
            for attr, kind, p, q in (('path', 'sims' if c == 'SimHandler' else 'lcs', S if c == 'SimHandler' else L, L if c == 'SimHandler' else S), ('lc_path', 'lcs', L, S), ('sim_path', 'sims', S, L)):
                vs = u.paths(known, attr)
                if vs is None:
                    continue
                bad = [v for v in vs if not holds(v, p) or holds(v, q)]
                rep.ob('roles', '%s.%s' % (c, attr), not bad, at_(f), 'is not the path registered in %s: %s' % (kind, show(bad[0]) if bad else ''))
        except Lost as x:
            rep.notes.append('%s not followed: %s' % (c, x))
    # what one class registers another finds
    for c in ('LCMaker', 'SphereMaker'):
        cls, h = u.cls(c), u.cls('LCHandler')
        if cls is None or h is None:
            continue
        try:
            u.start(sims={A: S})
            made = u.paths(u.after(cls, c, **what), 'lc_path')
            found = u.paths(u.use(h, **what), 'path')
            if made and len(made) == 1:
                v = list(made)[0]
                rep.ob('roles', '%s then LCHandler' % c, bool(found) and all(holds(w, v) for w in found), at_(prog.lookup(cls, '__init__')),
                       'light cones are written to %s and read from %s' % (show(v), ', '.join(show(w) for w in found or ()) or 'nowhere'))
        except Lost as x:
            rep.notes.append('%s not followed: %s' % (c, x))
    h = u.cls('SimHandler')
    for c in catalogs(prog):
        for label, reg, bind, answers in (('default directory', {}, {}, ('no prompt',)), ('given directory', {}, {'path': text(['/', P('given directory')])}, ('no prompt',)),
                                          ('other directory', {'sims': {A: S}}, {'path': text(['/', P('given directory')])}, ('y',)), ('registered directory', {'sims': {A: S}}, {}, ('no prompt',))):
            f = prog.lookup(c, '__init__')
            try:
                u.start(**reg)
                made = u.paths(u.after(c, c.name, answers, sim=K(A), **bind), 'path')
                found = u.paths(u.use(h, sim=K(A)), 'path')
                if made and len(made) == 1:
                    v = list(made)[0]
                    rep.ob('roles', '%s, %s, then SimHandler' % (c.name, label), bool(found) and all(w is v for w in found), at_(f),
                           'data is kept in %s and read from %s' % (show(v), ', '.join(show(w) for w in found or ()) or 'nowhere'))
            except Lost as x:
                rep.notes.append('%s, %s: not followed: %s' % (c.name, label, x))
    for m in prog.modules.values() if isinstance(prog.modules, dict) else prog.modules:
        for f in [f for f in prog.funcs.values() if f.module is m and f.name == '__init__' and f.cls is not None]:
            if 'galprops' not in m.name or not any(isinstance(n, ast.Name) and n.id == CLS for n in ast.walk(f.node)):
                continue
            properties(prog, rep, u, f)


def properties(prog, rep, u, f):
    c = f.cls.name
    S, T_ = text(['/', P('simulation data')]), text(['/', P('other simulation data')])
    try:
        u.start(sims={A: S, B: T_})
        one = u.paths(u.after(f.cls, c, ('no prompt',), sim=K(A)), 'path')
        files = u.files
        again = u.paths(u.use(f.cls, ('no prompt',), sim=K(A)), 'path')
        wrote = u.host.writes
        one = {v for v in one or () if v is not NONE}
        again = {v for v in again or () if v is not NONE}
        if one:
            rep.ob('roles', '%s, later session' % c, again == one and len(one) == 1 and not wrote, at_(f), 'the directory is %s, then %s%s' % (
                ', '.join(map(show, one)), ', '.join(map(show, again)) or 'none', ', and it is registered once more' if wrote else ''))
            for v in one:
                rep.ob('roles', '%s in its own directory' % c, not holds(v, S), at_(f), 'its tables are kept with the simulation, %s' % show(v))
        if one and 'sim' in f.params:
            u.files = files
            two = {v for v in u.paths(u.use(f.cls, ('no prompt',), sim=K(B)), 'path') or () if v is not NONE}
            rep.ob('roles', '%s of another simulation' % c, bool(two) and not two & one, at_(f), 'uses the same directory')
    except Lost as x:
        rep.notes.append('%s not followed: %s' % (c, x))


def catalogs(prog):
    f = prog.func('SimCatalogs.__init__')
    return [f.cls] + [c for c in prog.subclasses(f.cls) if c is not f.cls] if f is not None else []


def at_(f):
    return '%s:%s %s' % (f.module.path, f.node.lineno, f.qual)
