"""Model of effects on files: what is written, replaced, removed or fetched, in order, with given answers to prompts
and a given set of files.  Paths are concrete text."""
import posixpath
import shlex
from terms import T, mk, K, NONE, TRUE, FALSE, is_const, subterms
from store import Store
from textfs import pieces

WRITERS = {'numpy.save': ('file', 0, '.npy'), 'numpy.savez': ('file', 0, '.npz'), 'numpy.savez_compressed': ('file', 0, '.npz'), 'numpy.savetxt': ('fname', 0, ''),
           'urllib.request.urlretrieve': ('filename', 1, ''), 'shutil.copy': ('dst', 1, ''), 'shutil.copyfile': ('dst', 1, ''), 'shutil.copy2': ('dst', 1, ''),
           'shutil.copytree': ('dst', 1, ''), 'numpy.ndarray.tofile': ('fid', 1, '')}
REMOVERS = ('os.remove', 'os.unlink', 'os.rmdir', 'shutil.rmtree', 'os.removedirs')
MOVERS = ('os.replace', 'os.rename', 'shutil.move', 'os.renames', 'os.link', 'os.symlink')
RUNNERS = ('subprocess.call', 'subprocess.run', 'subprocess.check_call', 'subprocess.check_output', 'subprocess.Popen', 'subprocess.getoutput',
           'subprocess.getstatusoutput', 'os.system', 'os.popen')
EXISTS = ('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.lexists')
PURE = {'os.path.join': posixpath.join, 'os.path.basename': posixpath.basename, 'os.path.dirname': posixpath.dirname, 'os.path.normpath': posixpath.normpath,
        'shlex.quote': shlex.quote, 'os.fspath': str, 'builtins.str': str, 'os.path.abspath': posixpath.normpath, 'os.path.realpath': posixpath.normpath,
        'os.path.expanduser': str}
DANGER = ('write', 'modify', 'remove', 'replace', 'shell', 'run', 'truncate')


class Fx(object):
    """one effect: kind, path (text, term when not known), source of a replacement, guards, where"""
    def __init__(self, kind, path, guards, ctx, n, src=None, name=None):
        self.kind, self.path, self.guards, self.src, self.name = kind, path, guards, src, name
        self.where = '%s:%d %s' % (ctx.func.module.path, getattr(n, 'lineno', 0), ctx.func.qual)

    def __repr__(self):
        return '%s %s%s' % (self.kind, self.path if isinstance(self.path, str) else 'of something', ' from %s' % self.src if self.src is not None else '')

    @property
    def known(self):
        return isinstance(self.path, str)


class Closed(object):
    kind, guards, src, name, where = 'close', (), None, None, ''

    def __init__(self, path, mode):
        self.path, self.mode = plain(path) if plain(path) is not None else path, mode
        self.known = isinstance(self.path, str)


def crashes(fx, initial):
    """[(effect, {path: 'old' / 'new' / 'torn' / None})]: what is there if everything ends after (or within) an effect"""
    state, out = {}, []

    def get(p):
        return state.get(p, 'old' if initial(p) else None)
    for e in fx:
        if e.kind == 'write':
            out.append((e, dict(state, **{})))
            out[-1][1][e.path] = 'torn'
            state[e.path] = 'new'
        elif e.kind == 'torn':
            state[e.path] = 'torn'
        elif e.kind == 'replace':
            state[e.path], state[e.src] = get(e.src), None
        elif e.kind == 'remove':
            state[e.path] = None
        else:
            continue
        out.append((e, dict(state)))
    return out


def plain(t):
    return t.a[0] if t is not None and t.op == 'const' and isinstance(t.a[0], (str, int)) else None


def shelled(cmd):
    """[(character, how it reaches the shell)] : 0 bare, 1 in double quotes, 2 literal"""
    out, q, i = [], None, 0
    while i < len(cmd):
        c = cmd[i]
        if q == "'":
            if c == "'":
                q = None
            else:
                out.append((c, 2))
        elif c == '\\' and i + 1 < len(cmd):
            i += 1
            out.append((cmd[i], 2))
        elif q == '"':
            if c == '"':
                q = None
            else:
                out.append((c, 1))
        elif c in '\'"':
            q = c
        else:
            out.append((c, 0))
        i += 1
    return out


class Effects(Store):
    concrete = True

    def __init__(self, answers=(), there=None):
        Store.__init__(self)
        self.answers, self.asked, self.initial = list(answers), 0, there
        self.fx, self.looked, self.closed = [], [], []
        self.tear = None        # tear(name): this write is interrupted
        self.stores = False     # keep changes inside data files as effects too

    def lists(self):
        return self.fx, self.looked, self.closed, self.opened, self.changes, self.faults

    def mark(self):
        return [self.asked] + [len(l) for l in self.lists()]

    def reset(self, m):
        self.asked = m[0]
        for l, k in zip(self.lists(), m[1:]):
            del l[k:]

    def truth(self, t):
        if t.op == 'dict':
            return bool(t.a[0])
        if t.op in ('list', 'tuple'):
            return bool(t.a)
        return None

    # ---------------------------------------------------------------- files
    def there(self, p):
        for e in reversed(self.fx):
            if e.kind in ('write', 'modify', 'mkdir') and e.path == p:
                return True
            if e.kind == 'replace':
                if e.path == p:
                    return True
                if e.src == p:
                    return False
            if e.kind == 'remove' and p == e.path:
                return False
            if not (e.known and isinstance(p, str)):
                continue
            if e.kind == 'run' and p.startswith(e.path + '/'):
                return True
            if e.kind == 'remove' and p.startswith(e.path + '/'):
                return False
        return self.initial(p) if self.initial else None

    def did(self, st, ctx, n, kind, path, src=None, name=None):
        p = plain(path) if isinstance(path, T) else path
        s = plain(src) if isinstance(src, T) else src
        self.fx.append(Fx(kind, p if p is not None else path, st.guards, ctx, n, s if s is not None else src, name))

    def argv(self, st, ctx, n, words, name):
        """a command line, split"""
        w = [plain(x) if isinstance(x, T) else x for x in words]
        cmd = posixpath.basename(w[0]) if w and isinstance(w[0], str) else None
        ops = [words[i] for i in range(1, len(words)) if not (isinstance(w[i], str) and w[i].startswith('-'))]
        if cmd in ('rm', 'rmdir', 'unlink'):
            for o in ops:
                self.did(st, ctx, n, 'remove', o, None, name)
        elif cmd in ('mv', 'cp', 'ln') and len(ops) == 2:
            self.did(st, ctx, n, 'replace' if cmd == 'mv' else 'write', ops[1], ops[0], name)
        else:
            out = None
            for i, x in enumerate(w[:-1]):
                if cmd == 'wget' and x in ('-P', '-O', '--directory-prefix', '--output-document') or cmd == 'curl' and x in ('-o', '--output'):
                    out = words[i + 1]
            self.did(st, ctx, n, 'run', out if out is not None else mk('unk', 'command'), cmd, name)

    def call(self, it, ctx, st, n, ft, args, kws):
        nm = ft.a[0] if ft.op == 'ext' else None
        if nm is not None:
            r = self.outside(it, ctx, st, n, nm, args, kws)
            if r is not None:
                return r
        k = len(self.changes)
        r = super().call(it, ctx, st, n, ft, args, kws)
        if nm == 'h5py.File' and self.opened:
            m, p = self.opened[-1][:2]
            if m in ('w', 'w-', 'x'):
                self.did(st, ctx, n, 'write', p, None, 'h5py.File')
            elif m in ('a', 'r+'):
                self.did(st, ctx, n, 'modify', p, None, 'h5py.File')
        return r

    def outside(self, it, ctx, st, n, nm, args, kws):
        if nm in PURE and args and all(plain(a) is not None for a in args) and not kws:
            try:
                return K(PURE[nm](*[plain(a) for a in args]))
            except TypeError:
                return None
        if nm in ('numpy.all', 'numpy.any', 'builtins.all', 'builtins.any') and len(args) == 1 and not kws and args[0].op in ('list', 'tuple', 'vec') and \
                all(x.op == 'const' for x in args[0].a):
            return K((all if nm.endswith('all') else any)(x.a[0] for x in args[0].a))
        if nm == 'builtins.input' and self.answers:
            a = self.answers[min(self.asked, len(self.answers) - 1)]
            self.asked += 1
            return K(a)
        if nm in EXISTS and len(args) == 1:
            p = plain(args[0])
            p = p if p is not None else args[0]
            self.looked.append(p)
            r = self.there(p)
            return None if r is None else K(r)
        if nm in ('builtins.open', 'io.open') and args:
            m = plain(args[1] if len(args) > 1 else kws.get('mode', K('r')))
            if m is not None and m[:1] in 'wx':
                self.did(st, ctx, n, 'write', args[0], None, nm)
            elif m is None or m[:1] == 'a' or '+' in m:
                self.did(st, ctx, n, 'modify', args[0], None, nm)
            return None
        if nm in WRITERS:
            k, i, ext = WRITERS[nm]
            p = args[i] if len(args) > i else kws.get(k)
            if p is None:
                return None
            if self.tear is not None and self.tear(nm):
                self.did(st, ctx, n, 'torn', p, None, nm)
                return it.broken(ctx, st, n)
            if plain(p) is not None and ext and not plain(p).endswith(ext):
                p = K(plain(p) + ext)
            self.did(st, ctx, n, 'write', p, None, nm)
            return NONE if nm.startswith('numpy') else None
        if nm in REMOVERS and args:
            self.did(st, ctx, n, 'remove', args[0], None, nm)
            return NONE
        if nm in MOVERS and len(args) + len(kws) >= 2:
            a = list(args) + [kws[k] for k in ('src', 'dst') if k in kws]
            self.did(st, ctx, n, 'replace', a[1], a[0], nm)
            return NONE
        if nm in ('os.mkdir', 'os.makedirs') and args:
            self.did(st, ctx, n, 'mkdir', args[0], None, nm)
            return NONE
        if nm in RUNNERS and (args or 'args' in kws):
            c = args[0] if args else kws['args']
            sh = kws.get('shell')
            shell = nm in ('os.system', 'os.popen', 'subprocess.getoutput', 'subprocess.getstatusoutput') or sh is not None and not is_const(sh, False)
            if not shell and c.op in ('list', 'tuple', 'vec'):
                self.argv(st, ctx, n, list(c.a), nm)
                return None
            if shell and c.op in ('list', 'tuple') and c.a:
                c = c.a[0]
            self.did(st, ctx, n, 'shell' if shell else 'run', c, None, nm)
            s = plain(c)
            if s is None:
                ps = pieces(c)
                s = ''.join(x if isinstance(x, str) else 'X' for x in ps) if ps is not None else None
            if s is not None:
                try:
                    w = shlex.split(s)
                except ValueError:
                    return None
                if w:
                    self.argv(st, ctx, n, w, nm)
            return None
        return None

    def leave(self, it, ctx, st, v):
        """the end of a with block"""
        if Store.owns(self, v) and v.a[1] == 'file':
            self.closed.append((len(self.fx), v.a[2], v.a[4]))
            if self.stores:
                self.fx.append(Closed(v.a[2], v.a[4]))

    def wr(self, ctx, st, n, what, name, value=None):
        super().wr(ctx, st, n, what, name, value)
        if self.stores:
            e = Fx('store', n.a[2] if plain(n.a[2]) is None else plain(n.a[2]), st.guards, ctx, None, None, name)
            e.what, e.node, e.value = what, n, value
            self.fx.append(e)

    def method(self, it, ctx, st, n_, n, name, args, kws):
        if name == 'close' and Store.owns(self, n) and n.a[1] == 'file':
            self.closed.append((len(self.fx), n.a[2], n.a[4]))
            if self.stores:
                self.fx.append(Closed(n.a[2], n.a[4]))
        return super().method(it, ctx, st, n_, n, name, args, kws)
