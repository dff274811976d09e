"""Model of small text files: contents are sequences of pieces, literal text or terms that stand for any text
without line breaks (paths).  File contents are kept in the analysed state; answers to prompts are given.

text('pieces'): mk('text', piece, ...), piece = str or term."""
from terms import T, mk, K, NONE, TRUE, FALSE, is_const, subterms

LOST = mk('unk', 'text that was cut')


def norm(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


def text(ps):
    ps = norm(ps)
    if not ps:
        return K('')
    if len(ps) == 1:
        return K(ps[0]) if isinstance(ps[0], str) else ps[0] if ps[0].op != 'text' else ps[0]
    return mk('text', *ps)


def pieces(t):
    """pieces of a term used as text; None: not followed"""
    if t.op == 'const':
        return [t.a[0]] if isinstance(t.a[0], str) else [str(t.a[0])] if isinstance(t.a[0], int) else None
    if t.op == 'text':
        return list(t.a)
    if t.op == 'bin' and t.a[0] == '+':
        x, y = pieces(t.a[1]), pieces(t.a[2])
        return None if x is None or y is None else norm(x + y)
    if t.op == 'fstr':
        out = []
        for p in t.a:
            if isinstance(p, T) and p.op == 'fmt':
                if len(p.a) > 1 and any(x not in (None, '', -1, NONE) and not (isinstance(x, T) and is_const(x, '', None, -1)) for x in p.a[1:]):
                    return None
                p = p.a[0]
            q = [p] if isinstance(p, str) else pieces(p)
            if q is None:
                return None
            out += q
        return norm(out)
    if t.op == 'mcall' and t.a[0] == 'format' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], str):
        import string
        out, auto = [], 0
        kws = dict(t.a[3]) if len(t.a) > 3 else {}
        try:
            for lit, field, spec, conv in string.Formatter().parse(t.a[1].a[0]):
                out.append(lit)
                if field is None:
                    continue
                if spec or conv not in (None, 's'):
                    return None
                if field == '':
                    field, auto = str(auto), auto + 1
                v = t.a[2][int(field)] if field.isdigit() else kws[field]
                q = pieces(v)
                if q is None:
                    return None
                out += q
        except (ValueError, IndexError, KeyError):
            return None
        return norm(out)
    if t.op == 'bin' and t.a[0] == '%' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], str):
        args = list(t.a[2].a) if t.a[2].op == 'tuple' else [t.a[2]]
        parts = t.a[1].a[0].split('%s')
        if len(parts) != len(args) + 1 or any('%' in p for p in parts):
            return None
        out = [parts[0]]
        for a, p in zip(args, parts[1:]):
            q = pieces(a)
            if q is None:
                return None
            out += q + [p]
        return norm(out)
    if t.op == 'mcall' and t.a[0] == 'join' and t.a[1].op == 'const' and len(t.a[2]) == 1 and t.a[2][0].op in ('list', 'tuple'):
        out = []
        for i, x in enumerate(t.a[2][0].a):
            q = pieces(x.a[0] if x.op == 'cutat' and x.a[1] == t.a[1].a[0] else x)
            if q is None:
                return None
            out += ([t.a[1].a[0]] if i else []) + q
        return norm(out)
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('builtins.str', 'os.fspath') and len(t.a[1]) == 1:
        return pieces(t.a[1][0])
    if t.op in ('phi', 'cutat', 'unk', 'mu', 'loop', 'upd', 'mut', 'comp', 'list', 'tuple', 'dict', 'obj'):
        return None
    return [t]


def whose(t):
    return {x for x in subterms(t) if x.op == 'param'} if t.op in ('call', 'text') else set()


class TextFS(object):
    def __init__(self, answers=(), there=None, opaque=None):
        self.opaque = opaque if opaque is not None else set()     # terms known to be text without line breaks
        self.opened, self.faults, self.writes, self.other = [], [], [], []
        self.answers = list(answers)     # answers to prompts, in turn; the last one repeats
        self.asked = 0
        self.there = there               # path term -> True / False / None (undecided)

    def owns(self, t):
        return t.op == 'text' or t.op == 'obj' and t.a[0] == 'textfile' or t in self.opaque

    concrete = True

    def mark(self):
        return self.asked, len(self.opened), len(self.faults), len(self.writes), len(self.other)

    def reset(self, m):
        self.asked = m[0]
        for l, k in zip((self.opened, self.faults, self.writes, self.other), m[1:]):
            del l[k:]

    def truth(self, t):
        if t.op == 'text' or t in self.opaque:
            return True
        return None

    def compare(self, op, a, b):
        if op in ('==', '!=') and 'text' in (a.op, b.op) and 'const' in (a.op, b.op):
            t, c = (a, b) if a.op == 'text' else (b, a)
            s = c.a[0]
            if not isinstance(s, str):
                return op == '!='
            p, q = t.a[0], t.a[-1]
            if isinstance(p, str) and not (s.startswith(p)) or isinstance(q, str) and not s.endswith(q):
                return op == '!='
        if op in ('is', 'is not', '==', '!=') and NONE in (a, b):
            t = b if a is NONE else a
            if t.op in ('text', 'cutat') or t in self.opaque:
                return op in ('is not', '!=')
        if op in ('==', '!='):
            x, y = whose(a), whose(b)
            if x and y and x != y:      # different free names: different paths
                return op == '!='
        if op in ('==', '!=') and K('') in (a, b) and (a in self.opaque or b in self.opaque):
            return op == '!='
        return None

    # contents: heap entry (obj textfile path None, 'text') -> mk('text'..) or const
    def key(self, path):
        return mk('obj', 'textfile', path, None)

    def preset(self, files):
        return {(self.key(p), 'text'): text(t) for p, t in files.items()}

    def content(self, st, path):
        l = st.heap.get((self.key(path), 'text'))
        return st.store[l] if l is not None else None

    def put(self, it, st, path, t):
        st.heap[(self.key(path), 'text')] = it.newloc(st, t)

    def call(self, it, ctx, st, n, ft, args, kws):
        nm = ft.a[0] if ft.op == 'ext' else None
        if nm in ('os.path.abspath', 'os.path.expanduser', 'os.path.normpath', 'os.path.realpath') and len(args) == 1 and args[0].op == 'call' and \
                args[0].a[0].op == 'ext' and args[0].a[0].a[0] in ('os.path.abspath', 'os.path.realpath') and (nm != 'os.path.realpath' or args[0].a[0].a[0] == nm):
            return args[0]      # already absolute and normal
        if nm == 'builtins.input' and self.answers:
            a = self.answers[min(self.asked, len(self.answers) - 1)]
            self.asked += 1
            return a if isinstance(a, T) else K(a)
        if nm in ('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.lexists') and len(args) == 1:
            if self.content(st, args[0]) is not None:
                return K(nm != 'os.path.isdir')
            r = self.there(args[0]) if self.there else None
            return None if r is None else K(r)
        if nm in ('builtins.open', 'io.open') and args:
            mode = args[1] if len(args) > 1 else kws.get('mode', K('r'))
            m = mode.a[0] if mode.op == 'const' else '?'
            c = self.content(st, args[0])
            self.opened.append((m, args[0], st.guards, ctx))
            if m[:1] == 'w':
                self.put(it, st, args[0], K(''))
            elif m[:1] in 'ax' and c is None:
                self.put(it, st, args[0], K(''))
            elif m[:1] == 'r' and c is None:
                return None
            return mk('obj', 'textfile', args[0], m)
        if nm == 'builtins.print' and kws.get('file') is not None and self.owns(kws['file']):
            sep, end = kws.get('sep', K(' ')), kws.get('end', K('\n'))
            ps = []
            for i, a in enumerate(args):
                q = pieces(a)
                if q is None or sep.op != 'const' or end.op != 'const':
                    return self.wrote(it, ctx, st, kws['file'], None)
                ps += ([sep.a[0]] if i else []) + q
            return self.wrote(it, ctx, st, kws['file'], ps + [end.a[0]])
        if nm in ('os.mkdir', 'os.makedirs', 'os.remove', 'os.rename', 'os.replace', 'os.unlink', 'shutil.rmtree', 'os.rmdir', 'os.system', 'subprocess.call', 'subprocess.run'):
            self.other.append((nm, args, st.guards, ctx))
            if nm in ('os.replace', 'os.rename') and len(args) == 2 and self.content(st, args[0]) is not None:
                self.put(it, st, args[1], self.content(st, args[0]))
        return None

    def wrote(self, it, ctx, st, f, ps):
        self.writes.append((f.a[1], ps, st.guards, ctx))
        self.opaque.update(p for p in ps or () if isinstance(p, T))
        old = self.content(st, f.a[1])
        o = pieces(old) if old is not None else None
        if f.a[2][:1] == 'r' and '+' not in f.a[2]:
            self.faults.append(('written to a file opened for reading', ctx))
        self.put(it, st, f.a[1], mk('unk', 'contents') if ps is None or o is None else text(o + ps))
        return NONE

    # ---------------------------------------------------------------- text
    def lines(self, ps, keep):
        out, cur = [], []
        for p in ps:
            if not isinstance(p, str):
                cur.append(p)
                continue
            parts = p.split('\n')
            for i, x in enumerate(parts):
                cur.append(x)
                if i < len(parts) - 1:
                    out.append(text(cur + (['\n'] if keep else [])))
                    cur = []
        if norm(cur):
            out.append(text(cur))
        return out

    def entries(self, it, st, n):
        if n.op == 'obj':
            c = self.content(st, n.a[1])
            ps = pieces(c) if c is not None else None
            return None if ps is None else mk('list', *self.lines(ps, True))
        return None

    def method(self, it, ctx, st, n_, n, name, args, kws):
        if n.op == 'obj':
            if name == 'write' and len(args) == 1:
                return self.wrote(it, ctx, st, n, pieces(args[0]))
            if name == 'writelines' and len(args) == 1:
                ps = []
                for a in args[0].a if args[0].op in ('list', 'tuple') else [mk('unk', '?')]:
                    q = pieces(a)
                    if q is None:
                        return self.wrote(it, ctx, st, n, None)
                    ps += q
                return self.wrote(it, ctx, st, n, ps)
            if name in ('close', 'flush'):
                return NONE
            if name == '__enter__':
                return n
            c = self.content(st, n.a[1])
            ps = pieces(c) if c is not None else None
            if ps is None:
                return None
            if name == 'readlines' and not args:
                return mk('list', *self.lines(ps, True))
            if name == 'readline' and not args:
                l = self.lines(ps, True)
                return l[0] if l else K('')
            if name == 'read' and not args:
                return text(ps)
            return None
        ps = list(n.a) if n.op == 'text' else [n]
        if name == 'splitlines':
            return mk('list', *self.lines(ps, bool(args) and is_const(args[0], True)))
        if name in ('strip', 'rstrip', 'lstrip'):
            chars = None if not args or args[0] is NONE else args[0].a[0] if args[0].op == 'const' else False
            if chars is False:
                return None
            if name != 'rstrip' and isinstance(ps[0], str):
                ps[0] = ps[0].lstrip(chars)
            if name != 'lstrip' and isinstance(ps[-1], str):
                ps[-1] = ps[-1].rstrip(chars)
            ps = norm(ps)
            ends = ([ps[0]] if ps and name != 'rstrip' else []) + ([ps[-1]] if ps and name != 'lstrip' else [])
            if chars is not None and any(not isinstance(e, str) for e in ends) and set(chars) - set('\r\n'):
                return LOST
            return text(ps)
        if name == 'replace' and len(args) >= 2 and args[0].op == args[1].op == 'const':
            a, b = args[0].a[0], args[1].a[0]
            if any(not isinstance(p, str) for p in ps) and '\n' not in a:
                return LOST
            if len(args) > 2:
                return None
            return text([p.replace(a, b) if isinstance(p, str) else p for p in ps])
        if name in ('split', 'rsplit', 'partition', 'rpartition'):
            sep = args[0] if args else kws.get('sep', NONE)
            cnt = args[1] if len(args) > 1 else kws.get('maxsplit', K(-1))
            if sep.op != 'const' or cnt.op != 'const':
                return None
            if name in ('partition', 'rpartition'):
                cnt = K(1)
            return self.split(ps, sep.a[0], cnt.a[0], name)
        if name in ('startswith', 'endswith', 'isspace'):
            p = ps[0] if name == 'startswith' else ps[-1]
            if name == 'endswith' and isinstance(p, str) and args and args[0].op == 'const' and isinstance(args[0].a[0], str) and (len(p) >= len(args[0].a[0])):
                return K(p.endswith(args[0].a[0]))
            if name == 'startswith' and isinstance(p, str) and args and args[0].op == 'const' and isinstance(args[0].a[0], str) and (len(p) >= len(args[0].a[0])):
                return K(p.startswith(args[0].a[0]))
            if name == 'isspace':
                return K(all(isinstance(x, str) and x.isspace() for x in ps))
        if name in ('find', 'index') and len(args) == 1 and args[0].op == 'const' and isinstance(ps[0], str) and args[0].a[0] in ps[0]:
            return K(ps[0].index(args[0].a[0]))
        return None

    def split(self, ps, sep, cnt, name):
        right = name.startswith('r')
        sym = any(not isinstance(p, str) for p in ps)
        if not sym:
            s = ''.join(ps)
            r = getattr(s, name)(sep) if 'partition' in name else getattr(s, name)(sep, cnt)
            return mk('tuple' if 'partition' in name else 'list', *[K(x) for x in r])
        if sep == '\n':
            return mk('list', *(self.lines(ps, False) + ([K('')] if isinstance(ps[-1], str) and ps[-1].endswith('\n') else [])))
        if right or isinstance(ps[0], T):
            return mk('list', LOST, LOST) if 'partition' not in name else mk('tuple', LOST, LOST, LOST)
        if sep is None:
            head = ps[0].lstrip()
            i = next((k for k, c in enumerate(head) if c.isspace()), None)
            if i is None:
                return mk('list', LOST, LOST)
            first, rest = head[:i], head[i:].lstrip()
        else:
            i = ps[0].find(sep)
            if i < 0:
                return mk('list', LOST, LOST)
            first, rest = ps[0][:i], ps[0][i + len(sep):]
        tail = [rest] + ps[1:]
        if 'partition' in name:
            return mk('tuple', K(first), K(sep), text(tail))
        if cnt == 1:
            return mk('list', K(first), text(tail))
        if cnt < 0 and sep is not None:
            return mk('list', K(first), mk('cutat', text(tail), sep))
        return mk('list', K(first), LOST)

    def getsub(self, it, ctx, st, n_, n, i):
        if n.op == 'obj':
            return None
        ps = list(n.a) if n.op == 'text' else [n]
        if i.op == 'slice' and i.a[2] is NONE:
            lo, hi = i.a[0], i.a[1]
            if lo.op == 'const' and hi.op == 'const':
                a, b = lo.a[0] or 0, hi.a[0]
                if a < 0:
                    return LOST
                if a:
                    if not isinstance(ps[0], str) or len(ps[0]) < a:
                        return LOST
                    ps[0] = ps[0][a:]
                if b is not None:
                    if b >= 0:
                        p = ps[0]
                        return K(p[a:b]) if isinstance(p, str) and len(p) >= b else LOST
                    if not isinstance(ps[-1], str) or len(ps[-1]) < -b:
                        return LOST
                    ps[-1] = ps[-1][:b]
                return text(ps)
        if i.op == 'const' and isinstance(i.a[0], int):
            if i.a[0] >= 0 and isinstance(ps[0], str) and i.a[0] < len(ps[0]):
                return K(ps[0][i.a[0]])
            if i.a[0] < 0 and isinstance(ps[-1], str) and -i.a[0] <= len(ps[-1]):
                return K(ps[-1][i.a[0]])
            return LOST
        return None

    def setsub(self, it, ctx, st, n_, n, i, v):
        return False

    def delsub(self, it, ctx, st, n_, n, i):
        return False

    def getattr(self, it, st, n, attr):
        if n.op == 'obj' and attr == 'name':
            return n.a[1]
        return None
