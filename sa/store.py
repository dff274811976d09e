"""Model of data files (h5py) for the analysis: named groups, data sets and attributes, kept in the
analysed state so that branches keep their own contents.

A node is  obj('h5', kind, path, ...names, mode)  with kind file / group / data / attrs.  Contents are
heap entries of the node without its mode: 'kids' (a literal dict) and 'value'."""
from terms import T, mk, K, NONE, TRUE, FALSE, is_const

WRITE = ('w', 'w-', 'x', 'a', 'r+')


def node(kind, path, names, mode):
    return mk('obj', 'h5', kind, path, tuple(names), mode)


def bare(n):
    return mk('obj', 'h5', n.a[1], n.a[2], n.a[3], None)


class Store(object):
    def __init__(self):
        self.opened = []     # (mode, path term, node, guards, stack)
        self.changes = []    # (what, name, node)
        self.faults = []     # (message, node)

    # ---------------------------------------------------------------- set up
    def preset(self, path, tree):
        """heap entries for an existing file: tree = {group: {dataset: (value, {attr: value})}, '@': {attr: value}}"""
        out = {}

        def put(kind, names, kids=None, value=None):
            b = node(kind, path, names, None)
            if kids is not None:
                out[(b, 'kids')] = mk('dict', tuple((K(k), v) for k, v in kids))
            if value is not None:
                out[(b, 'value')] = value
            return b
        groups = [(g, node('group', path, (g,), None)) for g in tree if g != '@']
        put('file', (), groups)
        put('attrs', (), list(tree.get('@', {}).items()))
        for g, _ in groups:
            put('group', (g,), [(d, node('data', path, (g, d), None)) for d in tree[g]])
            put('attrs', (g,), [])
            for d, (v, at) in tree[g].items():
                put('data', (g, d), None, v)
                put('attrs', (g, d), list(at.items()))
        return out

    # ---------------------------------------------------------------- engine
    def owns(self, t):
        return t.op == 'obj' and t.a[0] == 'h5'

    def get(self, it, st, n, attr):
        l = st.heap.get((bare(n), attr))
        return st.store[l] if l is not None else None

    def put(self, it, st, n, attr, v):
        st.heap[(bare(n), attr)] = it.newloc(st, v)

    def kids(self, it, st, n):
        k = self.get(it, st, n, 'kids')
        return k if k is not None and k.op == 'dict' else None

    def wr(self, ctx, st, n, what, name, value=None):
        self.changes.append((what, name, bare(n), st.guards, value, ctx))
        if n.a[4] is not None and n.a[4] not in WRITE:
            self.faults.append(('the file is changed but was opened with mode %r' % n.a[4], ctx))

    def call(self, it, ctx, st, n, ft, args, kws):
        if ft.op == 'ext' and ft.a[0] in ('h5py.File', 'h5py._hl.files.File'):
            path = args[0] if args else kws.get('name')
            mode = args[1] if len(args) > 1 else kws.get('mode', K('r'))
            m = mode.a[0] if mode.op == 'const' else '?'
            f = node('file', path, (), m)
            self.opened.append((m, path, f, st.guards, ctx))
            if m in ('w', 'w-', 'x') or m == 'a' and self.kids(it, st, f) is None and self.get(it, st, f, 'kids') is None:
                if m == 'w' and self.kids(it, st, f) is not None:
                    self.changes.append(('truncate', None, bare(f), st.guards, None, ctx))
                self.put(it, st, f, 'kids', mk('dict', ()))
                self.put(it, st, node('attrs', path, (), m), 'kids', mk('dict', ()))
            return f
        return None

    def child(self, n, k):
        """handle for a child node with the mode of its parent"""
        return node(k.a[1], k.a[2], k.a[3], n.a[4]) if Store.owns(self, k) else k

    def getsub(self, it, ctx, st, n_, n, i):
        kind = n.a[1]
        if kind == 'data':
            v = self.get(it, st, n, 'value')
            if v is None:
                return None
            if full(i):
                return v
            return it.sub(v, i)
        if i.op != 'const' or not isinstance(i.a[0], str):
            return None
        cur = n
        parts = [i.a[0]] if kind == 'attrs' else [x for x in i.a[0].split('/') if x]
        for p in parts:
            k = self.kids(it, st, cur)
            if k is None:
                return None
            d = {x.a[0]: v for x, v in k.a[0]}
            if p not in d:
                self.faults.append(('%r is read but is not there' % i.a[0], ctx))
                return mk('unk', 'no %s' % p)
            cur = self.child(n, d[p])
        return cur

    def setsub(self, it, ctx, st, n_, n, i, v):
        kind = n.a[1]
        if kind == 'data':
            self.wr(ctx, st, n, 'values', None, v)
            old = self.get(it, st, n, 'value')
            self.put(it, st, n, 'value', v if full(i) or old is None else mk('upd', old, i, v))
            return True
        if i.op != 'const':
            self.wr(ctx, st, n, 'unknown', None, v)
            return True
        if kind == 'attrs':
            self.wr(ctx, st, n, 'attr', i.a[0], v)
            k = self.kids(it, st, n)
            if k is not None:
                self.put(it, st, n, 'kids', mk('dict', tuple((x, y) for x, y in k.a[0] if x is not i) + ((i, v),)))
            return True
        return self.new(it, ctx, st, n, i, v)

    def new(self, it, ctx, st, n, name, v, kind='data'):
        if name.a[0] is None:        # created without a name: linked into the file later
            self.anon = getattr(self, 'anon', 0) + 1
            d = node(kind, n.a[2], ('unnamed %d' % self.anon,), n.a[4])
            self.wr(ctx, st, d, 'create', None, v)
            self.put(it, st, d, *(('value', v) if kind == 'data' else ('kids', mk('dict', ()))))
            self.put(it, st, node('attrs', d.a[2], d.a[3], d.a[4]), 'kids', mk('dict', ()))
            return d
        k = self.kids(it, st, n)
        if v is not None and Store.owns(self, v):      # a link to something already in the file
            self.wr(ctx, st, n, 'link', name.a[0], v)
            if k is not None:
                if any(x is name for x, _ in k.a[0]):
                    self.faults.append(('%r is linked but is already there' % name.a[0], ctx))
                self.put(it, st, n, 'kids', mk('dict', tuple((x, y) for x, y in k.a[0] if x is not name) + ((name, bare(v)),)))
            return v
        self.wr(ctx, st, n, 'create', name.a[0], v)
        d = node(kind, n.a[2], n.a[3] + (name.a[0],), n.a[4])
        if k is None:
            return d
        if any(x is name for x, _ in k.a[0]):
            self.faults.append(('%r is created but is already there' % name.a[0], ctx))
        self.put(it, st, n, 'kids', mk('dict', tuple((x, y) for x, y in k.a[0] if x is not name) + ((name, bare(d)),)))
        if kind == 'data':
            self.put(it, st, d, 'value', v)
        else:
            self.put(it, st, d, 'kids', mk('dict', ()))
        self.put(it, st, node('attrs', d.a[2], d.a[3], d.a[4]), 'kids', mk('dict', ()))
        return d

    def delsub(self, it, ctx, st, n_, n, i):
        self.wr(ctx, st, n, 'delete', i.a[0] if i.op == 'const' else None)
        k = self.kids(it, st, n)
        if k is not None and i.op == 'const':
            if not any(x is i for x, _ in k.a[0]):
                self.faults.append(('%r is deleted but is not there' % (i.a[0],), ctx))
            self.put(it, st, n, 'kids', mk('dict', tuple((x, y) for x, y in k.a[0] if x is not i)))
        return True

    def entries(self, it, st, n):
        k = self.kids(it, st, n)
        return mk('list', *[x for x, _ in k.a[0]]) if k is not None and n.a[1] != 'data' else None

    def method(self, it, ctx, st, n_, n, name, args, kws):
        if name in ('keys', '__iter__'):
            return self.entries(it, st, n)
        k = self.kids(it, st, n)
        if name in ('values', 'items') and k is not None:
            return mk('list', *[self.child(n, v) if name == 'values' else mk('tuple', x, self.child(n, v)) for x, v in k.a[0]])
        if name == '__getitem__' and len(args) == 1:
            return self.getsub(it, ctx, st, n_, n, args[0])
        if name == '__contains__' and len(args) == 1 and k is not None:
            return it.compare('in', args[0], self.entries(it, st, n))
        if name == 'get' and args and args[0].op == 'const' and k is not None:
            for x, v in k.a[0]:
                if x is args[0]:
                    return self.child(n, v)
            return args[1] if len(args) > 1 else kws.get('default', NONE)
        if name in ('create_dataset', 'create_group', 'require_group', 'require_dataset'):
            nm = args[0] if args else kws.get('name', NONE if name == 'create_group' else None)
            if nm is None or nm.op != 'const':
                self.wr(ctx, st, n, 'unknown', None)
                return None
            if name.startswith('require') and k is not None:
                for x, v in k.a[0]:
                    if x is nm:
                        return self.child(n, v)
            if name.endswith('group'):
                return self.new(it, ctx, st, n, nm, None, 'group')
            v = kws.get('data', args[3] if len(args) > 3 else None)
            if v is None:
                v = mk('call', mk('ext', 'numpy.zeros'), (kws.get('shape', args[1] if len(args) > 1 else NONE),), ())
            return self.new(it, ctx, st, n, nm, v)
        if name in ('create', 'modify') and n.a[1] == 'attrs' and len(args) > 1:
            self.setsub(it, ctx, st, n_, n, args[0], args[1])
            return NONE
        if name == 'update' and n.a[1] == 'attrs' and args and args[0].op == 'dict':
            for x, v in args[0].a[0]:
                self.setsub(it, ctx, st, n_, n, x, v)
            return NONE
        if name in ('close', 'flush'):
            return NONE
        if name == 'move' and len(args) == 2 and all(a.op == 'const' for a in args) and k is not None:
            for x, v in k.a[0]:
                if x is args[0]:
                    self.delsub(it, ctx, st, n_, n, args[0])
                    self.new(it, ctx, st, n, args[1], self.child(n, v))
                    return NONE
        if name in ('__delitem__', 'pop') and args and k is not None and n.a[1] != 'data':
            r = self.getsub(it, ctx, st, n_, n, args[0])
            self.delsub(it, ctx, st, n_, n, args[0])
            return r
        if name == '__setitem__' and len(args) == 2:
            self.setsub(it, ctx, st, n_, n, args[0], args[1])
            return NONE
        if name in ('write_direct',) and n.a[1] == 'data' and args:
            self.setsub(it, ctx, st, n_, n, mk('slice', NONE, NONE, NONE), args[0])
            return NONE
        if name == 'resize':
            self.wr(ctx, st, n, 'resize', None)
        return None

    def getattr(self, it, st, n, attr):
        if attr == 'attrs':
            return node('attrs', n.a[2], n.a[3], n.a[4])
        if attr in ('shape', 'dtype', 'size', 'ndim') and n.a[1] == 'data':
            v = self.get(it, st, n, 'value')
            return mk('attr', v, attr) if v is not None else None
        if attr == 'file':
            return node('file', n.a[2], (), n.a[4])
        return None


def full(i):
    return i.op == 'slice' and all(x is NONE for x in i.a) or i.op == 'tuple' and not i.a or i.op == 'const' and i.a[0] is Ellipsis


class Table(Store):
    """Store plus literal record arrays: obj('tab', name) with named columns of equal length"""
    def __init__(self):
        Store.__init__(self)
        self.tabs = {}

    def table(self, name, cols):
        t = mk('obj', 'tab', name)
        self.tabs[t] = cols
        return t

    def owns(self, t):
        return Store.owns(self, t) or t in self.tabs

    def rows(self, t):
        c = self.tabs[t]
        n = len(next(iter(c.values())))
        return [mk('dict', tuple((K(k), v[i]) for k, v in c.items())) for i in range(n)]

    def getsub(self, it, ctx, st, n_, n, i):
        if n in self.tabs:
            if i.op == 'const' and isinstance(i.a[0], str):
                if i.a[0] in self.tabs[n]:
                    return mk('list', *self.tabs[n][i.a[0]])
                return None
            if i.op == 'const' and isinstance(i.a[0], int):
                r = self.rows(n)
                return r[i.a[0]] if -len(r) <= i.a[0] < len(r) else None
            return None
        return Store.getsub(self, it, ctx, st, n_, n, i)

    def setsub(self, it, ctx, st, n_, n, i, v):
        return False if n in self.tabs else Store.setsub(self, it, ctx, st, n_, n, i, v)

    def delsub(self, it, ctx, st, n_, n, i):
        return False if n in self.tabs else Store.delsub(self, it, ctx, st, n_, n, i)

    def entries(self, it, st, n):
        return mk('list', *self.rows(n)) if n in self.tabs else Store.entries(self, it, st, n)

    def method(self, it, ctx, st, n_, n, name, args, kws):
        return None if n in self.tabs else Store.method(self, it, ctx, st, n_, n, name, args, kws)

    def getattr(self, it, st, n, attr):
        if n in self.tabs:
            k = len(self.rows(n))
            return K(k) if attr == 'size' else mk('tuple', K(k)) if attr == 'shape' else None
        return Store.getattr(self, it, st, n, attr)
