"""Which rows of which source array a stored column holds, and in what order.

norm(t) gives (row, chain): `row` says what one entry is, as a term over whole source arrays; `chain` is the
sequence of selections and re-orderings the rows went through, outermost last.  Two columns of a table line up
when their chains are the same.  Row is None when the value is not understood."""
from terms import T, mk, K, NONE, TRUE, FALSE, is_const
from store import full

REV = mk('rev')
SAME = {'numpy.array', 'numpy.asarray', 'numpy.copy', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.squeeze', 'numpy.ravel'}
EMPTY = {'numpy.empty', 'numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty_like', 'numpy.zeros_like'}


def reverse(i):
    return i.op == 'slice' and i.a[0] is NONE and i.a[1] is NONE and i.a[2].op == 'const' and i.a[2].a[0] == -1


def kwd(t, name, pos):
    for k, v in t.a[2]:
        if k == name:
            return v
    return t.a[1][pos] if len(t.a[1]) > pos else None


def col(i):
    """component k for an index [:, k] of a two-dimensional array"""
    if i.op == 'tuple' and len(i.a) == 2 and full(i.a[0]) and not (i.a[0].op == 'tuple') and i.a[1].op == 'const' and isinstance(i.a[1].a[0], int):
        return i.a[1].a[0]
    return None


def rowpart(i):
    """row selection of [rows, :] or [rows, ...]"""
    if i.op == 'tuple' and i.a and all(full(x) for x in i.a[1:]) and len(i.a) > 1:
        return i.a[0]
    return None


def index(i, d=0):
    """an index as a list of elementary selections"""
    if full(i):
        return []
    if reverse(i):
        return [REV]
    r, c = norm(i, d + 1)
    return None if r is None else [r] + list(c)


def compact(ch):
    out = []
    for x in ch:
        if x is REV and out and out[-1] is REV:
            out.pop()
        else:
            out.append(x)
    return tuple(out)


def norm(t, d=0):
    r, c = norm0(t, d)
    return r, compact(c)


def norm0(t, d):
    if d > 60:
        return None, ()
    o = t.op
    if o in ('const', 'param', 'attr', 'obj', 'slice', 'ext', 'each', 'lidx', 'vec', 'list', 'raw'):
        return t, ()
    if o == 'sub':
        b, i = t.a
        if i.op == 'const' and isinstance(i.a[0], str):
            return field(b, i, d)
        if full(i):
            return norm(b, d + 1)
        k = col(i)
        if k is not None:
            r, c = norm(b, d + 1)
            return (mk('component', r, K(k)) if r is not None else None), c
        if i.op == 'tuple' and len(i.a) == 2 and i.a[1].op == 'const' and isinstance(i.a[1].a[0], int) and i.a[0].op not in ('const', 'slice', 'tuple'):
            return norm(mk('sub', mk('sub', b, i.a[0]), mk('tuple', mk('slice', NONE, NONE, NONE), i.a[1])), d + 1)
        j = rowpart(i)
        i = j if j is not None else i
        if i.op == 'const':       # one row
            r, c = norm(b, d + 1)
            return (mk('rowat', r, i, c) if r is not None else None), ()
        r, c = norm(b, d + 1)
        j = index(i, d + 1)
        if r is None or j is None:
            return None, ()
        return r, c + tuple(j)
    if o == 'mcall':
        n, x = t.a[0], t.a[1]
        if n in ('copy', 'ravel', 'flatten', 'squeeze', 'astype'):
            return norm(x, d + 1)
        if n == 'take' and t.a[2]:
            return norm(mk('sub', x, t.a[2][0]), d + 1)
        if n == 'argsort' and not t.a[2]:
            r, c = norm(x, d + 1)
            return (mk('argsort', r, c) if r is not None else None), ()
        return opaque(t, d)
    if o == 'call' and t.a[0].op == 'ext':
        n, a = t.a[0].a[0], t.a[1]
        if n in SAME and a:
            return norm(a[0], d + 1)
        if n == 'numpy.take' and len(a) >= 2:
            return norm(mk('sub', a[0], a[1]), d + 1)
        if n in ('numpy.flip', 'numpy.flipud') and a:
            r, c = norm(a[0], d + 1)
            return r, c + (REV,)
        if n == 'numpy.argsort' and a:
            r, c = norm(a[0], d + 1)
            return (mk('argsort', r, c) if r is not None else None), ()
        if n in EMPTY:
            return t, ()
        return opaque(t, d)
    if o == 'call':
        return opaque(t, d)
    if o in ('bin', 'cmp'):
        a, c = norm(t.a[1], d + 1)
        b, e = norm(t.a[2], d + 1)
        if a is None or b is None:
            return None, ()
        if c and e and c != e:
            return mk('mixed', a, c, b, e), c
        return mk(o, t.a[0], a, b), c or e
    if o in ('neg', 'not'):
        a, c = norm(t.a[0], d + 1)
        return (mk(o, a) if a is not None else None), c
    if o == 'upd':
        return None, ()
    return None, ()


def opaque(t, d):
    """a function applied row by row: its arguments must be ordered alike"""
    args, chains = [], set()
    for x in (t.a[1] if t.op == 'call' else (t.a[1],) + tuple(t.a[2])):
        r, c = norm(x, d + 1)
        if r is None:
            return None, ()
        args.append(r)
        if c:
            chains.add(c)
    if len(chains) > 1:
        return mk('mixed', *args), sorted(chains, key=repr)[0]
    h = mk('rowcall', t.a[0], tuple(args), t.a[2] if t.op == 'call' else t.a[3])
    return h, chains.pop() if chains else ()


def field(b, i, d):
    """column i of a record array"""
    if b.op == 'upd':
        base, j, v = b.a
        if j is i:
            return norm(v, d + 1)
        if j.op == 'const' and isinstance(j.a[0], str):
            return field(base, i, d + 1)
        if full(j):          # all records replaced by the columns of another table
            return field(v, i, d + 1)
        return None, ()
    if b.op == 'sub' and not (b.a[1].op == 'const'):
        r, c = field(b.a[0], i, d + 1)
        j = index(b.a[1], d + 1)
        if r is None or j is None:
            return None, ()
        return r, c + tuple(j)
    if b.op == 'mcall' and b.a[0] == 'copy':
        return field(b.a[1], i, d + 1)
    if b.op == 'mcall' and b.a[0] == 'take' and b.a[2]:
        return field(mk('sub', b.a[1], b.a[2][0]), i, d + 1)
    if b.op == 'call' and b.a[0].op == 'ext':
        n, a = b.a[0].a[0], b.a[1]
        if n in SAME and a:
            return field(a[0], i, d + 1)
        if n == 'numpy.take' and len(a) >= 2:
            return field(mk('sub', a[0], a[1]), i, d + 1)
        if n in ('numpy.flip', 'numpy.flipud') and a:
            r, c = field(a[0], i, d + 1)
            return r, c + (REV,)
        if n == 'numpy.sort':
            o = kwd(b, 'order', 3)
            if o is not None and o.op == 'const':
                r, c = field(a[0], i, d + 1)
                s, e = field(a[0], o, d + 1)
                return (r, c + (mk('sortedby', s, e),)) if r is not None and s is not None else (None, ())
        if n in EMPTY:
            return None, ()
    if b.op in ('param', 'attr', 'obj', 'sub'):
        return mk('sub', b, i), ()
    return None, ()
