"""Values of numpy operations on arrays all of whose entries are known."""
import bisect
from common import *
from vec import V


def nums(t):
    """entries of a known one-dimensional array or list; None when not known"""
    if t is None:
        return None
    if t.op == 'const' and isinstance(t.a[0], range):
        return list(t.a[0])
    if t.op not in ('vec', 'list', 'tuple', 'set') or any(x.op != 'const' for x in t.a):
        return None
    return [x.a[0] for x in t.a]


def arr(xs):
    return V(*[K(x) for x in xs])


def models():
    def one(fn):
        def go(a, k):
            if not a:
                return None
            xs = nums(a[0])
            if xs is None:
                return None
            try:
                return fn(xs, a, k)
            except Exception:
                return None
        return go

    def arange(a, k):
        v = [x.a[0] if x.op == 'const' else None for x in a]
        if None in v or not all(isinstance(x, int) for x in v) or set(k) - {'dtype'}:
            return None
        return arr(range(*v))

    def argsort(xs, a, k):
        return arr(sorted(range(len(xs)), key=lambda i: xs[i])) if not set(k) - {'kind', 'axis'} else None

    def sort(xs, a, k):
        return arr(sorted(xs)) if not set(k) - {'kind', 'axis'} else None

    def digitize(xs, a, k):
        b = nums(a[1])
        right = k.get('right', a[2] if len(a) > 2 else FALSE)
        if b is None or right.op != 'const':
            return None
        if list(b) != sorted(b):
            if list(b) == sorted(b, reverse=True):
                r = b[::-1]
                return arr(len(b) - (bisect.bisect_right(r, x) if right.a[0] else bisect.bisect_left(r, x)) for x in xs) if False else None
            return None
        return arr((bisect.bisect_left if right.a[0] else bisect.bisect_right)(b, x) for x in xs)

    def digitize_(a, k):
        if len(a) >= 2 and a[0].op == 'const':
            r = one(digitize)([V(a[0])] + list(a[1:]), k)
            return r.a[0] if r is not None else None
        return one(digitize)(a, k)

    def searchsorted(a, k):
        b, side = nums(a[0]), k.get('side', a[2] if len(a) > 2 else K('left'))
        if b is None or list(b) != sorted(b) or side.op != 'const':
            return None
        fn = bisect.bisect_left if side.a[0] == 'left' else bisect.bisect_right
        if a[1].op == 'const':
            return K(fn(b, a[1].a[0]))
        xs = nums(a[1])
        return arr(fn(b, x) for x in xs) if xs is not None else None

    def isin(a, k):
        x, y = nums(a[0]), nums(a[1])
        return arr(v in y for v in x) if x is not None and y is not None and not k else None

    def cat(a, k):
        if not a or a[0].op not in ('list', 'tuple'):
            return None
        xs = [nums(x) for x in a[0].a]
        return arr(v for x in xs for v in x) if None not in xs else None

    def diff(xs, a, k):
        return arr(y - x for x, y in zip(xs, xs[1:]))

    out = {}
    for n, fn in (('argsort', one(argsort)), ('sort', one(sort)), ('unique', one(lambda xs, a, k: arr(sorted(set(xs))) if not k else None)), ('array', one(lambda xs, a, k: arr(xs) if not set(k) - {'dtype', 'copy'} else None)),
                  ('asarray', one(lambda xs, a, k: arr(xs) if not set(k) - {'dtype'} else None)), ('copy', one(lambda xs, a, k: arr(xs))), ('flip', one(lambda xs, a, k: arr(xs[::-1]))),
                  ('amax', one(lambda xs, a, k: K(max(xs)))), ('max', one(lambda xs, a, k: K(max(xs)))), ('amin', one(lambda xs, a, k: K(min(xs)))), ('min', one(lambda xs, a, k: K(min(xs)))),
                  ('argmin', one(lambda xs, a, k: K(xs.index(min(xs))))), ('argmax', one(lambda xs, a, k: K(xs.index(max(xs))))), ('any', one(lambda xs, a, k: K(any(xs)))), ('all', one(lambda xs, a, k: K(all(xs)))),
                  ('diff', one(diff)), ('count_nonzero', one(lambda xs, a, k: K(sum(1 for x in xs if x)) if not k else None)), ('sum', one(lambda xs, a, k: K(sum(xs)))), ('abs', one(lambda xs, a, k: arr(abs(x) for x in xs))),
                  ('arange', arange), ('digitize', digitize_), ('searchsorted', searchsorted), ('isin', isin), ('in1d', isin), ('concatenate', cat)):
        out[mk('ext', 'numpy.' + n)] = fn
    out[mk('ext', 'builtins.any')] = out[mk('ext', 'numpy.any')]
    out[mk('ext', 'builtins.all')] = out[mk('ext', 'numpy.all')]
    return out
