"""Folding of operations on literal containers and constants."""
from terms import T, mk, K


def plain(t):
    """Python value of a term made of constants only; raises ValueError otherwise"""
    if t.op == 'const':
        return t.a[0]
    if t.op in ('list', 'tuple'):
        v = [plain(x) for x in t.a]
        return v if t.op == 'list' else tuple(v)
    if t.op == 'set':
        return set(plain(x) for x in t.a)
    if t.op == 'dict':
        return {plain(k): plain(v) for k, v in t.a[0]}
    raise ValueError


def term(v):
    if isinstance(v, list):
        return mk('list', *[term(x) for x in v])
    if isinstance(v, tuple):
        return mk('tuple', *[term(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return mk('set', *sorted((term(x) for x in v), key=lambda t: repr(t.a[0])))
    if isinstance(v, dict):
        return mk('dict', tuple((term(k), term(x)) for k, x in v.items()))
    if v is None or isinstance(v, (int, float, str, bool, complex)):
        return K(v)
    raise ValueError


def seq(t):
    """elements of a literal sequence (a list for anything iterable), else None"""
    if t.op in ('list', 'tuple', 'set') and not any(x.op == 'star' for x in t.a):
        return list(t.a)
    if t.op == 'dict' and all(k.op == 'const' for k, _ in t.a[0]):
        return [k for k, _ in t.a[0]]
    return None


PLAIN = {'len': len, 'max': max, 'min': min, 'sum': sum, 'abs': abs, 'int': int, 'float': float, 'str': str, 'round': round, 'bool': bool, 'sorted': sorted,
         'set': set, 'frozenset': set}


def fold_ext(name, args, kws):
    if not name or not args and name != 'builtins.set':
        return None
    n = name.split('.', 1)[1] if name.startswith('builtins.') else None
    try:
        if n in PLAIN and not any(k != 'reverse' for k in kws):
            if n == 'len':
                if args[0].op == 'dict' and all(k.op == 'const' for k, _ in args[0].a[0]):
                    return K(len(args[0].a[0]))
                if args[0].op == 'set' and not all(x.op == 'const' for x in args[0].a):
                    return None
            if n == 'sum' and args and seq(args[0]) == []:
                return K(0)
            return term(PLAIN[n](*[plain(a) for a in args], **{k: plain(v) for k, v in kws.items()}))
        if n == 'reversed' and len(args) == 1 and args[0].op in ('list', 'tuple') and seq(args[0]) is not None:
            return mk('list', *reversed(seq(args[0])))
        if n in ('any', 'all') or name in ('numpy.any', 'numpy.all', 'numpy.sometrue', 'numpy.alltrue'):
            if len(args) == 1 and not kws:
                s = seq(args[0])
                if s is None:
                    return None
                isany = name.endswith('any')
                c = [x for x in s if x.op == 'const']
                if isany:
                    if any(x.a[0] for x in c):
                        return K(True)
                    if len(c) == len(s):
                        return K(False)
                else:
                    if any(not x.a[0] for x in c):
                        return K(False)
                    if len(c) == len(s):
                        return K(True)
            return None
        if n == 'dict' and len(args) == 1:
            if args[0].op == 'dict':
                base = list(args[0].a[0])
            else:
                s = seq(args[0])
                if s is None or not all(x.op in ('tuple', 'list') and len(x.a) == 2 for x in s):
                    return None
                base = [(x.a[0], x.a[1]) for x in s]
            base += [(K(k), v) for k, v in kws.items()]
            if '**' in kws or not all(k.op == 'const' for k, _ in base):
                return mk('dict', tuple(base)) if len(base) == len(set(k for k, _ in base)) <= 1 and '**' not in kws else None
            d = {}
            for k, v in base:
                d[k] = v
            return mk('dict', tuple(d.items()))
        if name == 'builtins.dict.fromkeys':
            s = seq(args[0])
            if s is not None and all(x.op == 'const' for x in s):
                return mk('dict', tuple((k, args[1] if len(args) > 1 else K(None)) for k in dict.fromkeys(s)))
    except Exception:
        return None
    return None


def fold_method(name, o, args, kws):
    try:
        if o.op in ('list', 'tuple'):
            if name in ('index', 'count') and len(args) == 1:
                s = [plain(x) for x in o.a]
                return K(getattr(s, name)(plain(args[0])))
            if name == 'copy' and not args:
                return o
        if o.op == 'dict' and all(k.op == 'const' for k, _ in o.a[0]):
            if name == 'get' and args and args[0].op == 'const' and not kws:
                for k, v in o.a[0]:
                    if k is args[0]:
                        return v
                return args[1] if len(args) > 1 else K(None)
            if name == 'copy' and not args:
                return o
        if o.op == 'set' and name in ('union', 'difference', 'intersection', 'issubset', 'issuperset', 'symmetric_difference', 'isdisjoint'):
            r = getattr(plain(o), name)(*[plain(a) for a in args])
            return term(r)
        if o.op == 'const' and isinstance(o.a[0], str) and name in ('split', 'rsplit', 'count', 'find', 'index', 'isdigit', 'partition', 'splitlines', 'zfill', 'islower', 'isupper'):
            return term(getattr(o.a[0], name)(*[plain(a) for a in args], **{k: plain(v) for k, v in kws.items()}))
    except Exception:
        return None
    return None


def fold_bin(op, a, b):
    try:
        if op == '*' and (a.op in ('list', 'tuple') and b.op == 'const' or b.op in ('list', 'tuple') and a.op == 'const'):
            if a.op == 'const':
                a, b = b, a
            n = b.a[0]
            if isinstance(n, int) and not isinstance(n, bool) and len(a.a) * n <= 64 and not any(x.op == 'star' for x in a.a):
                return mk(a.op, *(a.a * max(n, 0)))
        if op in '-|&^' and a.op == 'set' and b.op == 'set':
            x, y = plain(a), plain(b)
            return term({'-': x - y, '|': x | y, '&': x & y, '^': x ^ y}[op])
    except Exception:
        return None
    return None


def fold_cmp(op, a, b):
    """bool or None"""
    try:
        if op in ('==', '<=', '<') and a.op == 'set' and b.op == 'set':
            x, y = plain(a), plain(b)
            return {'==': x == y, '<=': x <= y, '<': x < y}[op]
        if op == '==' and a.op in ('list', 'tuple') and b.op in ('list', 'tuple'):
            if any(x.op == 'star' for x in a.a + b.a):
                return None
            if a.op != b.op or len(a.a) != len(b.a):
                return False
            if a is b:
                return True
            return plain(a) == plain(b)
        if op == 'in' and b.op == 'dict' and a.op == 'const' and all(k.op == 'const' for k, _ in b.a[0]):
            return any(k is a or (type(k.a[0]) == type(a.a[0]) and k.a[0] == a.a[0]) for k, _ in b.a[0])
        if op == 'in' and b.op in ('list', 'tuple', 'set') and not b.a:
            return False
        if op == 'in' and b.op in ('list', 'tuple', 'set') and any(x is a for x in b.a) and a.op in ('const', 'param'):
            return True
    except Exception:
        return None
    return None
