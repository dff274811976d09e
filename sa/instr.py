"""Sequences of operations on one Instrument, followed by interpreting each operation on the state the previous one left."""
import ast
from common import *
from terms import rebuild
from flow import Interp
import vec as vecs
from vec import V

ME = P('self')
CLS = 'Instrument'
AXES = 3


class Lost(Exception):
    pass


class Host(object):
    """answers comparisons between the distinct things the analysis hands in"""

    def __init__(self):
        self.opaque = set()

    def owns(self, t):
        return False

    def call(self, it, ctx, st, n, ft, args, kws):
        return None

    def compare(self, op, a, b):
        if op in ('==', '!='):
            r = eq(a, b)
            return None if r is None else r if op == '==' else not r
        if op in ('in', 'not in') and b.op in ('list', 'tuple', 'set'):
            rs = [eq(a, x) for x in b.a]
            r = True if True in rs else None if None in rs else False
            return None if r is None else r if op == 'in' else not r
        if op in ('in', 'not in') and b.op == 'dict' and a.op == 'const':
            rs = [eq(a, k) for k, v in b.a[0]]
            r = True if True in rs else None if None in rs else False
            return None if r is None else r if op == 'in' else not r
        return None


def eq(a, b):
    """are two values equal; None when not known"""
    if a is b:
        return True
    solid = lambda t: t.op in ('const', 'obj', 'func', 'list', 'tuple', 'dict', 'set', 'new')
    if not solid(a) or not solid(b):
        return None
    if a.op == 'const' and b.op == 'const':
        try:
            return bool(a.a[0] == b.a[0])
        except Exception:
            return None
    if a.op != b.op:
        return False
    if a.op in ('obj', 'func', 'new'):
        return False
    if a.op in ('list', 'tuple', 'set'):
        if len(a.a) != len(b.a):
            return False
        rs = [eq(x, y) for x, y in zip(a.a, b.a)]
    else:
        x, y = a.a[0], b.a[0]
        if len(x) != len(y):
            return False
        rs = []
        for k, v in x:
            m = [w for q, w in y if eq(k, q)]
            rs.append(eq(v, m[0]) if len(m) == 1 else False if all(k2.op == 'const' for k2, _ in y) and k.op == 'const' else None)
    return False if False in rs else None if None in rs else True


def grid(prog, name, **k):
    """a three-axis grid in map space, as the attribute values the analysis presumes"""
    t = mk('obj', name)
    h = dict(n_properties=K(2), n_dimensions=K(3), grid_active=TRUE, fourier_space=V(FALSE, FALSE, FALSE), axunits=V(K('deg'), K('deg'), K('GHz')), gridunits=V(K('Jy'), K('Jy')),
             pixel_size=V(K(0.1), K(0.1), K(0.2)), is_power_spectrum=FALSE)
    h.update(k)
    return t, {(t, a): v for a, v in h.items()}


class Bench(object):
    serial = 0

    def __init__(self, prog, rep=None, cls=CLS):
        self.prog, self.rep = prog, rep
        self.cls = prog.cls(cls)
        self.heap, self.types = {}, {}

    def fork(self):
        b = type(self).__new__(type(self))
        b.__dict__.update(self.__dict__)
        b.heap, b.types = dict(self.heap), dict(self.types)
        return b

    def add(self, g):
        t, h = g
        self.types[t.a[0]] = self.prog.cls('Grid').qual
        self.heap.update(h)
        return t

    def run(self, meth, bind, fail=None, models=None, inline=None):
        f = self.prog.lookup(self.cls, meth)
        if f is None:
            raise Lost('no %s' % meth)
        home = f.module.path.rsplit('/', 1)[0]
        it = Interp(self.prog, inline=inline or (lambda a, b: b.module.path.rsplit('/', 1)[0] == home), depth=6, unroll=32, types=self.types)
        it.host, it.vec, it.preset, it.fail = Host(), True, dict(self.heap), fail
        it.exact = True
        it.models = outside()
        made = {}
        for name, f2 in sorted(self.prog.funcs.items()):
            if f2.cls is not None and f2.cls is self.prog.cls('Grid') and ('in_place' in f2.params or f2.name in ('copy', 'copy_axes')):
                it.models[('func', name)] = self.maker(f2, made)
        it.models.update(models or {})
        Bench.serial += 1
        it.nalloc = 1000 * Bench.serial
        r = it.run(f, bind=defaults(it, f, bind), selfcls=self.cls)
        if self.rep is not None:
            self.rep.saw(f)
        for x in r.exits:
            for o, t in made.items():
                x.state.heap[(o, '#made')] = it.newloc(x.state, t)
            for e in r.events:
                if e.kind == 'new':
                    x.state.heap[(e.obj, '#made')] = it.newloc(x.state, mk('tuple', tuple(e.args), tuple(sorted(e.kws.items(), key=lambda p: p[0]))))
        return r

    def maker(self, f, made):
        """operations giving a new grid"""
        d = f.defaults.get('in_place')
        inplace = K(d.value) if isinstance(d, ast.Constant) else None

        def go(b):
            if 'in_place' in f.params and b.get('in_place', inplace) is not FALSE:
                return None
            Bench.serial += 1
            o = mk('new', '%s:%d' % (f.qual, Bench.serial), self.prog.cls('Grid').qual)
            made[o] = mk('call', mk('func', f.qual), (), tuple(sorted(b.items(), key=lambda p: p[0])))
            return o
        return go

    def keep(self, x):
        """the state a call left becomes the state of the next"""
        h = {k: (x.state.store[l] if isinstance(l, int) else l) for k, l in x.state.heap.items()}
        self.heap = h
        return self


def outside():
    e = lambda n: mk('ext', n)

    def unique(a, k):
        s = vecs.flat(a[0])
        if s is None or any(x.op != 'const' for x in s) or 'return_counts' not in k:
            return None
        vals = sorted({x.a[0] for x in s}, key=repr)
        return mk('tuple', L(*[K(v) for v in vals]), V(*[K(sum(x.a[0] == v for x in s)) for v in vals]))

    def hasattr_(a, k):
        if len(a) == 2 and a[0].op == 'obj' and a[1].op == 'const' and a[1].a[0] == '__call__':
            return K(a[0].a[0].startswith('callable'))
        if len(a) == 2 and a[0].op in ('func', 'cls', 'lambda'):
            return TRUE
        if len(a) == 2 and a[0].op == 'const':
            return K(hasattr(a[0].a[0], a[1].a[0]))
    call = lambda a, k: hasattr_((a[0], K('__call__')), {}) if len(a) == 1 else None

    def anyall(fn):
        def go(a, k):
            s = vecs.flat(a[0])
            if s is None or any(x.op != 'const' for x in s):
                return None
            return K(fn(x.a[0] for x in s))
        return go

    return {e('numpy.unique'): unique, e('builtins.hasattr'): hasattr_, e('builtins.callable'): call, e('builtins.any'): anyall(any), e('builtins.all'): anyall(all),
            e('numpy.any'): anyall(any), e('numpy.all'): anyall(all)}


# ---------------------------------------------------------------- setting up

def cb(n):
    """a response or noise function of the user"""
    return mk('obj', 'callable ' + n)


def kw(n):
    return D((K('w'), P(n)))


def det(n, off=(0, 0), **k):
    """arguments adding a detector with responses of its own"""
    a = dict(name=K(n), nominal_frequency=K(100.0), spatial_response=cb('s' + n), spatial_kwargs=kw('sk' + n), spectral_response=cb('f' + n), spectral_kwargs=kw('fk' + n),
             noise_function=cb('n' + n), noise_kwargs=kw('nk' + n), pointing_offsets=mk('tuple', *[K(x) for x in off]))
    a.update(k)
    return a


def only(b, meth, bind, what=None, **k):
    """the state after an operation that has one way to complete"""
    r = b.run(meth, bind, **k)
    ok = normal(r)
    if len(ok) != 1:
        raise Lost('%s completes in %d ways' % (what or meth, len(ok)))
    return b.fork().keep(ok[0])


UNITS = dict(spatial_unit=K('deg'), spectral_unit=K('GHz'), flux_unit=K('Jy'), best_spatial_res=K(1.0), best_spectral_res=K(2.0))


def start(prog, rep, dets=(), fields=(), units=UNITS):
    b = Bench(prog, rep)
    b = only(b, '__init__', dict(units))
    for d in dets:
        b = only(b, 'add_detector', d)
    for n, k in fields:
        b = field(b, n, **k)
    return b


def field(b, n, g=None, **k):
    b = b.fork()
    t = b.add(g or grid(b.prog, 'grid ' + n))
    return only(b, 'add_field', dict(dict(grid=t, name=K(n), field_property_idx=K(0)), **k))


def value(b, attr):
    return b.heap.get((ME, attr))


def entry(t, k):
    """entry of a dict literal"""
    if t is None or t.op != 'dict':
        return None
    m = [v for q, v in t.a[0] if q is k or q.op == 'const' and k.op == 'const' and q.a[0] == k.a[0]]
    return m[-1] if m else None


def keys(t):
    """names in a record: keys of a dict, entries of a list; None when not literal"""
    if t is None:
        return None
    if t.op == 'dict':
        ks = [k for k, v in t.a[0]]
    elif t.op in ('list', 'tuple', 'set', 'vec'):
        ks = list(t.a)
    else:
        return None
    if any(k.op != 'const' for k in ks):
        return None
    return [k.a[0] for k in ks]


def canon(t, b, keep=()):
    """a value with the objects made on the way replaced by what they hold"""
    attrs = {}
    for (o, a), v in b.heap.items():
        if o is not ME and o.op in ('new', 'call'):
            attrs.setdefault(o, []).append((a, v))
    memo = {}

    def go(t, busy):
        if not isinstance(t, T):
            return tuple(go(x, busy) for x in t) if isinstance(t, tuple) else t
        if t in busy:
            return mk('unk', 'itself')
        k = t, frozenset(x for x in busy)
        if k in memo:
            return memo[k]
        if t.op == 'new':
            r = mk('made', t.a[1], tuple(sorted(((a, go(v, busy | {t})) for a, v in attrs.get(t, ()) if a != '__init__'), key=lambda p: p[0])))
        else:
            r = T_(t, tuple(go(x, busy | ({t} if t in attrs else set())) for x in t.a))
            if t in attrs:
                r = mk('made', r, tuple(sorted(((a, go(v, busy | {t})) for a, v in attrs[t]), key=lambda p: p[0])))
        memo[k] = r
        return r
    return go(t, frozenset())


def T_(t, a):
    return t if a == t.a else mk(t.op, *a)
