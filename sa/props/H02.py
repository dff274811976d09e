"""The active selection: forwarded by every operation that evaluates values, restricted by intersection, put back with its count."""
from common import *
from flow import Interp
from store import Table
from props import H01

ASSUMPTIONS = [
    'a value read without naming a selection is read for the active objects',
    'eval_stat_evo and set_property_range select by their own arguments, as documented',
]
CLASSES = ('Handler', 'SnapHandler', 'LCHandler', 'SimHandler', 'MultiProp', 'Prop')
ALL, ACT, N, NACT = P('all objects'), P('active objects'), P('number of objects'), P('number active')
POS = {'return_property': 1, 'evaluate_all': 1, 'evaluate': 1, 'eval_stat': 4}
OWN = {'set_property_range', 'eval_stat_evo'}


# ------------------------------------------------------------------ sets of objects
class Sets(object):
    """denotation of index arrays and masks: (kind, domain, formula) with formula a frozenset of rows of the truth table of the atoms"""
    def __init__(self, atoms, values=None):
        # atoms: names; a row is a tuple of booleans
        import itertools
        self.names = atoms
        self.rows = list(itertools.product((False, True), repeat=len(atoms)))
        self.values = values     # term of the values of all objects
        self.lo = self.hi = None

    def atom(self, n):
        k = self.names.index(n)
        return frozenset(r for r in self.rows if r[k])

    @property
    def every(self):
        return frozenset(self.rows)

    def __call__(self, t):
        """('set', f) an index array; ('mask', dom, f) booleans over the objects of dom in order; ('vals', dom); None unknown"""
        o = t.op
        if t is ALL:
            return ('set', self.every)
        if t is ACT:
            return ('set', self.atom('active'))
        if t is self.values:
            return ('vals', self.every)
        if o == 'phi':
            a, b = self(t.a[1]), self(t.a[2])
            return a if a == b else None
        if o == 'call' and t.a[0].op == 'ext':
            f = t.a[0].a[0].rpartition('.')[2]
            x = [self(a) for a in t.a[1]]
            if f in ('copy', 'array', 'asarray', 'sort', 'unique', 'sorted', 'list', 'set', 'asanyarray', 'ascontiguousarray', 'atleast_1d', 'squeeze', 'fromiter', 'ravel', 'int') and x:
                return x[0]
            if f in ('intersect1d', 'union1d', 'setdiff1d') and len(x) == 2 and all(v and v[0] == 'set' for v in x):
                a, b = x[0][1], x[1][1]
                return ('set', a & b if f[0] == 'i' else a | b if f[0] == 'u' else a - b)
            if f in ('intersect1d', 'union1d', 'setdiff1d') and len(x) == 2 and all(x) and sorted(v[0] for v in x) == ['pos', 'set']:
                p = [v for v in x if v[0] == 'pos'][0]
                return p            # positions in a selection compared with object numbers
            if f in ('nonzero', 'where', 'argwhere') and len(x) == 1 and x[0] and x[0][0] == 'mask':
                return ('nz',) + x[0][1:]
            if f == 'flatnonzero' and x and x[0] and x[0][0] == 'mask':
                return self.positions(x[0][1], x[0][2])
            if f in ('logical_and', 'logical_or', 'bitwise_and', 'bitwise_or') and len(x) == 2:
                return self.comb('&' if f.endswith('and') else '|', *x)
            if f in ('logical_not', 'invert', 'bitwise_not') and x:
                return self.neg(x[0])
            if f in ('isin', 'in1d') and len(x) == 2 and x[0] and x[1] and x[0][0] == 'set' and x[1][0] == 'set':
                return ('mask', x[0][1], x[0][1] & x[1][1])
            if f in ('greater_equal', 'less_equal', 'greater', 'less') and len(t.a[1]) == 2:
                return self.cmp({'g': '>', 'l': '<'}[f[0]] + ('=' if f.endswith('equal') else ''), *t.a[1])
            if f == 'arange' and len(t.a[1]) == 1 and (t.a[1][0] is N or self.count(t.a[1][0]) == self.every):
                return ('set', self.every)
            if f in ('take', 'compress') and len(x) >= 2:
                return self.pick(x[0], x[1]) if f == 'take' else self.pick(x[1], x[0])
            return None
        if o == 'mcall':
            x = self(t.a[1])
            if t.a[0] in ('copy', 'astype', 'tolist', 'ravel', 'flatten', 'squeeze', 'sort'):
                if x and x[0] == 'nz' and t.a[0] in ('ravel', 'flatten', 'squeeze'):
                    return self.positions(x[1], x[2])
                return x
            if t.a[0] == 'nonzero' and x and x[0] == 'mask':
                return ('nz',) + x[1:]
            if t.a[0] in ('intersection', 'union', 'difference') and len(t.a[2]) == 1:
                y = self(t.a[2][0])
                if x and y and x[0] == y[0] == 'set':
                    return ('set', x[1] & y[1] if t.a[0][0] == 'i' else x[1] | y[1] if t.a[0][0] == 'u' else x[1] - y[1])
            return None
        if o == 'sub':
            b, i = t.a
            x = self(b)
            if x and x[0] == 'nz' and i.op == 'const' and i.a[0] in (0, -1):
                return self.positions(x[1], x[2])
            if x and i.op == 'slice' and all(e is NONE for e in i.a):
                return x
            return self.pick(x, self(i))
        if o == 'bin' and t.a[0] in ('&', '|', '*', '-') and len(t.a) == 3:
            a, b = self(t.a[1]), self(t.a[2])
            if a and b and a[0] == b[0] == 'set' and t.a[0] in '&|-':
                return ('set', a[1] & b[1] if t.a[0] == '&' else a[1] | b[1] if t.a[0] == '|' else a[1] - b[1])
            return self.comb('&' if t.a[0] == '*' else t.a[0], a, b)
        if o in ('and', 'or') and len(t.a) == 2:
            return self.comb('&' if o == 'and' else '|', self(t.a[0]), self(t.a[1]))
        if o == 'not':
            return self.neg(self(t.a[0]))
        if o == 'un' and t.a[0] == '~':
            return self.neg(self(t.a[1]))
        if o == 'cmp':
            return self.cmp(t.a[0], t.a[1], t.a[2])
        return None

    def positions(self, dom, f):
        """positions inside dom where the mask holds: object numbers only when dom is everything"""
        return ('set', f) if dom == self.every else ('pos', dom, f)

    def pick(self, x, y):
        if not x or not y:
            return None
        if x[0] in ('set', 'vals') and y[0] == 'mask' and x[1] == y[1]:
            return (x[0], y[2])
        if x[0] in ('set', 'vals') and y[0] in ('set',) and x[1] == self.every:
            return (x[0], y[1])
        if x[0] in ('set', 'vals') and y[0] == 'pos' and x[1] == y[1]:
            return (x[0], y[2])
        if x[0] == 'set' and y[0] == 'set':
            return ('pos', x[1], y[1])       # object numbers used as positions inside a selection
        if x[0] == 'mask' and y[0] == 'set' and x[1] == self.every:
            return ('mask', y[1], x[2] & y[1])
        return None

    def comb(self, op, a, b):
        if not a or not b or a[0] != 'mask' or b[0] != 'mask' or a[1] != b[1] or op not in '&|':
            return None
        return ('mask', a[1], a[2] & b[2] if op == '&' else a[2] | b[2])

    def neg(self, a):
        return ('mask', a[1], a[1] - a[2]) if a and a[0] == 'mask' else None

    def cmp(self, op, a, b):
        v, w = self(a), self(b)
        if w and w[0] == 'vals' and not v:
            a, b, v, w = b, a, w, v
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if not v or v[0] != 'vals':
            return None
        for lim, at, ge in ((self.lo, 'low', '>='), (self.hi, 'high', '<=')):
            if lim is not None and b is lim:
                if op == ge:
                    return ('mask', v[1], self.atom(at) & v[1])
                if op == {'>=': '<', '<=': '>'}[ge]:
                    return ('mask', v[1], v[1] - self.atom(at))
                if op in '<>':
                    return ('mask', v[1], frozenset())       # limit not included: differs from every wanted set
        return None

    def count(self, t):
        """the set whose number of entries t is"""
        if t is N:
            return self.every
        if t is NACT:
            return self.atom('active')
        if is_call(t, 'builtins.len', 'numpy.size') and len(t.a[1]) == 1:
            x = self(t.a[1][0])
            return x[1] if x and x[0] in ('set', 'vals') else None
        if t.op == 'attr' and t.a[1] == 'size':
            x = self(t.a[0])
            return x[1] if x and x[0] in ('set', 'vals') else None
        if t.op == 'sub' and t.a[0].op == 'attr' and t.a[0].a[1] == 'shape' and is_const(t.a[1], 0):
            x = self(t.a[0].a[0])
            return x[1] if x and x[0] in ('set', 'vals') else None
        if is_call(t, 'numpy.sum', 'numpy.count_nonzero', 'builtins.sum') and t.a[1]:
            x = self(t.a[1][0])
            return x[2] if x and x[0] == 'mask' else None
        if t.op == 'mcall' and t.a[0] == 'sum':
            x = self(t.a[1])
            return x[2] if x and x[0] == 'mask' else None
        if t.op == 'phi':
            a, b = self.count(t.a[1]), self.count(t.a[2])
            return a if a == b else None
        return None


# ------------------------------------------------------------------ running handler operations
def prepare(prog, f, bind, selfcls, keep=(), watch=(), attrs=None, models=None, vec=False):
    it = Interp(prog, inline=lambda a, b: b.name not in keep, depth=6)
    it.watch = watch
    it.vec = vec
    me = P('self')
    it.preset = {(me, 'inds_all'): ALL, (me, 'inds_active'): ACT, (me, 'nhalos_all'): N, (me, 'nhalos_active'): NACT}
    it.preset.update({(me, k): v for k, v in (attrs or {}).items()})
    it.models = dict(models or {})
    return it, it.run(f, bind=defaults(it, f, bind), selfcls=selfcls)


def at(st, attr):
    l = st.heap.get((P('self'), attr))
    return st.store[l] if l is not None else None


def methods(prog, cname):
    c = prog.cls(cname)
    return [(c, m) for n, m in sorted(c.methods.items())] if c else []


def sel(e):
    """the selection a call evaluates values for, None when the call does not evaluate values"""
    if e.kind == 'call':
        f = e.callee
        if 'use_all_inds' not in f.params:
            return None
        v = e.binding.get('use_all_inds')
        if v is None:
            d = f.defaults.get('use_all_inds')
            v = K(getattr(d, 'value', None)) if d is not None else NONE
        return v
    if e.kind == 'mcall' and e.name in POS:
        if 'use_all_inds' in e.kws:
            return e.kws['use_all_inds']
        if '**' in e.kws or any(a.op == 'star' for a in e.args):
            return None
        return e.args[POS[e.name]] if len(e.args) > POS[e.name] else FALSE
    return None


def check(prog, rep):
    rep.rule('selection-forwarded', 'an operation that can be told to use all objects or the active ones evaluates every value for the objects it was told to use', 25)
    rep.rule('default-active', 'operations use the active objects unless told otherwise', 8)
    rep.rule('value-selected', 'reading a property gives the entries of the active objects, or of all objects when asked for, and makes a property for exactly those', 6)
    rep.rule('restriction', 'setting a range selects the objects inside it, among those already selected unless it is reset; no range selects everything', 3)
    rep.rule('count', 'the number of active objects always belongs to the active selection', 3)
    rep.rule('selection-kept', 'operations not meant to select leave the selection as it was, also when they change it on the way', 15)
    rep.rule('own-selection', 'the statistics of a redshift bin use the objects of that bin only, with the matching limits and volume', 3)
    rep.rule('every-snapshot', 'a range set on a simulation is set on every snapshot with the same arguments', 2)
    for cname in CLASSES:
        for c, f in methods(prog, cname):
            if 'use_all_inds' not in f.params or f.name.startswith('__'):
                continue
            rep.saw(f)
            w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
            d = f.defaults.get('use_all_inds')
            if not f.name.startswith('_'):
                rep.ob('default-active', cn(f.qual), d is not None and getattr(d, 'value', None) is False, w, '%s uses %s objects by default' % (f.qual, 'other than the active'))
            for v in (TRUE, FALSE):
                forward(prog, rep, c, f, v, w)
    pairs(prog, rep)
    values(prog, rep)
    ranges(prog, rep)
    kept(prog, rep)
    evo(prog, rep)
    snaps(prog, rep)


def forward(prog, rep, c, f, v, w):
    bind = {'use_all_inds': v}
    if f.vararg:
        bind[f.vararg] = mk('tuple', P('name one'), P('name two'))
    for p in f.params:
        if p in ('kwargs',):
            bind[p] = L(P('kw one'), P('kw two'))
    it = Interp(prog, inline=lambda a, b: b.name not in POS or b.cls is None, depth=4, types={'snapshot': 'SnapHandler'})
    get = prog.lookup(prog.cls('SimHandler'), 'get_snap')
    it.models = {('func', get.qual): lambda b: mk('obj', 'snapshot')}
    if 'property' in f.params:
        pr = P('property')
        it.preset = {(pr, 'names'): L(K('P')), (pr, 'n_props'): K(1), (pr, 'units'): D((K('P'), P('u'))), (pr, 'h_dependence'): D((K('P'), P('h')))}
    r = it.run(f, bind=defaults(it, f, bind), selfcls=c)
    n = 0
    for e in r.ev('call', 'mcall'):
        if e.kind == 'call' and e.inlined:
            continue
        s = sel(e)
        if s is None:
            continue
        n += 1
        ok = all(x is v for _, x in leaves(s))
        nm = e.callee.name if e.kind == 'call' else e.name
        rep.ob('selection-forwarded', '%s use_all_inds=%s -> %s line %d' % (cn(f.qual), v.a[0], nm, 0), ok, e.where,
               '%s called with use_all_inds=%s reads values with use_all_inds=%s' % (cn(f.qual), v.a[0], show(s)))
    return n


def pairs(prog, rep):
    """Handler.plot in comparison mode: both axes of each curve use the same objects"""
    c = prog.cls('Handler')
    f = prog.lookup(c, 'plot')
    if f is None:
        return
    it = Interp(prog, inline=lambda a, b: b.name != 'return_property', depth=4)
    r = it.run(f, bind=defaults(it, f, dict(xname=P('x'), ynames=mk('tuple', P('y')), use_all_inds=K('compare'))), selfcls=c)
    w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    for e in r.ev('mcall'):
        if e.name in ('plot', 'scatter', 'hist') and len(e.args) >= 2:
            s = []
            for a in e.args[:2]:
                for t in subterms(a):
                    if t.op == 'call' and t.a[0].op == 'bm' and t.a[0].a[0].endswith('.return_property'):
                        s.append(kw(t, 'use_all_inds') or FALSE)
            if len(s) == 2:
                rep.ob('selection-forwarded', 'Handler.plot compare', s[0] is s[1], e.where, 'the values of the two axes are read for different objects')


def values(prog, rep):
    c = prog.cls('Handler')
    f = prog.lookup(c, 'return_property')
    rep.saw(f)
    w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    for state in ('stored', 'stored and loaded', 'generated'):
        for v in (TRUE, FALSE):
            for inh in (TRUE, FALSE):
                host = Table()
                pre = H01.world(host, dict(H01.BY, P=H01.STATES[state]))
                it = Interp(prog, inline=lambda a, b: True, depth=6)
                it.host = host
                me = P('self')
                it.preset = dict(pre, **{})
                it.preset.update({(me, 'inds_all'): ALL, (me, 'inds_active'): ACT, (me, 'nhalos_all'): N, (me, 'nhalos_active'): NACT})
                r = it.run(f, bind=defaults(it, f, dict(property_name=K('P'), use_all_inds=v, in_h_units=inh)), selfcls=c)
                for x in normal(r):
                    s = Sets(['active'], None)
                    got = picked(x.value, s, state)
                    if got is None:
                        continue
                    want = s.every if v is TRUE else s.atom('active')
                    rep.ob('value-selected', 'return_property %s use_all_inds=%s in_h_units=%s' % (state, v.a[0], inh.a[0]), got == want, w,
                           'reading with use_all_inds=%s gives the values of %s' % (v.a[0], 'all objects' if got == s.every else 'other objects'))
    # loading a property keeps it for all objects, the selection is made when it is read
    f = prog.lookup(c, 'load_property')
    rep.saw(f)
    w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    for state in ('stored', 'stored and loaded'):
        host = Table()
        me = P('self')
        it = Interp(prog, inline=lambda a, b: True, depth=6)
        it.host = host
        it.preset = H01.world(host, dict(H01.BY, P=H01.STATES[state]))
        it.preset.update({(me, 'inds_all'): ALL, (me, 'inds_active'): ACT, (me, 'nhalos_all'): N, (me, 'nhalos_active'): NACT})
        r = it.run(f, bind=defaults(it, f, dict(property_names=H01.tup('P'))), selfcls=c)
        for x in normal(r):
            d = at(x.state, 'properties_loaded')
            t = dict(d.a[0]).get(K('P')) if d is not None and d.op == 'dict' else None
            if t is None:
                continue
            s = Sets(['active'], None)
            got = picked(t, s, state)
            if got is not None:
                rep.ob('value-selected', 'load_property %s' % state, got == s.every, w, 'a property is loaded for some of the objects only, although any of them may be selected when it is read')
    # making a property
    f = prog.lookup(c, 'make_property')
    rep.saw(f)
    w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    for v in (TRUE, FALSE):
        host = Table()
        me, pr = P('self'), P('property')
        it = Interp(prog, inline=lambda a, b: True, depth=6)
        it.host = host
        it.preset = H01.world(host, H01.BY)
        it.preset.update(H01.propattrs('P'))
        it.preset.update({(me, 'inds_all'): ALL, (me, 'inds_active'): ACT, (me, 'nhalos_all'): N, (me, 'nhalos_active'): NACT})
        it.models = {(pr, 'evaluate_all'): lambda a, k: L(H01.val('P', 'M'))}
        r = it.run(f, bind=defaults(it, f, dict(property=pr, use_all_inds=v)), selfcls=c)
        for x in normal(r):
            d = at(x.state, 'properties_loaded')
            t = dict(d.a[0]).get(K('P')) if d is not None and d.op == 'dict' else None
            if t is None:
                continue
            s = Sets(['active'])
            idx = [u.a[1] for u in subterms(t) if u.op == 'upd' and H01.val('P', 'M') in subterms(u.a[2])]
            head = [i for i in idx if i.op == 'slice' and i.a[0] in (NONE, K(0)) and i.a[2] in (NONE, K(1)) and (i.a[1] is NACT or i.a[1].op == 'call' and i.a[1].a[0] is mk('ext', 'builtins.len') and i.a[1].a[1] == (ACT,))]
            if head and v is FALSE:
                rep.ob('value-selected', 'make_property use_all_inds=False', False, w, 'the values made for the active objects are stored for the first objects of the catalogue')
            got = [s(i) for i in idx]
            if not got or any(g is None or g[0] != 'set' for g in got):
                continue
            want = s.every if v is TRUE else s.atom('active')
            rep.ob('value-selected', 'make_property use_all_inds=%s' % v.a[0], all(g[1] == want for g in got), w, 'the values made with use_all_inds=%s are stored for other objects' % v.a[0])


def picked(t, s, state):
    """the objects whose entries of the property P a value holds"""
    for x in subterms(t):
        for k in 'DN':
            if x is H01.val('P', k):
                s.values = x
    if s.values is None:
        return None

    def rec(t):
        x = s(t)
        if x is not None and x[0] == 'vals':
            return x[1]
        if t.op == 'bin':
            a, b = rec(t.a[1]), rec(t.a[2])
            return a if b is None else b if a is None else a if a == b else None
        if t.op == 'phi':
            a, b = rec(t.a[1]), rec(t.a[2])
            return a if a == b else None
        if t.op == 'mcall':
            return rec(t.a[1])
        if t.op == 'call' and t.a[0].op == 'ext' and t.a[1]:
            return rec(t.a[1][0])
        return None
    return rec(t)


def ranges(prog, rep):
    c = prog.cls('Handler')
    f = prog.lookup(c, 'set_property_range')
    rep.saw(f)
    w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    lo, hi, V = P('lowest'), P('highest'), P('values of all objects')
    ret = prog.lookup(c, 'return_property')

    def read(b):
        u = b.get('use_all_inds', FALSE)
        return V if u is TRUE else mk('sub', V, ACT) if u is FALSE else None
    for label, bind, want in (('range', dict(property_name=K('P'), pmin=lo, pmax=hi, reset=TRUE), ('low', 'high')),
                              ('range without reset', dict(property_name=K('P'), pmin=lo, pmax=hi, reset=FALSE), ('active', 'low', 'high')),
                              ('no range', dict(), ())):
        it, r = prepare(prog, f, bind, c, models={('func', ret.qual): read})
        for x in normal(r):
            s = Sets(['active', 'low', 'high'], V)
            s.lo, s.hi = lo, hi
            t = at(x.state, 'inds_active')
            got = s(t) if t is not None else None
            if got is None or got[0] not in ('set', 'pos'):
                rep.notes.append('not decided: %s selects %s' % (label, show(t)[:200]))
                continue
            exp = s.every
            for a in want:
                exp = exp & s.atom(a)
            rep.ob('restriction', label, got == ('set', exp), w, 'setting a %s selects %s' % (label, words(s, got)))
    it, r = prepare(prog, f, dict(property_name=K('P'), pmin=lo, pmax=hi, reset=TRUE), c, keep=('return_property',))
    for e in r.ev('call'):
        if e.callee.name == 'return_property':
            rep.ob('restriction', 'property read', all(x is K('P') for _, x in leaves(e.binding.get('property_name', NONE))), e.where, 'another property is compared with the range')


def words(s, got):
    if got[0] == 'pos':
        return 'positions in the current selection instead of objects'
    out = []
    for r in sorted(got[1], reverse=True):
        out.append('/'.join(('' if v else 'not ') + n for n, v in zip(s.names, r)))
    return 'the objects that are ' + (' or '.join(out) if out else 'nothing')


def kept(prog, rep):
    """every public operation: the count belongs to the selection; operations not named set_property_range keep the selection"""
    for cname in ('Handler', 'SnapHandler', 'LCHandler'):
        c = prog.cls(cname)
        names = {}
        for b in reversed(prog.mro(c)):
            names.update(b.methods)
        for n, f in sorted(names.items()):
            if n.startswith('_') or f.cls is None or f.cls is not c and cname != 'Handler' and f.cls.name == 'Handler' and n != 'set_in_h_units':
                continue
            bind = {}
            if f.vararg:
                bind[f.vararg] = mk('tuple', P('name one'))
            if n == 'eval_stat_evo':
                bind['redshift_bins'] = P('bins')
            it = Interp(prog, inline=lambda a, b: b.name not in ('return_property', 'eval_stat', 'volume'), depth=4)
            me = P('self')
            it.preset = {(me, 'inds_all'): ALL, (me, 'inds_active'): ACT, (me, 'nhalos_all'): N, (me, 'nhalos_active'): NACT}
            r = it.run(f, bind=bind, selfcls=c)
            rep.saw(f)
            w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
            for x in normal(r):
                a, k = at(x.state, 'inds_active'), at(x.state, 'nhalos_active')
                if a is ACT and k is NACT:
                    if n != 'set_property_range':
                        rep.ob('selection-kept', cn(f.qual), True, w, '')
                    continue
                s = Sets(['active'])
                for (_, ta), (_, tk) in paired(a, k):
                    counted = length_of(tk, ta)
                    sa = s(ta)
                    if not counted and sa and sa[0] == 'set':
                        counted = s.count(tk) == sa[1] and s.count(tk) is not None
                    rep.ob('count', cn(f.qual), counted, w, 'after %s the selection is %s but its count is %s' % (cn(f.qual), show(ta)[:120], show(tk)[:120]))
                    if n != 'set_property_range':
                        rep.ob('selection-kept', cn(f.qual), sa == ('set', s.atom('active')), w, 'after %s the selection is %s' % (cn(f.qual), show(ta)[:160]))
    for f in [f for q, f in sorted(prog.funcs.items()) if f.cls is not None and f.cls.name not in ('Handler', 'SnapHandler', 'LCHandler')]:
        r = result(prog, f)
        for e in r.ev('setattr'):
            if e.attr in ('inds_active', 'inds_all', 'nhalos_active') and not e.stack:
                rep.ob('selection-kept', cn(f.qual) + ' ' + e.attr, False, e.where, '%s changes the selection of a catalogue' % cn(f.qual))
    # the opened catalogue starts with everything selected
    c = prog.cls('Handler')
    f = prog.lookup(c, '__init__')
    it = Interp(prog, inline=lambda a, b: True, depth=6)
    r = it.run(f, selfcls=c)
    w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    for x in normal(r):
        n, a, k, al = (at(x.state, z) for z in ('nhalos_all', 'inds_active', 'nhalos_active', 'inds_all'))
        if None in (n, a, k, al):
            continue
        rep.ob('count', 'Handler.__init__', length_of(k, a) or k is n, w, 'the count of the initial selection is %s' % show(k)[:120])
        rep.ob('selection-kept', 'Handler.__init__', same_range(a, n) and same_range(al, n), w, 'a catalogue is opened with %s selected' % show(a)[:120])


def same_range(t, n):
    while t.op == 'mcall' and t.a[0] in ('astype', 'copy') or is_call(t, 'numpy.copy', 'numpy.array', 'numpy.asarray'):
        t = t.a[1] if t.op == 'mcall' else t.a[1][0]
    if is_call(t, 'numpy.arange') and t.a[1]:
        return t.a[1][0] is n and len(t.a[1]) == 1 or len(t.a[1]) == 2 and is_const(t.a[1][0], 0) and t.a[1][1] is n
    return t.op != 'call'


def length_of(k, a):
    if is_call(k, 'builtins.len', 'numpy.size') and k.a[1]:
        return same_set(k.a[1][0], a)
    if k.op == 'attr' and k.a[1] == 'size':
        return same_set(k.a[0], a)
    if k.op == 'sub' and k.a[0].op == 'attr' and k.a[0].a[1] == 'shape':
        return same_set(k.a[0].a[0], a)
    return False


def same_set(a, b):
    def core(t):
        while is_call(t, 'numpy.copy', 'numpy.array', 'numpy.asarray', 'numpy.sort') or t.op == 'mcall' and t.a[0] in ('copy', 'astype'):
            t = t.a[1] if t.op == 'mcall' else t.a[1][0]
        return t
    return core(a) is core(b)


def paired(a, k):
    """alternatives of two gated values under the same conditions"""
    if a.op == 'phi' and k.op == 'phi' and a.a[0] is k.a[0]:
        return paired(a.a[1], k.a[1]) + paired(a.a[2], k.a[2])
    def cond(t):
        while is_call(t, 'builtins.len') and t.a[1]:
            t = t.a[1][0]
        return t
    if a.op == 'phi' and is_call(k, 'builtins.len') and cond(k) is a:
        return [((), (a.a[i])) and (((), a.a[i]), ((), mk('call', k.a[0], (a.a[i],), ()))) for i in (1, 2)]
    return [(((), a), ((), k))]


def evo(prog, rep):
    c = prog.cls('LCHandler')
    f = prog.lookup(c, 'eval_stat_evo')
    if f is None:
        return
    w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    V = P('redshifts of all objects')
    ret = prog.lookup(c, 'return_property')

    def read(b):
        if b.get('property_name') is not K('redshift'):
            return None
        u = b.get('use_all_inds', FALSE)
        return V if u is TRUE else None
    bins = [1, 2, 5]
    it, r = prepare(prog, f, dict(redshift_bins=mk('vec', *[K(x) for x in bins]), zmin_kw=TRUE, zmax_kw=TRUE, volume_kw=TRUE, other_kws=D()), c, keep=('eval_stat', 'volume'), watch=('eval_stat',),
                    models={('func', ret.qual): read}, vec=True)
    ev = [e for e in r.ev('call') if e.callee.name == 'eval_stat']
    if len(ev) != 2:
        rep.notes.append('not decided: %d evaluations for 2 bins' % len(ev))
        return
    for i, e in enumerate(ev):
        lo, hi = K(bins[i]), K(bins[i + 1])
        s = Sets(['active', 'low', 'high'], V)
        s.lo, s.hi = lo, hi
        t = at(e.state, 'inds_active')
        got = s(t) if t is not None else None
        u = e.binding.get('use_all_inds', FALSE)
        rep.ob('own-selection', 'bin %d uses the selection' % i, all(x is FALSE for _, x in leaves(u)), e.where, 'the statistic of a redshift bin is evaluated for all objects')
        if got is not None:
            own = s.atom('low') & s.atom('high')
            rep.ob('own-selection', 'bin %d' % i, got in (('set', own), ('set', own & s.atom('active'))), e.where, 'the statistic of the bin %s to %s is evaluated for %s' % (bins[i], bins[i + 1], words(s, got)))
        elif t is not None:
            other = [x for x in find(t, lambda y: y.op == 'cmp') if x.a[1] in (K(1), K(2), K(5)) or x.a[2] in (K(1), K(2), K(5))]
            wrong = [x for x in other if not ({x.a[1], x.a[2]} & {lo, hi})]
            if wrong:
                rep.ob('own-selection', 'bin %d' % i, False, e.where, 'the statistic of the bin %s to %s depends on the limits of another bin' % (bins[i], bins[i + 1]))
        ok = e.binding.get('other_kws')
        if ok is not None and ok.op == 'dict':
            d = {k.a[0]: v for k, v in ok.a[0] if k.op == 'const'}
            for k, want in (('zmin', lo), ('zmax', hi)):
                if k in d:
                    rep.ob('own-selection', 'bin %d %s' % (i, k), d[k] is want, e.where, '%s of the bin %s to %s is %s' % (k, bins[i], bins[i + 1], show(d[k])))
            v = d.get('volume')
            if v is not None and v.op == 'call':
                rep.ob('own-selection', 'bin %d volume' % i, kw(v, 'redshift_min') is lo and kw(v, 'redshift_max') is hi, e.where, 'the volume of the bin %s to %s is that of another range' % (bins[i], bins[i + 1]))


def snaps(prog, rep):
    c = prog.cls('SimHandler')
    f = prog.lookup(c, 'set_property_range')
    rep.saw(f)
    w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    S = [mk('obj', 'snap0'), mk('obj', 'snap1')]
    get = prog.lookup(c, 'get_snap')
    host = Table()
    it = Interp(prog, inline=lambda a, b: not (b.name == 'set_property_range' and a is not b and b.cls is not None and b.cls.name != 'SimHandler'), depth=6, types={'snap0': 'SnapHandler', 'snap1': 'SnapHandler'})
    me = P('self')
    it.host = host
    it.preset = {(me, 'snap_meta'): host.table('meta', {'index': [K(0), K(1)], 'redshift': [P('z0'), P('z1')]}), (me, 'init_snaps'): TRUE, (me, 'snap_handlers'): D((K('0'), S[0]), (K('1'), S[1]))}
    it.models = {('func', get.qual): lambda b: S[b['snap'].a[0]] if b.get('snap') is not None and b['snap'].op == 'const' and b['snap'].a[0] in (0, 1) else None}
    bind = dict(property_name=P('name'), pmin=P('low'), pmax=P('high'), reset=P('reset?'), in_h_units=P('h?'))
    r = it.run(f, bind=bind, selfcls=c)
    ev = [e for e in r.ev('call') if e.callee.name == 'set_property_range' and e.callee.cls.name != 'SimHandler']
    for s in S:
        got = [e for e in ev if e.recv is s]
        rep.ob('every-snapshot', str(s.a[0]), bool(got), w, 'the range is not set on every snapshot')
        for e in got:
            for p, v in bind.items():
                b = e.binding.get(p)
                ok = b is not None and any(x is v for _, x in leaves(b))
                rep.ob('every-snapshot', '%s %s' % (s.a[0], p), ok, e.where, '%s of the range is not passed on to the snapshots' % p)
