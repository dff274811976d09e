"""Built-in property definitions against the signatures and results of the model functions they call."""
from common import *
from flow import Interp
from props.U01 import prop_calls, consts

ASSUMPTIONS = [
    'a property definition is a construction of MultiProp or a subclass; definitions whose name list is not literal are not decided',
    'the number of values a model returns is decided for literal lists and for comprehensions over ranges of known length',
]


def length(t):
    """number of elements of a value, None when unknown"""
    if t.op in ('list', 'tuple', 'set') and not any(x.op == 'star' for x in t.a):
        return len(t.a)
    if t.op == 'bin':
        a, b = t.a[1], t.a[2]
        if a.op == 'const':
            return length(b)
        if b.op == 'const':
            return length(a)
    if is_call(t, 'numpy.array', 'numpy.asarray', 'numpy.ravel', 'numpy.atleast_1d', 'builtins.list', 'builtins.tuple', 'numpy.sort', 'builtins.enumerate') and t.a[1]:
        return length(t.a[1][0])
    if is_call(t, 'numpy.arange', 'builtins.range') and t.a[1]:
        if all(x.op == 'const' and isinstance(x.a[0], int) for x in t.a[1]):
            return len(range(*[x.a[0] for x in t.a[1]]))
        if len(t.a[1]) == 1:
            x = t.a[1][0]
            if is_call(x, 'builtins.len') and x.a[1]:
                return length(x.a[1][0])
    if t.op == 'mcall' and t.a[0] in ('copy', 'astype', 'tolist') and t.a[1].op != 'param':
        return length(t.a[1])
    if t.op == 'comp' and len(t.a) > 2:
        gens = [x for x in t.a if isinstance(x, T)]
        return None
    return None


def returned(t):
    """number of values in the list a model returns: int, 'array' for a non-list, None unknown"""
    if t.op in ('list', 'tuple'):
        return length(t)
    if t.op == 'comp':
        for x in reversed([y for y in t.a if isinstance(y, T)]):
            n = length(x)
            if n is not None:
                return n
        for y in t.a:
            if isinstance(y, tuple):
                for x in y:
                    for z in (x if isinstance(x, tuple) else (x,)):
                        if isinstance(z, T):
                            n = length(z)
                            if n is not None:
                                return n
        return None
    if t.op in ('bin', 'call', 'mcall', 'upd') and not is_call(t, 'builtins.list', 'builtins.tuple', 'builtins.zip'):
        return 'array'
    return None


def check(prog, rep):
    rep.rule('input-accepted', 'every input named by a built-in property is a parameter of its model function', 16)
    rep.rule('input-complete', 'every parameter the model requires is named as an input', 16)
    rep.rule('input-available', 'every input of a built-in property is a catalogue column or an extra property of a handler', 16)
    rep.rule('outputs-match', 'a definition declares as many names as the model returns values; units and h exponents match them', 16)
    rep.rule('name-is-line', 'a property named after one line is computed for that line', 1)
    rep.rule('distinct-model', 'two definitions do not use one model with one input list and one name', 16)
    rep.rule('settings-kept', 'a definition stores each setting it is given under its own attribute', 12)
    rep.rule('lengths-checked', 'unit and exponent lists of an unsuitable length are refused', 4)
    rep.rule('arguments-assembled', 'each input is evaluated for the mapped property, selection and unit convention and passed under its own name', 8)
    rep.rule('caller-keywords', "the caller's extra keyword arguments reach the model", 2)
    rep.rule('results-assigned', 'the i-th result is stored under the i-th name with its own unit and h exponent', 6)
    rep.rule('same-name', 'a value named like a parameter of the called model function is passed for that parameter', 20)
    builtin(prog, rep)
    definition(prog, rep)
    evaluation(prog, rep)
    assigned(prog, rep)
    names(prog, rep)


def builtin(prog, rep):
    it = Interp(prog)
    avail = available(prog, rep)
    seen = {}
    for m, e in prop_calls(prog):
        b = e.binding or {}
        pf, kw_ = b.get('prop_function'), b.get('kwargs')
        ns = consts(b.get('prop_name') or b.get('prop_names')) if (b.get('prop_name') or b.get('prop_names')) is not None else None
        if pf is None or ns is None or kw_ is None:
            continue
        con = '%s %s' % (m.name.split('.')[-1], '/'.join(str(x) for x in ns[:2]))
        if pf.op not in ('func', 'bm'):
            continue
        con += ' ' + pf.a[0].split('.')[-1]
        f = prog.funcs[pf.a[0]]
        rep.saw(f)
        ins = consts(kw_)
        if ins is None:
            continue
        pars = [p for p in f.params if not (f.cls is not None and p == f.posparams[0])]
        for k in ins:
            rep.ob('input-accepted', con + ' ' + k, k in pars or f.kwarg, e.where, 'property %s: %s takes no argument %r' % (ns[0], f.name, k))
            rep.ob('input-available', con + ' ' + k, k in avail, e.where, 'property %s needs %r, which no handler provides' % (ns[0], k))
        miss = [p for p in pars if p not in f.defaults and p not in ins]
        rep.ob('input-complete', con, not miss and len(set(ins)) == len(ins), e.where, 'property %s never gives %s its argument %s' % (ns[0], f.name, ', '.join(miss)))
        single = b.get('prop_name') is not None
        # values returned with the default options
        r = spec(prog, f, bind={p: it.default(f, d, p) for p, d in f.defaults.items()})
        got = set()
        for x in normal(r):
            for _, v in leaves(x.value):
                got.add(returned(v))
        got.discard(None)
        if single:
            bad = [g for g in got if g != 'array' and g != 1]
            rep.ob('outputs-match', con, not any(isinstance(g, int) for g in got), e.where, 'property %s: %s returns a list of %s values' % (ns[0], f.name, bad))
        else:
            us, hs = b.get('units'), b.get('h_dependence')
            ok = all(g == len(ns) or (g == 'array' and len(ns) == 1) for g in got) and len(set(ns)) == len(ns)
            for w in (us, hs):
                if w is not None and w.op in ('list', 'tuple'):
                    ok = ok and len(w.a) in (1, len(ns))
            rep.ob('outputs-match', con, ok, e.where, '%s declares %d names, %s returns %s values' % (con, len(ns), f.name, sorted(map(str, got))))
            if 'lines' in f.defaults and all(str(n).startswith('L') and str(n)[1:].isdigit() for n in ns):
                d = it.default(f, f.defaults['lines'], 'lines')
                if is_call(d, 'numpy.arange') and length(d) == len(ns):
                    seq = list(range(*[x.a[0] for x in d.a[1]]))
                elif consts(d):
                    seq = consts(d)
                else:
                    seq = None
                if seq is not None:
                    want = ['L%d%d' % (j, j - 1) for j in seq]
                    rep.ob('name-is-line', con, want == list(ns), e.where, 'names %s are listed for lines %s' % (ns, seq))
        if single and 'line' in f.defaults:
            d = const(it.default(f, f.defaults['line'], 'line'))
            n = str(ns[0])
            if isinstance(d, str) and n in ('LCII', 'LNII', 'LOI', 'LCI', 'LOIII', 'LNIII'):
                rep.ob('name-is-line', con, d.upper().replace('[', '').startswith(n[1:]) and not d.upper().startswith(n[1:] + 'I'),
                       e.where, 'property %s is computed for line %r' % (n, d))
        key = (tuple(ns), pf.a[0], tuple(ins))
        rep.ob('distinct-model', con, key not in seen, e.where, 'two definitions are the same')
        seen[key] = 1


def available(prog, rep):
    """names a property can take as input: columns of catalogues and lightcones, extra properties"""
    from sources import sources, fields
    out = {'h', 'sfr', 'mass', 'redshift'}
    for sim, srcs in sources(prog):
        for s in srcs:
            for tb, key, subs in fields(s):
                out |= {x[0] for x in subs or []}
    for c in ('SnapHandler', 'LCHandler'):
        f = prog.func(c + '.__init__')
        for e in result(prog, f).ev('setsub'):
            b = e.base
            if e.idx.op == 'const' and 'extra_props' in show(e.loc_base if hasattr(e, 'loc_base') else b):
                out.add(e.idx.a[0])
        for x in normal(result(prog, f)):
            v = final(x, 'extra_props')
            if v is not None:
                for t in subterms(v):
                    if t.op == 'dict':
                        out |= {k.a[0] for k, _ in t.a[0] if k.op == 'const'}
                    if t.op == 'upd' and t.a[1].op == 'const':
                        out.add(t.a[1].a[0])
    return out


def definition(prog, rep):
    # Prop
    f = prog.func('Prop.__init__')
    rep.saw(f, prog.func('MultiProp.__init__'))
    w = '%s:%d Prop.__init__' % (f.module.path, f.node.lineno)
    for x in normal(spec(prog, f)):
        want = {'names': L(P('prop_name')), 'prop_function': P('prop_function'), 'kwargs': P('kwargs'), 'give_args_in_h_units': P('give_args_in_h_units'),
                'function_return_in_h_units': P('function_return_in_h_units'), 'units': D((P('prop_name'), P('units'))),
                'h_dependence': D((P('prop_name'), P('h_dependence'))), 'wrap': TRUE, 'n_props': K(1)}
        for a, v in want.items():
            g = final(x, a)
            rep.ob('settings-kept', 'Prop.' + a, same(g, v), w, 'Prop stores %s as %s' % (a, show(g) if g is not None else 'nothing'))
    f = prog.func('MultiProp.__init__')
    w = '%s:%d MultiProp.__init__' % (f.module.path, f.node.lineno)
    us, hs = [P('u%d' % i) for i in range(3)], [P('h%d' % i) for i in range(3)]
    A, B, C = K('A'), K('B'), K('C')
    for nu in (1, 3):
        for nh in (1, 3):
            r = spec(prog, f, bind={'prop_names': L(A, B, C), 'units': L(*us[:nu]), 'h_dependence': L(*hs[:nh])})
            for x in normal(r):
                want = {'names': L(A, B, C), 'units': D((A, us[0]), (B, us[min(1, nu - 1)]), (C, us[nu - 1])),
                        'h_dependence': D((A, hs[0]), (B, hs[min(1, nh - 1)]), (C, hs[nh - 1])),
                        'prop_function': P('prop_function'), 'kwargs': P('kwargs'), 'give_args_in_h_units': P('give_args_in_h_units'),
                        'function_return_in_h_units': P('function_return_in_h_units'), 'n_props': K(3)}
                for a, v in want.items():
                    g = final(x, a)
                    rep.ob('settings-kept', 'MultiProp.' + a, same(g, v), w, 'MultiProp with %d units and %d exponents stores %s as %s' % (nu, nh, a, show(g) if g is not None else 'nothing'))
                g = final(x, 'wrap')
                rep.ob('settings-kept', 'MultiProp.wrap', g is None or g is FALSE, w, 'results of a model returning several values are wrapped')
            rep.ob('settings-kept', 'MultiProp %d units %d exponents' % (nu, nh), bool(normal(r)), w, 'a definition with %d units and %d exponents is refused' % (nu, nh))
    for nu, nh in ((2, 1), (1, 2), (0, 1), (1, 0)):
        r = spec(prog, f, bind={'prop_names': L(A, B, C), 'units': L(*us[:nu]), 'h_dependence': L(*hs[:nh])})
        rep.ob('lengths-checked', 'MultiProp %d units %d exponents for 3 names' % (nu, nh), not normal(r), w,
               '%d units and %d exponents are accepted for 3 properties' % (nu, nh))


def same(a, b):
    if a is b:
        return True
    if a is None:
        return False
    if a.op == 'dict' and b.op == 'dict':
        x, y = dict(a.a[0]), dict(b.a[0])
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    if a.op in ('list', 'tuple') and b.op in ('list', 'tuple'):
        return len(a.a) == len(b.a) and all(same(x, y) for x, y in zip(a.a, b.a))
    if a.op == 'call' and is_call(a, 'builtins.list', 'builtins.tuple') and len(a.a[1]) == 1:
        return same(a.a[1][0], b)
    if is_call(a, 'builtins.bool') and len(a.a[1]) == 1:
        return same(a.a[1][0], b)
    if a.op == 'mcall' and a.a[0] == 'copy' and not a.a[2]:
        return same(a.a[1], b)
    return False


EXTRA = P('extra values')


def evaluation(prog, rep):
    """MultiProp.evaluate_all, MultiProp.evaluate, Prop.evaluate for every combination of mapped / unmapped, column / extra property"""
    T_ = P('target')
    fn = P('model')
    for cls, meth in (('MultiProp', 'evaluate_all'), ('MultiProp', 'evaluate'), ('Prop', 'evaluate'), ('Prop', 'evaluate_all')):
        c = prog.cls(cls)
        f = prog.lookup(c, meth)
        rep.saw(f)
        w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
        for mapped in (True, False):
            for column in (True, False):
                src = K('X') if mapped else K('x')
                nout = 1 if cls == 'Prop' else 2
                heap = dict(names=L(*[K('A'), K('B')][:nout]), n_props=K(nout), kwargs=L(K('x'), K('y')), wrap=TRUE if nout == 1 else FALSE, prop_function=fn,
                            give_args_in_h_units=P('give'), function_return_in_h_units=TRUE, h_dependence=D((K('A'), P('hA')), (K('B'), P('hB'))))
                bind = dict(target=T_, kw_remap=D((K('x'), K('X'))) if mapped else D(), kw_arguments=D((K('q'), P('Q'))), use_all_inds=P('all?'))
                out = P('vA') if nout == 1 else L(P('vA'), P('vB'))
                models = {fn: lambda a, k, out=out: out}
                attrs = {(T_, 'properties_all'): L(K('mass'), *([src, K('y')] if column else [])),
                         (T_, 'extra_props'): D(*[(k, mk('sub', EXTRA, k)) for k in [K('h'), K('cosmo')] + ([] if column else [src, K('y')])])}
                r = spec(prog, f, bind, heap, selfcls=c, models=models, types={'target': 'SnapHandler'}, preset=attrs, inline=lambda a, b: b.name != 'return_property')
                con = '%s.%s %s input, %s' % (cls, meth, 'renamed' if mapped else 'plain', 'column' if column else 'extra property')
                calls = [e for e in r.ev('extcall') if e.fn is fn]
                rep.ob('arguments-assembled', con + ' called', bool(calls) and bool(normal(r)), w, 'the model function is never called')
                for e in calls:
                    for k, s in (('x', src), ('y', K('y'))):
                        v = e.kws.get(k)
                        ok = v is not None and all(good(t, s, column) for _, t in leaves(v))
                        rep.ob('arguments-assembled', con + ' ' + k, ok, e.where, '%s passes %s=%s to the model' % (f.qual, k, show(v)[:200] if v is not None else 'nothing'))
                    rep.ob('caller-keywords', con, e.kws.get('q') is P('Q'), e.where, '%s does not pass on the extra keyword arguments' % f.qual)
                    rep.ob('arguments-assembled', con + ' only', set(e.kws) == {'x', 'y', 'q'} and not e.args, e.where, '%s passes %s to the model' % (f.qual, sorted(e.kws)))
                for x in normal(r):
                    ok = True
                    if cls == 'Prop' and meth == 'evaluate':
                        ok = x.value is P('vA')
                    else:
                        ok = same(x.value, L(P('vA')) if nout == 1 else out)
                    rep.ob('results-assigned', con, ok, w, '%s returns %s' % (f.qual, show(x.value)[:200]))
        # a model returning another number of values is refused
        heap = dict(names=L(K('A'), K('B')), n_props=K(2), kwargs=L(), wrap=FALSE, prop_function=fn, give_args_in_h_units=FALSE, function_return_in_h_units=TRUE,
                    h_dependence=D((K('A'), P('hA')), (K('B'), P('hB'))))
        for k in (1, 3):
            r = spec(prog, f, dict(target=T_, kw_remap=D(), kw_arguments=D()), heap, selfcls=c, models={fn: lambda a, kk, k=k: L(*[P('v%d' % i) for i in range(k)])})
            rep.ob('lengths-checked', '%s.%s %d values for 2 names' % (cls, meth, k), not normal(r), w, '%s accepts %d values for 2 names' % (f.qual, k))


def good(t, src, column):
    if column:
        if not (t.op == 'mcall' and t.a[0] == 'return_property' or t.op == 'call' and t.a[0].op == 'bm' and t.a[0].a[0].endswith('.return_property')):
            return False
        a = kw(t, 'property_name', 0)
        return a is src and kw(t, 'use_all_inds', 1) is P('all?') and kw(t, 'in_h_units', 2) is P('give')
    return t is mk('sub', EXTRA, src)


def assigned(prog, rep):
    """Handler.make_property: values, unit and exponent of the i-th property go to the i-th name"""
    f = prog.func('Handler.make_property')
    rep.saw(f)
    pr = P('property')
    for renamed in (True, False):
        w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
        n = [K('A'), K('B')]
        new = [K('C'), K('E')] if renamed else n
        heap = dict(properties_all=L(K('mass')), properties_generated=L(), properties_saved=L(K('mass')), properties_loaded=D(), properties_units=D(), properties_h_dependence=D())
        st = {'names': L(*n), 'n_props': K(2), 'units': D((n[0], P('uA')), (n[1], P('uB'))), 'h_dependence': D((n[0], P('hA')), (n[1], P('hB')))}
        models = {(pr, 'evaluate_all'): lambda a, k: L(P('vA'), P('vB'))}
        r = spec2(prog, f, dict(property=pr, rename=L(*new) if renamed else NONE, overwrite=FALSE, write_to_disk=FALSE, other_kws=P('other'), kw_remap=P('remap'),
                                use_all_inds=P('all?')), heap, models, {(pr, k): v for k, v in st.items()})
        con = 'Handler.make_property' + (' renamed' if renamed else '')
        rep.ob('results-assigned', con + ' completes', bool(normal(r)), w, 'a property with two outputs cannot be made')
        for e in r.ev('mcall'):
            if e.recv is pr and e.name in ('evaluate_all', 'evaluate'):
                got = (kwa(e, 'use_all_inds', 1), kwa(e, 'kw_remap', 2), kwa(e, 'kw_arguments', 3))
                rep.ob('caller-keywords', con, got[2] is P('other'), e.where, 'keyword arguments handed to the property are %s' % (show(got[2]) if got[2] is not None else 'missing'))
                rep.ob('arguments-assembled', con + ' remap', got[1] is P('remap') and got[0] is P('all?'), e.where, 'the property is evaluated with another mapping or selection than requested')
        for x in normal(r):
            for i in (0, 1):
                for a, tag in (('properties_units', 'u'), ('properties_h_dependence', 'h')):
                    d = final(x, a)
                    v = dict(d.a[0]).get(new[i]) if d is not None and d.op == 'dict' else None
                    rep.ob('results-assigned', '%s %s %d' % (con, a, i), v is P(tag + 'AB'[i]), w, '%s of property %d becomes %s' % (a, i, show(v) if v is not None else 'missing'))
                d = final(x, 'properties_loaded')
                v = dict(d.a[0]).get(new[i]) if d is not None and d.op == 'dict' else None
                ok = v is not None and P('v' + 'AB'[i]) in content(v) and P('v' + 'BA'[i]) not in content(v)
                rep.ob('results-assigned', '%s values %d' % (con, i), ok, w, 'values of property %d are %s' % (i, show(v)[:150] if v is not None else 'missing'))


def kwa(e, name, pos):
    if name in e.kws:
        return e.kws[name]
    return e.args[pos] if pos < len(e.args) else None


def spec2(prog, f, bind, heap, models, attrs):
    """spec with attribute values of other objects"""
    it = Interp(prog, inline=lambda a, b: True, depth=6)
    it.models = models
    it.preset = attrs
    return it.run(f, bind=bind, heap=heap)


def names(prog, rep):
    """calls between model functions pass like-named values to like-named parameters"""
    for q in sorted(prog.funcs):
        f = prog.funcs[q]
        if '.galprops.' not in q or isinstance(f.node, __import__('ast').Lambda):
            continue
        r = result(prog, f)
        for e in r.ev('call'):
            if e.stack or not e.binding:
                continue
            g = e.callee
            pars = set(g.params)
            for p, v in e.binding.items():
                if v.op == 'param' and v.a[0] in f.params and v.a[0] in pars and p in pars:
                    o = e.binding.get(v.a[0])
                    rep.ob('same-name', '%s -> %s %s' % (cn(q), g.name, p), v.a[0] == p or (o is v), e.where,
                           '%s passes its %s as %s of %s' % (cn(q), v.a[0], p, g.name))
        for e in r.ev('mcall', 'extcall'):
            if e.stack:
                continue
            for p, v in e.kws.items():
                if v.op == 'param' and v.a[0] in f.params and v.a[0] in e.kws:
                    rep.ob('same-name', '%s -> %s %s' % (cn(q), e.name or '?', p), v.a[0] == p or e.kws[v.a[0]] is v, e.where,
                           '%s passes its %s as %s' % (cn(q), v.a[0], p))
