"""The requested unit convention: the caller's choice, or the handler's default, reaches every value an operation reads, compares or returns."""
from common import *
from flow import Interp
from store import Table

ASSUMPTIONS = [
    'redshift, ra and dec carry no power of h, so reading them needs no choice',
    'a value read without naming a convention is read in the default convention of the handler it is read from',
    'snapshot handlers share the default convention of the simulation handler that made them (checked by the rule default-shared)',
]
CLASSES = ('Handler', 'SnapHandler', 'LCHandler', 'SimHandler', 'LCIterator', 'MultiProp', 'Prop')
CHOICE = ('in_h_units', 'give_args_in_h_units')
# operations reached through objects of unknown class, and where the choice stands among their positional arguments
POS = {'return_property': 2, '_return_extra_prop': 1, 'eval_stat': 5, 'set_property_range': 4, 'volume': 5, 'number_volumes': 1, 'get_mass_index': 2, 'eval_stat_evo': 8}
H_FREE = ('redshift', 'ra', 'dec')
ME = P('self')
OPS = set(POS) | {'plot', 'hist', 'grid', 'animate', 'snap_stat'}



def choices():
    """(argument, default of the handler, convention to be used)"""
    return [(TRUE, FALSE, TRUE), (FALSE, TRUE, FALSE), (NONE, TRUE, TRUE), (NONE, FALSE, FALSE)]


def asked(e):
    """(convention term or None when none is named, name of what is read) for a call that evaluates values; None for other calls"""
    if e.kind == 'call':
        f, b = e.callee, e.binding or {}
        if f.name.startswith('__'):
            return None
        k = [p for p in CHOICE if p in f.params]
        if not k:
            return None
        v = b.get(k[0])
        if v is None or v.op == 'default':
            v = NONE
        return v, b.get('property_name', b.get('name'))
    if e.kind == 'mcall' and e.name in POS:
        kws = e.kws if isinstance(e.kws, dict) else dict(e.kws)
        first = e.args[0] if e.args else kws.get('property_name', kws.get('name'))
        for k in CHOICE:
            if k in kws:
                return kws[k], first
        if '**' in kws or any(a.op == 'star' for a in e.args):
            return None
        return (e.args[POS[e.name]] if len(e.args) > POS[e.name] else NONE), first
    return None


def truth(v):
    if is_call(v, 'builtins.bool') and len(v.a[1]) == 1:
        return truth(v.a[1][0])
    return v


def check(prog, rep):
    rep.rule('choice-forwarded', 'every value an operation evaluates is evaluated in the convention the caller chose, or the default one when none was chosen', 60)
    rep.rule('no-raw-values', 'operations that let the caller choose a convention read values through the converting operation only', 12)
    rep.rule('extra-value', 'box edges handed to functions are in the convention asked for', 6)
    rep.rule('default-shared', 'changing the default convention, and making handlers, gives every handler involved that convention', 12)
    rep.rule('model-choice', 'a property definition asks for its inputs in the convention it was defined with', 4)
    for cname in CLASSES:
        c = prog.cls(cname)
        for n, f in sorted(c.methods.items()) if c else ():
            if f.name.startswith('_') or f.name in ('set_in_h_units', 'get_LCIterator'):
                continue
            if any(p in f.params for p in CHOICE):
                rep.saw(f)
                for v, default, use in choices():
                    forward(prog, rep, c, f, v, default, use)
    extras(prog, rep)
    shared(prog, rep)
    models(prog, rep)


def wh(f):
    return '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)


def forward(prog, rep, c, f, v, default, use):
    k = [p for p in CHOICE if p in f.params][0]
    bind = {k: v}
    if f.vararg:
        bind[f.vararg] = mk('tuple', P('name one'), P('name two'))
    if 'kwargs' in f.params:
        bind['kwargs'] = L(P('kw one'), P('kw two'))
    if f.name == 'return_property':
        return
    # with the documented defaults for everything else, and with everything else left open
    for other in (True, False):
        once(prog, rep, c, f, k, bind, v, default, use, other)


def once(prog, rep, c, f, k, bind, v, default, use, usual):
    it = Interp(prog, inline=lambda a, b: b.name not in POS and b.name != 'get_snap', depth=4, types={'snapshot': 'SnapHandler', 'lightcone': 'LCHandler'})
    get = prog.lookup(prog.cls('SimHandler'), 'get_snap')
    it.models = {('func', get.qual): lambda b: mk('obj', 'snapshot')}
    raw = P('values held in memory')
    it.preset = {(ME, 'default_in_h_units'): default, (ME, 'init_snaps'): TRUE, (ME, 'properties_loaded'): raw}
    it.host = Table()
    r = it.run(f, bind=defaults(it, f, bind) if usual else bind, selfcls=c)
    con = '%s %s=%s default=%s' % (cn(f.qual) if f.cls is c else c.name + '.' + f.name, k, v.a[0], default.a[0])
    for e in r.ev('call', 'mcall'):
        if e.kind == 'call' and e.inlined:
            continue
        q = asked(e)
        if q is None:
            continue
        s, name = q
        nm = e.callee.name if e.kind == 'call' else e.name
        if name is not None and name.op == 'const' and name.a[0] in H_FREE:
            continue
        got = {truth(x) for _, x in leaves(s)}
        if any(g not in (TRUE, FALSE, NONE) for g in got):
            if any(g.op == 'attr' and g.a[1] == 'default_in_h_units' for g in got):
                got = {NONE if g.op == 'attr' else g for g in got}
            else:
                rep.notes.append('not decided: %s reads with %s' % (con, show(s)[:80]))
                continue
        ok = all(g is use or g is NONE and v is NONE for g in got)
        rep.ob('choice-forwarded', '%s -> %s' % (con, nm), ok, e.where,
               '%s called with %s=%s by a handler whose default is %s evaluates %s with %s' % (cn(f.qual), k, v.a[0], default.a[0], nm, '/'.join(sorted(show(g) for g in got))))
    bad = None
    for e in r.events:
        for t in list(getattr(e, 'args', None) or ()) + list((getattr(e, 'kws', None) or {}).values()):
            for x in subterms(t):
                if x.op == 'sub' and x.a[0] is raw:
                    bad = e
    for x in normal(r):
        if any(y.op == 'sub' and y.a[0] is raw for y in subterms(x.value)):
            bad = bad or True
    rep.ob('no-raw-values', con, bad is None, bad.where if bad is not None and bad is not True else wh(f), '%s uses a stored value without bringing it to the convention asked for' % cn(f.qual))


def extras(prog, rep):
    c = prog.cls('SnapHandler')
    f = prog.lookup(c, '_return_extra_prop')
    bh, bn = P('stored edge'), P('physical edge')
    if f is None:
        # read where they are handed over
        for n in ('eval_stat',):
            rep.notes.append('no operation handing over extra properties found')
        return
    rep.saw(f)
    for inh in (TRUE, FALSE):
        for name, want in (('box_edge', bh if inh is TRUE else bn), ('box_edge_h', bh), ('box_edge_no_h', bn)):
            it = Interp(prog, inline=lambda a, b: True, depth=5)
            it.preset = {(ME, 'box_edge_h'): bh, (ME, 'box_edge_no_h'): bn, (ME, 'box_edge'): P('edge in the default convention'),
                         (ME, 'extra_props'): D((K('h'), P('h')), (K('box_edge'), P('edge in the default convention')), (K('box_edge_h'), bh), (K('box_edge_no_h'), bn))}
            r = it.run(f, bind=defaults(it, f, {'name': K(name), 'in_h_units': inh}), selfcls=c)
            for x in normal(r):
                got = {y for _, y in leaves(x.value)}
                if not got <= {bh, bn, P('edge in the default convention')}:
                    rep.notes.append('not decided: %s given as %s' % (name, show(x.value)[:80]))
                    continue
                rep.ob('extra-value', '%s in_h_units=%s' % (name, inh.a[0]), got == {want}, wh(f), '%s is handed over with in_h_units=%s as %s' % (name, inh.a[0], '/'.join(sorted(show(g) for g in got))))


def shared(prog, rep):
    # the default itself
    for cname in ('Handler', 'SnapHandler', 'LCHandler', 'SimHandler'):
        c = prog.cls(cname)
        f = prog.lookup(c, 'set_in_h_units')
        if f is None:
            continue
        rep.saw(f)
        for v in (TRUE, FALSE):
            for init in (TRUE, FALSE) if cname == 'SimHandler' else (FALSE,):
                it = Interp(prog, inline=lambda a, b: b.cls is None or b.cls.name != 'SnapHandler' or cname != 'SimHandler', depth=5, types={'one': 'SnapHandler', 'two': 'SnapHandler'})
                one, two = mk('obj', 'one'), mk('obj', 'two')
                it.preset = {(ME, 'init_snaps'): init, (ME, 'snap_handlers'): D((K('1'), one), (K('2'), two)), (ME, 'extra_props'): D(),
                             (ME, 'box_edge_h'): P('bh'), (ME, 'box_edge_no_h'): P('bn'), (ME, 'default_in_h_units'): P('old default')}
                r = it.run(f, bind=defaults(it, f, {'in_h_units': v}), selfcls=c)
                for x in normal(r):
                    l = x.state.heap.get((ME, 'default_in_h_units'))
                    t = x.state.store[l] if l is not None else None
                    rep.ob('default-shared', '%s.set_in_h_units %s %s' % (cname, v.a[0], 'with snapshots' if init is TRUE else ''), t is v, wh(f), 'after choosing %s the default is %s' % (v.a[0], show(t) if t is not None else 'unchanged'))
                if init is TRUE:
                    hit = {}
                    for e in r.ev('call', 'mcall'):
                        nm = e.callee.name if e.kind == 'call' else e.name
                        o = (e.binding or {}).get('self') if e.kind == 'call' else e.obj if hasattr(e, 'obj') else None
                        if nm == 'set_in_h_units' and (o in (one, two) or o is None or o.op not in ('param',)):
                            a = (e.binding or {}).get('in_h_units') if e.kind == 'call' else (list(e.args) + [e.kws.get('in_h_units')])[0]
                            hit[o] = a
                    ok = all(hit.get(o) is v for o in (one, two)) or any(o not in (one, two) for o in hit) and all(a is v for a in hit.values())
                    for o in (one, two):
                        for x in normal(r):
                            l = x.state.heap.get((o, 'default_in_h_units'))
                            if l is not None and x.state.store[l] is v and l is not None:
                                ok = ok or all((x.state.heap.get((p, 'box_edge')) is not None) for p in (one, two))
                    rep.ob('default-shared', 'SimHandler.set_in_h_units %s reaches snapshots' % v.a[0], ok, wh(f), 'snapshots already made keep the old convention')
    # handlers made by handlers
    for cname, names in (('SimHandler', ('get_snap', 'initialize_all_snaps', 'get_snap_from_z')), ('LCIterator', ('__init__',)), ('GenericLCMaker', ('get_LCIterator',))):
        c = prog.cls(cname)
        for n in names:
            f = prog.lookup(c, n)
            if f is None:
                continue
            rep.saw(f)
            for v in (TRUE, FALSE):
                it = Interp(prog, inline=lambda a, b: not b.name.startswith('__'), depth=4)
                it.preset = {(ME, 'default_in_h_units'): v, (ME, 'init_snaps'): FALSE}
                r = it.run(f, bind=defaults(it, f, {'in_h_units': v} if 'in_h_units' in f.params else {}), selfcls=c)
                for e in r.ev('new'):
                    if e.cls.name not in ('SnapHandler', 'LCHandler', 'LCIterator'):
                        continue
                    g = prog.lookup(e.cls, '__init__')
                    if '**' in e.kws or any(a.op == 'star' for a in e.args):
                        continue
                    a = e.kws.get('in_h_units')
                    if a is None:
                        ps = [p for p in g.params if p != 'self']
                        i = ps.index('in_h_units')
                        a = e.args[i] if len(e.args) > i else NONE
                    rep.ob('default-shared', '%s.%s makes %s %s' % (cname, n, e.cls.name, v.a[0]), all(truth(x) is v for _, x in leaves(a)), e.where,
                           'a %s is made with convention %s by a handler using %s' % (e.cls.name, show(a), v.a[0]))
    # handlers start with the convention they were made with
    for cname in ('SnapHandler', 'LCHandler', 'SimHandler'):
        c = prog.cls(cname)
        f = prog.lookup(c, '__init__')
        rep.saw(f)
        for v in (TRUE, FALSE):
            bind = {'in_h_units': v}
            if 'init_snaps' in f.params:
                bind['init_snaps'] = FALSE
            it = Interp(prog, inline=lambda a, b: b.cls is not None and b.cls.name in CLASSES, depth=5)
            r = it.run(f, bind=bind, selfcls=c)
            for x in normal(r):
                l = x.state.heap.get((ME, 'default_in_h_units'))
                t = x.state.store[l] if l is not None else None
                rep.ob('default-shared', '%s.__init__ %s' % (cname, v.a[0]), t is v, wh(f), 'a handler made with in_h_units=%s has default %s' % (v.a[0], show(t) if t is not None else 'unset'))


def models(prog, rep):
    for cname in ('MultiProp', 'Prop'):
        c = prog.cls(cname)
        f = prog.lookup(c, '__init__')
        rep.saw(f)
        for v in (TRUE, FALSE):
            w_ = FALSE if v is TRUE else TRUE
            it = Interp(prog, inline=lambda a, b: True, depth=4)
            one = {p: P(p) for p in f.params if p != 'self'}
            one.update(give_args_in_h_units=v, function_return_in_h_units=w_)
            r = it.run(f, bind=one, selfcls=c)
            for x in normal(r):
                for a, want in (('give_args_in_h_units', v), ('function_return_in_h_units', w_)):
                    l = x.state.heap.get((ME, a))
                    t = x.state.store[l] if l is not None else None
                    if t is not None:
                        rep.ob('model-choice', '%s(%s=%s)' % (cname, a, want.a[0]), t is want, wh(f), 'a property defined with %s=%s keeps %s' % (a, want.a[0], show(t)))
            for n in ('evaluate_all', 'evaluate'):
                g = prog.lookup(c, n)
                if g is None:
                    continue
                rep.saw(g)
                it = Interp(prog, inline=lambda a, b: b.name not in POS, depth=4)
                it.preset = {(ME, 'give_args_in_h_units'): v, (ME, 'function_return_in_h_units'): w_, (ME, 'kwargs'): L(P('kw one'), P('kw two')), (ME, 'names'): L(K('A')), (ME, 'n_props'): K(1), (ME, 'wrap'): TRUE}
                r = it.run(g, bind=defaults(it, g, {}), selfcls=c)
                for e in r.ev('call', 'mcall'):
                    if e.kind == 'call' and e.inlined:
                        continue
                    q = asked(e)
                    if q is None:
                        continue
                    got = {truth(x) for _, x in leaves(q[0])}
                    nm = e.callee.name if e.kind == 'call' else e.name
                    rep.ob('model-choice', '%s.%s give=%s -> %s' % (cname, n, v.a[0], nm), got == {v}, e.where, 'inputs of a property defined with give_args_in_h_units=%s are read with %s' % (v.a[0], '/'.join(sorted(show(g) for g in got))))
