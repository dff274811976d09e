"""Catalogue registries: every operation keeps every property in one of the consistent states."""
from common import *
from store import Table, bare, node, full
from flow import Interp

ASSUMPTIONS = [
    'property values are opaque; a value counts as made by the property when the value the property returned is part of its content, not only of its shape or type',
    'no other program changes the file while a handler is open, except where the scenario says so',
]
PATH, GROUP = K('/catalogue.hdf5'), 'G'
LISTS = ('properties_all', 'properties_saved', 'properties_generated')
DICTS = ('properties_units', 'properties_h_dependence', 'properties_loaded')


class St(object):
    """state of one property: disk / memory hold 'D' (the stored original), 'N' (made earlier) or None"""
    def __init__(self, disk=None, mem=None, gen=False, known=True, user=True):
        self.disk, self.mem, self.gen, self.known, self.user = disk, mem, gen, known, user

    @property
    def saved(self):
        return self.disk is not None and self.known

    @property
    def all(self):
        return self.saved or self.mem is not None

    @property
    def reads(self):
        return self.mem or (self.disk if self.known else None)


STATES = {
    'absent': St(),
    'stored': St('D'),
    'stored and loaded': St('D', 'D'),
    'stored, replaced in memory': St('D', 'N'),
    'generated': St(None, 'N', True),
    'generated and written': St('N', 'N', True),
    'generated, written and unloaded': St('N', None, True),
    'stored by another handler, generated here': St('D', 'N', True, known=False),
}


def val(p, k):
    return P('%s value %s' % (p, k))


def unit(p, k):
    return P('%s unit %s' % (p, k))


def hdep(p, k):
    return P('%s exponent %s' % (p, k))


def world(host, props, obj='self', path=PATH, group=GROUP, grouped=None):
    """preset attributes for an object whose properties are in the given states"""
    me = mk('param', obj) if isinstance(obj, str) else obj
    tree = {group: {p: (val(p, s.disk), dict({'units': unit(p, s.disk), 'h dependence': hdep(p, s.disk)}, **({'userdefined': TRUE} if s.user else {})))
                    for p, s in props.items() if s.disk}}
    if grouped is not None:
        grouped.update(tree)
        pre = {}
    else:
        pre = host.preset(path, tree)
    at = {
        'path': path, 'groupname': K(group), 'objectname': K('Catalogue'), 'h': H,
        'properties_all': L(*[K(p) for p, s in props.items() if s.all]),
        'properties_saved': L(*[K(p) for p, s in props.items() if s.saved]),
        'properties_generated': L(*[K(p) for p, s in props.items() if s.gen]),
        'properties_units': D(*[(K(p), unit(p, s.reads)) for p, s in props.items() if s.all]),
        'properties_h_dependence': D(*[(K(p), hdep(p, s.reads)) for p, s in props.items() if s.all]),
        'properties_loaded': D(*[(K(p), val(p, s.mem)) for p, s in props.items() if s.mem]),
    }
    pre.update({(me, k): v for k, v in at.items()})
    return pre


def look(x, host, obj='self', path=PATH, group=GROUP):
    """registries and file contents in an exit state, None when not literal"""
    me = mk('param', obj) if isinstance(obj, str) else obj

    def get(o, a):
        l = x.state.heap.get((o, a))
        return x.state.store[l] if l is not None else None
    out = {'shared': None}
    seen = {}
    for a in LISTS + DICTS:
        l = x.state.heap.get((me, a))
        if l in seen:
            out['shared'] = '%s and %s are the same object' % (seen[l], a)
        seen[l] = a
    for a in LISTS:
        t = get(me, a)
        if t is None or t.op not in ('list', 'tuple') or any(e.op != 'const' for e in t.a):
            return None
        out[a] = [e.a[0] for e in t.a]
    for a in DICTS:
        t = get(me, a)
        if t is None or t.op != 'dict' or any(k.op != 'const' for k, _ in t.a[0]):
            return None
        out[a] = {k.a[0]: v for k, v in t.a[0]}
    k = get(bare(node('group', path, (group,), None)), 'kids')
    if k is None or k.op != 'dict':
        return None
    out['disk'] = {}
    for n, d in k.a[0]:
        at = get(bare(node('attrs', path, (group, n.a[0]), None)), 'kids')
        if at is None or at.op != 'dict':
            return None
        out['disk'][n.a[0]] = (get(bare(d), 'value'), {y.a[0]: v for y, v in at.a[0]})
    return out


def tag(p, t):
    """which version of property p a value is"""
    if t is None:
        return None
    s = content(t)
    for k in 'DNM':
        for f in (val, unit, hdep):
            if f(p, k) in s:
                return k
    return '?'


def consistent(p, o):
    """what is wrong with the bookkeeping of property p, None when nothing is"""
    if o.get('shared'):
        return o['shared']
    for a in LISTS:
        if o[a].count(p) > 1:
            return '%s lists it %d times' % (a, o[a].count(p))
    saved, disk, mem = p in o['properties_saved'], o['disk'].get(p), o['properties_loaded'].get(p)
    listed = p in o['properties_all']
    if saved and disk is None:
        return 'it is listed as saved but is not in the file'
    if disk is not None and not saved:
        return 'it is in the file but not listed as saved'
    if listed and not saved and mem is None:
        return 'it is listed as available but is neither stored nor loaded'
    if not listed and (saved or mem is not None):
        return 'it is %s but not listed as available' % ('stored' if saved else 'loaded')
    if not listed and p in o['properties_generated']:
        return 'it is listed as generated but not as available'
    if disk is not None:
        k = tag(p, disk[0])
        for a in ('units', 'h dependence'):
            if tag(p, disk[1].get(a)) != k:
                return 'the %s attribute stored with it %s' % (a, 'is missing' if a not in disk[1] else 'is that of other values')
    for a in ('properties_units', 'properties_h_dependence'):
        if listed and p not in o[a]:
            return '%s has no entry for it' % a
        if not listed and p in o[a]:
            return '%s still has an entry for it' % a
        if listed:
            k = tag(p, mem if mem is not None else disk[0])
            if tag(p, o[a][p]) != k:
                return '%s has the entry of other values than those that are read' % a
    return None


def short(p, o):
    return ', '.join(['%s' % a[11:] for a in LISTS if p in o[a]] + ['%s=%s' % (a[11:], tag(p, o[a][p])) for a in DICTS if p in o[a]] + (['file=%s' % tag(p, o['disk'][p][0])] if p in o['disk'] else [])) or 'absent'


def snapshot(p, o):
    return (tuple(o[a].count(p) for a in LISTS), tuple(o[a].get(p) for a in DICTS), o['disk'].get(p, (None,))[0], tuple(sorted(o['disk'].get(p, (0, {}))[1].items(), key=lambda kv: kv[0])))


def errors(r):
    """lookups that fail with a KeyError / ValueError at run time"""
    out = []
    for e in r.events:
        if getattr(e, 'tries', None):
            continue
        if e.kind == 'getsub' and e.base.op == 'dict' and e.idx.op == 'const' and all(k.op == 'const' for k, _ in e.base.a[0]) and not any(k is e.idx for k, _ in e.base.a[0]):
            out.append((e.where, '%r is looked up but not there' % (e.idx.a[0],)))
        elif e.kind == 'mutate' and e.name in ('pop', 'remove') and len(e.args) == 1 and e.args[0].op == 'const':
            if e.base.op == 'dict' and all(k.op == 'const' for k, _ in e.base.a[0]) and not any(k is e.args[0] for k, _ in e.base.a[0]) or \
                    e.base.op == 'list' and e.name == 'remove' and all(k.op == 'const' for k in e.base.a) and e.args[0] not in e.base.a:
                out.append((e.where, '%r is removed but not there' % (e.args[0].a[0],)))
    return out


BY = {'mass': St('D', user=False), 'Q': St('D', 'D'), 'R': St(None, 'N', True), 'S': St('D', 'N')}


def run(prog, f, bind, props, selfcls, extra=None):
    host = Table()
    pre = world(host, props)
    pre.update(extra or {})
    it = Interp(prog, inline=lambda a, b: True, depth=6)
    it.host = host
    it.preset = pre
    pr = P('property')
    it.models = {(pr, 'evaluate_all'): lambda a, k: L(val('P', 'M'), val('T', 'M')) if extra and extra.get((pr, 'n_props')) is K(2) else L(val('P', 'M')),
                 (None, 'flatten'): None}
    it.models = {k: v for k, v in it.models.items() if v is not None}
    r = it.run(f, bind=defaults(it, f, bind), selfcls=selfcls)
    return r, host


def propattrs(name='P', two=False, second='T'):
    pr = P('property')
    return {(pr, 'names'): L(K(name), K(second)) if two else L(K(name)), (pr, 'n_props'): K(2 if two else 1),
            (pr, 'units'): D((K(name), unit('P', 'M')), (K(second), unit('T', 'M'))), (pr, 'h_dependence'): D((K(name), hdep('P', 'M')), (K(second), hdep('T', 'M')))}


def tup(*a):
    return mk('tuple', *[K(x) for x in a])


def cases():
    """(operation, arguments, extra preset, expected(state) -> 'refused' or function of the outcome)"""
    out = []
    out.append(('load_property', 'load', dict(property_names=tup('P')), None, lambda s: 'refuse' if not s.saved else ('mem', 'disk', lambda s_: s_.disk)))
    out.append(('load_property', 'load with another', dict(property_names=tup('Q', 'P')), None, lambda s: 'refuse' if not s.saved else ('mem', 'disk', lambda s_: s_.disk)))
    out.append(('unload_property', 'unload with another', dict(property_names=tup('Q', 'P')), None, lambda s: ('mem', None, lambda s_: None)))
    out.append(('unload_property', 'unload', dict(property_names=tup('P')), None, lambda s: ('mem', None, lambda s_: None)))
    for ow in (False, True):
        out.append(('write_property', 'write overwrite=%s' % ow, dict(property_names=tup('P'), overwrite=K(ow)), None,
                    lambda s, ow=ow: 'refuse' if s.mem is None or s.disk is not None and not ow else ('disk', 'mem', lambda s_: s_.mem)))
        out.append(('write_property', 'write with another overwrite=%s' % ow, dict(property_names=tup('R', 'P'), overwrite=K(ow)), None,
                    lambda s, ow=ow: 'refuse' if s.mem is None or s.disk is not None and not ow else ('disk', 'mem', lambda s_: s_.mem)))
        out.append(('write_property', 'write before another overwrite=%s' % ow, dict(property_names=tup('P', 'R'), overwrite=K(ow)), None,
                    lambda s, ow=ow: 'refuse' if s.mem is None or s.disk is not None and not ow else ('disk', 'mem', lambda s_: s_.mem)))
        out.append(('make_property', 'make two renamed overwrite=%s' % ow, dict(property=P('property'), overwrite=K(ow), write_to_disk=FALSE, rename=L(K('P'), K('T'))), propattrs('X', True, 'Y'),
                    lambda s, ow=ow: 'refuse' if s.all and not ow else ('mem', 'new', lambda s_: 'M')))
        for ren in (False, True):
            at = propattrs('X' if ren else 'P')
            b = dict(property=P('property'), overwrite=K(ow), write_to_disk=FALSE)
            if ren:
                b['rename'] = K('P')
            out.append(('make_property', 'make %soverwrite=%s' % ('renamed ' if ren else '', ow), b, at,
                        lambda s, ow=ow: 'refuse' if s.all and not ow else ('mem', 'new', lambda s_: 'M')))
        at2 = propattrs('P', True)
        out.append(('make_property', 'make two overwrite=%s' % ow, dict(property=P('property'), overwrite=K(ow), write_to_disk=FALSE), at2,
                    lambda s, ow=ow: 'refuse' if s.all and not ow else ('mem', 'new', lambda s_: 'M')))
        for owd in (False, True):
            for un in (False, True):
                b = dict(property=P('property'), overwrite=K(ow), write_to_disk=TRUE, overwrite_to_disk=K(owd), unload_to_disk=K(un), use_all_inds=TRUE)
                out.append(('make_property', 'make renamed overwrite=%s write overwrite=%s unload=%s' % (ow, owd, un), dict(b, rename=K('P')), propattrs('X'),
                            lambda s, ow=ow, owd=owd, un=un: 'refuse' if s.all and not ow else 'refuse write' if s.disk is not None and not owd else ('disk', 'new', lambda s_: 'M')))
                out.append(('make_property', 'make overwrite=%s write overwrite=%s unload=%s' % (ow, owd, un), b, propattrs('P'),
                            lambda s, ow=ow, owd=owd, un=un: 'refuse' if s.all and not ow else 'refuse write' if s.disk is not None and not owd else ('disk', 'new', lambda s_: 'M')))
    out.append(('delete_property', 'delete with another', dict(property_names=tup('Q', 'P')), None, lambda s: None if not s.known else 'refuse' if not s.saved else ('gone', None, lambda s_: None)))
    out.append(('delete_property', 'delete', dict(property_names=tup('P')), None, lambda s: 'refuse' if not s.saved else ('gone', None, lambda s_: None)))
    return out


def check(prog, rep):
    rep.rule('bookkeeping', 'from every consistent state of a property, every operation leads to a consistent state: listed exactly when it can be read, with the unit and exponent of what is read, '
                            'saved exactly when it is in the file', 60)
    rep.rule('done', 'the operation does what it is for: loading reads the file, making registers the new values, writing stores what is in memory, deleting removes everything', 40)
    rep.rule('refused', 'nothing is replaced in memory or in the file unless overwriting was asked for, and a refused operation leaves the property as it was', 20)
    rep.rule('others-kept', 'the records of other properties do not change', 60)
    rep.rule('listing', 'the listing operations answer from the registries, and reading gives the registered values', 15)
    rep.rule('opened', 'opening a catalogue registers exactly what it stores', 4)
    rep.rule('all-snapshots', 'making or deleting a property of a simulation keeps every snapshot consistent', 6)
    undecided = []
    base = prog.cls('Handler')
    for op, label, bind, extra, want in cases():
        f = prog.lookup(base, op)
        rep.saw(f)
        w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
        for name, s in STATES.items():
            if want(s) is None:         # another handler's property comes to be known on the way
                continue
            props = dict(BY, P=s)
            r, host = run(prog, f, dict(bind), props, base, extra)
            con = '%s: %s' % (label, name)
            one(rep, r, host, props, s, want(s), con, w, undecided)
    listing(prog, rep, undecided)
    opened(prog, rep, undecided)
    sims(prog, rep, undecided)
    for u in undecided[:20]:
        rep.notes.append('not decided: ' + u)


def one(rep, r, host, props, s, exp, con, w, undecided):
    ok = normal(r)
    stale = not s.known
    if exp in ('refuse', 'refuse write'):
        # completing is only wrong when it is certain: the registries are literal
        if ok and any(look(x, host) is None for x in ok):
            undecided.append(con)
            return
        rep.ob('refused', con, not ok, w, 'the operation completes although it must be refused')
        for x in [x for x in r.exits if x.kind == 'raise']:
            o = look(x, host)
            if o is None:
                undecided.append(con)
                continue
            start = expected_start('P', s)
            got = snapshot('P', o)
            if exp == 'refuse write':
                rep.ob('refused', con + ' file', got[2:] == start[2:], w, 'after being refused the file holds version %s' % tag('P', got[2]))
                if not stale:
                    b = consistent('P', o)
                    rep.ob('bookkeeping', con + ' refused', b is None, w, 'after a refused write: %s' % b)
            else:
                rep.ob('refused', con + ' unchanged', got == start, w, 'after being refused the property is: %s' % short('P', o))
        return
    err = errors(r)
    rep.ob('done', con + ' completes', bool(ok) and not err, err[0][0] if err else w, err[0][1] if err else 'the operation fails')
    for x in ok:
        o = look(x, host)
        if o is None:
            undecided.append(con)
            continue
        if not stale:
            b = consistent('P', o)
            rep.ob('bookkeeping', con, b is None, w, 'afterwards %s (%s)' % (b, short('P', o)))
        where, _, fn = exp
        if where == 'mem':
            got, k = tag('P', o['properties_loaded'].get('P')), fn(s)
            rep.ob('done', con, got == k, w, 'afterwards memory holds %s, not %s' % (word(got), word(k)))
            rep.ob('done', con + ' file kept', tag('P', o['disk'].get('P', (None,))[0]) == s.disk, w, 'the file is changed by an operation in memory')
        elif where == 'disk':
            got, k = tag('P', o['disk'].get('P', (None,))[0]), fn(s)
            rep.ob('done', con, got == k, w, 'afterwards the file holds %s, not %s' % (word(got), word(k)))
        else:
            rep.ob('done', con, snapshot('P', o) == snapshot('P', EMPTY), w, 'afterwards the property is still: %s' % short('P', o))
        for p in dict.fromkeys(list(BY) + o['properties_all'] + sorted(o['properties_loaded']) + sorted(o['disk'])):
            if p in ('Q', 'R') and 'another' in con or p not in BY:
                if p != 'P' or not stale:
                    b = consistent(p, o)
                    rep.ob('bookkeeping', '%s: %s' % (con, p), b is None, w, 'afterwards, of %s, %s (%s)' % (p, b, short(p, o)))
                continue
            a, c = snapshot(p, o), expected_start(p, BY[p])
            rep.ob('others-kept', '%s: %s' % (con, p), a == c, w, 'the records of another property (%s) change to: %s' % (p, short(p, o)))


EMPTY = dict({a: [] for a in LISTS}, disk={}, **{a: {} for a in DICTS})


def word(k):
    return {None: 'nothing', 'D': 'the stored original', 'N': 'the values made earlier', 'M': 'the new values', '?': 'other values'}[k]


def expected_start(p, s):
    o = {'properties_all': [p] if s.all else [], 'properties_saved': [p] if s.saved else [], 'properties_generated': [p] if s.gen else [],
         'properties_units': {p: unit(p, s.reads)} if s.all else {}, 'properties_h_dependence': {p: hdep(p, s.reads)} if s.all else {}, 'properties_loaded': {p: val(p, s.mem)} if s.mem else {},
         'disk': {p: (val(p, s.disk), dict({'units': unit(p, s.disk), 'h dependence': hdep(p, s.disk)}, **({'userdefined': TRUE} if s.user else {})))} if s.disk else {}}
    return snapshot(p, o)


def listing(prog, rep, undecided):
    base = prog.cls('Handler')
    for name, s in STATES.items():
        if not s.known:
            continue
        props = dict(BY, P=s)
        for op, bind, want in (('has_property', dict(property_name=K('P')), K(s.all)), ('has_loaded', dict(property_name=K('P')), K(s.mem is not None))):
            f = prog.lookup(base, op)
            if f is None:
                continue
            r, host = run(prog, f, bind, props, base)
            w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
            for x in normal(r):
                if x.value.op == 'const':
                    rep.ob('listing', '%s: %s' % (op, name), x.value is want or bool(x.value.a[0]) == want.a[0], w, '%s answers %s' % (op, show(x.value)))
        f = prog.lookup(base, 'extract_keys')
        for k, want in (('any', [p for p in props if props[p].all]), ('loaded', [p for p in props if props[p].mem]), ('saved', [p for p in props if props[p].saved]), ('generated', [p for p in props if props[p].gen])):
            r, host = run(prog, f, dict(set=K(k)), props, base)
            w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
            for x in normal(r):
                if x.value.op in ('list', 'tuple') and all(e.op == 'const' for e in x.value.a):
                    got = sorted(e.a[0] for e in x.value.a)
                    rep.ob('listing', 'extract_keys(%s): %s' % (k, name), got == sorted(want), w, 'extract_keys(%r) gives %s, not %s' % (k, got, sorted(want)))
        f = prog.lookup(base, 'return_property')
        w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
        r, host = run(prog, f, dict(property_name=K('P'), in_h_units=TRUE), props, base)
        ok = normal(r)
        if s.all:
            err = errors(r) + [(w, m) for m, c in host.faults]
            rep.ob('listing', 'return_property: %s' % name, bool(ok) and not err, err[0][0] if err else w, 'an available property cannot be read' + (': ' + err[0][1] if err else ''))
            for x in ok:
                rep.ob('listing', 'return_property version: %s' % name, all(tag('P', t) == s.reads for _, t in leaves(x.value)), w, 'reading gives %s' % word(tag('P', x.value)))
        else:
            rep.ob('listing', 'return_property: %s' % name, not ok, w, 'a property that is not available is read')


def opened(prog, rep, undecided):
    base = prog.cls('Handler')
    f = prog.lookup(base, '__init__')
    props = {'mass': St('D', user=False), 'P': St('D'), 'Q': St('N')}
    host = Table()
    pre = world(host, props)
    me = P('self')
    pre = {k: v for k, v in pre.items() if k[0] is not me}
    b = bare(node('attrs', PATH, (), None))
    pre[(b, 'kids')] = D((K('cosmo_h'), H))
    g = bare(node('group', PATH, (GROUP,), None))
    cuts = node('data', PATH, (GROUP, 'mass_cuts'), None)
    pre[(g, 'kids')] = D((K('mass_cuts'), cuts), *pre[(g, 'kids')].a[0])
    pre[(cuts, 'value')] = P('cuts')
    pre[(bare(node('attrs', PATH, (GROUP, 'mass_cuts'), None)), 'kids')] = D()
    it = Interp(prog, inline=lambda a, b: True, depth=6)
    it.host, it.preset = host, pre
    r = it.run(f, bind=dict(path=PATH, groupname=K(GROUP), objectname=K('x'), in_h_units=FALSE), selfcls=base)
    w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
    err = errors(r) + [(w, m) for m, c in host.faults]
    rep.ob('opened', 'completes', bool(normal(r)) and not err, err[0][0] if err else w, err[0][1] if err else 'a catalogue cannot be opened')
    for x in normal(r):
        o = look(x, host)
        if o is None:
            undecided.append('opening')
            continue
        o['disk'].pop('mass_cuts', None)
        for p, s in props.items():
            b = consistent(p, o)
            rep.ob('opened', p, b is None and p in o['properties_all'] and p not in o['properties_generated'], w, 'property %s of the file: %s' % (p, b or short(p, o)))
        rep.ob('opened', 'mass_cuts', not any('mass_cuts' in o[a] for a in LISTS + DICTS), w, 'the table of mass cuts is listed as a property')


def sims(prog, rep, undecided):
    c = prog.cls('SimHandler')
    snap = prog.cls('SnapHandler')
    S = [mk('obj', 'snap0'), mk('obj', 'snap1')]
    G = ['Snapshot 0', 'Snapshot 1']
    get = prog.lookup(c, 'get_snap')
    cols = {'index': [K(0), K(1)], 'redshift': [P('z0'), P('z1')]}

    def go(f, bind, props, extra, init=True):
        host = Table()
        tree, pre = {}, {}
        for o, g in zip(S, G):
            pre.update(world(host, props, o, PATH, g, tree))
            for a, v in dict(inds_all=P('all'), inds_active=P('active'), nhalos_all=P('n')).items():
                pre[(o, a)] = v
        pre.update(host.preset(PATH, tree))
        pre.update(extra or {})
        me = P('self')
        pre.update({(me, 'snap_meta'): host.table('meta', cols), (me, 'init_snaps'): K(init), (me, 'snap_handlers'): D((K('0'), S[0]), (K('1'), S[1])), (me, 'path'): P('dir')})
        it = Interp(prog, inline=lambda a, b: True, depth=6, types={'snap0': 'SnapHandler', 'snap1': 'SnapHandler'})
        it.host, it.preset = host, pre
        pr = P('property')
        it.models = {(pr, 'evaluate_all'): lambda a, k: L(val('P', 'M')),
                     ('func', get.qual): lambda b: S[b['snap'].a[0]] if b.get('snap') is not None and b['snap'].op == 'const' and b['snap'].a[0] in (0, 1) else None}
        return it.run(f, bind=defaults(it, f, bind), selfcls=c), host
    mp, dp = prog.lookup(c, 'make_property'), prog.lookup(c, 'delete_property')
    rep.saw(mp)
    rep.saw(dp)
    states = {'absent': St(), 'stored': St('D'), 'stored by the installation': St('D', user=False), 'generated': St(None, 'N', True), 'stored, replaced in memory': St('D', 'N'),
              'installed, replaced in memory': St('D', 'N', user=False)}
    for name, s in states.items():
        props = dict(BY, P=s)
        todo = []
        for ow in (False, True):
            for wr in (False, True):
                ref = s.all and not ow or wr and s.disk is not None and not s.user
                for ren in (False, True):
                    b = dict(property=P('property'), overwrite=K(ow), write=K(wr), use_all_inds=TRUE)
                    if ren:
                        b['rename'] = K('P')
                    todo.append((mp, 'make %soverwrite=%s write=%s' % ('renamed ' if ren else '', ow, wr), b, propattrs('X' if ren else 'P'), ref, 'M' if wr else s.disk, None if wr else 'M'))
        todo.append((dp, 'delete', dict(property_names=tup('P')), None, s.disk is None or not s.user, None, None))
        for f, label, bind, extra, ref, disk, mem in todo:
            w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
            r, host = go(f, bind, props, extra)
            con = 'simulation %s: %s' % (label, name)
            ok = normal(r)
            views = [[look(x, host, o, PATH, g) for o, g in zip(S, G)] for x in (ok or r.exits)]
            if any(o is None for v in views for o in v):
                undecided.append(con)
                continue
            if ref:
                rep.ob('refused', con, not ok, w, 'the operation completes although it must be refused')
                for v in views:
                    rep.ob('refused', con + ' unchanged', all(snapshot('P', o) == expected_start('P', s) for o in v), w, 'after being refused the property is: %s' % '; '.join(short('P', o) for o in v))
                continue
            err = errors(r) + [(w, m) for m, _ in host.faults]
            rep.ob('all-snapshots', con + ' completes', bool(ok) and not err, err[0][0] if err else w, err[0][1] if err else 'the operation fails')
            for v in views:
                for i, o in enumerate(v):
                    b = consistent('P', o)
                    rep.ob('all-snapshots', '%s snapshot %d' % (con, i), b is None, w, 'afterwards %s (%s)' % (b, short('P', o)))
                    rep.ob('all-snapshots', '%s snapshot %d values' % (con, i), tag('P', o['disk'].get('P', (None,))[0]) == disk and (mem is None or tag('P', o['properties_loaded'].get('P')) == mem), w,
                           'afterwards the property is: %s' % short('P', o))
                    for p in BY:
                        rep.ob('others-kept', '%s snapshot %d %s' % (con, i, p), snapshot(p, o) == expected_start(p, BY[p]), w, 'the records of another property (%s) change to: %s' % (p, short(p, o)))
    # without snapshots in memory a property that is not written would be lost
    r, host = go(mp, dict(property=P('property'), overwrite=FALSE, write=FALSE), dict(BY, P=St()), propattrs('P'), init=False)
    rep.ob('refused', 'simulation make without snapshots or write', not normal(r), '%s:%d %s' % (mp.module.path, mp.node.lineno, mp.qual), 'a property is made and then forgotten')
