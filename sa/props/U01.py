"""Declared units and little-h exponents agree with each other and with the conversion applied to the raw values."""
import re
from common import *
from sources import sources, fields, dictval, classes, TABLES
from units import parse
from flow import Interp
from terms import poly

ASSUMPTIONS = [
    'units of the raw catalogues (table RAW) are those of the Illustris/TNG, UniverseMachine and Uchuu data releases, as quoted in the source comments',
    'text units "None", "mag", "?" and angles count as dimensionless',
]
_ILL = {'SubhaloPos': 'ckpc/h', 'SubhaloHalfmassRad': 'ckpc/h', 'SubhaloHalfmassRadType': 'ckpc/h', 'SubhaloCM': 'ckpc/h', 'SubhaloVmaxRad': 'ckpc/h',
        'SubhaloStellarPhotometricsRad': 'ckpc/h', 'SubhaloVel': 'km/s', 'SubhaloVelDisp': 'km/s', 'SubhaloVmax': 'km/s', 'SubhaloSpin': '(kpc/h) (km/s)',
        'SubhaloBHMdot': '1e10 (Msun/h) / (0.978 Gyr/h)', 'SubhaloFlag': 'none', 'SubhaloStellarPhotometrics': 'mag',
        'SubhaloSFR': 'Msun/yr', 'SubhaloSFRinHalfRad': 'Msun/yr', 'SubhaloSFRinMaxRad': 'Msun/yr', 'SubhaloSFRinRad': 'Msun/yr'}
for _k in ('SubhaloMass', 'SubhaloMassInHalfRad', 'SubhaloMassInHalfRadType', 'SubhaloMassInMaxRad', 'SubhaloMassInMaxRadType', 'SubhaloMassInRad',
           'SubhaloMassInRadType', 'SubhaloMassType', 'SubhaloBHMass', 'SubhaloWindMass', 'SubhaloStellarPhotometricsMassInRad'):
    _ILL[_k] = '1e10 Msun/h'
for _k in ('Gas', 'Star'):
    for _s in ('', 'HalfRad', 'MaxRad', 'Sfr', 'SfrWeighted'):
        _ILL['Subhalo%sMetallicity%s' % (_k, _s)] = 'None'
        _ILL['Subhalo%sMetalFractions%s' % (_k, _s)] = 'None'
_UM = {'x': 'Mpc/h', 'y': 'Mpc/h', 'z': 'Mpc/h', 'vx': 'km/s', 'vy': 'km/s', 'vz': 'km/s', 'id': 'None', 'descid': 'None', 'upid': 'None', 'v': 'km/s', 'vmp': 'km/s',
       'r': 'kpc/h', 'rank1': 'None', 'sm': 'Msun', 'icl': 'Msun', 'sfr': 'Msun/yr', 'obs_sm': 'Msun', 'obs_sfr': 'Msun/yr', 'obs_uv': 'mag', 'a_uv': 'mag',
       'pos': ['Mpc/h'] * 3 + ['km/s'] * 3, 'm': 'Msun/h', 'mp': 'Msun/h', 'smhm': 'None'}
_UC = {'x': 'Mpc/h', 'y': 'Mpc/h', 'z': 'Mpc/h', 'vx': 'km/s', 'vy': 'km/s', 'vz': 'km/s', 'Mvir': 'Msun/h', 'Mpeak': 'Msun/h', 'id': 'None', 'desc_id': 'None',
       'upid': 'None', 'vmax': 'km/s', 'Vmax_Mpeak': 'km/s', 'sm': 'Msun', 'icl': 'Msun', 'sfr': 'Msun/yr', 'obs_sm': 'Msun', 'obs_sfr': 'Msun/yr', 'obs_uv': 'mag', 'A_UV': 'mag'}


def raw_units(sim):
    if sim == 'UniverseMachine-uchuu':
        return _UC
    if sim == 'UniverseMachine-BolshoiPlanck':
        return dict(_UM, m='Msun', mp='Msun')      # the text files hold masses in Msun
    if sim.startswith('UniverseMachine') or sim == '_testbox':
        return _UM
    return _ILL


def factor(src, t):
    """(coefficient, power of h) a conversion function multiplies its first argument by, None if not a simple scaling"""
    x, h = mk('param', 'raw values'), mk('param', 'little h')
    v = apply(src.result, src.exit, t, [x, h])
    if v is None:
        return None
    p = poly(v)
    if len(p) != 1:
        return None
    (mono, c), = p.items()
    d = {}
    for a, e in mono:
        if a not in (x, h):
            return None
        d[a] = e
    if d.get(x) != 1:
        return None
    return c, d.get(h, 0)


def check(prog, rep):
    rep.rule('unit-has-h-power', 'the unit text of a field or property contains the power of h declared for it', 60)
    rep.rule('converted-to-declared', 'raw unit times the conversion applied by the loader is the declared unit', 50)
    rep.rule('property-units', 'every property definition declares a unit whose power of h is its h exponent', 10)
    rep.rule('attributes-paired', 'unit and h exponent stored with a column come from the same declaration, for that column', 10)
    rep.rule('read-back', 'stored units and h exponents are read back into their own tables', 2)
    for sim, srcs in sources(prog):
        raw = raw_units(sim)
        for s in srcs:
            rep.saw(s.func)
            where = '%s:%d %s' % (s.func.module.path, s.func.node.lineno, s.func.qual)
            tr = dictval(s.get('transform_keys'))
            for tb, key, subs in fields(s):
                if subs is None:
                    continue
                for i, (name, dt, unit, h) in enumerate(subs):
                    con = '%s %s.%s' % (s.cls.name, key, name)
                    u = parse(unit)
                    if u is None:
                        continue
                    rep.ob('unit-has-h-power', con, u.h == h, where, '%s (%s): unit %r contains h^%d but the declared h exponent is %s' % (name, sim, unit, u.h, h))
                    ru = raw.get(key)
                    if isinstance(ru, list):
                        ru = ru[i] if i < len(ru) else None
                    ru = parse(ru) if ru else None
                    if ru is None or tr is None:
                        continue
                    f = factor(s, tr[key]) if key in tr else (1, 0)
                    if f is None:
                        rep.notes.append('conversion of %s is not a simple scaling; not decided' % con)
                        continue
                    # x_declared = x_raw * raw/declared
                    need = ru.mul(u, -1)
                    if need.d:
                        rep.ob('converted-to-declared', con, False, where, '%s (%s): raw unit of %s is not of the same kind as %r' % (name, sim, key, unit))
                        continue
                    ok = abs(f[0] / need.c - 1) < 1e-6 and f[1] == need.h
                    rep.ob('converted-to-declared', con, ok, where, '%s (%s): raw values must be multiplied by %.6g h^%d to be in %r, the loader multiplies by %.6g h^%d' % (
                        name, sim, need.c, need.h, unit, f[0], f[1]))
    properties(prog, rep)
    attributes(prog, rep)


def consts(t):
    if t is None:
        return None
    if t.op == 'const':
        return [t.a[0]]
    if t.op in ('list', 'tuple') and all(x.op == 'const' for x in t.a):
        return [x.a[0] for x in t.a]
    return None


def prop_calls(prog):
    """(module or function, event) for every construction of a property definition"""
    out = []
    it = None
    for mn in sorted(prog.modules):
        m = prog.modules[mn]
        it = Interp(prog, inline=lambda a, b: False)
        it.run_module(m)
        out += [(m, e) for e in it.events if e.kind == 'call' and e.callee.cls is not None and e.callee.name == '__init__' and not e.stack]
    for r in all_results(prog):
        out += [(r.func.module, e) for e in r.events if e.kind == 'call' and e.callee.cls is not None and e.callee.name == '__init__' and not e.stack]
    fam = {c.qual for c in prog.subclasses(prog.cls('MultiProp'))} | {prog.cls('MultiProp').qual}
    return [(m, e) for m, e in out if e.callee.cls.qual in fam]


def properties(prog, rep):
    for m, e in prop_calls(prog):
        b = e.binding or {}
        us, hs = consts(b.get('units')), consts(b.get('h_dependence'))
        nm = consts(b.get('prop_name') or b.get('prop_names'))
        if us is None or hs is None or nm is None:
            continue
        con = '%s %s' % (m.name.split('.')[-1], '/'.join(str(x) for x in nm[:2]))
        n = max(len(us), len(hs))
        for i in range(n):
            u = parse(us[i if len(us) > 1 else 0]) if (len(us) == 1 or i < len(us)) else None
            h = hs[i if len(hs) > 1 else 0] if (len(hs) == 1 or i < len(hs)) else None
            if u is None or h is None:
                continue
            rep.ob('property-units', con, u.h == h, '%s:%d' % (m.path, e.line), 'unit %r contains h^%d but h_dependence is %s' % (us[i if len(us) > 1 else 0], u.h, h))


UNIT, HDEP = 'units', 'h dependence'


def paired(u, h, it, depth=0):
    """True / False / None: the two values belong to one declaration"""
    if depth > 8:
        return None
    if u.op == 'phi' and h.op == 'phi' and u.a[0] is h.a[0]:
        a, b = paired(u.a[1], h.a[1], it, depth + 1), paired(u.a[2], h.a[2], it, depth + 1)
        return False if False in (a, b) else a and b
    if u.op == 'const' and h.op == 'const':
        p = parse(u.a[0])
        return None if p is None else p.h == h.a[0]
    if (u.op == 'const') != (h.op == 'const'):
        return False if table(u) or table(h) else None
    tu, th = table(u), table(h)
    if tu and th:
        if tu[0] != 'u' or th[0] != 'h':
            return False
        return tu[1] is th[1] and tu[2] is th[2]
    if u.op == 'sub' and h.op == 'sub' and const(u.a[1]) == 2 and const(h.a[1]) == 3:
        return u.a[0] is h.a[0]
    if u.op == 'sub' and h.op == 'sub' and u.a[0] is h.a[0]:
        return False
    return None


def table(t):
    """('u'|'h', holder, key) for X.key_units[k] / X.properties_h_dependence[k]"""
    if t.op == 'sub' and t.a[0].op == 'attr':
        n = t.a[0].a[1]
        if 'unit' in n:
            return 'u', t.a[0].a[0], t.a[1]
        if 'h_dep' in n:
            return 'h', t.a[0].a[0], t.a[1]
    return None


def column(t):
    """(group storage, column key) of an .attrs store base"""
    t = strip(t)
    if t.op == 'attr' and t.a[1] == 'attrs':
        d = strip(t.a[0])
        alts = [strip(x) for _, x in leaves(d)]
        ks = {x.a[1] for x in alts if x.op == 'sub'}
        if len(ks) == 1 and all(x.op == 'sub' for x in alts):
            return list(ks)[0]
    return None


def equal_guards(g, term):
    """constants the path fixes `term` to"""
    out = []
    for c, pol in g:
        if pol and c.op == 'cmp' and c.a[0] == '==' and term in (c.a[1], c.a[2]):
            o = c.a[2] if c.a[1] is term else c.a[1]
            if o.op == 'const':
                out.append(o)
    return out


def attributes(prog, rep):
    for r in all_results(prog):
        f = r.func
        sets = [e for e in r.events if e.kind == 'setsub' and not e.stack and const(e.idx) in (UNIT, HDEP)]
        if sets:
            rep.saw(f)
        groups = {}
        for e in sets:
            k = column(e.base)
            if k is not None:
                groups.setdefault((k, tuple(sorted((c.uid, p) for c, p in e.guards))), {}).setdefault(const(e.idx), []).append(e)
        for (k, g), d in groups.items():
            con = '%s attrs of %s' % (cn(f.qual), const(k) or show(k, 3)[:40])
            w = list(d.values())[0][0]
            if UNIT not in d or HDEP not in d:
                rep.ob('attributes-paired', con, False, w.where, 'column gets %s but not %s' % (tuple(d)[0], HDEP if UNIT in d else UNIT))
                continue
            for eu in d[UNIT]:
                res = [paired(eu.value, eh.value, r) for eh in d[HDEP]]
                if any(x is True for x in res):
                    ok = True
                elif all(x is None for x in res):
                    continue
                else:
                    ok = False
                rep.ob('attributes-paired', con, ok, eu.where, 'unit %s and h exponent %s are not declared together' % (show(eu.value, 3), show(d[HDEP][0].value, 3)))
                t = table(eu.value)
                if t and t[2] is not k:
                    fix = equal_guards(eu.guards, k)
                    ok = bool(fix) and const(fix[0]) == 'masscheck' and const(t[2]) == 'mass' or fix and t[2] is fix[0]
                    rep.ob('attributes-paired', con + ' key', ok, eu.where, 'column %s is given the unit of %s' % (show(k, 3), show(t[2], 3)))
        # reading back
        for e in r.exits:
            if e.kind == 'raise' or f.name != '__init__':
                continue
            for (o, a), loc in sorted(e.state.heap.items(), key=lambda x: str(x[0][1])):
                t = e.state.store[loc] if isinstance(loc, int) else loc
                if not hasattr(t, 'op') or t.op != 'dictcomp' or not ('unit' in a or 'h_dep' in a):
                    continue
                ks = {const(x.a[1]) for x in subterms(t) if x.op == 'sub' and x.a[0].op == 'attr' and x.a[0].a[1] == 'attrs'}
                ks &= {UNIT, HDEP}
                if ks:
                    want = UNIT if 'unit' in a else HDEP
                    rep.ob('read-back', '%s.%s' % (cn(f.qual).split('.')[0], a), ks == {want}, '%s:%d' % (f.module.path, f.node.lineno), '%s is filled from attribute %s' % (a, sorted(ks)))
