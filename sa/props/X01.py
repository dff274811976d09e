"""Names, attributes, arguments and results the code uses exist on every path."""
import ast
import os
import re
from common import *
from flow import private
from finite import feasible, atoms, OTHER

ASSUMPTIONS = [
    'loops over collections run at least once; conditions on numbers are not solved (a path needing two or more of them is skipped)',
    'string-valued attributes take only the values the class family compares them with',
    'instances carry the attributes stored on self by any method of their class family, in whatever order methods are called',
]


def class_attrs(prog):
    """attributes stored on instances of each class, anywhere"""
    out = {}
    for r in all_results(prog):
        for e in r.events:
            if e.kind == 'setattr':
                c = r.interp.typeof(e.obj)
                if c:
                    out.setdefault(c.qual, set()).add(e.attr)
    return out


def attr_domain(prog):
    """attr name -> constants it is compared with anywhere in the class of self"""
    d = {}
    for r in all_results(prog):
        for e in r.events:
            for c, _ in getattr(e, 'guards', ()):
                for k in find(c, lambda x: x.op == 'cmp' and x.a[1].op == 'attr' and x.a[0] in ('==', 'in')):
                    v, o = {}, set()
                    atoms(k, (v, o))
                    for a, s in v.items():
                        d.setdefault((e.func.cls.qual if e.func.cls else None, a), set()).update(s)
    return d


def ext_names(package):
    """public names of an installed package's stub file (None when not found)"""
    import glob
    for base in ('/opt/venv/lib/python3*/site-packages', '/usr/lib/python3/dist-packages', '/opt/veriftools/pyvenv/lib/python3*/site-packages'):
        for p in sorted(glob.glob(os.path.join(base, package, '__init__.pyi'))):
            try:
                tree = ast.parse(open(p).read())
            except (SyntaxError, OSError):
                continue
            names = set()
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    names.add(n.name)
                elif isinstance(n, ast.alias):
                    names.add((n.asname or n.name).split('.')[0])
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    names.add(n.target.id)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            names.add(t.id)
            return names
    return None


def doms(prog, f, dom):
    fam = {c.qual for c in prog.mro(f.cls) + prog.subclasses(f.cls)} if f.cls else {None}

    def domains(k):
        if k.op == 'attr':
            return ([x for q in fam for x in dom.get((q, k), ())], False)
        return None
    return domains


def missing(prog, ev, dom):
    """a feasible path on which the variable was never assigned, or None"""
    domains = doms(prog, ev.func, dom)
    for conds, t in leaves(ev.value):
        if t.op != 'unbound':
            continue
        if any(c.op in ('nonempty', 'iter') and not p or 'mu' in (x.op for x in [c]) for c, p in conds):
            continue
        op = set()
        for c, p in conds:
            v = {}
            atoms(c, (v, op))
        if len(op) > 1:
            continue
        for env, _ in feasible(list(conds) + list(ev.guards), domains):
            return ', '.join('%s%s' % ('' if p else 'not ', show(c, 3)) for c, p in conds)
    return None


def check(prog, rep):
    rep.rule('bound', 'every local or global name read is assigned on each feasible path to the read', 100)
    rep.rule('attribute', 'every attribute read on an instance of a repository class exists on that class', 200)
    rep.rule('call-arguments', 'every call of a repository function binds: no unknown, missing or repeated argument', 80)
    rep.rule('library-name', 'numpy names used exist in the installed numpy', 0)
    rep.rule('table-keys', 'dictionary and keyword literals never repeat a key', 0)
    rep.rule('result-used', 'a function whose result is used returns a value on each feasible path', 5)
    attrs = class_attrs(prog)
    dom = attr_domain(prog)

    def has(c, a):
        for x in prog.mro(c) + prog.subclasses(c):
            if a in x.methods or a in x.attrs or a in attrs.get(x.qual, ()):
                return True
            for b in x.node.bases:      # unknown external base: anything goes
                n = b.id if isinstance(b, ast.Name) else getattr(b, 'attr', None)
                if n != 'object' and not any(n == k.name for k in prog.classes.values()):
                    return True
        return a.startswith('__')

    seen = {}
    used = {}
    for r in all_results(prog):
        rep.saw(r.func)
        problems = {}
        ncalls = 0
        for e in r.events:
            if e.kind in ('unbound', 'undefined'):
                problems[('bound', cn(e.func.qual), e.var)] = (e.where, '%s is read but never assigned on this path' % e.var)
            elif e.kind == 'maybe_unbound':
                m = missing(prog, e, dom)
                if m:
                    problems[('bound', cn(e.func.qual), e.var)] = (e.where, '%s is not assigned when %s' % (e.var, m))
            elif e.kind == 'badcall':
                problems[('call-arguments', cn(e.func.qual), cn(e.callee.qual))] = (e.where, '; '.join(str(x) for x in e.problems))
            elif e.kind == 'call':
                k = ('call-arguments', cn(e.func.qual), cn(e.callee.qual))
                seen.setdefault(k, (True, e.where, ''))
            elif e.kind == 'getattr':
                c = r.interp.typeof(e.obj)
                if c is None:
                    continue
                k = ('attribute', cn(e.func.qual), e.attr)
                if has(c, e.attr):
                    seen.setdefault(k, (True, e.where, ''))
                else:
                    problems[k] = (e.where, '%s objects have no attribute %s' % (c.name, e.attr))
        k = ('bound', cn(r.func.qual), '*')
        if not any(p[0] == 'bound' for p in problems):
            seen.setdefault(k, (True, '%s:%d' % (r.func.module.path, r.func.node.lineno), ''))
        for k, (w, m) in problems.items():
            seen[k] = (False, w, m)
    for k, (ok, w, m) in sorted(seen.items()):
        rep.ob(k[0], '%s %s' % (k[1], k[2]), ok, w, m)
    initialised(prog, rep)
    # results that are used
    want = {}
    for r in all_results(prog):
        for e in r.events:
            if e.kind == 'call' and isinstance(e.node, ast.Call) and id(e.node) not in prog_discarded(prog) and e.callee.name != '__init__':
                want.setdefault(e.callee.qual, e.where)
    for q, w in sorted(want.items()):
        f = prog.funcs.get(q)
        if f is None:
            continue
        r = result(prog, f)
        vals = [x for x in r.exits if x.kind == 'return' and x.value is not NONE and x.value is not None]
        falls = [x for x in r.exits if x.kind == 'fall']
        if not vals or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            continue
        bad = None
        for x in falls:
            op = set()
            for c, p in x.guards:
                atoms(c, ({}, op))
            if len(op) > 1 or any(c.op in ('iter', 'nonempty') for c, p in x.guards):
                continue
            for env, _ in feasible(list(x.guards), doms(prog, f, dom)):
                bad = ', '.join('%s%s' % ('' if p else 'not ', show(c, 3)) for c, p in x.guards)
                break
        rep.ob('result-used', cn(q), bad is None, '%s:%d' % (f.module.path, f.node.lineno), 'no value is returned when %s, but the result is used at %s' % (bad, w) if bad else '')
    # literal tables and library names
    npn = ext_names('numpy')
    for mname, m in sorted(prog.modules.items()):
        np_alias = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == 'numpy':
                        np_alias.add(a.asname or 'numpy')
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict):
                ks = [k.value for k in n.keys if isinstance(k, ast.Constant)]
                if len(ks) > 1:
                    d = sorted({str(k) for k in ks if ks.count(k) > 1})
                    rep.ob('table-keys', '%s{%s}' % (mname.split('.')[-1], str(ks[0])), not d, '%s:%d' % (m.path, n.lineno), 'key %s appears twice; the earlier entry is lost' % d)
            elif npn and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in np_alias:
                rep.ob('library-name', '%s numpy.%s' % (mname.split('.')[-1], n.attr), n.attr in npn, '%s:%d' % (m.path, n.lineno), 'numpy has no %s' % n.attr)


# attributes that exist only after a documented earlier step (built data, optional parts)
LATER = {'Grid': {'grid'}, 'GenericLCMaker': {'n', 'snapshots_use'}, 'LCHandler': {'aspect_ratio', 'open_angle'},
         'SimCatalogs': {'all_fields', 'other_fields', 'download_snaps', 'webpage'}, 'SimHandler': {'snap_handlers'},
         'behroozi13_base': {'grid_mass', 'grid_redshift', 'sfr_function', 'stellarmass_function'}}


def initialised(prog, rep):
    rep.rule('initialised', 'attributes methods read are set by the constructor on every path (or belong to a documented later step)', 60)
    for c in sorted(prog.classes.values(), key=lambda c: c.qual):
        init = prog.lookup(c, '__init__')
        if init is None:
            continue
        fam = prog.mro(c)
        later = set()
        for x in fam + prog.subclasses(c):
            later |= LATER.get(x.name, set())
        r = result(prog, init, selfcls=c)
        S = mk('param', init.posparams[0])
        always = None
        for x in r.returns():
            now = set()
            for k, l in x.state.heap.items():
                if k[0] is S and not any(t is mk('attr', S, k[1]) for cs, t in leaves(x.state.store[l])
                                         if not any(g.op in ('nonempty', 'iter') and not p for g, p in cs)):
                    now.add(k[1])
            always = now if always is None else always & now
        if always is None:
            continue
        bad = {}
        good = set()
        during = {e.callee for e in r.ev('call') if private(e.callee.qual)}
        for b in fam:
            for m in b.methods.values():
                if m in during:
                    continue        # part of the constructor
                if m.name == '__init__' or m.static or not m.posparams or prog.lookup(c, m.name) is not m:
                    continue
                mine = mk('param', m.posparams[0])
                done = set()
                for e in result(prog, m).events:
                    if e.kind == 'setattr' and e.obj is mine:
                        done.add(e.attr)
                    elif e.kind == 'getattr' and e.obj is mine and e.attr not in done and not e.attr.startswith('__'):
                        if e.attr in later or any(e.attr in x.methods or e.attr in x.attrs for x in fam):
                            continue
                        if e.attr in always:
                            good.add(e.attr)
                        elif any('hasattr' in show(g, 4) for g, _ in e.guards):
                            continue
                        else:
                            bad.setdefault(e.attr, (e.where, m.name))
        for a in sorted(good):
            rep.ob('initialised', '%s.%s' % (c.name, a), True, c.module.path, '')
        for a, (w, m) in sorted(bad.items()):
            rep.ob('initialised', '%s.%s' % (c.name, a), False, w, '%s reads self.%s, which the constructor does not set on every path' % (m, a))


def prog_discarded(prog):
    """ids of call nodes whose value is thrown away"""
    s = prog.__dict__.get('_discarded')
    if s is None:
        s = set()
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Expr):
                    s.add(id(n.value))
        prog._discarded = s
    return s
