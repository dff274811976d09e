"""Every documented model option is accepted with all coefficients defined; other values are refused."""
import ast
import itertools
from common import *
from options import accepts, rejects, OTHER

ASSUMPTIONS = [
    'the accepted values are those the documentation of each model lists',
    'conditions on numbers are not solved; loops run at least once',
]

FIR = ['[CII]', '[NII]', '[OI]', '[OIII]88um', '[OIII]52um', '[SiII]', '[SIII]33um', '[SIII]19um', '[SiIII]33um', '[SiIII]19um', '[NeII]', '[NeIII]']
YCO = ['CO1-0', 'CO2-1', 'CO3-2', 'CO4-3', 'CO5-4']
YCI = ['CI1-0', 'CI2-1']
SETS = [None, 'DGS', 'dwarfs', 'starbursts', 'comp/agn', 'comp/AGN']
# function -> list of ({option: values}, required refusals)
SPEC = {
    'line_fir.delooze14': [{'line': ['[CII]', '[OI]', '[OIII]'], 'set': SETS}, {'line': ['[CII]'], 'set': ['high z']}],
    'line_fir.uzgil14': [{'line': [x for x in FIR]}],
    'line_fir.spinoglio12': [{'line': [x for x in FIR]}],
    'line_fir.schaerer20': [{'set': [None, 'ALPINE-uvir', 'ALPINE-sed', 'ALPINE-uvirx', 'high z-uvirx']}],
    'line_fir_yang.yang22': [{'line': ['CII'] + YCI + YCO}],
    'behroozi13_base.plot_grid': [{'prop': ['sfr', 'stellar']}],
    'bethermin17_base._make_stellarmass_function': [{'haloprop': ['vmax', 'mass', 'auto']}],
    'g13irlf_base._make_lir_function': [{'haloprop': ['vmax', 'mass', 'auto']}],
}
NOT = {'line_fir.delooze14': [{'line': '[OI]', 'set': 'high z'}, {'line': '[OIII]', 'set': 'high z'}]}


def fn(prog, name):
    fs = [f for q, f in prog.funcs.items() if cn(q) == name]
    return fs[0] if fs else None


def check(prog, rep):
    rep.rule('documented-option', 'each documented combination of option values reaches a normal return with every name it uses assigned', 40)
    rep.rule('other-refused', 'any undocumented value of an option makes every path raise', 5)
    rep.rule('table-complete', 'coefficient tables define every declared column for every row, and have a row for every accepted option', 5)
    rep.rule('boolean-options', 'no switch combination of a model function leaves a name unassigned', 15)
    for name, spec in sorted(SPEC.items()):
        f = fn(prog, name)
        if f is None:
            if name.split('.')[1].startswith('_'):
                continue
            raise_broken(name)
        rep.saw(f)
        where = '%s:%d' % (f.module.path, f.node.lineno)
        opts = set()
        for block in spec:
            names = sorted(block)
            opts |= set(names)
            for vals in itertools.product(*[block[n] for n in names]):
                env = dict(zip(names, vals))
                why = accepts(prog, f, env)
                rep.ob('documented-option', '%s %s' % (name, ' '.join('%s=%s' % (k, v) for k, v in sorted(env.items()))), why is None, where, why or '')
        for o in sorted(opts):
            x = rejects(prog, f, {o: OTHER})
            rep.ob('other-refused', '%s %s' % (name, o), x is None, where,
                   'a value of %s that is not documented is computed with instead of being refused' % o if x else '')
        for env in NOT.get(name, ()):
            x = rejects(prog, f, env)
            rep.ob('other-refused', '%s %s' % (name, ' '.join('%s=%s' % kv for kv in sorted(env.items()))), x is None, where,
                   'this combination has no coefficients but is not refused' if x else '')
    tables(prog, rep)
    from props import X01
    dom = X01.attr_domain(prog)
    for q, f in sorted(prog.funcs.items()):
        if '.galprops.' not in q or '<' in q:
            continue
        r = result(prog, f)
        rep.saw(f)
        bad = None
        for e in r.events:
            if e.kind in ('unbound', 'undefined'):
                bad = (e.where, '%s is read but not defined' % e.var)
            elif e.kind == 'maybe_unbound':
                m = X01.missing(prog, e, dom)
                if m:
                    bad = (e.where, '%s is not defined when %s' % (e.var, m))
        rep.ob('boolean-options', cn(q), bad is None, bad[0] if bad else '%s:%d' % (f.module.path, f.node.lineno), bad[1] if bad else '')


def raise_broken(name):
    from program import AnalysisBroken
    raise AnalysisBroken('model function %s not found' % name)


def literal_len(n):
    if isinstance(n, ast.Call) and n.args:
        return literal_len(n.args[0])
    if isinstance(n, (ast.List, ast.Tuple)):
        return len(n.elts)
    return None


def tables(prog, rep):
    """module-level structured arrays filled column by column"""
    for mname, m in sorted(prog.modules.items()):
        if '.galprops' not in mname:
            continue
        tabs = {}
        for n in m.tree.body:
            if not isinstance(n, ast.Assign) or len(n.targets) != 1:
                continue
            t, v = n.targets[0], n.value
            if isinstance(t, ast.Name) and isinstance(v, ast.Call):
                dt = [k.value for k in v.keywords if k.arg == 'dtype']
                if dt and isinstance(dt[0], ast.List) and v.args and isinstance(v.args[0], ast.Constant):
                    cols = [x.elts[0].value for x in dt[0].elts if isinstance(x, ast.Tuple) and isinstance(x.elts[0], ast.Constant)]
                    tabs[t.id] = (v.args[0].value, cols, {}, n.lineno)
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in tabs and isinstance(t.slice, ast.Constant):
                tabs[t.value.id][2].setdefault(t.slice.value, []).append((n.lineno, v))
        for name, (nrow, cols, got, line) in sorted(tabs.items()):
            for c in sorted(set(cols)):
                g = got.get(c, [])
                ok = len(g) == 1 and cols.count(c) == 1
                msg = '' if ok else 'column %s is %s' % (c, 'never filled (stays zero)' if not g else 'filled more than once')
                if ok:
                    k = literal_len(g[0][1])
                    if k is not None and k != nrow and k != 1:
                        ok, msg = False, 'column %s has %d values for %d rows' % (c, k, nrow)
                rep.ob('table-complete', '%s[%s]' % (name, c), ok, '%s:%d' % (m.path, g[0][0] if g else line), msg)
            nm = got.get('name')
            if nm:
                vals = [x.value for x in ast.walk(nm[0][1]) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                want = YCO if 'co' in name.lower() else YCI if 'ci' in name.lower() else None
                if want:
                    rep.ob('table-complete', '%s names' % name, set(want) <= set(vals) and len(vals) == len(set(vals)), '%s:%d' % (m.path, nm[0][0]),
                           'rows %s do not cover the options %s' % (vals, want))
