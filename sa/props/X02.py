"""Detected failures are raised: not returned, discarded, swallowed or made unreachable."""
import ast
from common import *
import inventory
from options import rejects, OTHER
from props.M02 import fn

ASSUMPTIONS = [
    'numpy functions without an out argument, string methods and comparisons have no effect beyond their result',
    'the recorded inventory lists, per public operation, the inputs whose values it validates; the conditions may be written in any way',
]
PURE_METHODS = {'astype', 'copy', 'replace', 'strip', 'format', 'reshape', 'all', 'any', 'lower', 'upper', 'split', 'isin', 'startswith', 'endswith',
                'sum', 'mean', 'max', 'min', 'join', 'transpose', 'ravel', 'flatten', 'round', 'clip', 'keys', 'items', 'values', 'is_file', 'exists'}
IMPURE_NP = {'save', 'savez', 'savez_compressed', 'savetxt', 'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'seterr', 'set_printoptions', 'at', 'shuffle',
             'seed', 'errstate', 'warnings', 'add.at'}
PURE_BUILTINS = {'sorted', 'len', 'isinstance', 'abs', 'all', 'any', 'sum', 'min', 'max', 'float', 'int', 'str', 'list', 'tuple', 'dict', 'set', 'bool', 'hasattr', 'round',
                 'range', 'zip', 'map', 'filter', 'enumerate', 'repr', 'type'}
# options of the public interface outside the property models: function -> option names that refuse unknown values
OPTIONS = {
    'Handler.extract_keys': ['set'],
    'Instrument.__init__': ['spatial_unit', 'spectral_unit', 'flux_unit', 'pointing_offset_frame', 'default_spatial_response', 'default_spectral_response', 'default_noise_function'],
    'Detector.__init__': ['spatial_unit', 'spectral_unit', 'flux_unit', 'pointing_offset_frame', 'spatial_response', 'spectral_response', 'noise_function'],
    'Instrument.add_detector': ['spatial_response', 'spectral_response', 'noise_function'],
    'LCHandler.animate': ['colorscale', 'sizescale'],
    'LCMaker.__init__': ['mode', 'overwrite'],
    'SphereMaker.__init__': ['mode', 'overwrite'],
    'Grid.collapse_dimension': ['mode'], 'Grid.down_sample': ['mode'], 'Grid.spherical_average': ['binmode'],
    'PSF.__init__': ['norm'], 'SpectralPSF.__init__': ['norm'],
}


def exc_class(prog, t):
    """term denotes an exception instance or class"""
    if t.op == 'call' and t.a[0].op == 'ext':
        n = t.a[0].a[0].split('.')[-1]
        return n.endswith(('Error', 'Exception', 'Warning', 'Interrupt')) or n in ('StopIteration', 'NotImplemented')
    if t.op == 'ext':
        n = t.a[0].split('.')[-1]
        return n.endswith(('Error', 'Exception', 'Interrupt')) or n == 'StopIteration'
    return False


def signals(prog, node, depth=0, seen=None):
    """statements contain (transitively) a raise or a warning"""
    seen = seen if seen is not None else set()
    for n in ast.walk(node) if not isinstance(node, list) else (x for s in node for x in ast.walk(s)):
        if isinstance(n, ast.Raise):
            return True
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
            if nm in ('warn', 'warning', 'error', 'exception', 'exit', '_exit', 'print_exc'):
                return True
            if depth < 3 and nm not in seen:
                seen.add(nm)
                for g in prog.funcs.values():
                    if g.name == nm and signals(prog, g.node.body, depth + 1, seen):
                        return True
    return False


def pure_function(prog, q):
    f = prog.funcs.get(q)
    if f is None:
        return False
    r = result(prog, f)
    for e in r.events:
        if e.kind in ('setattr', 'setsub', 'mutate', 'delsub', 'delattr', 'raise', 'with', 'yield'):
            return False
        if e.kind == 'aug' and e.target != 'name':
            return False
        if e.kind in ('extcall', 'mcall') and not (e.kind == 'extcall' and e.name.split('.')[0] == 'numpy' and e.name.split('.')[-1] not in IMPURE_NP):
            return False
    return any(x.kind == 'return' and x.value is not NONE for x in r.exits)


def check(prog, rep):
    rep.rule('not-returned', 'no function returns an exception object or class as its result', 100)
    rep.rule('not-discarded', 'no statement builds an exception or computes a test or value and drops it', 10)
    rep.rule('blanket-handler', 'a handler for any exception re-raises, raises or warns (import fallbacks aside)', 0)
    rep.rule('reachable-raise', 'no raise statement is dead code or behind a condition that can never hold', 50)
    rep.rule('raises-exception', 'what is raised is an exception', 50)
    rep.rule('unused-check', 'a test stored in a local variable is read afterwards', 0)
    rep.rule('validated', 'every input the operation validates still makes some path raise, with the same limits', 100)
    rep.rule('option-refused', 'a value outside the accepted set of an option makes every path raise', 8)
    reached = {}
    for r in all_results(prog):
        rep.saw(r.func)
        bad = None
        for x in r.exits:
            if x.kind == 'return' and x.value is not None:
                for c, t in leaves(x.value):
                    if exc_class(prog, t):
                        bad = (x.node.lineno, show(t, 3))
        rep.ob('not-returned', cn(r.func.qual), bad is None, '%s:%s' % (r.func.module.path, bad[0] if bad else r.func.node.lineno),
               'the error object %s is returned instead of raised' % bad[1] if bad else '')
        for e in r.events:
            if e.kind == 'raise':
                reached.setdefault(id(e.node), e)
    for mname, m in sorted(prog.modules.items()):
        short_ = mname.split('simim.')[-1]
        drops = []
        funcs = {}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef,)):
                for k in ast.walk(n):
                    funcs.setdefault(id(k), n)     # outermost wins; fine for naming
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Expr):
                w = dropped(prog, m, n.value)
                if w:
                    drops.append((n.lineno, w))
            elif isinstance(n, ast.Try):
                imports = all(isinstance(s, (ast.Import, ast.ImportFrom)) for s in n.body)
                for h in n.handlers:
                    if broad(h):
                        f = funcs.get(id(h))
                        ok = imports or signals(prog, h.body)
                        rep.ob('blanket-handler', '%s.%s' % (short_, f.name if f else '<module>'), ok, '%s:%d' % (m.path, h.lineno),
                               '' if ok else 'any exception is caught here and execution continues silently')
                if n.finalbody:
                    ret = [k for s in n.finalbody for k in ast.walk(s) if isinstance(k, (ast.Return, ast.Break, ast.Continue))]
                    rep.ob('blanket-handler', '%s.finally' % short_, not [k for k in ret if isinstance(k, ast.Return)], '%s:%d' % (m.path, n.lineno),
                           'returning from finally swallows the exception')
            elif isinstance(n, ast.With):
                for i in n.items:
                    c = i.context_expr
                    if isinstance(c, ast.Call) and getattr(c.func, 'attr', getattr(c.func, 'id', '')) == 'suppress':
                        names = [getattr(a, 'id', getattr(a, 'attr', '')) for a in c.args]
                        rep.ob('blanket-handler', '%s.suppress' % short_, not ({'Exception', 'BaseException'} & set(names)), '%s:%d' % (m.path, n.lineno),
                               'every exception is suppressed here')
            elif isinstance(n, ast.Raise):
                f = funcs.get(id(n))
                name = '%s.%s' % (short_, f.name if f else '<module>')
                ok = id(n) in reached or f is None or behind_isinstance(m, n) or nested(f, n)
                rep.ob('reachable-raise', name, ok, '%s:%d' % (m.path, n.lineno), '' if ok else 'this raise can never be reached')
                if n.exc is not None and id(n) in reached:
                    v = reached[id(n)].value
                    ok = not (v.op in ('const', 'fstr', 'list', 'tuple', 'dict') or v.op == 'ext' and v.a[0] == 'builtins.NotImplemented')
                    rep.ob('raises-exception', name, ok, '%s:%d' % (m.path, n.lineno), '' if ok else 'raises %s, which is not an exception' % show(v, 3))
        rep.ob('not-discarded', short_, not drops, '%s:%d' % (m.path, drops[0][0] if drops else 1), '; '.join('line %d: %s' % d for d in drops))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                unused(rep, m, short_, n)
    for f, key, ok, where, msg in inventory.compare(prog, inventory.load()):
        rep.ob('validated', '%s[%s]' % (cn(f.qual), key), ok, where, msg)
    for name, opts in sorted(OPTIONS.items()):
        f = fn(prog, name)
        if f is None:
            continue
        for o in opts:
            if o not in f.params:
                continue
            x = rejects(prog, f, {o: OTHER})
            rep.ob('option-refused', '%s %s' % (name, o), x is None, '%s:%d' % (f.module.path, f.node.lineno),
                   'an unknown value of %s is accepted' % o if x else '')


def broad(h):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(getattr(t, 'id', getattr(t, 'attr', '')) in ('Exception', 'BaseException') for t in ts)


def nested(f, n):
    """inside a lambda or nested function, which is only entered when called"""
    for k in ast.walk(f):
        if k is not f and isinstance(k, (ast.FunctionDef, ast.Lambda)) and any(x is n for x in ast.walk(k)):
            return True
    return False


def behind_isinstance(m, n):
    """enclosing tests include type tests, which the analysis may decide from declared types"""
    for k in ast.walk(m.tree):
        if isinstance(k, ast.If) and any(x is n for x in ast.walk(k)):
            if any(isinstance(c, ast.Call) and getattr(c.func, 'id', '') in ('isinstance', 'issubclass', 'callable', 'hasattr') or
                   isinstance(c, ast.Compare) and any(isinstance(y, ast.Call) and getattr(y.func, 'id', '') == 'type' for y in ast.walk(c))
                   for c in ast.walk(k.test)):
                return True
        if isinstance(k, ast.Try) and any(x is n for h in k.handlers for x in ast.walk(h)):
            return True
    return False


def dropped(prog, m, v):
    if isinstance(v, (ast.Compare, ast.BinOp, ast.BoolOp, ast.UnaryOp, ast.Subscript, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.IfExp, ast.Lambda, ast.JoinedStr)):
        if isinstance(v, (ast.BoolOp, ast.IfExp)) and any(isinstance(x, ast.Call) for x in ast.walk(v)):
            return None
        if not any(isinstance(x, (ast.Name, ast.Attribute)) for x in ast.walk(v)):
            return None     # constants only
        if isinstance(v, ast.ListComp) and any(isinstance(x, ast.Call) for x in ast.walk(v.elt)):
            return None
        return 'the value of this expression is dropped'
    if isinstance(v, ast.Call):
        f = v.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        if nm.endswith(('Error', 'Exception')):
            return 'an exception is built but not raised'
        if isinstance(f, ast.Name) and nm in PURE_BUILTINS and m.names.get(nm) is None:
            return 'the result of %s() is dropped' % nm
        if isinstance(f, ast.Attribute) and nm in PURE_METHODS and not isinstance(f.value, ast.Name):
            return 'the result of .%s() is dropped' % nm
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            e = m.names.get(f.value.id)
            if e and e[0] != 'var' and f.value.id in ('np', 'numpy') and nm not in IMPURE_NP and not any(k.arg == 'out' for k in v.keywords):
                return 'the result of numpy.%s() is dropped' % nm
            if nm in PURE_METHODS and not (e and e[0] != 'var'):
                return 'the result of .%s() is dropped' % nm
        if isinstance(f, ast.Name):
            q = '%s.%s' % (m.name, nm)
            if q in prog.funcs and pure_function(prog, q):
                return 'the result of %s() is dropped' % nm
    return None


TESTS = {'any', 'all', 'isin', 'in1d', 'isfinite', 'isnan', 'allclose', 'array_equal', 'isinstance', 'exists', 'isclose', 'logical_and', 'logical_or', 'isfile', 'isdir'}


def unused(rep, m, short_, n):
    stores, loads = {}, set()
    for k in ast.walk(n):
        if isinstance(k, ast.Name):
            if isinstance(k.ctx, ast.Load):
                loads.add(k.id)
        if isinstance(k, (ast.Global, ast.Nonlocal)):
            loads |= set(k.names)
        if isinstance(k, ast.Assign) and len(k.targets) == 1 and isinstance(k.targets[0], ast.Name):
            v = k.value
            test = isinstance(v, ast.Compare) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) or \
                isinstance(v, ast.BoolOp) or isinstance(v, ast.Call) and getattr(v.func, 'attr', getattr(v.func, 'id', '')) in TESTS
            if test and any(isinstance(x, (ast.Name, ast.Attribute)) for x in ast.walk(v)):
                stores.setdefault(k.targets[0].id, k.lineno)
        if isinstance(k, ast.Call) and getattr(k.func, 'id', '') in ('locals', 'eval', 'exec'):
            return
    for v, l in sorted(stores.items()):
        rep.ob('unused-check', '%s.%s %s' % (short_, n.name, v), v in loads, '%s:%d' % (m.path, l), 'the outcome of this test is never used')
