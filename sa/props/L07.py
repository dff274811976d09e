"""Properties added to a set of light cones are those asked for, in every light cone, from every snapshot."""
from common import *
from flow import Interp
from props import L06
from props.L06 import Host, X, src, text
from terms import children
import concrete
import posixpath
import ast

ASSUMPTIONS = [
    'the light cones of a set hold the same columns, and the snapshots of a simulation the same properties',
    'which rows are filled is not judged here (L02)',
]
BOX = ('pos_x', 'pos_y', 'pos_z', 'mass', 'old')
COLS = ('mass', 'alpha', 'beta', 'old', 'v_x', 'v_y', 'v_z', 'cm_x', 'cm_y', 'cm_z', 'pos_x', 'pos_y', 'pos_z')
SNAPS = (5, 8)
# operation -> requests, each with the columns that appear
CASES = {
    'add_properties': [(('beta',), {'beta'}), (('beta', 'alpha'), {'alpha', 'beta'}), (('old', 'alpha'), {'alpha'}), (('nothing', 'alpha'), {'alpha'}), (('masscheck',), {'masscheck'}),
                       (('masscheck', 'beta', 'old'), {'masscheck', 'beta'}), (('v_x', 'alpha'), {'alpha'}), (('nothing',), set()), (('old', 'cm_x'), set())],
    'add_pos_properties': [(('v',), {'v_x', 'v_y', 'v_z'}), (('v', 'cm'), {'v_x', 'v_y', 'v_z', 'cm_x', 'cm_y', 'cm_z'}), (('pos', 'cm'), {'cm_x', 'cm_y', 'cm_z'}), (('spin', 'v'), {'v_x', 'v_y', 'v_z'}), (('pos',), set())],
}
N = 2


def path(k):
    return '/lcs/set/lc_%04d.hdf5' % k


def noted(c):
    """names of what light cone files note about themselves, in the module of class c"""
    out = set()
    for n in ast.walk(c.module.tree):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == 'attrs' and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            out.add(n.slice.value)
    return sorted(x for x in out if not x.startswith('status') and x not in ('units', 'h dependence'))


def own(k, n):
    return mk('obj', 'light cone %d notes %s' % (k, n))


def column(k, n):
    return mk('obj', 'snapshot %d %s' % (k, n))


def listed(fn):
    def go(a, k):
        if len(a) == 1 and not k and a[0].op in ('list', 'vec', 'tuple') and all(t.op == 'const' for t in a[0].a):
            return mk('list', *fn(a[0].a))
        return None
    return go


def run(prog, c, f, keys):
    host = Host()
    it = Interp(prog, inline=lambda a, b: True, depth=7, unroll=60)
    it.host, it.vec, it.exact = host, True, True
    m = it.models = concrete.models()

    def join(a, k):
        v = [text(x) for x in a]
        return K(posixpath.join(*v)) if v and None not in v else None
    m[X('os.path.join')] = join
    m[X('numpy.sort')] = m[X('builtins.sorted')] = listed(lambda x: sorted(x, key=lambda t: t.a[0]))
    m[X('numpy.unique')] = listed(lambda x: sorted(set(x), key=lambda t: t.a[0]))
    me, sh = P('self'), P('sim_handler')
    m[(sh, 'get_mass_index')] = lambda a, k: P('mass index')
    at = lambda n: {'units': P('unit ' + n), 'h dependence': P('exponent ' + n)}
    pre = it.preset = {}
    for k in range(N + 1):
        pre.update(host.preset(K(path(k)), {'@': {n: own(k, n) for n in noted(c)}, 'Lightcone Full': {n: (src(k, n), at(n)) for n in BOX}, 'Indexing': {'sim_indices': (src(k, 'rows'), {})}}))
    pre.update(host.preset(K('/sims/data.hdf5'), dict({'@': {}}, **{'Snapshot %d' % s: {n: (column(s, n), at(n)) for n in COLS} for s in SNAPS})))
    mine = {'lc_path': K('/lcs/set'), 'sim_path': K('/sims'), 'n': K(N), 'minimum_mass': P('minimum mass'), 'sim_handler': sh, 'snap_keys_all': L(*map(K, COLS)),
           'snapshots_use': mk('vec', *[D((K('index'), K(s)), (K('redshift'), K(float(i)))) for i, s in enumerate(SNAPS)])}
    pre.update({(me, n): v for n, v in mine.items()})
    for a, w in (('key_units', 'unit '), ('key_h_dependence', 'exponent ')):
        pre[(sh, a)] = D(*[(K(n), P(w + n)) for n in COLS])
    r = it.run(f, bind={f.node.args.vararg.arg: mk('tuple', *map(K, keys))}, selfcls=c)
    return r, host


def contents(x, k):
    """columns (value, attributes) and marks of light cone k at the end, None when not known"""
    heap = {}
    for (o, a), l in x.state.heap.items():
        if o.op == 'obj' and o.a[0] == 'h5' and a in ('kids', 'value') and o.a[2] is K(path(k)):
            heap[o.a[1], o.a[3], a] = x.state.store[l]
    g = heap.get(('group', ('Lightcone Full',), 'kids'))
    if g is None or g.op != 'dict' or any(n.op != 'const' for n, _ in g.a[0]):
        return None
    cols = {}
    for n, _ in g.a[0]:
        w = ('Lightcone Full', n.a[0])
        at = heap.get(('attrs', w, 'kids'))
        cols[n.a[0]] = heap.get(('data', w, 'value')), {a.a[0]: v for a, v in at.a[0]} if at is not None and at.op == 'dict' else None
    at = heap.get(('attrs', (), 'kids'))
    return cols, {a.a[0]: v for a, v in at.a[0]} if at is not None and at.op == 'dict' else None


def parts(t, prefix):
    return {s.a[0] for s in content(t) if s.op == 'obj' and isinstance(s.a[0], str) and s.a[0].startswith(prefix)}


def check(prog, rep):
    rep.rule('added', 'the columns added to each light cone are those asked for that the catalogue has and the light cone has not', 20)
    rep.rule('described', 'an added column has the unit and h exponent the catalogue gives the property', 20)
    rep.rule('filled', 'an added column is filled from the property of its name, for every snapshot used', 20)
    rep.rule('own', 'what is added to a light cone is made with what that light cone notes about itself, not with the orientation of another', 10)
    rep.rule('kept', 'other columns, and light cones outside the set, stay as they were', 20)
    rep.rule('completed', 'the light cones are marked as complete when everything is added', 10)
    c = prog.cls('GenericLCMaker')
    for name, cases in CASES.items():
        f = prog.lookup(c, name)
        if f is None or f.node.args.vararg is None:
            continue
        rep.saw(f)
        w = '%s:%d %s' % (f.module.path, f.node.lineno, f.qual)
        for keys, want in cases:
            con = '%s(%s)' % (name, ', '.join(keys))
            r, host = run(prog, c, f, keys)
            ok = normal(r)
            if len(r.exits) and not ok:
                rep.ob('added', con, not want, w, 'it fails: %s' % (show(r.exits[0].value, 3) if r.exits[0].value is not None else ''))
                continue
            if len(ok) != 1 or len(r.exits) != 1:
                rep.notes.append('%s not followed (%d ways to finish)' % (con, len(r.exits)))
                continue
            x = ok[0]
            for k in range(N + 1):
                got = contents(x, k)
                if got is None:
                    rep.notes.append('%s light cone %d not followed' % (con, k))
                    continue
                cols, marks = got
                new = set(cols) - set(BOX)
                here = '%s, light cone %d' % (con, k)
                if k == N:
                    rep.ob('kept', here, not new and (marks is None or marks == {n: own(k, n) for n in noted(c)}), w, 'a light cone that is not in the set is changed')
                    continue
                rep.ob('added', here, new == want, w, 'the columns added are %s, not %s' % (', '.join(sorted(new)) or 'none', ', '.join(sorted(want)) or 'none'))
                for n in BOX:
                    v = cols.get(n, (None,))[0]
                    rep.ob('kept', '%s %s' % (here, n), v is src(k, n), w, 'column %s becomes %s' % (n, show(v)[:100] if v is not None else 'missing'))
                if want and marks is not None:
                    m = marks.get('status_extra_completed')
                    if m is not None:
                        rep.ob('completed', here, m is TRUE, w, 'it ends with status_extra_completed %s' % show(m))
                for n in sorted(new & want):
                    v, at = cols[n]
                    q = 'mass' if n == 'masscheck' else n
                    if at is not None:
                        for a, p in (('units', 'unit '), ('h dependence', 'exponent ')):
                            rep.ob('described', '%s %s %s' % (here, n, a), at.get(a) is P(p + q), w, '%s of %s is %s' % (a, n, show(at[a]) if a in at else 'missing'))
                    if v is None:
                        continue
                    from_ = sorted(parts(v, 'light cone '))
                    rep.ob('own', '%s %s' % (here, n), all(z.startswith('light cone %d ' % k) for z in from_), w, 'the values of %s in light cone %d use: %s' % (n, k, ', '.join(z for z in from_ if not z.startswith('light cone %d ' % k))))
                    for s in SNAPS:
                        have = parts(v, 'snapshot %d ' % s)
                        if name == 'add_properties':
                            good = have == {'snapshot %d %s' % (s, q)}
                        else:
                            good = 'snapshot %d %s' % (s, q) in have and have <= {'snapshot %d %s' % (s, q[:-1] + a) for a in 'xyz'}
                        rep.ob('filled', '%s %s, snapshot %d' % (here, n, s), good, w, 'the values of %s are made from %s' % (n, ', '.join(sorted(have)) or 'nothing of snapshot %d' % s))
