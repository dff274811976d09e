"""Data files: opened for writing only by operations meant to change them, closed on every path, whole columns stored."""
import ast
from common import *
from flow import Interp
from store import Table, WRITE, node, bare, full
from props import H01
from props.H02 import prepare, at, ALL, ACT, N, NACT

ASSUMPTIONS = [
    'operations whose names begin with write, make, delete, add, build, format, download, save or set up are the ones meant to change files',
    'an exception raised by a library call between opening and closing a file outside a with block is not counted as a path',
    'files whose mode is computed at run time are not judged',
]
OPENERS = ('h5py.File', 'builtins.open', 'io.open', 'h5py._hl.files.File')
MEANT = ('write', 'make', 'delete', 'add', 'build', 'format', 'download', 'save', 'setup', '_setup', '_new', 'clean', 'remove', 'export', 'update', 'append', 'store', 'insert', 'create', 'copy', 'rename')
ME = P('self')


def wh(f, n=None):
    return '%s:%d %s' % (f.module.path, (n or f.node).lineno, f.qual)


def check(prog, rep):
    rep.rule('read-only', 'operations not meant to change stored data open files for reading only', 25)
    rep.rule('kept-contents', 'operations that add to or change a file do not begin by emptying it', 5)
    rep.rule('source-untouched', 'building or extending lightcones opens the simulation they are made from for reading only', 4)
    rep.rule('only-when-asked', 'making a property without asking for it to be written opens no file for writing', 2)
    rep.rule('closed', 'an opened file is closed on every path', 20)
    rep.rule('whole-column', 'a stored property has one entry per object in the file', 6)
    modes(prog, rep)
    asked(prog, rep)
    closed(prog, rep)
    whole(prog, rep)


# ------------------------------------------------------------------ modes
def opens(r):
    for e in r.ev('extcall'):
        if e.name in OPENERS:
            i = 1
            m = e.args[i] if len(e.args) > i else (e.kws or {}).get('mode', K('r'))
            ms = [x for _, x in leaves(m)]
            if any(x.op != 'const' for x in ms):
                yield e, None
            else:
                for x in ms:
                    yield e, x.a[0]


def writes(m):
    return m is None or any(c in m for c in 'wax+')


def modes(prog, rep):
    for q in sorted(prog.funcs):
        f = prog.funcs[q]
        if f.outer is not None or isinstance(f.node, ast.Lambda):
            continue
        own = f.cls
        if f.cls is None or f.name.startswith('_') and not f.name.startswith('__'):
            if f.name.startswith(('_setup', '_new')):
                pass
            elif any(g is not f and (f.cls is None or g.cls is not None) and called(g, f.name) for g in prog.funcs.values()):
                continue       # judged through the operations that call it
        r = result(prog, f, selfcls=own)
        meant = f.name.startswith(MEANT)
        n = 0
        for e, m in opens(r):
            rep.saw(f)
            n += 1
            path = e.args[0] if e.args else (e.kws or {}).get('name')
            if m is None:
                rep.notes.append('mode not known: %s' % e.where)
                continue
            if not meant:
                if not e.name.startswith('h5py'):
                    continue       # text files: the registry of file locations
                rep.ob('read-only', '%s opens %s' % (cn(f.qual), source(path)), not writes(m), e.where, '%s, which only reads, opens %s with mode %r' % (cn(f.qual), source(path), m))
            else:
                if source(path) == 'simulation':
                    if own is not None and any(c.name == 'GenericLCMaker' for c in prog.mro(own)):
                        rep.ob('source-untouched', '%s opens %s' % (cn(f.qual), source(path)), not writes(m), e.where, '%s opens the simulation data with mode %r' % (cn(f.qual), m))
                if e.name.startswith('h5py') and own is not None and f.name not in ('format', 'build_lightcones'):
                    rep.ob('kept-contents', '%s opens %s' % (cn(f.qual), source(path)), m not in ('w', 'x', 'w-'), e.where, '%s opens a file with mode %r, which empties it' % (cn(f.qual), m))
    # format keeps existing snapshots unless remaking
    f = prog.func('SimCatalogs.format')
    rep.saw(f)
    for pre in (True, False):
        it = Interp(prog, inline=lambda a, b: b.name not in ('_loader', '_get_rawsnapfiles'), depth=4)
        host = Table()
        it.host = host
        path = K('/d/data.hdf5')
        it.preset = {(ME, 'path'): K('/d'), (ME, 'snaps'): L(K(7)), (ME, 'basic_fields'): D(), (ME, 'matter_fields'): D(), (ME, 'dm_fields'): D(), (ME, 'transform_keys'): D()}
        it.preset.update(host.preset(path, {'Snapshot 3': {'mass': (P('m'), {})}, '@': {'snapshots': P('listed'), 'number_snaps': K(1)}}))
        it.models = {mk('ext', 'os.path.exists'): lambda a, k: TRUE, mk('ext', 'os.path.isfile'): lambda a, k: TRUE, mk('ext', 'os.path.join'): lambda a, k: K('/'.join(x.a[0] for x in a)) if all(x.op == 'const' for x in a) else None}
        r = it.run(f, bind=defaults(it, f, {'remake': FALSE if pre else TRUE, 'realtime_clean_raw': FALSE}), selfcls=f.cls)
        kept = [c for c in host.changes if c[0] == 'truncate' and not any(g.op == 'call' and is_call(g, 'os.path.exists') or has_exists(g) for g, _ in c[3])]
        if pre:
            rep.ob('kept-contents', 'SimCatalogs.format of an existing file', not kept, kept[0][5].where if kept and hasattr(kept[0][5], 'where') else wh(f), 'formatting more snapshots empties the existing file although remaking was not requested')


def has_exists(g):
    return any(is_call(x, 'os.path.exists', 'os.path.isfile') for x in subterms(g))


def called(g, name):
    return any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == name or isinstance(n.func, ast.Name) and n.func.id == name) for n in ast.walk(g.node))


def source(path):
    if path is None:
        return 'a file'
    for x in subterms(path):
        if x.op == 'attr' and x.a[1] == 'sim_path':
            return 'simulation'
        if x.op == 'sub' and x.a[0].op == 'attr' and x.a[0].a[1] == 'sims':
            return 'simulation'
    return 'a file'


def asked(prog, rep):
    for cname, kwn, extra in (('Handler', 'write_to_disk', {}), ('SimHandler', 'write', {})):
        c = prog.cls(cname)
        f = prog.lookup(c, 'make_property')
        rep.saw(f)
        it = Interp(prog, inline=lambda a, b: True, depth=5, types={'snapshot': 'SnapHandler'})
        get = prog.lookup(prog.cls('SimHandler'), 'get_snap')
        it.models = {('func', get.qual): lambda b: mk('obj', 'snapshot')}
        r = it.run(f, bind={kwn: FALSE}, selfcls=c)
        n = [e for e, m in opens(r) if m is not None and writes(m)]
        rep.ob('only-when-asked', '%s.make_property' % cname, not n, n[0].where if n else wh(f), 'a property made without asking for it to be written opens a file for writing')


# ------------------------------------------------------------------ closing
def opener(prog, f, call, helpers):
    t = prog.resolve_expr(f.module, call.func)
    if t is None and isinstance(call.func, ast.Name) and call.func.id == 'open':
        return 'open'
    if t and t[0] == 'ext' and t[1] in OPENERS:
        return t[1]
    if t and t[0] == 'func' and t[1] in helpers:
        return t[1].name
    if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id in ('self', 'cls') and f.cls:
        g = prog.lookup(f.cls, call.func.attr)
        if g in helpers:
            return g.name
    return None


def parents(root):
    out = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def own_nodes(f):
    """nodes of the function, not of functions inside it"""
    todo = list(ast.iter_child_nodes(f.node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def closed(prog, rep):
    helpers = set()
    for _ in range(3):
        before = len(helpers)
        for f in prog.funcs.values():
            if isinstance(f.node, ast.Lambda):
                continue
            for n in own_nodes(f):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and opener(prog, f, n.value, helpers):
                    helpers.add(f)
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Name):
                    for a in own_nodes(f):
                        if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id == n.value.id and \
                                isinstance(a.value, ast.Call) and opener(prog, f, a.value, helpers):
                            helpers.add(f)
        if len(helpers) == before:
            break
    for q in sorted(prog.funcs):
        f = prog.funcs[q]
        if isinstance(f.node, ast.Lambda):
            continue
        par = None
        for n in own_nodes(f):
            if not isinstance(n, ast.Call):
                continue
            nm = opener(prog, f, n, helpers)
            if nm is None:
                continue
            rep.saw(f)
            par = par or parents(f.node)
            why = leak(f, n, par, f in helpers)
            rep.ob('closed', '%s %s' % (cn(q), nm), why is None, wh(f, n), 'the file opened here %s' % why)


def leak(f, call, par, helper):
    p = par.get(call)
    n = call
    while True:
        if isinstance(p, ast.withitem):
            return None
        if isinstance(p, ast.Call) and n is not p.func:
            nm = p.func.attr if isinstance(p.func, ast.Attribute) else p.func.id if isinstance(p.func, ast.Name) else ''
            if nm == 'enter_context':
                return None
            if nm == 'closing':
                n, p = p, par.get(p)
                continue
            return None        # handed to another call: not followed
        if isinstance(p, ast.IfExp):
            n, p = p, par.get(p)
            continue
        break
    if isinstance(p, ast.Return):
        return None if helper else 'is returned open'
    if isinstance(p, ast.NamedExpr) or isinstance(p, (ast.Assign, ast.AnnAssign)):
        t = p.targets[0] if isinstance(p, ast.Assign) else p.target
        if not isinstance(t, ast.Name):
            return None        # kept in an object: not followed
        return paths(f, p, t.id, helper)
    if isinstance(p, (ast.Attribute, ast.Subscript, ast.Expr)):
        return 'is never closed'
    return None


class Walk(object):
    def __init__(self, opening, name, helper):
        self.o, self.name, self.helper, self.bad = opening, name, helper, None

    def closes(self, s):
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('close', '__exit__') and isinstance(n.func.value, ast.Name) and n.func.value.id == self.name:
                return True
        return False

    def block(self, stmts, st):
        """st: set of booleans (file open); returns {kind: set}"""
        out = {}
        cur = set(st)
        for s in stmts:
            if not cur:
                break
            r = self.stmt(s, cur)
            cur = r.pop('fall', set())
            for k, v in r.items():
                out.setdefault(k, set()).update(v)
        out.setdefault('fall', set()).update(cur)
        return out

    def merge(self, *rs):
        out = {}
        for r in rs:
            for k, v in r.items():
                out.setdefault(k, set()).update(v)
        return out

    def stmt(self, s, cur):
        if s is self.o or any(n is self.o for n in ast.walk(s)) and not isinstance(s, (ast.For, ast.While, ast.If, ast.Try, ast.With, ast.FunctionDef)):
            return {'fall': {True}}
        if isinstance(s, ast.Return):
            if isinstance(s.value, ast.Name) and s.value.id == self.name and self.helper:
                return {'return': {False}}
            return {'return': {False} if s.value is not None and self.closes(s) else cur}
        if isinstance(s, ast.Raise):
            return {'raise': cur}
        if isinstance(s, ast.Break):
            return {'break': cur}
        if isinstance(s, ast.Continue):
            return {'continue': cur}
        if isinstance(s, ast.If):
            a, b = self.block(s.body, cur), self.block(s.orelse, cur)
            if any(isinstance(n, ast.Name) and n.id == self.name for n in ast.walk(s.test)) and any(self.closes(x) for x in s.body + s.orelse):
                return {k: ({False} if k == 'fall' else v) for k, v in self.merge(a, b).items()}
            return self.merge(a, b)
        if isinstance(s, (ast.For, ast.While)):
            inside = any(n is self.o for n in ast.walk(s))
            r = self.block(s.body, cur)
            end = r.get('fall', set()) | r.get('continue', set())
            if inside and True in end:
                self.bad = self.bad or 'is still open when the next round of the loop starts'
            r2 = self.block(s.orelse, end | cur)
            fall = r2.pop('fall', set()) | r.get('break', set())
            return self.merge({k: v for k, v in r.items() if k in ('return', 'raise')}, r2, {'fall': fall})
        if isinstance(s, (ast.With, ast.AsyncWith)):
            if any(isinstance(i.context_expr, ast.Name) and i.context_expr.id == self.name or
                   isinstance(i.context_expr, ast.Call) and any(isinstance(a, ast.Name) and a.id == self.name for a in i.context_expr.args) for i in s.items):
                r = self.block(s.body, cur)
                return {k: {False} for k in r if r[k]}
            return self.block(s.body, cur)
        if isinstance(s, ast.Try):
            r = self.block(s.body, cur)
            start = cur | {x for v in r.values() for x in v}
            hs = [self.block(h.body, start) for h in s.handlers]
            if s.handlers:
                r.pop('raise', None)
            e = self.block(s.orelse, r.pop('fall', set()))
            m = self.merge(r, e, *hs)
            if s.finalbody and any(self.closes(x) for x in s.finalbody):
                return {k: {False} for k in m if m[k]}
            return m
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return {'fall': cur}
        if self.closes(s):
            return {'fall': {False}}
        return {'fall': cur}


def paths(f, opening, name, helper):
    w = Walk(opening, name, helper)
    r = w.block(f.node.body, {False})
    if w.bad:
        return w.bad
    for k, v in r.items():
        if True in v:
            return 'is not closed on a path that ends in %s' % {'fall': 'the end of the function', 'return': 'a return', 'raise': 'an error'}.get(k, k)
    return None


# ------------------------------------------------------------------ whole columns
def whole(prog, rep):
    c = prog.cls('Handler')
    # made properties
    f = prog.lookup(c, 'make_property')
    rep.saw(f)
    pr = P('property')
    for v in (TRUE, FALSE):
        host = Table()
        pre = dict(H01.world(host, H01.BY))
        pre.update(H01.propattrs('P'))
        it, r = prepare(prog, f, dict(property=pr, use_all_inds=v), c, attrs={}, models={(pr, 'evaluate_all'): lambda a, k: L(H01.val('P', 'M'))})
        it = Interp(prog, inline=lambda a, b: True, depth=6)
        it.host = host
        it.preset = pre
        it.preset.update({(ME, 'inds_all'): ALL, (ME, 'inds_active'): ACT, (ME, 'nhalos_all'): N, (ME, 'nhalos_active'): NACT})
        it.models = {(pr, 'evaluate_all'): lambda a, k: L(H01.val('P', 'M'))}
        r = it.run(f, bind=defaults(it, f, dict(property=pr, use_all_inds=v)), selfcls=c)
        for x in normal(r):
            d = at(x.state, 'properties_loaded')
            t = dict(d.a[0]).get(K('P')) if d is not None and d.op == 'dict' else None
            n = length(t) if t is not None else None
            if n is None:
                continue
            rep.ob('whole-column', 'made with use_all_inds=%s' % v.a[0], n is N, wh(f), 'the values kept for a made property have %s entries, not one per object' % show(n))
    # refusing to write with a restricted selection
    pre = {}
    it = Interp(prog, inline=lambda a, b: b.name not in ('write_property', 'unload_property'), depth=6)
    it.host = Table()
    it.preset = dict(H01.world(it.host, H01.BY))
    it.preset.update(H01.propattrs('P'))
    it.preset.update({(ME, 'inds_all'): ALL, (ME, 'inds_active'): ACT, (ME, 'nhalos_all'): N, (ME, 'nhalos_active'): NACT})
    it.models = {(pr, 'evaluate_all'): lambda a, k: L(H01.val('P', 'M'))}
    r = it.run(f, bind=defaults(it, f, dict(property=pr, use_all_inds=FALSE, write_to_disk=TRUE)), selfcls=c)
    for x in normal(r):
        ok = None
        for g, p in x.guards:
            s = same(g, p)
            ok = s if ok is None else ok or s
        rep.ob('whole-column', 'writing while a selection is active', ok is not False and ok is not None, wh(f), 'a property made for the selected objects only is written to the file')
    # writing
    g = prog.lookup(c, 'write_property')
    rep.saw(g)
    for state in ('generated', 'stored, replaced in memory'):
        for over in (TRUE, FALSE):
            host = Table()
            it = Interp(prog, inline=lambda a, b: True, depth=6)
            it.host = host
            it.preset = dict(H01.world(host, dict(H01.BY, P=H01.STATES[state])))
            it.preset.update({(ME, 'inds_all'): ALL, (ME, 'inds_active'): ACT, (ME, 'nhalos_all'): N, (ME, 'nhalos_active'): NACT})
            bind = {'overwrite': over}
            bind[g.vararg or 'property_names'] = mk('tuple', K('P'))
            r = it.run(g, bind=defaults(it, g, bind), selfcls=c)
            for x in normal(r):
                o = H01.look(x, host)
                if o is None or 'P' not in o['disk']:
                    continue
                t = strip(o['disk']['P'][0])
                if H01.val('P', 'N') not in subterms(t):
                    continue
                ok = t is H01.val('P', 'N')
                part = any(y.op in ('sub', 'upd') for y in subterms(t))
                if ok or part:
                    rep.ob('whole-column', 'written (%s, overwrite=%s)' % (state, over.a[0]), ok, wh(g), 'what is stored is %s, not the whole column' % show(t)[:120])
    # columns added to lightcones
    lc = prog.cls('GenericLCMaker')
    for n in ('add_properties', 'add_pos_properties'):
        f = prog.lookup(lc, n)
        rep.saw(f)
        r = result(prog, f, selfcls=lc)
        for e in r.ev('mcall'):
            if e.name != 'create_dataset' or (e.kws or {}).get('data') is not None or len(e.args) > 3:
                continue
            sh = (e.kws or {}).get('shape', e.args[1] if len(e.args) > 1 else None)
            if sh is None:
                continue
            for _, s in leaves(sh):
                known = s.op == 'attr' and s.a[1] == 'shape' and s.a[0].op == 'sub'
                if not known:
                    continue
                k = s.a[0].a[1]
                rep.ob('whole-column', 'GenericLCMaker.%s' % n, is_const(k, 'sim_indices') or k.op == 'const' and k.a[0] in ('pos_x', 'pos_y', 'pos_z', 'ra', 'dec', 'redshift', 'mass'), e.where,
                       'a column is added with the length of %s' % show(k))


def strip(t):
    while True:
        if t.op == 'mcall' and t.a[0] in ('astype', 'copy'):
            t = t.a[1]
        elif t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0].rpartition('.')[2] in ('array', 'asarray', 'copy', 'ascontiguousarray') and t.a[1]:
            t = t.a[1][0]
        elif t.op == 'sub' and full(t.a[1]):
            t = t.a[0]
        elif t.op == 'upd' and full(t.a[1]):
            t = t.a[2]
        else:
            return t


def length(t):
    while t.op == 'upd':
        t = t.a[0]
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.empty', 'numpy.full', 'numpy.zeros', 'numpy.ones'):
        n = t.a[1][0] if t.a[1] else dict(t.a[2]).get('shape')
        if n is None:
            return None
        if n.op in ('tuple', 'list') and len(n.a) == 1:
            n = n.a[0]
        return count(n)
    if t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('numpy.full_like', 'numpy.zeros_like', 'numpy.empty_like', 'numpy.ones_like') and t.a[1]:
        return N if t.a[1][0] is ALL else NACT if t.a[1][0] is ACT else None
    if t is H01.val('P', 'M'):
        return NACT
    return None


def count(n):
    if n is N or n is NACT:
        return n
    for a, k in ((ALL, N), (ACT, NACT)):
        if is_call(n, 'builtins.len') and n.a[1][0] is a or n.op == 'attr' and n.a[1] == 'size' and n.a[0] is a or n.op == 'sub' and n.a[0].op == 'attr' and n.a[0].a[1] == 'shape' and n.a[0].a[0] is a:
            return k
    return None


def same(g, p):
    """True: the guard says the selection holds every object, False: it says nothing of the kind or the opposite"""
    while g.op == 'not':
        g, p = g.a[0], not p
    s = subterms(g)
    both = ALL in s and ACT in s or (N in s or ALL in s) and (NACT in s or ACT in s)
    if not both:
        return False
    if is_call(g, 'numpy.all', 'numpy.array_equal', 'builtins.all') or g.op == 'mcall' and g.a[0] == 'all':
        x = g.a[1][0] if g.op == 'call' else g.a[1]
        if x.op == 'cmp' and x.a[0] == '!=':
            return not p
        return p
    if is_call(g, 'numpy.any', 'builtins.any') or g.op == 'mcall' and g.a[0] == 'any':
        x = g.a[1][0] if g.op == 'call' else g.a[1]
        if x.op == 'cmp' and x.a[0] == '==':
            return False
        return not p
    if g.op == 'cmp' and g.a[0] in ('==', '!=', '<', '>', '<=', '>='):
        if g.a[0] == '==':
            return p
        if g.a[0] in ('!=', '<', '>'):
            return not p
        return True
    return True
