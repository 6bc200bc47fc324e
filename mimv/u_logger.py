"""C20: the Python callback logger (bindings/mim_solvers/__init__.py) and the property table of the bindings it reads."""
import json
import os
import subprocess
from . import front
from .pyv import Py, PyDict, PyList, Obj, Sym, Attr, Copy, Const
from .symex import Ob, Stats, Unsupported
from .unit import add, Spec
from .spec import fld
from .u_settings import val_eq

# history -> (attribute of the solver, mutable container)
COMMON = {'us': ('us', True), 'xs': ('xs', True), 'fs': ('fs', True), 'iter': ('iter', False), 'cost': ('cost', False),
          'merit': ('merit', False), 'preg': ('preg', False), 'dreg': ('dreg', False), 'step': ('stepLength', False),
          'KKT': ('KKT', False)}
WANT = {'SQP': dict(COMMON),
        'CSQP': dict(COMMON, gap_norm=('gap_norm', False), constraint_norm=('constraint_norm', False),
                     qp_iter=('qp_iters', False))}
# what the attribute must be on the C++ side, when the bindings of this repository define it
CXX = {'KKT': 'KKT_', 'merit': 'merit_', 'gap_norm': 'gap_norm_', 'constraint_norm': 'constraint_norm_',
       'qp_iters': 'qp_iters_', 'us': 'us_', 'xs': 'xs_', 'fs': 'fs_', 'iter': 'iter_', 'cost': 'cost_', 'preg': 'preg_',
       'dreg': 'dreg_', 'stepLength': 'steplength_'}
# attributes crocoddyl's own SolverAbstract bindings define (assumed to return the member of that name)
BASE = {'us', 'xs', 'fs', 'iter', 'cost', 'preg', 'dreg', 'stepLength'}


class PyEx:
    """collects obligations about Python code"""

    def __init__(self, prop='C20'):
        self.prop = prop
        self.obs, self.stats, self.notes, self.invariants, self.funcs_seen = {}, Stats(), set(), [], {}
        self.oblig_on = True

    def rec(self, name, ok, detail='', where=None):
        k = (self.prop, name)
        st = 'proved' if ok is True else 'refuted' if ok is False else 'unknown'
        rank = {'proved': 0, 'unknown': 1, 'refuted': 2}
        o = self.obs.get(k)
        if o is None:
            self.obs[k] = Ob(self.prop, name, st, '' if ok is True else detail, where)
        else:
            o.n += 1
            if rank[st] > rank[o.status]:
                o.status, o.detail = st, detail


def _src():
    p = os.path.join(front.REPO, 'bindings', 'mim_solvers', '__init__.py')
    return open(p).read(), 'bindings/mim_solvers/__init__.py'


def opaque(v):
    """the value is built from pieces the executor knows exactly"""
    return not isinstance(v, (Attr, Copy, Const, PyList, Sym))


def u_call(r):
    ex = PyEx()
    r.exs.append(ex)
    src, where = _src()
    py = Py(src, 'CallbackLogger')
    ex.funcs_seen['CallbackLogger.__call__ (%s)' % where] = 1
    box = {}

    def run():
        py.fields = {'convergence_data': PyDict(hist='data')}
        box['fields'] = py.fields
        py.call_method('__call__', Obj('self'), [Obj('solver'), Sym('solver_type')])
        return py.fields
    # the failing path also needs the fields: wrap
    res = []

    def run2():
        try:
            run()
            e = None
        except Exception:
            res.append((box['fields'], dict(py.eqs)))
            raise
        res.append((box['fields'], dict(py.eqs)))
        return None
    try:
        ps = py.explore(run2)
    except Unsupported as e:
        if 'too many paths' not in str(e):
            raise
        # some of the paths: a failing one is a failing one, but nothing is proved
        res.clear()
        ps = py.explore(run2, 1500, True, True) + py.explore(run2, 1500, False, True)
        ex.rec('__call__ is followed on every path', None, 'too many paths, a part of them was followed')
    ex.stats.queries += len(ps)
    seen = {'SQP': 0, 'CSQP': 0, 'other': 0}
    ex.rec('__call__ is followed on every path', True)
    for p, (fl, eqs) in zip(ps, res):
        typ = eqs.get('solver_type', 'other')
        if typ not in WANT:
            typ = 'other'
        seen[typ] += 1
        d = fl.get('convergence_data')
        txt = 'path %s' % {k: v for k, v in list(p.facts.items())[:4]}
        if not isinstance(d, PyDict) or d.hist != 'data':
            ex.rec('the log stays the same object', False, '%s: convergence_data is replaced by %r' % (txt, d), where)
            continue
        other = [k for k in fl if k != 'convergence_data']
        ex.rec('the solver is not written to', not p.writes, '%s writes %s' % (txt, p.writes), where)
        if typ == 'other':
            touched = [k for k, v in d.d.items() if not (isinstance(v, PyList) and v.base == k and not v.items)]
            ex.rec('a solver of another type leaves the log unchanged', not touched, '%s: changes %s' % (txt, touched), where)
            ex.rec('a solver of another type is rejected', p.out == 'raise', txt + ': returns normally', where)
            continue
        if p.out == 'raise':
            ex.rec('%s: the call does not fail' % typ, False, '%s: raises %s' % (txt, p.val), where)
            continue
        ex.rec('%s: the call does not fail' % typ, True)
        for key, (attr, mutable) in WANT[typ].items():
            v = d.d.get(key)
            name = '%s: history %r grows by exactly one entry' % (typ, key)
            if v is None or not isinstance(v, PyList):
                ex.rec(name, False if v is None or not opaque(v) else None, '%s: holds %r' % (txt, v), where)
                continue
            old = p.facts.get('in:data:' + key)
            keeps = (v.base == key) if old else v.base is None
            ex.rec('%s: earlier entries of %r are kept' % (typ, key), keeps,
                   '%s: %s' % (txt, 'starts again' if old else 'starts from %r' % v.base), where)
            ex.rec(name, len(v.items) == 1, '%s: appends %r' % (txt, v.items), where)
            for it in v.items[:1]:
                base, cp = it, False
                while isinstance(base, Copy):
                    base, cp = base.of, True
                if isinstance(base, Attr) and base.obj.name == 'solver':
                    ex.rec('%s: %r is the %s of the solver' % (typ, key, attr), base.name == attr,
                           '%s: logs solver.%s' % (txt, base.name), where)
                    ex.rec('%s: the entry of %r cannot change later' % (typ, key), cp or not mutable,
                           '%s: logs a reference to solver.%s, not a copy' % (txt, base.name), where)
                elif isinstance(base, (Const, PyList, Obj)):
                    ex.rec('%s: %r is the %s of the solver' % (typ, key, attr), False, '%s: logs %r' % (txt, it), where)
                else:
                    ex.rec('%s: %r is the %s of the solver' % (typ, key, attr), None, '%s: logs %r' % (txt, it), where)
        for key, v in d.d.items():
            if key in WANT[typ] or key not in set(WANT['SQP']) | set(WANT['CSQP']):
                continue
            if isinstance(v, PyList) and (v.items or v.base != key):
                ex.rec('%s: no history of another kind grows' % typ, False, '%s: %r holds %r' % (txt, key, v), where)
        extra = {}
        for key, v in d.d.items():
            if key not in WANT[typ] and isinstance(v, PyList) and v.items:
                ex.rec('%s: an additional history %r grows by one entry' % (typ, key), len(v.items) == 1, txt, where)
    for t, n in seen.items():
        ex.rec('cover: a path for solver type %s' % t, True if n else (False if t != 'other' else False),
               'no path of __call__ handles it', where)


def u_init(r):
    ex = PyEx()
    r.exs.append(ex)
    src, where = _src()
    py = Py(src, 'CallbackLogger')
    ex.funcs_seen['CallbackLogger.__init__ (%s)' % where] = 1

    def run():
        py.fields = {}
        py.call_method('__init__', Obj('self'), [])
        return py.fields
    for p in py.explore(run):
        if p.out == 'raise':
            ex.rec('the constructor does not fail', False, 'raises %s' % p.val, where)
            continue
        d = p.val.get('convergence_data')
        ok = isinstance(d, PyDict) and d.hist is None and not any(
            not isinstance(v, PyList) or v.items for v in d.d.values())
        ex.rec('the log starts empty', ok if ok or isinstance(d, (PyDict, Const, type(None))) else None,
               'convergence_data is %r' % (d,), where)
        ex.rec('loggers share no history', not getattr(d, 'shared', False), 'the log is an object all loggers share', where)


# ------------------------------------------------------------------ bindings
def bind_docs(filt, fn):
    py = os.popen('ls -d /opt/mim-venv/lib/python3*/site-packages/numpy/_core/include 2>/dev/null').read().split()
    inc = ['-isystem', '/usr/include/python3.12']
    for x in py:
        inc += ['-isystem', x]
    cmd = ['clang++'] + front.flags() + inc + ['-I%s/bindings' % front.REPO, '-w', '-fsyntax-only', '-Xclang',
                                              '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt,
                                              os.path.join(front.REPO, 'bindings', fn)]
    o = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if o.returncode != 0:
        raise Unsupported('clang does not accept bindings/%s: %s' % (fn, o.stderr[:300]))
    dec = json.JSONDecoder()
    s, i, docs = o.stdout, 0, []
    while i < len(s):
        while i < len(s) and s[i].isspace():
            i += 1
        if i < len(s):
            d, i = dec.raw_decode(s, i)
            docs.append(d)
    return docs


def _lit(m):
    while m:
        if m.get('kind') == 'StringLiteral':
            return json.loads(m['value'])
        m = (m.get('inner') or [None])[0]
    return None


def _refs(n, out):
    if n.get('kind') == 'LambdaExpr':
        out.append(('lambda', ''))
        return
    if n.get('kind') == 'DeclRefExpr':
        d = n['referencedDecl']
        if d['kind'] in ('CXXMethodDecl', 'FieldDecl', 'FunctionDecl', 'VarDecl') and \
                d['name'] not in ('make_function', 'make_getter', 'make_setter'):
            out.append((d['kind'], d['name']))
    for c in n.get('inner', []):
        _refs(c, out)


def table(filt, fn):
    """[(property name, [getter ref], [setter ref])] in source order"""
    out = []

    def walk(n):
        ks = n.get('inner', [])
        if n.get('kind') == 'CXXMemberCallExpr' and ks and ks[0].get('kind') == 'MemberExpr' and \
                ks[0].get('name') in ('add_property', 'def_readwrite', 'def_readonly'):
            walk(ks[0])
            name = _lit(ks[1])
            gs = []
            for c in ks[2:]:
                o = []
                if _lit(c) is None:
                    _refs(c, o)
                    gs.append(o)
            out.append((name, gs, ks[0]['name']))
            return
        for c in ks:
            walk(c)
    for d in bind_docs(filt, fn):
        if d.get('kind') == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', [])):
            walk(d)
    return out


FILES = {'SolverSQP': ('sqp.cpp', 'SQP'), 'SolverCSQP': ('csqp.cpp', 'CSQP'), 'SolverDDP': ('ddp.cpp', None),
         'SolverFDDP': ('fddp.cpp', None), 'SolverPROXQP': ('csqp_proxqp.cpp', None)}


def getter_field(r, ex, cls, g):
    """the value returned by method g of cls, on an arbitrary object -> [(path value, executor)]"""
    f = ex.prog.find_method(cls, g, 0)
    if f is None:
        raise Unsupported('getter %s::%s not found' % (cls, g))
    return r.paths(ex, f, [])


def u_getters(cls):
    fn, typ = FILES[cls]

    def run(r):
        tab = table('expose' + cls, fn)
        if not tab:
            raise Unsupported('no properties found in bindings/%s' % fn)
        px = PyEx()
        r.exs.append(px)
        px.funcs_seen['expose%s (bindings/%s)' % (cls, fn)] = 1
        last = {}
        for name, gs, kind in tab:
            last[name] = (gs, kind)
        for key, (attr, _) in WANT[typ].items():
            nm = 'solver.%s (history %r) reads %s' % (attr, key, CXX[attr])
            if attr not in last:
                if attr in BASE:
                    px.notes.add('crocoddyl\'s own bindings return the member of that name for %s' % ', '.join(sorted(BASE)))
                else:
                    px.rec(nm, None, 'no add_property for it found in bindings/%s' % fn)
                continue
            gs, kind = last[attr]
            if not gs or len(gs[0]) != 1 or gs[0][0][0] not in ('CXXMethodDecl', 'FieldDecl'):
                px.rec(nm, None, 'getter of an unknown form: %r' % (gs,))
                continue
            k, g = gs[0][0]
            if k == 'FieldDecl':
                px.rec(nm, g == CXX[attr], 'bound to %s' % g, 'bindings/' + fn)
                continue
            ex = r.ex(cls)
            S = Spec(ex, 'C20')
            for p in getter_field(r, ex, cls, g):
                S.enter(p)
                if p.out != 'norm':
                    S.rec(nm, 'refuted', 'the getter throws')
                else:
                    v = ex.deref(p.val)
                    want = fld(ex, CXX[attr])
                    if not val_eq(ex, v, want):
                        S.rec(nm, 'refuted', 'bound to %s, which returns %r' % (g, v))
                    else:
                        S.rec(nm, 'proved', '')
                S.leave()
    return run


def u_forward(r):
    """the C++ side hands the Python object the solver itself and its type"""
    px = PyEx()
    r.exs.append(px)
    px.funcs_seen['CallbackAbstract_wrap::operator() (bindings/utils/callback-base.hpp)'] = 1
    docs = bind_docs('CallbackAbstract_wrap', 'utils/callback-base.cpp')
    found = 0

    def refs(n, out):
        if n.get('kind') == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'ParmVarDecl':
            out.append(n['referencedDecl']['name'])
        for c in n.get('inner', []):
            refs(c, out)

    def calls(n, out):
        if n.get('kind') == 'CallExpr':
            o = []
            for c in n['inner'][:1]:
                _all(c, o)
            if 'call' in o:
                out.append(n)
                return
        for c in n.get('inner', []):
            calls(c, out)

    def _all(n, out):
        if n.get('kind') == 'DeclRefExpr':
            out.append(n['referencedDecl']['name'])
        for c in n.get('inner', []):
            _all(c, out)

    def lits(n, out):
        if n.get('kind') == 'StringLiteral':
            out.append(json.loads(n['value']))
        for c in n.get('inner', []):
            lits(c, out)

    def walk(n):
        nonlocal found
        if n.get('kind') == 'CXXMethodDecl' and n.get('name') == 'operator()' and \
                any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
            ps = [c.get('name') for c in n['inner'] if c.get('kind') == 'ParmVarDecl']
            if len(ps) == 2:
                body = [c for c in n['inner'] if c.get('kind') == 'CompoundStmt'][0]
                cs = []
                calls(body, cs)
                found += 1
                if len(cs) != 1 or len(body['inner']) != 1:
                    px.rec('the Python callback gets the solver and its type', None, 'body of an unknown form')
                    return
                ls, args = [], []
                lits(cs[0], ls)
                for c in cs[0]['inner'][2:]:
                    if c.get('kind') == 'CXXDefaultArgExpr':
                        continue
                    o = []
                    refs(c, o)
                    args.append(o)
                px.rec('the Python callback gets the solver and its type',
                       ls == ['__call__'] and args == [[ps[0]], [ps[1]]] or None,
                       'override %r called with %r' % (ls, args))
        for c in n.get('inner', []):
            walk(c)
    for d in docs:
        walk(d)
    if not found:
        raise Unsupported('CallbackAbstract_wrap::operator() not found')


def register(prog):
    add('CallbackLogger.__init__: an empty log', ['C20'], u_init, safety=False)
    add('CallbackLogger.__call__: one entry per call in each history, equal to the state of the solver', ['C20'], u_call,
        safety=False)
    for c in ('SolverSQP', 'SolverCSQP'):
        add('bindings of %s: the properties the logger reads are the solver\'s own quantities' % c, ['C20'], u_getters(c),
            safety=False)
    add('CallbackAbstract_wrap: forwards the solver and its type', ['C20'], u_forward, safety=False)
