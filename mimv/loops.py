"""Loop rules of the executor.

Data loops (canonical counting / range loops): the body is executed once for a generic index, which
gives the exact per-index definition of every element written (with back references to elements
written by earlier iterations as recursively defined symbols), sums, maxima and 'or' accumulations.
Control loops (retry, line search, outer iteration): inductive invariants found by Houdini."""
import time
import z3
from . import terms as tm
from .terms import App, Poly, Mat, P, Subst, to_z3, zpoly
from .values import *
from . import front
from .symex import (Unsupported, LoopUnsupported, CppThrow, Ret, Brk, Cont, Infeasible, LV, LVar, LField, LElem,
                    LTemp, zand, _EvBase, integral, psum,
                    strip as strip_node, pure as pure_node)


# ------------------------------------------------------------------ aggregates
def poly_atoms_deep(p, out=None, seen=None):
    """all App atoms occurring anywhere in a Poly/Mat/App"""
    if out is None:
        out, seen = [], set()
    st = [p]
    while st:
        x = st.pop()
        if isinstance(x, App):
            if x.id in seen:
                continue
            seen.add(x.id)
            out.append(x)
            st.extend(x.args)
        elif isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    st.append(a)
        elif isinstance(x, Mat):
            for w, c in x.t.items():
                st.append(c)
                for f in w:
                    st.append(f.atom)
        elif isinstance(x, tm.Z):
            out.append(x)
        elif isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, tm.MF):
            st.append(x.atom)
    return out


def z_mentions(e, decl_ids):
    st, seen = [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().get_id() in decl_ids:
                return True
            st.extend(x.children())
    return False


def val_atoms(v):
    """atoms of a value, and z3 expressions"""
    if isinstance(v, (Sc, In)):
        return poly_atoms_deep(v.p), ([v.nan] if isinstance(v, Sc) and v.nan is not None else [])
    if isinstance(v, Bo):
        return [], [v.b]
    if isinstance(v, EV):
        return poly_atoms_deep(v.m) + poly_atoms_deep(v.r), ([v.nan] if v.nan is not None else [])
    if isinstance(v, LLT):
        return val_atoms(v.m) if v.m is not None else ([], [])
    if isinstance(v, Arr):
        a, z = [], []
        if isinstance(v.base, _EvBase):
            x, y = val_atoms(v.base.ev)
            a += x
            z += y
        else:
            for p in v.base.params:
                a += poly_atoms_deep(p)
        for l in v.layers:
            if isinstance(l, St):
                x, y = val_atoms(l.val)
                a += x + poly_atoms_deep(l.idx)
                z += y
            elif isinstance(l, Rng):
                for gs, w in l.cases:
                    z += list(gs)
                    if w is not None:
                        x, y = val_atoms(w)
                        a += x
                        z += y
                for p in l.params:
                    a += poly_atoms_deep(P(p))
        return a, z
    if isinstance(v, Flat):
        return val_atoms(v.arr)
    if isinstance(v, Circ):
        return [], [v.log, v.nlog, to_z3(v.end), to_z3(v.size)]
    return [], []


def z_names(e, out):
    st, seen = [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            out.add(x.decl().name().split('|')[0])
            st.extend(x.children())
    return out


def value_names(v):
    a, z = val_atoms(v)
    s = set(x.name for x in a if isinstance(x, App))
    for x in a:
        if isinstance(x, tm.Z):
            z_names(x.e, s)
    for e in z:
        z_names(e, s)
    return s


def cases_over(ex, var, lo, hi, fn):
    """explore fn() for a generic index lo <= var < hi: list of (guards, Poly)"""
    zi = to_z3(P(var))
    rng = [to_z3(P(lo)) <= zi, zi < to_z3(P(hi))]
    key = None
    npc = len(ex.pc)

    def run():
        for r in rng:
            ex.pc.append(r)
        v = fn()
        return v.p if isinstance(v, (Sc, In)) else P(v)
    on = ex.oblig_on
    ex.oblig_on = False
    ex.loopvars.append(var)
    try:
        ps = ex.explore(run)
    finally:
        ex.oblig_on = on
        ex.loopvars.pop()
    out = {}
    for p in ps:
        g = [c for c in p.pcs if not any(z3.eq(c, r) for r in rng)]
        if p.out != 'norm':
            raise LoopUnsupported('aggregate body does not end normally')
        k = p.val.key()
        if k in out:
            out[k][0].append(zand(g))
        else:
            out[k] = [[zand(g)], p.val]
    r = []
    for gl, v in out.values():
        g = gl[0] if len(gl) == 1 else z3.Or(*gl)
        r.append(([g], v))
    if len(r) == 1:
        r = [([], r[0][1])]
    return r


class Agg:
    __slots__ = ('kind', 'name', 'params', 'var', 'lo', 'hi', 'cases', 'base')

    def __init__(self, kind, name, params, var, lo, hi, cases, base=None):
        self.kind, self.name, self.params, self.var = kind, name, tuple(params), var
        self.lo, self.hi, self.cases, self.base = P(lo), P(hi), cases, base


def _agg_app(ex, kind, params, var, lo, hi, cases, base=()):
    cases = [([g for g in gs if not z3.is_true(g)], v) for gs, v in cases]
    k = tm.intern((kind, var.id, P(lo).key(), P(hi).key(), tuple(tuple(g.get_id() for g in gs) + (v.key(),) for gs, v in cases),
                   tuple(P(b).key() for b in base), tuple(p.id for p in params)))
    name = '%s@%d' % (kind, k)
    ex.keep.append(cases)
    if name not in ex.aggs:
        ex.aggs[name] = Agg(kind, name, params, var, lo, hi, cases, base)
    return App(name, tuple(P(p) for p in params), 'real')


def _hash_stable():
    pass


def free_params(ex, var, lo, hi, cases):
    """enclosing loop variables the aggregate depends on"""
    names = set()
    for gs, v in cases:
        for g in gs:
            z_names(g, names)
        for a in poly_atoms_deep(v):
            names.add(a.name if isinstance(a, App) else '')
            if isinstance(a, tm.Z):
                z_names(a.e, names)
    for p in (lo, hi):
        for a in poly_atoms_deep(P(p)):
            if isinstance(a, App):
                names.add(a.name)
    return [p for p in ex.loopvars if p.name in names and p is not var]


def sum_cases(ex, var, lo, hi, cases):
    """Poly for sum_{lo<=var<hi} cases, split linearly"""
    if all(v.is_zero() for _, v in cases):
        return P(0)
    if len(cases) == 1 and not cases[0][0]:
        v = cases[0][1]
        out = P(0)
        dep = {}
        for mono, c in v.t.items():
            ind = tuple((a, p) for a, p in mono if not mentions(a, var))
            rest = tuple((a, p) for a, p in mono if mentions(a, var))
            if not rest:
                out = out + Poly({ind: c}) * (P(hi) - P(lo))
            else:
                dep.setdefault(ind, []).append((rest, c))
        for ind, ls in dep.items():
            for rest, c in ls:
                body = Poly({rest: tm.Fraction(1)})
                ps = free_params(ex, var, lo, hi, [([], body)])
                out = out + Poly({ind: c}) * P(_agg_app(ex, 'sum', ps, var, lo, hi, [([], body)]))
        return out
    ps = free_params(ex, var, lo, hi, cases)
    return P(_agg_app(ex, 'sum', ps, var, lo, hi, cases))


def mentions(a, var):
    for x in poly_atoms_deep(a):
        if x is var:
            return True
        if isinstance(x, tm.Z) and z_mentions(x.e, {var.z3().decl().get_id()}):
            return True
    return False


def sum_over(ex, name, var, lo, hi, fn):
    return sum_cases(ex, var, lo, hi, cases_over(ex, var, lo, hi, fn))


def max_atom(ex, name, var, lo, hi, cases, base=()):
    from .lib import mm
    fam = []
    r = None
    for gs, v in cases:
        gs = [g for g in gs if not z3.is_true(g)]
        els = max_args(v)
        fam.extend((gs, e) for e in els)
    live = [(gs, e) for gs, e in fam if not (e.is_zero() and any(P(b).is_zero() for b in base))]
    if live:
        ps = free_params(ex, var, lo, hi, live)
        r = P(_agg_app(ex, 'max', ps, var, lo, hi, live, ()))
    for b in base:
        r = P(b) if r is None else mm('max', r, P(b))
    return r if r is not None else P(0)


def max_args(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].name == 'maxn':
            return [P(q) for q in m[0][0].args]
    return [p]


# ------------------------------------------------------------------ loop heads
def unparen(n):
    while n is not None and n.kind in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ImplicitCastExpr',
                                       'CXXBindTemporaryExpr', 'ConstantExpr'):
        n = next((c for c in n.inner if c), None)
    return n


def is_var(n, vid):
    n = unparen(n)
    return n is not None and n.kind == 'DeclRefExpr' and n.ref and n.ref[2] == vid


def canonical(ex, n):
    """(var decl, bound node, rel, dir) of a counting loop, or None"""
    init, cv, cond, inc, body = (list(n.inner) + [None] * 5)[:5]
    if init is None or cond is None or inc is None or init.kind != 'DeclStmt':
        return None
    ds = [d for d in init.inner if d]
    if len(ds) != 1 or ds[0].kind != 'VarDecl':
        return None
    d = ds[0]
    cond = unparen(cond)
    if cond.kind == 'BinaryOperator' and cond.op in ('<', '<=', '>', '>=', '!='):
        a, b, rel = cond.inner[0], cond.inner[1], cond.op
    elif cond.kind == 'CXXOperatorCallExpr':
        c = ex.callee_ref(cond)
        o = c.ref[1] if c.kind == 'DeclRefExpr' and c.ref else ''
        if o not in ('operator!=', 'operator<'):
            return None
        a, b, rel = cond.inner[1], cond.inner[2], o[8:]
    else:
        return None
    if not is_var(a, d.id):
        if is_var(b, d.id):
            a, b = b, a
            rel = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[rel]
        else:
            return None
    inc = unparen(inc)
    if inc.kind == 'UnaryOperator' and inc.op in ('++', '--') and is_var(inc.inner[0], d.id):
        dr = 1 if inc.op == '++' else -1
    elif inc.kind == 'CXXOperatorCallExpr' and is_var(inc.inner[1], d.id):
        c = ex.callee_ref(inc)
        o = c.ref[1] if c.kind == 'DeclRefExpr' and c.ref else ''
        if o not in ('operator++', 'operator--'):
            return None
        dr = 1 if o == 'operator++' else -1
    elif inc.kind == 'CompoundAssignOperator' and inc.op in ('+=', '-=') and is_var(inc.inner[0], d.id):
        v = unparen(inc.inner[1])
        if v.kind != 'IntegerLiteral' or int(v.value) != 1:
            return None
        dr = 1 if inc.op == '+=' else -1
    else:
        return None
    if dr > 0 and rel in ('>', '>=') or dr < 0 and rel in ('<', '<='):
        return None
    return d, b, rel, dr


def jumps(n, kinds):
    """does the statement contain a break/continue of this loop?"""
    st = [(n, frozenset(kinds))]
    while st:
        x, ks = st.pop()
        if x is None:
            continue
        if x.kind in ks:
            return True
        if x.kind in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            continue
        if x.kind == 'SwitchStmt':
            ks = ks - {'BreakStmt'}
        if x.kind == 'LambdaExpr':
            continue
        st.extend((c, ks) for c in x.inner if c)
    return False


def step_of(n):
    """(variable id, +1/-1) when the expression is ++v, v++, --v, v--, v += 1, v -= 1, v = v + 1 or v = v - 1"""
    n = unparen(n)
    if n is None:
        return None
    if n.kind == 'UnaryOperator' and n.op in ('++', '--'):
        v = unparen(n.inner[0])
        if v.kind == 'DeclRefExpr' and v.ref:
            return v.ref[2], 1 if n.op == '++' else -1
    if n.kind == 'CompoundAssignOperator' and n.op in ('+=', '-='):
        v, c = unparen(n.inner[0]), unparen(n.inner[1])
        if v.kind == 'DeclRefExpr' and v.ref and c.kind == 'IntegerLiteral' and int(c.value) == 1:
            return v.ref[2], 1 if n.op == '+=' else -1
    if n.kind == 'BinaryOperator' and n.op == '=':
        v, e = unparen(n.inner[0]), unparen(n.inner[1])
        if v.kind == 'DeclRefExpr' and v.ref and e.kind == 'BinaryOperator' and e.op in ('+', '-'):
            c = unparen(e.inner[1])
            if is_var(e.inner[0], v.ref[2]) and c.kind == 'IntegerLiteral' and int(c.value) == 1:
                return v.ref[2], 1 if e.op == '+' else -1
    return None


def counting(ex, cond, inc, body):
    """(variable id, bound node or None for 0, relation, direction, offset at the body's start, offset at its end,
    value the variable has beyond the last test) of a counting loop, or None.  Offsets are relative to the loop index."""
    cond = unparen(cond)
    if cond is None:
        return None
    bnode = None
    if cond.kind == 'BinaryOperator' and cond.op in ('<', '<=', '>', '>=', '!='):
        x, y, rel = unparen(cond.inner[0]), unparen(cond.inner[1]), cond.op
        st = step_of(x)
        if st is not None and x.kind == 'UnaryOperator':
            # v-- > 0, v-- != 0
            if inc is not None or st[1] > 0 or not x.postfix or rel not in ('>', '!=') or y.kind != 'IntegerLiteral' or int(y.value) != 0:
                return None
            return st[0], None, '>', -1, 0, 0, 'wrap'
        fl = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}
        forms = []
        if x.kind == 'DeclRefExpr' and x.ref:
            forms.append((x.ref[2], y, rel))
        if y.kind == 'DeclRefExpr' and y.ref:
            forms.append((y.ref[2], x, fl[rel]))
    elif cond.kind == 'UnaryOperator' and cond.op == '--' and cond.postfix:
        st = step_of(cond)
        if st is None or inc is not None:
            return None
        return st[0], None, '>', -1, 0, 0, 'wrap'
    else:
        return None
    for vid, bnode, rel in forms:
        if inc is not None:
            st = step_of(inc)
            off = (0, 0)
        else:
            stmts = [c for c in body.inner if c] if body is not None and body.kind == 'CompoundStmt' else []
            st = None
            if stmts:
                st = step_of(stmts[-1])
                if st is not None and st[0] == vid and not jumps(body, ('ContinueStmt',)):
                    off = (0, st[1])
                else:
                    st = step_of(stmts[0])
                    if st is not None:
                        off = (-st[1], 0)
        if st is None or st[0] != vid:
            continue
        dr = st[1]
        if dr > 0 and rel in ('>', '>=') or dr < 0 and rel in ('<', '<='):
            continue
        return vid, bnode, rel, dr, off[0], off[1], 'end'
    return None


def count_loop(ex, n, init, cond, inc, body):
    """a counting loop other than the canonical for; False when it is none"""
    c = counting(ex, cond, inc, body)
    if c is None:
        return False
    vid, bnode, rel, dr, o0, o1, end = c
    declared = init is not None and init.kind == 'DeclStmt' and any(d is not None and d.id == vid for d in init.inner)
    if not declared and (jumps(body, ('BreakStmt',)) or not isinstance(ex.frames[-1].get(vid), In)):
        return False
    if init is not None:
        ex.stmt(init)
    v0 = ex.frames[-1].get(vid)
    if not isinstance(v0, In):
        raise LoopUnsupported('loop variable at %s' % ex.where(n))

    def bound():
        if bnode is None:
            return P(0)
        b = ex.rv(bnode)
        if not isinstance(b, In):
            raise LoopUnsupported('loop bound')
        return b.p
    b, p0 = bound(), v0.p
    if rel == '!=':
        # counts towards the bound: otherwise it would wrap around
        lo_, hi_ = (p0, b) if dr > 0 else (b, p0)
        ex.oblige('wrap', to_z3(lo_) <= to_z3(hi_), 'the loop counts towards its bound', ex.where(n))
    if dr > 0:
        lo, hi = p0, (b + 1 if rel == '<=' else b)
        stop = hi
    elif end == 'wrap':
        lo, hi = P(0), p0
        stop = None
    else:
        lo, hi = (b if rel == '>=' else b + 1), p0 + 1
        stop = lo - 1
        if rel == '>=' and 'unsigned' in (getattr(unparen(bnode), 'type', None) or ''):
            ex.oblige('wrap', to_z3(lo) >= 1, 'unsigned loop variable stays representable', ex.where(n))
    lo, hi = P(lo) - o0, P(hi) - o0

    def bind(i):
        ex.frames[-1][vid] = In(P(i) + o0)

    def unchanged(i):
        v = ex.frames[-1][vid]
        return isinstance(v, In) and v.p.key() == (P(i) + o1).key()
    some = ex.decide(to_z3(lo) < to_z3(hi))
    data_loop(ex, n, lo, hi, dr, bind, lambda: ex.stmt(body), unchanged, bound, b, vid)
    if declared or end == 'wrap':
        ex.frames[-1].pop(vid, None)
    elif some:
        ex.frames[-1][vid] = In(stop)
    return True


def for_stmt(ex, n):
    init, cv, cond, inc, body = (list(n.inner) + [None] * 5)[:5]
    can = None if needs_gen(ex, n) else canonical(ex, n)
    if can is None:
        if not needs_gen(ex, n) and cv is None and count_loop(ex, n, init, cond, inc, body):
            return
        if not ex.ctl:
            raise LoopUnsupported('loop of an unsupported form at %s' % ex.where(n))
        if init is not None:
            ex.stmt(init)
        return head_loop(ex, n, cond, body, inc)
    d, bnode, rel, dr = can
    ex.stmt(init)
    v0 = ex.frames[-1][d.id]
    isit = isinstance(v0, Iter)

    def bound():
        b = ex.rv(bnode)
        if isinstance(b, Iter):
            return b.idx
        if not isinstance(b, In):
            raise LoopUnsupported('loop bound')
        return b.p
    b = bound()
    if not isinstance(v0, (In, Iter)):
        raise LoopUnsupported('loop variable')
    p0 = v0.idx if isit else v0.p
    if dr > 0:
        lo, hi = p0, (b + 1 if rel == '<=' else b)
    else:
        lo, hi = (b if rel == '>=' else b + 1), p0 + 1
        t = d.type or ''
        if 'unsigned' in t or t == 'std::size_t':
            # an unsigned variable counting down to 0 wraps
            if rel == '>=':
                ex.oblige('wrap', to_z3(lo) >= 1, 'unsigned loop variable %s stays representable' % d.name, ex.where(n))

    def bind(i):
        ex.frames[-1][d.id] = Iter(v0.lv, i) if isit else In(P(i))

    def unchanged(i):
        v = ex.frames[-1][d.id]
        return (isinstance(v, Iter) and v.idx.key() == P(i).key()) or (isinstance(v, In) and v.p.key() == P(i).key())
    data_loop(ex, n, lo, hi, dr, bind, lambda: ex.stmt(body), unchanged, bound, b, d.id)
    ex.frames[-1].pop(d.id, None)


def range_for(ex, n):
    xs = list(n.inner)
    # init, __range, __begin, __end, cond, inc, var, body
    body = xs[-1]
    var = xs[-2].inner[0]
    rdecl = next(x for x in xs if x is not None and x.kind == 'DeclStmt')
    ex.stmt(rdecl)
    rv = ex.frames[-1][rdecl.inner[0].id]
    lv = rv[1] if isinstance(rv, tuple) else LTemp(rv)
    o = ex.deref(lv)
    if isinstance(o, Opq):
        raise LoopUnsupported('range over an unmodelled container')
    ln = ex.lib.length(o)

    def bind(i):
        if isinstance(o, Ref):
            e = ex.elem_get(o, P(i))
        else:
            e = LElem(lv, P(i))
        ex.bind(var, e)
    if needs_gen(ex, n):
        cnt = ex.frames[-1]
        key = 'rf:%s' % n.id
        cnt[key] = In(0)

        def cond():
            return ex.decide(cnt_get() < to_z3(ln))

        def cnt_get():
            return ex.frames[-1][key].z()

        def bodyf():
            bind(ex.frames[-1][key].p)
            ex.stmt(body)

        def inc():
            ex.frames[-1][key] = In(ex.frames[-1][key].p + 1)
        ex.assume(to_z3(ln) >= 0)
        gen_loop(ex, n, cond, bodyf, inc, extra=[('0 <= k <= n', lambda e: z3.And(cnt_get() >= 0, cnt_get() <= to_z3(ln)))])
        ex.frames[-1].pop(key, None)
        return
    data_loop(ex, n, P(0), ln, 1, bind, lambda: ex.stmt(body), lambda i: True, None, None)


def while_stmt(ex, n):
    xs = [c for c in n.inner if c]
    cond, body = xs[-2], xs[-1]
    if not needs_gen(ex, n) and count_loop(ex, n, None, cond, None, body):
        return
    if not ex.ctl:
        raise LoopUnsupported('while loop at %s' % ex.where(n))
    head_loop(ex, n, cond, body, None)


def flag_cond(cond, *parts):
    """does the condition read a flag that the loop sets?"""
    def refs(n, store):
        out, st = set(), [n]
        while st:
            x = st.pop()
            if x is None:
                continue
            y = x
            if store:
                y = strip_node(x.inner[0]) if x.kind in ('BinaryOperator', 'CompoundAssignOperator') and \
                    (x.op == '=' or x.kind == 'CompoundAssignOperator') else None
            if y is not None and y.kind in ('DeclRefExpr', 'MemberExpr') and (y.type or '').replace('const ', '') == 'bool':
                out.add(y.ref[2] if y.kind == 'DeclRefExpr' and y.ref else y.name)
            st.extend(x.inner)
        return out
    return bool(refs(cond, False) & set().union(*[refs(p, True) for p in parts if p is not None]))


def head_loop(ex, n, cond, body, inc):
    step = lambda: ex.ev(inc) if inc is not None else None
    if cond is None or not (pure_node(cond) and flag_cond(cond, body, inc)):
        return gen_loop(ex, n, lambda: True if cond is None else ex.cond(cond), lambda: ex.stmt(body), step)
    # a loop on a flag:  if (c) do { body } while (c), so that the state in which the flag leaves the loop stays exact
    if not ex.cond(cond):
        return

    def c():
        if not ex.cond(cond):
            raise Infeasible()      # the head is only reached with the condition true
        return True

    def last():
        step()
        if not ex.cond(cond):
            raise Brk()
    gen_loop(ex, n, c, lambda: ex.stmt(body), last)


def do_stmt(ex, n):
    xs = [c for c in n.inner if c]
    body, cond = xs[0], xs[1]
    if not ex.ctl:
        raise LoopUnsupported('do loop at %s' % ex.where(n))

    def last():
        if not ex.cond(cond):
            raise Brk()
    gen_loop(ex, n, lambda: True, lambda: ex.stmt(body), last)


# ------------------------------------------------------------------ write sets
class Loc:
    __slots__ = ('lv', 'kind', 'shifts', 'old', 'key', 'closed', 'last')

    def __init__(self, lv, kind, old, key):
        self.lv, self.kind, self.old, self.key = lv, kind, old, key
        self.shifts = []
        self.last = None        # what the last iteration adds beyond the closed form
        self.closed = None      # closed form of an induction variable (False: none)


def vkey(v):
    if isinstance(v, tuple):
        return ('tuple', id(v[1]))
    return v.key()


def strip_common(l0, l1):
    k = 0
    while k < len(l0) and k < len(l1) and l0[k].key() == l1[k].key():
        k += 1
    return l0[k:], l1[k:]


def diff_value(ex, lv, v0, v1, var, out, key):
    if v0 is v1 or vkey(v0) == vkey(v1):
        return
    if isinstance(v0, Flat) and isinstance(v1, Flat):
        return diff_value(ex, LFlatArr(lv), v0.arr, v1.arr, var, out, key + ('flat',))
    if isinstance(v1, Arr) and isinstance(v0, EV) and v1.kind == 'dvec':
        v0 = Arr('dvec', _EvBase(ex, v0), v0.r, ())
    if isinstance(v0, Big) and isinstance(v1, Big) and v0.ws is not None and v1.ws is not None and v0.name == v1.name and \
            all(a is b or a.key() == b.key() for a, b in zip(v0.ws, v1.ws)) and len(v1.ws) >= len(v0.ws):
        loc(out, lv, 'big', v0, key)
        return
    if isinstance(v0, Arr) and isinstance(v1, Arr) and v0.base.key() == v1.base.key() and v0.len.key() == v1.len.key():
        dropped, new = strip_common(v0.layers, v1.layers)
        if any(not isinstance(l, St) for l in dropped) or any(not isinstance(l, St) for l in new):
            loc(out, lv, 'whole', v0, key)
            return
        for l in new:
            d = l.idx - P(var)
            if not mentions(d, var):
                lc = loc(out, lv, 'arr', v0, key)
                if all(s.key() != d.key() for s in lc.shifts):
                    lc.shifts.append(d)
            elif mentions(l.idx, var):
                raise LoopUnsupported('array write at %r' % (l.idx,))
            else:
                k2 = key + (l.idx.key(),)
                e0 = ex.arr_read(v0, l.idx)
                diff_value(ex, LElem(lv, l.idx), e0, l.val, var, out, k2)
        return
    loc(out, lv, 'val', v0, key)


def loc(out, lv, kind, old, key):
    c = out.get(key)
    if c is None:
        c = out[key] = Loc(lv, kind, old, key)
    elif c.kind != kind:
        c.kind = 'whole'
    return c


class LFlatArr(LV):
    def __init__(self, parent):
        self.parent = parent

    def get(self, ex):
        return self.parent.get(ex).arr

    def set(self, ex, v):
        f = self.parent.get(ex)
        self.parent.set(ex, Flat(v, f.stride))

    def root(self):
        return self.parent.root()


class LGhost(LV):
    def __init__(self, k):
        self.k = k

    def get(self, ex):
        return ex.ghost[self.k]

    def set(self, ex, v):
        ex.ghost[self.k] = v

    def root(self):
        return ('ghost', self.k)


def write_set(ex, S0, paths, var, depth):
    out = {}
    f0, fr0, gh0 = S0[0], S0[1], S0[2]
    for p in paths:
        for k, v in p.fields.items():
            if k in f0:
                diff_value(ex, LField(k), f0[k], v, var, out, ('field',) + k)
            else:
                v0 = ex.field(k)
                diff_value(ex, LField(k), v0, v, var, out, ('field',) + k)
        for d in range(depth):
            for k, v in fr0[d].items():
                v1 = p.frames[d].get(k)
                if v1 is None:
                    continue
                if isinstance(v, tuple) or isinstance(v1, tuple):
                    continue
                diff_value(ex, LVar(d, k), v, v1, var, out, ('var', d, k))
        for k, v in p.ghost.items():
            if k.startswith('#') or k not in gh0:
                continue
            diff_value(ex, LGhost(k), gh0[k], v, var, out, ('ghost', k))
    return out


# ------------------------------------------------------------------ data loops
def data_loop(ex, n, lo, hi, dr, bind, body, unchanged, bound, b0, skip=None):
    lo, hi = P(lo), P(hi)
    if not ex.decide(to_z3(lo) < to_z3(hi)):
        return
    taken = tuple(tuple(str(x) for x in d.taken) for d in ex.decs)
    mk = ('L', n.id, ex.loopno, taken, tuple(ex.epoch), len(ex.frames), lo.key(), hi.key())
    ex.loopno += 1
    name = 'L%d' % tm.intern(mk)
    res = ex.memo.get(mk)
    S0 = ex.snapshot()
    if res is None:
        res = analyse(ex, n, name, lo, hi, dr, bind, body, unchanged, bound, b0, S0, skip)
        ex.restore(S0)
        ex.memo[mk] = res
    apply_result(ex, n, name, lo, hi, dr, res)


def shift_name(name, key, c):
    return '%s.%s.%d' % (name, '.'.join(str(x) for x in key if isinstance(x, (str, int)))[:60], tm.intern(('sh', key, c.key())))


def analyse(ex, n, name, lo, hi, dr, bind, body, unchanged, bound, b0, S0, skip=None):
    var = App('i@' + name, (), 'int')
    zi = to_z3(P(var))
    rng = [to_z3(lo) <= zi, zi < to_z3(hi)]
    depth = len(ex.frames)
    W = {}
    on = ex.oblig_on
    npass = 0
    lvars = list(ex.loopvars)
    while True:
        npass += 1
        if npass > 8:
            raise LoopUnsupported('write set does not stabilise')
        ex.restore(S0)
        prevnames = {}
        for key, c in W.items():
            old = c.lv.get(ex)
            if c.kind == 'arr':
                if isinstance(old, EV):
                    old = Arr('dvec', _EvBase(ex, old), old.r, ())
                ls = list(old.layers)
                for s in c.shifts:
                    ls.append(Prev(shift_name(name, key, s), lvars, var, lo, hi, s, dr))
                    prevnames[shift_name(name, key, s)] = (key, s)
                c.lv.set(ex, Arr(old.kind, old.base, old.len, ls))
            elif c.kind == 'big':
                pass
            elif c.kind == 'val' and c.closed is not None and c.closed is not False:
                c.lv.set(ex, type(old)(c.closed))
            elif c.kind == 'val':
                nm = shift_name(name, key, P(0))
                prevnames[nm] = (key, None)
                c.lv.set(ex, ex.like_symbol(old, nm, tuple(P(x) for x in lvars) + (P(var),)))
            else:
                # written as a whole by an inner loop: unknown at the start of a generic iteration
                nm = shift_name(name, key, P(0))
                prevnames[nm] = (key, None)
                c.lv.set(ex, ex.like_symbol(old, nm, tuple(P(x) for x in lvars) + (P(var),)))
        S1 = ex.snapshot()
        info = {'bad': None}

        def run():
            ex.pc.extend(rng)
            ex.loopvars.append(var)
            if bound is not None:
                bb = bound()
                if bb.key() != b0.key():
                    info['bad'] = 'loop bound changes in the loop'
            bind(var)
            try:
                body()
            except Cont:
                pass
            if not unchanged(var):
                info['bad'] = 'loop variable changed in the body'
        ex.epoch.append(npass)
        ex.oblig_on = False
        try:
            paths = ex.explore(run)
        finally:
            ex.oblig_on = on
            ex.epoch.pop()
        W2 = write_set(ex, S1, paths, var, depth)
        W2 = {k: v for k, v in W2.items() if k[:3] != ('var', depth - 1, skip)}
        changed = False
        for key, c in W2.items():
            if key not in W:
                c0 = loc(W, c.lv, c.kind, None, key)
                c0.shifts = list(c.shifts)
                changed = True
            else:
                o = W[key]
                if o.kind != c.kind and c.kind == 'whole':
                    o.kind = 'whole'
                    changed = True
                for s in c.shifts:
                    if all(s.key() != x.key() for x in o.shifts):
                        o.shifts.append(s)
                        changed = True
        # induction variables: a constant or dimension is added in every iteration
        for key, c in W.items():
            if c.kind != 'val' or c.closed is False or dr < 0:
                continue
            if c.closed is None and shift_name(name, key, P(0)) not in prevnames:
                continue
            if c.closed is None:
                c.closed = induction(ex, c, name, key, S0, paths, var, lo, hi, prevnames)
                if c.closed is not None:
                    changed = True
                else:
                    c.closed = False
            elif not still_closed(ex, c, paths, var, hi):
                c.closed = False
                changed = True
        # matrices assumed symmetric at the other iterations must be written symmetric
        for nm, (key, s) in prevnames.items():
            if nm in ex.symfv and s is not None:
                c = W[key]
                if not sym_before(ex, S0, c, lo, hi, dr, s, ex.symoff.get(nm, 0)) or any(
                        not isinstance(v, EV) or not v.m.issym()
                        for p in paths if p.out == 'norm' for v in [path_value(ex, c, p, var, s)]):
                    ex.symfv.discard(nm)
                    ex.nosym.add(nm)
                    changed = True
        # drop the loop variable itself and dead references
        if not changed:
            break
    if info['bad']:
        raise LoopUnsupported(info['bad'])
    if on:
        ex.restore(S1)
        ex.epoch.append(npass)
        ex.obs_pass = True
        try:
            paths = ex.explore(run)
        finally:
            ex.epoch.pop()
    normal = [p for p in paths if p.out == 'norm']
    early = [p for p in paths if p.out != 'norm']
    return dict(var=var, rng=rng, W=W, normal=normal, early=early, S1=S1, prev=prevnames, lvars=lvars)


def induction(ex, c, name, key, S0, paths, var, lo, hi, prevnames):
    """value of an integral accumulator at the start of iteration var, or None"""
    ex.restore(S0)
    old = c.lv.get(ex)
    if not isinstance(old, (In, Sc)) or getattr(old, 'nan', None) is not None or ex.nanmode or not integral(old.p) or \
            ex.ctl and not isinstance(old, (In, Sc)):
        return None
    nm = shift_name(name, key, P(0))
    prev = None
    for a in prevnames:
        if a == nm:
            prev = ex.like_symbol(old, nm, tuple(P(x) for x in ex.loopvars) + (P(var),))
    if prev is None:
        return None
    ds = []
    for p in paths:
        if p.out != 'norm':
            continue
        v = path_value(ex, c, p, var)
        if not isinstance(v, type(old)):
            return None
        ds.append((p, v.p - prev.p))
    delta = last = None
    for _, delta in sorted(ds, key=lambda pd: pd[1].is_const()):
        bad = [(p, d) for p, d in ds if d.key() != delta.key() and
               ex.solve(list(p.pcs) + [to_z3(d) != to_z3(delta)])[0] != z3.unsat]
        if not bad:
            break
        # the last iteration may add something else (its guard singles it out)
        at_end = to_z3(P(var)) == to_z3(P(hi) - 1)
        last = bad[0][1]
        if all(d.key() == last.key() and ex.solve(list(p.pcs) + [z3.Not(at_end)])[0] == z3.unsat for p, d in bad) and all(
                ex.solve(list(p.pcs) + [at_end])[0] == z3.unsat for p, d in ds if not any(p is q for q, _ in bad)) and \
                ex.entails(to_z3(P(lo)) < to_z3(P(hi))):
            c.last = last - delta
            break
        last = None
    else:
        return None
    if delta is None or delta.is_zero() and last is None:
        return None
    out = old.p
    names = set(prevnames)
    for mono, k in delta.t.items():
        if k.denominator != 1:
            return None
        dep = [(a, e) for a, e in mono if mentions(a, var)]
        if any(a.name in names or poly_names(a) & names or a.sort != 'int' for a, e in mono):
            return None
        if not dep:
            out = out + Poly({mono: k}) * (P(var) - P(lo))
            continue
        rest = Poly({tuple((a, e) for a, e in mono if not mentions(a, var)): k})
        if len(dep) != 1 or dep[0][1] != 1 or dep[0][0].name not in ('nu', 'ng'):
            return None
        off = P(dep[0][0].args[0]) - P(var)
        if mentions(off, var):
            return None
        w = dep[0][0].name
        out = out + rest * (psum(w, P(var) + off) - psum(w, P(lo) + off))
    return out


def poly_names(a):
    s = set()
    for x in poly_atoms_deep(a):
        if isinstance(x, App):
            s.add(x.name)
        elif isinstance(x, tm.Z):
            z_names(x.e, s)
    return s


def still_closed(ex, c, paths, var, hi):
    nxt = c.closed.subst(Subst([(var, P(var) + 1)]))
    for p in paths:
        if p.out != 'norm':
            continue
        v = path_value(ex, c, p, var)
        if not isinstance(v, (In, Sc)):
            return False
        if v.p.key() == nxt.key() or ex.solve(list(p.pcs) + [to_z3(v.p) != to_z3(nxt)])[0] == z3.unsat:
            continue
        if c.last is not None:
            at_end = to_z3(P(var)) == to_z3(P(hi) - 1)
            if ex.solve(list(p.pcs) + [z3.Not(at_end)])[0] == z3.unsat and (v.p - nxt).key() == c.last.key():
                continue
        return False
    return True


def sym_before(ex, S0, c, lo, hi, dr, s, k):
    """the k matrices of the array next to the range of the loop are symmetric before the loop"""
    for i in range(1, k + 1):
        j = (P(lo) - i if dr > 0 else P(hi) - 1 + i) + s
        ex.restore(S0)
        out = []

        def run():
            out.append(ex.arr_read(c.lv.get(ex), j))
        ex.epoch.append(('sym', i))
        try:
            ex.explore(run)
        finally:
            ex.epoch.pop()
            ex.restore(S0)
        if any(not isinstance(x, EV) or not x.m.issym() for x in out):
            return False
    return True


def guards(p, rng):
    return [c for c in p.pcs if not any(z3.eq(c, r) for r in rng)]


def group(vals):
    """[(guards, value)] -> merged by value key"""
    out = {}
    order = []
    for gs, v in vals:
        k = None if v is None else v.key()
        if k not in out:
            out[k] = [[], v]
            order.append(k)
        out[k][0].append(zand(gs))
    r = []
    for k in order:
        gl, v = out[k]
        r.append(([gl[0] if len(gl) == 1 else z3.simplify(z3.Or(*gl))], v))
    if len(r) == 1:
        r = [([], r[0][1])]
    return r


def path_value(ex, c, p, var, s=None):
    """value of location c at the end of path p"""
    old = ex.snapshot()
    ex.fields, ex.frames, ex.ghost = dict(p.fields), [dict(f) for f in p.frames], dict(p.ghost)
    try:
        v = c.lv.get(ex)
        if s is None:
            return v
        if isinstance(v, EV):
            return None
        for l in reversed(v.layers):
            if isinstance(l, Prev):
                break
            if isinstance(l, St):
                d = l.idx - P(var)
                if d.key() == s.key():
                    return l.val
        return None
    finally:
        ex.restore(old)


def apply_result(ex, n, name, lo, hi, dr, R):
    early = R['early']
    R['old'] = {key: c.lv.get(ex) for key, c in R['W'].items() if c.kind == 'val'}
    k = 0
    if early:
        k = ex.choose(1 + len(early))
    if k == 0:
        finish(ex, n, name, lo, hi, dr, R, None)
        if early:
            ex.ghost['#noearly'] = ex.ghost.get('#noearly', ()) + ((name,),)
            prevn = set(R['prev'])
            for p in early:
                gs = guards(p, R['rng'])
                if not ex.keep_noearly:
                    continue
                names = set()
                for g in gs:
                    z_names(g, names)
                if names & prevn:
                    gs = [closed_guard(ex, R, g, lo, hi, dr) for g in gs]
                    names = set()
                    for g in gs:
                        z_names(g, names)
                if names & prevn:
                    continue
                if ex.keep_noearly:
                    ex.assume(z3.ForAll([R['var'].z3()], z3.Implies(z3.And(*R['rng']), z3.Not(zand(gs)))))
        return
    p = early[k - 1]
    xi = App('x@' + name, (), 'int')
    sb = Subst([(R['var'], P(xi))])
    zx = to_z3(P(xi))
    ex.assume(to_z3(lo) <= zx)
    ex.assume(zx < to_z3(hi))
    for g in guards(p, R['rng']):
        ex.assume(sb.zx(g))
    resolve_early(ex, R, guards(p, R['rng']), lo, hi, dr, name, P(xi))
    if ex.solve(list(ex.pc))[0] == z3.unsat:
        raise Infeasible()
    finish(ex, n, name, lo, hi, dr, R, (p, P(xi), sb))
    if p.out == 'brk':
        return
    if p.out == 'throw':
        raise CppThrow(p.val)
    if p.out == 'ret':
        v = p.val
        if v is not None and hasattr(v, 'subst') and not isinstance(v, LV):
            v = v.subst(sb)
        raise Ret(v)
    raise LoopUnsupported('early exit %s' % p.out)


def closed_guard(ex, R, g, lo, hi, dr):
    """replace running temporaries in a guard by the value left by the previous iteration"""
    var = R['var']
    for nm, (key, s) in R['prev'].items():
        if s is not None or nm not in z_names(g, set()) and nm + '.nan' not in z_names(g, set()):
            continue
        c = R['W'][key]
        if c.kind != 'val':
            continue
        vals = group([(guards(q, R['rng']), path_value(ex, c, q, var)) for q in R['normal']])
        if len(vals) != 1 or not closed(vals, prevscalars(R)):
            continue
        e = vals[0][1]
        old = R['old'].get(key)
        if not isinstance(e, (Sc, In, Bo)) or type(e) is not type(old):
            continue
        before = e.subst(Subst([(var, P(var) - dr)]))
        first = to_z3(P(var)) == to_z3(lo if dr > 0 else hi - 1)
        symv = ex.like_symbol(old, nm, tuple(P(x) for x in R['lvars']) + (P(var),))
        z = (lambda v: v.b) if isinstance(e, Bo) else (lambda v: v.z())
        sub = [(z(symv), z3.If(first, z(old), z(before)))]
        if isinstance(e, Sc) and symv.nan is not None:
            F = z3.BoolVal(False)
            sub.append((symv.nan, z3.If(first, old.nan if old.nan is not None else F,
                                        before.nan if before.nan is not None else F)))
        g = z3.substitute(g, *sub)
    return g


def resolve_early(ex, R, gs, lo, hi, dr, name, xi):
    """running temporaries read before an early exit: their value is the one of the previous iteration"""
    names = set()
    for g in gs:
        z_names(g, names)
    var = R['var']
    for nm, (key, s) in R['prev'].items():
        if s is not None or nm not in names and nm + '.nan' not in names:
            continue
        c = R['W'][key]
        if c.kind != 'val':
            continue
        vals = group([(guards(q, R['rng']), path_value(ex, c, q, var)) for q in R['normal']])
        if len(vals) != 1 or not closed(vals, prevscalars(R)):
            continue
        e = vals[0][1]
        old = c.lv.get(ex)
        if not isinstance(e, (Sc, In, Bo)) or type(e) is not type(old):
            continue
        before = e.subst(Subst([(var, xi - dr)]))
        first = lo if dr > 0 else hi - 1
        symv = ex.like_symbol(old, nm, tuple(P(x) for x in R['lvars']) + (xi,))
        z = (lambda v: v.b) if isinstance(e, Bo) else (lambda v: v.z())
        ex.assume(z(symv) == z3.If(to_z3(xi) == to_z3(first), z(old), z(before)))
        if isinstance(e, Sc) and symv.nan is not None:
            F = z3.BoolVal(False)
            ex.assume(symv.nan == z3.If(to_z3(xi) == to_z3(first), old.nan if old.nan is not None else F,
                                        before.nan if before.nan is not None else F))


def finish(ex, n, name, lo, hi, dr, R, early):
    var, W, normal, lvars = R['var'], R['W'], R['normal'], R['lvars']
    prevn = set(R['prev'])
    prevscal = {nm for nm, (k, s) in R['prev'].items() if s is None}
    prevscal |= {nm + '.nan' for nm in prevscal}
    if early is not None:
        p, xi, sb = early
        plo, phi = (lo, xi) if dr > 0 else (xi + 1, hi)
    else:
        plo, phi = lo, hi
    news = []
    for key, c in sorted(W.items(), key=lambda kc: kc[1].kind != 'arr'):
        old = c.lv.get(ex)
        if c.kind == 'arr':
            if isinstance(old, EV):
                old = Arr('dvec', _EvBase(ex, old), old.r, ())
            ls = list(old.layers)
            for s in c.shifts:
                vals = []
                for q in normal:
                    v = path_value(ex, c, q, var, s)
                    vals.append((guards(q, R['rng']), v))
                cs = group(vals)
                nmset = set()
                for gs, v in cs:
                    if v is not None:
                        nmset |= value_names(v)
                    for g in gs:
                        z_names(g, nmset)
                rec = bool(nmset & prevn)
                if nmset & prevscal:
                    cs2 = resolve_scalars(ex, R, cs, var, lo, hi, dr, name)
                    if cs2 is not None:
                        cs = cs2
                        nmset = set()
                        for gs, v in cs:
                            if v is not None:
                                nmset |= value_names(v)
                            for g in gs:
                                z_names(g, nmset)
                        rec = bool(nmset & prevn)
                if rec and not (nmset & prevn) - prevscal:
                    # only running scalars are read: they are defined sequences, so the element is closed
                    if all(scalar_seq(ex, R, nm, lo, hi, dr) for nm in R['prev'] if nm in nmset):
                        rec = False
                if cs and any(v is not None for _, v in cs):
                    if len(lvars):
                        pass
                    ls.append(Rng(shift_name(name, key, s), lvars, var, plo, phi, s, cs, rec))
                    ex.loopdir[shift_name(name, key, s)] = dr
                    ex.fvdef.setdefault(shift_name(name, key, s), (ls[-1], Arr(old.kind, old.base, old.len, ls[:-1])))
            new = Arr(old.kind, old.base, old.len, ls)
            if early is not None:
                # writes of the unfinished iteration
                v = path_value(ex, c, p, var)
                for l in (v.layers if isinstance(v, Arr) else ()):
                    if isinstance(l, St) and mentions(l.idx, var):
                        if not any(l.key() == x.key() for x in old.layers):
                            new = new.store(l.idx.subst(sb), l.val.subst(sb))
            news.append((c, new))
        elif c.kind == 'big':
            if early is not None or old.ws is None:
                news.append((c, Big(old.name, old.r, old.c, None)))
                continue
            cases, bad = [], False
            for q in normal:
                v = path_value(ex, c, q, var)
                gs = guards(q, R['rng'])
                if v.ws is None:
                    bad = True
                    break
                ws = v.ws[len(old.ws):]
                nm = set()
                for w in ws:
                    blk_names(w, nm)
                for g in gs:
                    z_names(g, nm)
                if nm & prevn:
                    raise LoopUnsupported('block writes depend on a running value')
                if ws:
                    cases.append((gs, ws))
            if bad:
                news.append((c, Big(old.name, old.r, old.c, None)))
            else:
                news.append((c, Big(old.name, old.r, old.c, old.ws + (Fam(var, lo, hi, group_ws(cases)),))))
        elif c.kind == 'val' and c.closed is not None and c.closed is not False and early is None:
            fin = c.closed
            if c.last is not None:
                fin = fin + c.last.subst(Subst([(var, P(var) - 1)]))
            news.append((c, type(old)(fin.subst(Subst([(var, P(hi))])))))
        else:
            if early is not None:
                v = path_value(ex, c, p, var)
                v = v.subst(sb) if not isinstance(v, (Opq, Ref, Lam)) else v
                news.append((c, v))
                continue
            vals = [(guards(q, R['rng']), path_value(ex, c, q, var)) for q in normal]
            v = scalar_exit(ex, R, c, key, old, vals, lo, hi, dr, name)
            news.append((c, v))
    if not normal and early is None:
        raise Infeasible()
    for c, v in news:
        c.lv.set(ex, v)


def blk_names(w, out):
    if isinstance(w, Fam):
        for gs, ws in w.cases:
            for g in gs:
                z_names(g, out)
            for x in ws:
                blk_names(x, out)
        return
    for p in (w.row, w.nr, w.col, w.nc):
        out.update(value_names(In(p)))
    out.update(value_names(w.val))


def group_ws(cases):
    out, order = {}, []
    for gs, ws in cases:
        k = tuple(w.key() for w in ws)
        if k not in out:
            out[k] = [[], ws]
            order.append(k)
        out[k][0].append(zand(gs))
    return [([z3.simplify(z3.Or(*out[k][0]))], list(out[k][1])) for k in order]


def closed(cs, prevscal):
    for gs, v in cs:
        nm = value_names(v) if v is not None else set()
        for g in gs:
            z_names(g, nm)
        if nm & prevscal:
            return False
    return True


def prevscalars(R):
    s = {nm for nm, (k, sh) in R['prev'].items() if sh is None}
    return s | {x + '.nan' for x in s}


def scalar_exit(ex, R, c, key, old, vals, lo, hi, dr, name):
    """value of a scalar-like location after all iterations (at least one)"""
    var, lvars = R['var'], R['lvars']
    nm = shift_name(name, key, P(0))
    prev = ex.like_symbol(old, nm, tuple(P(x) for x in lvars) + (P(var),))
    pscal = prevscalars(R)
    last = hi - 1 if dr > 0 else lo
    cs = group(vals)
    if closed(cs, pscal) and c.kind == 'val' and all(v is not None for _, v in cs):
        # a temporary: its value is the one of the last iteration
        sb = Subst([(var, last)])
        for gs, v in cs[:-1]:
            if ex.decide(sb.zx(zand(gs))):
                return v.subst(sb) if hasattr(v, 'subst') else v
        gs, v = cs[-1]
        ex.assume(sb.zx(zand(gs)))
        return v.subst(sb)
    if isinstance(prev, Sc):
        nan = None
        if ex.nanmode:
            nan = or_exit(ex, R, [(gs, v.nan if v.nan is not None else z3.BoolVal(False)) for gs, v in vals], prev.nan,
                          old.nan, pscal, lo, hi)
        ns = set()
        for gs, v in vals:
            ns |= value_names(v)
            for g in gs:
                z_names(g, ns)
        free = {x for x in R['prev'] if x in ns and x != nm and scalar_seq(ex, R, x, lo, hi, dr)}
        r = real_exit(ex, R, [(gs, v.p) for gs, v in vals], prev.p, old.p, pscal - free, lo, hi)
        if r is not None:
            return Sc(r, nan)
        if scalar_seq(ex, R, nm, lo, hi, dr):
            out = ex.like_symbol(old, nm, tuple(P(x) for x in lvars) + (hi if dr > 0 else lo - 1,))
        else:
            out = ex.like_symbol(old, nm + '.exit', tuple(P(x) for x in lvars))
        if ex.nanmode:
            out = Sc(out.p, nan)
        return out
    if isinstance(prev, In):
        r = real_exit(ex, R, [(gs, v.p) for gs, v in vals], prev.p, old.p, pscal, lo, hi)
        if r is not None and all(a.sort == 'int' for a in r.atoms()):
            return In(r)
    if isinstance(prev, Bo):
        r = or_exit(ex, R, [(gs, v.b) for gs, v in vals], prev.b, old.b, pscal, lo, hi)
        if r is not None:
            return Bo(r)
    if scalar_seq(ex, R, nm, lo, hi, dr):
        return ex.like_symbol(old, nm, tuple(P(x) for x in lvars) + (hi if dr > 0 else lo - 1,))
    return ex.like_symbol(old, nm + '.exit', tuple(P(x) for x in lvars))


def scalar_seq(ex, R, nm, lo, hi, dr):
    """the running value nm(i) before iteration i, defined by recursion (see Ex.unfold)"""
    if nm in ex.scdef:
        return True
    key, s = R['prev'][nm]
    c = R['W'][key]
    if s is not None or c.kind != 'val':
        return False
    vals = [(guards(q, R['rng']), path_value(ex, c, q, R['var'])) for q in R['normal']]
    if not vals or any(v is None or isinstance(v, (Arr, Opq, Ref, Lam, Iter, Flat, Circ)) for _, v in vals):
        return False
    old = R['old'].get(key)
    if old is None:
        return False
    ex.scdef[nm] = (tuple(R['lvars']), R['var'], P(lo), P(hi), dr, group(vals), old)
    return True


def or_exit(ex, R, vals, prev, old, pscal, lo, hi):
    """accumulated disjunction; None if not of that form (caller keeps an unconstrained value)"""
    var = R['var']
    F = flag_defs(ex, R, z3.Or(*[z3.And(zand(gs), b) for gs, b in vals]))
    T, Fa = z3.BoolVal(True), z3.BoolVal(False)
    ft = z3.simplify(z3.substitute(F, (prev, T)))
    ff = z3.simplify(z3.substitute(F, (prev, Fa)))
    oldz = old if old is not None else Fa
    ctx = list(R['rng'])
    ns = z_names(ff, set())
    if ns & pscal:
        # guards depending on other running values: eliminate those that do not matter
        # (every iteration of a loop that ended normally satisfies the guard of some normal path)
        N = z3.Or(*[zand(guards(q, R['rng'])) for q in R['normal']]) if R.get('normal') else T
        for a in _bool_atoms(ff, None if ex.nanmode else pscal):
            for w in (Fa, T):
                f2 = z3.substitute(ff, (a, w))
                t2 = z3.substitute(ft, (a, w))
                if ex.solve(ctx + list(ex.pc) + [N, z3.Or(ff != f2, ft != t2)])[0] == z3.unsat:
                    ff, ft = z3.simplify(f2), z3.simplify(t2)
                    break
        if z_names(ff, set()) & pscal:
            return App('or?%d' % tm.intern(('or', F.get_id())), (), 'bool').z3()
    N = z3.Or(*[zand(guards(q, R['rng'])) for q in R['normal']]) if R.get('normal') else T
    if ex.solve(ctx + list(ex.pc) + [z3.substitute(N, (prev, T)), z3.Not(ft)])[0] == z3.unsat:
        # once set it stays set
        if z3.is_false(ff):
            return oldz
        lam = z3.And(*(ctx + [ff]))
        q = z3.Exists([var.z3()], lam)
        return z3.simplify(z3.Or(oldz, q))
    if ex.solve(ctx + list(ex.pc) + [ff])[0] == z3.unsat:
        # once cleared it stays cleared
        q = z3.ForAll([var.z3()], z3.Implies(z3.And(*ctx), ft))
        return z3.simplify(z3.And(oldz, q))
    return App('or?%d' % tm.intern(('or', F.get_id())), (), 'bool').z3()


def flag_defs(ex, R, z):
    """NaN flags of elements written by the other iterations of this loop: their definition"""
    if not ex.nanmode:
        return z
    st, seen, sub = [z], set(), []
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        nm = x.decl().name().split('|')[0]
        if nm.endswith('.nan') and nm[:-4] in R['prev'] and nm[:-4] in ex.fvdef and x.num_args():
            l = ex.fvdef[nm[:-4]][0]
            if isinstance(l, Rng) and not l.rec and all(isinstance(v, (EV, Sc)) for _, v in l.cases):
                # (every finished iteration satisfies the guard of one of the cases)
                pscal = prevscalars(R)
                N = z3.Or(*[zand(guards(q, R['rng'])) for q in R['normal']])
                ds = []
                for gs, v in l.cases:
                    g = zand(gs)
                    for a in _bool_atoms(g, None):
                        for w in (z3.BoolVal(False), z3.BoolVal(True)):
                            g2 = z3.substitute(g, (a, w))
                            if ex.solve(list(R['rng']) + list(ex.pc) + [N, g != g2])[0] == z3.unsat:
                                g = z3.simplify(g2)
                                break
                    ds.append(z3.And(g, v.nan) if v.nan is not None else z3.BoolVal(False))
                d = z3.Or(*ds)
                if not z_names(d, set()) & pscal:
                    j = x.arg(x.num_args() - 1)
                    d = z3.substitute(d, (l.var.z3(), j))
                    sub.append((x, z3.If(z3.And(to_z3(l.lo) <= j, j < to_z3(l.hi)), d, x)))
        st.extend(x.children())
    return z3.substitute(z, *sub) if sub else z


def _bool_atoms(e, names):
    out = []
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if z3.is_bool(x) and not (z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_implies(x) or
                                      any(z3.is_bool(y) for y in x.children())):
                if z_names(x, set()) & set(names) if names is not None else \
                        any(y.endswith('.nan') or y.startswith('isbad') for y in z_names(x, set())):
                    out.append(x)
                continue
            st.extend(x.children())
    return out


def real_exit(ex, R, vals, prev, old, pscal, lo, hi):
    """sum or maximum accumulation"""
    var = R['var']
    deltas = [(gs, v - prev) for gs, v in vals]
    sums = group_poly(deltas)
    sums = drop_prev_guards(ex, R, sums, pscal)
    if sums is not None and poly_closed(sums, pscal):
        return old + sum_cases(ex, var, lo, hi, sums)
    # maximum / minimum
    from .lib import mm
    for kind, nm in (('max', 'maxn'), ('min', 'minn')):
        fam = []
        ok = True
        for gs, v in vals:
            if v.key() == prev.key():
                fam.append((gs, None))
                continue
            args = None
            if len(v.t) == 1:
                (m, c), = v.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].name == nm:
                    args = [P(q) for q in m[0][0].args]
            if args is None or all(a.key() != prev.key() for a in args):
                ok = False
                break
            for a in args:
                if a.key() != prev.key():
                    fam.append((gs, a))
        if not ok or kind == 'min':
            continue
        gr = {}
        for gs, a in fam:
            if a is None:
                continue
            gr.setdefault(a.key(), [[], a])[0].append(zand(gs))
        cs = []
        for gl, a in gr.values():
            g = z3.simplify(z3.Or(*gl)) if len(gl) > 1 else gl[0]
            if ex.solve(list(ex.pc) + list(R['rng']) + [z3.Not(g)] + R.get('excl', []))[0] == z3.unsat or covers(ex, R, g):
                cs.append(([], a))
            else:
                cs.append(([g], a))
        cs = drop_prev_guards(ex, R, cs, pscal)
        if cs is None or not poly_closed(cs, pscal):
            return None
        return max_atom(ex, '', var, lo, hi, cs, base=max_args(old))
    return None


def covers(ex, R, g):
    """on a loop that ended normally the normal guards cover every iteration"""
    allg = [zand(guards(q, R['rng'])) for q in R['normal']]
    cov = z3.Or(*allg) if allg else z3.BoolVal(False)
    return ex.solve(list(ex.pc) + list(R['rng']) + [cov, z3.Not(g)])[0] == z3.unsat


def drop_prev_guards(ex, R, cs, pscal):
    out = []
    for gs, v in cs:
        g2 = []
        for g in gs:
            if z_names(g, set()) & pscal:
                for a in _bool_atoms(g, pscal):
                    T, Fa = z3.BoolVal(True), z3.BoolVal(False)
                    if ex.solve(list(ex.pc) + list(R['rng']) +
                                [z3.substitute(g, (a, T)) != z3.substitute(g, (a, Fa))])[0] == z3.unsat:
                        g = z3.simplify(z3.substitute(g, (a, Fa)))
            g2.append(g)
        out.append((g2, v))
    return out


def group_poly(vals):
    out, order = {}, []
    for gs, v in vals:
        k = v.key()
        if k not in out:
            out[k] = [[], v]
            order.append(k)
        out[k][0].append(zand(gs))
    r = [([out[k][0][0] if len(out[k][0]) == 1 else z3.simplify(z3.Or(*out[k][0]))], out[k][1]) for k in order]
    if len(r) == 1:
        r = [([], r[0][1])]
    return r


def poly_closed(cs, pscal):
    for gs, v in cs:
        s = set()
        for a in poly_atoms_deep(v):
            if isinstance(a, App):
                s.add(a.name)
            elif isinstance(a, tm.Z):
                z_names(a.e, s)
        for g in gs:
            z_names(g, s)
        if s & pscal:
            return False
    return True


def resolve_scalars(ex, R, cs, var, lo, hi, dr, name):
    """array values that read a running scalar: replace closed temporaries by their defining expression"""
    out = cs
    for nm, (key, s) in R['prev'].items():
        if s is not None:
            continue
        names = set()
        for gs, v in out:
            if v is not None:
                names |= value_names(v)
        if nm not in names:
            continue
        c = R['W'][key]
        if c.kind != 'val':
            return None
        vals = group([(guards(q, R['rng']), path_value(ex, c, q, var)) for q in R['normal']])
        if len(vals) != 1 or not closed(vals, prevscalars(R)):
            return None
        e = vals[0][1]
        first = lo if dr > 0 else hi - 1
        old = c.lv.get(ex)
        before = e.subst(Subst([(var, P(var) - dr)]))
        new = []
        zi = to_z3(P(var))
        app = App(nm, tuple(P(x) for x in R['lvars']) + (P(var),),
                  'real' if isinstance(e, Sc) else 'int' if isinstance(e, In) else 'vec' if isinstance(e, EV) and e.m.kind == 'V' else 'mat')
        for gs, v in out:
            if v is None:
                new.append((gs, v))
                continue
            def rep(x):
                return x.m if isinstance(x, EV) else x.p
            new.append((list(gs) + [zi == to_z3(first)], v.subst(Subst([(app, rep(old))]))))
            new.append((list(gs) + [zi != to_z3(first)], v.subst(Subst([(app, rep(before))]))))
        out = new
    return out


# ------------------------------------------------------------------ control loops
def needs_gen(ex, n):
    """in control mode: does this loop contain events of the abstraction (contract calls, the line-search lists)?"""
    if not ex.ctl:
        return False
    r = ex.gencache.get(n.id)
    if r is None:
        r = ex.gencache[n.id] = _mentions_events(ex, n, set(), 0)
    return r


def _mentions_events(ex, n, seen, depth):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        if x.kind == 'MemberExpr' and x.name:
            if x.name in ex.ctl_names:
                return True
            if depth < 6 and x.name not in seen and x.kind == 'MemberExpr':
                f = ex.prog.find_method(ex.cls, x.name)
                if f is not None and f.body is not None and x.name not in BUILTIN:
                    seen.add(x.name)
                    if _mentions_events(ex, f.body, seen, depth + 1):
                        return True
        st.extend(x.inner)
    return False


BUILTIN = {'size', 'begin', 'end', 'back', 'front', 'segment', 'transpose'}


def havoc(ex, W, name):
    for key, c in W.items():
        old = c.lv.get(ex)
        c.lv.set(ex, ex.like_symbol(old, shift_name(name, key, P(0)), ()))


def gen_loop(ex, n, cond, body, inc, extra=()):
    name = 'G%d' % tm.intern(('G', n.id, ex.loopno, tuple(tuple(str(x) for x in d.taken) for d in ex.decs), tuple(ex.epoch)))
    mk = ('G', name)
    ex.loopno += 1
    ex.sync('loop entry')
    S0 = ex.snapshot()
    R = ex.memo.get(mk)
    if R is None:
        R = gen_analyse(ex, n, name, cond, body, inc, list(extra), S0)
        ex.restore(S0)
        ex.memo[mk] = R
    exits = R['exits']
    if not exits:
        raise Infeasible()
    k = ex.choose(len(exits))
    p = exits[k]
    ex.fields, ex.frames, ex.ghost = dict(p.fields), [dict(f) for f in p.frames], dict(p.ghost)
    for c in R['inv']:
        ex.pc.append(c)
    for c in p.pcs:
        ex.pc.append(c)
    if ex.solve(list(ex.pc))[0] == z3.unsat:
        raise Infeasible()
    if p.out == 'throw':
        raise CppThrow(p.val)
    if p.out == 'ret':
        raise Ret(p.val)


def filter_entailed(ex, items):
    """items [(tag, z3 or None)] -> the set of tags entailed by the path condition"""
    live = []
    out = set()
    for tag, c in items:
        if c is None:
            continue
        c = z3.simplify(c)
        if z3.is_true(c):
            out.add(tag)
        elif z3.is_false(c):
            pass
        else:
            live.append((tag, c))
    quant = [(t, c) for t, c in live if has_quant(c)]
    live = [(t, c) for t, c in live if not has_quant(c)]
    while live:
        r, m = ex.solve(list(ex.pc) + [z3.Not(zand([c for _, c in live]))])
        if r == z3.unsat:
            out.update(t for t, _ in live)
            break
        n0 = len(live)
        if m is not None:
            keep = []
            for t, c in live:
                if not z3.is_false(m.eval(c, model_completion=True)):
                    keep.append((t, c))
            live = keep
        if len(live) == n0:
            live = [(t, c) for t, c in live if ex.entails(c)]
            out.update(t for t, _ in live)
            break
    for t, c in quant:
        if ex.entails(c):
            out.add(t)
    return out


def has_quant(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def gen_analyse(ex, n, name, cond, body, inc, extra, S0):
    """write set and inductive invariant (largest inductive subset of the candidates) of a loop.

    The write set and the surviving candidates of an earlier analysis of the same loop in the same context are the
    starting point; both are re-checked, so the result is inductive whatever the starting point was."""
    depth = len(ex.frames)
    dummy = App('nov@' + name, (), 'int')
    on = ex.oblig_on
    hint = ex.hints.setdefault((n.id, len(ex.decs), depth, tuple(str(x) for x in ex.decs[-1].taken)), {})
    t0 = time.time()

    def step():
        def run():
            if not cond():
                raise Brk()
            try:
                body()
            except Cont:
                pass
            inc()
            ex.sync('end of a loop iteration')
        return ex.explore(run)
    W = dict(hint.get('W', ()))
    if 'W' not in hint:
        for k2, h in ex.hints.items():
            if k2[0] == n.id and k2[2] == depth and 'W' in h:
                W.update(h['W'])
    ex.oblig_on = False
    rounds = 0

    def grow(S1, paths):
        new = False
        for key, c in write_set(ex, S1, [p for p in paths if p.out == 'norm'], dummy, depth).items():
            root = whole_loc(ex, c, key)
            if root.key not in W:
                W[root.key] = root
                new = True
        return new

    def entry_ok(cs):
        ex.restore(S0)
        ok = filter_entailed(ex, [(q, f(ex)) for q, (nm, f) in enumerate(cs)])
        return [x for q, x in enumerate(cs) if q in ok]
    try:
        live = None
        while True:
            rounds += 1
            if rounds > 60:
                raise LoopUnsupported('invariant search does not converge')
            if live is None:
                ex.restore(S0)
                cands = list(extra)
                if ex.ctl_spec is not None:
                    cands += ex.ctl_spec(ex, n, W, S0, name)
                h = hint.get('live')
                if h is not None and hint.get('Wk') == frozenset(W):
                    cands = [c for c in cands if c[0] in h]
                live = entry_ok(cands) if W else []
            ex.restore(S0)
            havoc(ex, W, name)
            S1 = ex.snapshot()
            for nm, f in live:
                c = f(ex)
                if c is not None:
                    ex.assume(c)
            npc = len(ex.pc)
            ex.epoch.append(('h', rounds))
            try:
                paths = step()
            finally:
                ex.epoch.pop()
            if grow(S1, paths):
                live = None
                continue
            bad = set()
            snap = ex.snapshot()
            for p in paths:
                if p.out != 'norm':
                    continue
                ex.fields, ex.frames, ex.ghost = dict(p.fields), [dict(f) for f in p.frames], dict(p.ghost)
                ex.pc = list(snap[3]) + list(p.pcs)
                todo = [(q, f(ex)) for q, (nm, f) in enumerate(live) if q not in bad]
                ok = filter_entailed(ex, todo)
                bad |= set(q for q, _ in todo) - ok
                ex.restore(snap)
            if not bad:
                break
            live = [x for q, x in enumerate(live) if q not in bad]
    finally:
        ex.oblig_on = on
    hint['W'] = W
    hint['Wk'] = frozenset(W)
    hint['live'] = set(nm for nm, _ in live)
    # final pass with obligations
    ex.restore(S0)
    havoc(ex, W, name)
    inv = []
    for nm, f in live:
        c = f(ex)
        if c is not None and not z3.is_true(z3.simplify(c)):
            inv.append(c)
            ex.assume(c)
    if on:
        ex.epoch.append(('f', 0))
        try:
            paths = step()
        finally:
            ex.epoch.pop()
    exits = [p for p in paths if p.out != 'norm']
    for p in exits:
        if p.out == 'brk':
            p.out = 'norm'
    if ex.merge:
        exits = ex.merge_paths(exits, depth)
    if on:
        ex.invariants.append((ex.where(n), [nm for nm, _ in live]))
    if ex.dbg:
        print('LOOP', ex.where(n), name, 'ob' if on else '', 'taken', [[str(x)[:1] if not isinstance(x, tuple) else x[1] for x in d.taken] for d in ex.decs], 'rounds', rounds, 'paths', len(paths), 'exits', len(exits), 'W', len(W), 'inv', len(live), '%.1fs' % (time.time() - t0), flush=True)
        if on:
            ex.dbg == 2 and print('   W', [k[-1] for k in W], '\n   inv', [nm for nm, _ in live], flush=True)
    return dict(exits=exits, inv=inv)


def whole_key(key):
    if key[0] == 'field':
        return key[:3]
    if key[0] == 'var':
        return key[:3]
    return key[:2]


def whole_loc(ex, c, key):
    wk = whole_key(key)
    if wk[0] == 'field':
        return Loc(LField((wk[1], wk[2])), 'val', None, wk)
    if wk[0] == 'var':
        return Loc(LVar(wk[1], wk[2]), 'val', None, wk)
    return Loc(LGhost(wk[1]), 'val', None, wk)
