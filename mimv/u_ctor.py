"""Constructors: they establish the class invariants the other contracts rely on (buffer sizes, zero first step, full
line-search lists, regularisation factors, the sizes and zeros of the QP)."""
import re
from .unit import *
from . import terms as tm, lib as lb, loops
from . import u_solve, u_proxqp

CLASSES = ('SolverSQP', 'SolverCSQP', 'SolverPROXQP', 'SolverDDP', 'SolverFDDP')


# ------------------------------------------------------------------ state before the constructor bodies
def raw(ex, key):
    """a member before its initialiser: default constructed class types, unknown scalars"""
    cls, name = key
    t = (ex.prog.fields[cls][name][0] or '').replace('const ', '').strip()
    pre = 'raw.%s.%s' % key
    sh = lb.SHAPES_CLS.get(key) or lb.SHAPES.get(name)
    if sh is not None and 'vector' in t:
        return empty(sh[0], pre)
    if 'circular_buffer' in t:
        return Circ(z3.Const(pre + '.log', z3.ArraySort(z3.IntSort(), z3.RealSort())),
                    z3.Const(pre + '.nlog', z3.ArraySort(z3.IntSort(), z3.BoolSort())), 0, 0, 0)
    if re.match(r'std::vector<double', t):
        return Arr('dbl', Base(pre, lambda *a: Sc(App(pre, (P(a[-1]),), 'real'))), P(0))
    if 'CallbackAbstract' in t:
        return lb.arr_of(pre, 'cb', P(0), None)
    if 'shared_ptr' in t and 'ShootingProblem' in t:
        return Ref('prob')
    if ex.big and name in ex.big:
        return Big(pre, 0, 1 if name in ('q_', 'b_', 'l_', 'u_') else 0)
    if re.match(r'Eigen::Matrix<double, -1, 1', t):
        return EV(Mat.zero('V'), 0, 1)
    if re.match(r'Eigen::Matrix<double, -1, -1', t):
        return EV(Mat.zero('M'), 0, 0)
    if re.match(r'Eigen::Matrix<double, (\d+), 1', t):
        return EV(Mat.atom(App(pre, (), 'vec')), int(re.match(r'Eigen::Matrix<double, (\d+), 1', t).group(1)), 1)
    if t == 'double':
        return Sc(App(pre, (), 'real'))
    if t in ('unsigned long', 'int', 'unsigned int', 'long'):
        return In(App(pre, (), 'int'))
    if t == 'bool':
        return Bo(App(pre, (), 'bool').z3())
    return None


def empty(kind, pre):
    def fn(*a):
        if kind == 'llt':
            return LLT(EV(Mat.atom(App(pre, (P(a[-1]),), 'mat', True)), 0, 0))
        return EV(Mat.zero('V' if kind == 'vec' else 'M'), 0, 1 if kind == 'vec' else 0)
    return Arr(kind, Base(pre, fn), P(0))


def construct(ex, cls):
    """member initialisers and body of every constructor, base class first"""
    for c in reversed(ex.prog.mro(cls)):
        if c not in ex.prog.methods or c not in ex.prog.methods.get(c, {}):
            continue
        fs = [f for f in ex.prog.methods[c][c] if f.body is not None and len(f.params) == 1 and 'ShootingProblem' in
              (f.params[0].type or '')]
        if not fs:
            raise Unsupported('constructor of %s' % c)
        f = fs[0]
        dyn, ex.cls = ex.cls, c
        fr = {}
        ex.frames.append(fr)
        try:
            ex.bind(f.params[0], Ref('prob'))
            for i in f.inits:
                a = (i.extra or {}).get('anyInit')
                if not a:
                    continue            # base class
                key = (c, a['name'])
                e = next((x for x in i.inner if x), None)
                if e is None:
                    continue
                if e.kind == 'CXXDefaultInitExpr':
                    e = ex.prog.fields[c][a['name']][1]
                if e is None or e.kind == 'CXXConstructExpr' and not [x for x in e.inner if x]:
                    continue            # default construction
                t = ex.prog.fields[c][a['name']][0] or ''
                old = ex.fields.get(key)
                if not isinstance(old, (Sc, In, Bo)):
                    if isinstance(old, Circ):
                        continue        # default construction (allocator argument)
                    ex.fields[key] = Opq('init')
                    continue
                v = ex.rv(e)
                if isinstance(old, Sc) and isinstance(v, In):
                    v = Sc(v.p)
                if type(v) is not type(old):
                    raise Unsupported('initialiser of %s::%s' % key)
                ex.fields[key] = v
        finally:
            ex.frames.pop()
        ex.run_function(f, [Ref('prob')])
        ex.cls = dyn


# ------------------------------------------------------------------ what they establish
def sizes(S, what, lo, hi, fn):
    ex = S.ex
    t = P(App('t', (), 'int'))

    def run():
        if hi is not None:
            ex.pc += [to_z3(P(lo)) <= to_z3(t), to_z3(t) < to_z3(P(hi))]
            if ex.solve(list(ex.pc))[0] == z3.unsat:
                return []
        out = []
        for g, w in fn(t):
            g, w = P(g), P(w)
            ok = g.key() == w.key() or ex.entails(to_z3(g) == to_z3(w))
            out.append((what, 'proved' if ok else 'refuted', '' if ok else 'the size is %r instead of %r' % (g, w)))
        return out
    S.collect(what, S.each(run))


def contract(cls):
    def run(r):
        ex = r.ex(cls)
        ex.ctor = True
        if cls == 'SolverPROXQP':
            ex.big = u_proxqp.BIG
        for c in ex.prog.mro(cls):
            for n in ex.prog.fields.get(c, {}):
                v = raw(ex, (c, n))
                if v is not None:
                    ex.fields[(c, n)] = v
        ex.contracts['pow'] = power
        S = Spec(ex, 'C18')
        ps = ex.explore(lambda: construct(ex, cls))
        if not ps:
            raise Unsupported('no path through the constructor')
        r.vacuity(ex, ps, ('norm',))
        r.notes.add('crocoddyl: the constructor of SolverAbstract gives xs_, us_, fs_ the sizes of the problem')
        for p in ps:
            if p.out == 'throw':
                continue                # equality constraints of crocoddyl: the constructor refuses the problem
            S.enter(p)
            try:
                post(ex, S, cls)
            finally:
                S.leave()
    return run


def power(ex, a, n):
    x, y = a
    if x.p.is_const() and y.p.is_const():
        return Sc(x.p.cval() ** int(y.p.cval()))
    v = App('pow', (x.p, y.p), 'real')
    if x.p.is_const() and x.p.cval() > 1 and ex.entails(y.z() >= 0):
        return Sc(v)
    return Sc(v)


def post(ex, S, cls):
    S.cat = 'C18'
    seen = set()
    for c in ex.prog.mro(cls):
        for n in ex.prog.fields.get(c, {}):
            key = (c, n)
            v = ex.field(key)
            if isinstance(v, Arr) and v.kind in ('vec', 'mat', 'llt'):
                sh = lb.SHAPES_CLS.get(key) or lb.SHAPES.get(n)
                if sh is None:
                    continue
                used = key[0] == owner(ex, n)[0]
                if not used:
                    continue            # hidden by a member of the derived class
                sizes(S, 'the buffer %s has one element per node' % n, 0, None, lambda t, v=v, sh=sh: [(v.len, sh[1])])
                if n in lb.SCRATCH:
                    continue

                def dims(t, v=v, sh=sh):
                    e = ex.arr_read(v, t)
                    e = e.m if isinstance(e, LLT) else ex.as_ev(e)
                    if e is None:
                        raise Undecided('size of a factorisation')
                    r_, c_ = sh[2](t)
                    return [(e.r, r_), (e.c, c_)]
                sizes(S, 'the elements of %s have the sizes of their node' % n, 0, sh[1], dims)
            elif n == 'fs_flat_' and key == owner(ex, n):
                v = ex.as_ev(v) if not isinstance(v, Flat) else v
                sizes(S, 'fs_flat_ holds the gaps of all nodes', 0, None, lambda t, v=v: [
                    (v.r if isinstance(v, EV) else v.arr.len * v.stride, (T + 1) * NDX)])
                if cls == 'SolverPROXQP':
                    S.cat = 'C03'
                    S.rec('fs_flat_ starts at zero', 'proved' if isinstance(v, EV) and v.m.is_zero() else 'unknown', repr(v)[:80])
                    S.cat = 'C18'
            elif n in lb.SINGLE and lb.SINGLE[n] and n not in lb.SCRATCH and isinstance(v, EV) and key == owner(ex, n):
                d = lb.SINGLE[n][1]()
                sizes(S, 'the work space %s has its size' % n, 0, None, lambda t, v=v, d=d: [(v.r, d[0]), (v.c, d[1])])
    has = lambda n: u_solve.has_field(ex, n)
    S.cat = 'C18'
    al = fld(ex, 'alphas_')
    S.holds('the step-length list is not empty', to_z3(al.len) >= 1)
    S.cat = 'C05'
    for n in ('cost_list_', 'gap_list_', 'constraint_list_'):
        if has(n) and has('filter_size_') and ex.prog.field_owner(cls, n) and not (cls == 'SolverDDP'):
            c = fld(ex, n)
            k = num(ex, 'filter_size_')
            S.holds('%s is full with capacity filter_size_' % n, z3.And(to_z3(c.size) == k, to_z3(c.cap) == k))
    if cls not in ('SolverDDP',) and has('filter_size_'):
        S.holds('the filter holds at least one entry', num(ex, 'filter_size_') >= 1)
    S.cat = 'C12'
    S.holds('the regularisation factors are above 1', z3.And(num(ex, 'reg_incfactor_') > 1, num(ex, 'reg_decfactor_') > 1))
    S.holds('the regularisation limits are ordered and not negative', z3.And(
        num(ex, 'reg_min_') >= 0, num(ex, 'reg_min_') <= num(ex, 'reg_max_')))
    S.cat = 'C13'
    if cls not in ('SolverDDP', 'SolverFDDP'):
        for n in ('dx_', 'dxtilde_'):
            if has(n) and ex.prog.field_owner(cls, n):
                S.exact('the first element of %s is zero' % n, lambda n=n: [(at(ex, n, P(0)), EV(Mat.zero('V'), NDX, 1))])
    S.cat = 'C10'
    if cls == 'SolverCSQP':
        S.holds('the penalty update interval is at least 1', num(ex, 'rho_update_interval_') >= 1)
        S.holds('the initial penalty is positive and within the limits', z3.And(
            num(ex, 'rho_sparse_') > 0, num(ex, 'rho_min_') > 0, num(ex, 'rho_min_') <= num(ex, 'rho_sparse_'),
            num(ex, 'rho_sparse_') <= num(ex, 'rho_max_')))
        S.holds('sigma is positive', num(ex, 'sigma_') > 0)
    if cls == 'SolverPROXQP':
        S.cat = 'C19'
        for k, w in (('n_eq', u_proxqp.NE), ('n_vars', u_proxqp.NV), ('n_in', u_proxqp.NI)):
            sizes(S, '%s is the size of the subproblem' % k, 0, None, lambda t, k=k, w=w: [(fld(ex, k).p, w)])
        for n, d in u_proxqp.BIG.items():
            b = fld(ex, n)
            sizes(S, '%s has the size of the subproblem' % n, 0, None, lambda t, b=b, d=d: [(b.r, d[0]), (b.c, d[1])])
            ok = isinstance(b, Big) and b.name.endswith('|0') and not b.ws
            S.rec('%s starts at zero' % n, 'proved' if ok else 'refuted', repr(b)[:120])


def register(prog):
    props = {'SolverSQP': ['C05', 'C12', 'C13'], 'SolverCSQP': ['C05', 'C10', 'C12', 'C13'],
             'SolverPROXQP': ['C03', 'C05', 'C12', 'C13', 'C19'], 'SolverDDP': ['C12'], 'SolverFDDP': ['C05', 'C12']}
    for cls in CLASSES:
        add(cls + '::' + cls, props[cls], contract(cls))
