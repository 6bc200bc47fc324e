"""C07, C08: the directions solve their linear-quadratic subproblems; the multipliers and derivatives of C01-C04."""
from .unit import *
from . import terms as tm, loops

RES_PROP = {'SolverSQP': 'C01', 'SolverCSQP': 'C02', 'SolverPROXQP': 'C03', 'SolverDDP': 'C04', 'SolverFDDP': 'C04'}


def eye(c):
    """c times the identity, as a matrix"""
    return Mat.ident().scale(c)


def sqp_direction(r):
    cls = 'SolverSQP'
    ex = r.ex(cls)
    ex.finite = True
    S = Spec(ex, 'C07')
    zero_first(ex, 'dx_')
    ex.global_pc += [z3.Not(fld(ex, 'is_feasible_').b), z3.Not(fld(ex, 'preg_').nan), z3.Not(fld(ex, 'dreg_').nan)]
    S.rewrites.append(cancel_inverse)
    S.dbg = r.dbg
    f = r.method(cls, 'computeDirection', 1)
    ps = r.paths(ex, f, [Bo(False)])
    r.vacuity(ex, ps, ('norm',))
    for p in ps:
        if p.out != 'norm':
            continue
        S.enter(p)
        lq(ex, S, 'dx_', 'du_')
        S.leave()


def cancel_inverse(ex, d):
    """name the matrix under an inverse: substitute its Luu so that M inv(M) cancels"""
    for a in loops.poly_atoms_deep(d):
        if a.name == 'inv' and isinstance(a.args[0], Mat) and len(a.args[0].t) > 1:
            M = a.args[0]
            for w, c in M.t.items():
                if len(w) == 1 and P(c).is_const() and P(c).cval() == 1 and w[0].atom.name in ('d.Luu', 'F.Luu') and M.issym():
                    L = w[0].atom
                    q = App('Q!%d' % tm.intern(('Q', M.key())), (), 'mat', True)
                    rest = M - Mat.atom(L)
                    return d.subst(Subst([(L, Mat.atom(q) - rest)]))
    return d


def zero_first(ex, name):
    k = owner(ex, name)
    pre = 'f.%s.%s' % k

    def fn(*a):
        j = P(a[-1])
        if ex.entails(to_z3(j) == 0):
            return EV(Mat.zero('V'), NDX, 1)
        if not ex.entails(to_z3(j) != 0) and ex.decide(to_z3(j) == 0):
            return EV(Mat.zero('V'), NDX, 1)
        return lb.vec(pre, (j,), P(NDX))
    ex.lib.field_over[k] = lambda e: Arr('vec', Base(pre + '.z0', fn), T + 1)


def lq(ex, S, dx, du):
    pr, dr = sc(ex, 'preg_'), sc(ex, 'dreg_')
    x = lambda t: at(ex, dx, t).m
    u = lambda t: at(ex, du, t).m
    D = lambda n, t: data(ex, n, t).m
    lam = lambda t: at(ex, 'lag_mul_', t).m
    S.exact('dx starts at zero', lambda: [(at(ex, dx, 0), EV(Mat.zero('V'), NDX, 1))])
    S.forall('linearised dynamics with gaps', 0, T, lambda t: [
        (at(ex, dx, t + 1), EV(D('Fx', t) * x(t) + D('Fu', t) * u(t) + at(ex, 'fs_', t + 1).m, NDX, 1))])
    S.forall('stationarity in the controls', 0, T, lambda t: [
        (EV(D('Luu', t) * u(t) + u(t).scale(dr) + D('Lxu', t).T() * x(t) + D('Lu', t) + D('Fu', t).T() * lam(t + 1), nu(t), 1),
         EV(Mat.zero('V'), nu(t), 1))])
    S.forall('stationarity in the states', 0, T, lambda t: [
        (EV(D('Lxx', t) * x(t) + x(t).scale(pr) + D('Lxu', t) * u(t) + D('Lx', t) + D('Fx', t).T() * lam(t + 1), NDX, 1),
         at(ex, 'lag_mul_', t))])
    S.exact('stationarity at the terminal state', lambda: [
        (EV(D('Lxx', T) * x(T) + x(T).scale(pr) + D('Lx', T), NDX, 1), at(ex, 'lag_mul_', T))])


# ------------------------------------------------------------------ C08
def aug(ex, S, what, con, dx='dxtilde_', du='dutilde_', dx0='dx_', du0='du_'):
    """stationarity of the (augmented) quadratic subproblem; multipliers Vx + Vxx dx"""
    pr, dr = sc(ex, 'preg_'), sc(ex, 'dreg_')
    sg = sc(ex, 'sigma_') if con else Poly({})
    x = lambda t: at(ex, dx, t).m
    u = lambda t: at(ex, du, t).m
    D = lambda n, t: data(ex, n, t).m
    lam = lambda t: at(ex, 'Vx_', t).m + at(ex, 'Vxx_', t).m * x(t)
    rho = lambda t: at(ex, 'rho_vec_', t).m

    def cons(t, which, terminal=False):
        """C' (rho (C dx - z) + y), the gradient of penalty and multiplier terms"""
        if not con:
            return Mat.zero('V')
        c = D('Gx', t) * x(t)
        if not terminal:
            c = c + D('Gu', t) * u(t)
        w = tm.diag(rho(t)) * (c - at(ex, 'z_', t).m) + at(ex, 'y_', t).m
        return D(which, t).T() * w

    def prox(v, name, t):
        return (v - at(ex, name, t).m).scale(sg) if con else Mat.zero('V')
    S.exact('dx starts at zero', lambda: [(at(ex, dx, 0), EV(Mat.zero('V'), NDX, 1))])
    S.forall('linearised dynamics with gaps', 0, T, lambda t: [
        (at(ex, dx, t + 1), EV(D('Fx', t) * x(t) + D('Fu', t) * u(t) + at(ex, 'fs_', t + 1).m, NDX, 1))])
    S.forall('stationarity in the controls', 0, T, lambda t: [
        (EV(D('Luu', t) * u(t) + u(t).scale(dr) + prox(u(t), du0, t) + D('Lxu', t).T() * x(t) + D('Lu', t) +
            cons(t, 'Gu') + D('Fu', t).T() * lam(t + 1), nu(t), 1),
         EV(Mat.zero('V'), nu(t), 1))])
    S.forall('stationarity in the states', 1, T, lambda t: [
        (EV(D('Lxx', t) * x(t) + x(t).scale(pr) + prox(x(t), dx0, t) + D('Lxu', t) * u(t) + D('Lx', t) +
            cons(t, 'Gx') + D('Fx', t).T() * lam(t + 1), NDX, 1),
         EV(lam(t), NDX, 1))])
    S.exact('stationarity at the terminal state', lambda: [
        (EV(D('Lxx', T) * x(T) + x(T).scale(pr) + prox(x(T), dx0, T) + D('Lx', T) + cons(T, 'Gx', True), NDX, 1),
         EV(lam(T), NDX, 1))])


REUSED = ('K_', 'Quu_llt_', 'Vxx_', 'Vxx_fs_')
FRESH = ('y_', 'z_', 'dx_', 'du_', 'Vx_', 'k_', 'Qx_', 'Qu_', 'dxtilde_', 'dutilde_', 'tmp_dual_cwise_', 'tmp_Vx_')


def csqp_step(bp, reuse, fw='forwardPass', con=True):
    cls = 'SolverCSQP'

    def run(r):
        ex = r.ex(cls)
        ex.finite = True
        S = Spec(ex, 'C08')
        S.dbg = r.dbg
        dx = 'dxtilde_' if con else 'dx_'
        zero_first(ex, dx)
        ex.global_pc += [z3.Not(fld(ex, 'preg_').nan), z3.Not(fld(ex, 'dreg_').nan)]
        S.rewrites.append(cancel_inverse)
        fb = r.method(cls, bp, 0)
        fr = r.method(cls, reuse, 0) if reuse else None
        ff = r.method(cls, fw)
        mid = {}

        def go():
            ex.run_function(fb, [])
            if reuse:
                # any later inner iteration: the iterates of the QP are arbitrary, the penalties as they were
                for n in FRESH:
                    k = owner(ex, n)
                    v = ex.field(k)
                    if n == dx:
                        v0 = init(ex, k)
                        ex.fields[k] = v0
                        continue
                    ex.fields[k] = ex.like_symbol(v, 'f.later.' + n, ())
                mid['snap'] = ex.snapshot()
                ex.run_function(fr, [])
            ex.run_function(ff, [Sc(1)] if con else [])
        ps = ex.explore(go)
        r.vacuity(ex, ps, ('norm',))
        for p in ps:
            if p.out != 'norm':
                continue
            S.enter(p)
            aug(ex, S, bp, con, dx, 'dutilde_' if con else 'du_')
            S.leave()
    return run


def init(ex, k):
    sv = ex.fields
    ex.fields = {}
    try:
        return ex.field(k)
    finally:
        ex.fields = sv


def reuse_frame(name):
    cls = 'SolverCSQP'

    def run(r):
        ex = r.ex(cls)
        ex.finite = True
        S = Spec(ex, 'C08')
        ps = r.paths(ex, r.method(cls, name, 0))
        r.vacuity(ex, ps, ('norm',))
        for p in ps:
            S.enter(p)
            S.frame('the factorisation and the data it was built from are kept', S._snap[0],
                    list(REUSED) + ['rho_vec_', 'inv_rho_vec_', 'preg_', 'dreg_', 'sigma_', 'fs_', 'y_', 'z_', 'dx_', 'du_'])
            S.leave()
    return run


def register(prog):
    add('SolverSQP::computeDirection (LQ)', ['C07'], sqp_direction)
    N = 'SolverCSQP::'
    for bp in ('backwardPass', 'backwardPass_mt'):
        add(N + bp + ' + forwardPass', ['C08'], csqp_step(bp, None))
        for re in ('backwardPass_without_rho_update', 'backwardPass_without_rho_update_mt'):
            add(N + bp + ' ... ' + re + ' + forwardPass', ['C08'], csqp_step(bp, re))
    for re in ('backwardPass_without_rho_update', 'backwardPass_without_rho_update_mt'):
        add(N + re + ' (frame)', ['C08', 'C10'], reuse_frame(re))
    add(N + 'backwardPass_without_constraints + forwardPass_without_constraints', ['C08'],
        csqp_step('backwardPass_without_constraints', None, 'forwardPass_without_constraints', False))
