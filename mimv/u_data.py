"""C01-C04: the residual of every solver; C06: trial evaluation; C04: rollouts of DDP / FDDP."""
from .unit import *

RES_PROP = {'SolverSQP': 'C01', 'SolverCSQP': 'C02', 'SolverPROXQP': 'C03', 'SolverDDP': 'C04', 'SolverFDDP': 'C04'}


def residual(cls):
    con = cls in ('SolverCSQP', 'SolverPROXQP')

    def run(r):
        ex = r.ex(cls)
        S = Spec(ex, RES_PROP[cls])
        f = r.method(cls, 'checkKKTConditions', 0)
        if cls == 'SolverPROXQP':
            flat_zero_tail(ex)
            r.notes.add('class invariant used: the last block of SolverPROXQP::fs_flat_ is zero (set by the constructor, '
                        'preserved by checkKKTConditions, its only writer)')
        ps = r.paths(ex, f)
        r.vacuity(ex, ps)
        for p in ps:
            S.enter(p)
            if p.out != 'norm':
                S.rec('the residual test returns', 'refuted', 'it throws: %s' % p.val)
                S.leave()
                continue
            lam = lambda t: at(ex, 'lag_mul_', t).m
            y = lambda t: at(ex, 'y_', t).m

            def gx0(t):
                m = data(ex, 'Lx', t).m + data(ex, 'Fx', t).m.T() * lam(t + 1) - lam(t)
                return m

            def gx(t):
                m = gx0(t)
                if con:
                    m = m + data(ex, 'Gx', t).m.T() * y(t)
                return ninf(m)

            def gu(t):
                m = data(ex, 'Lu', t).m + data(ex, 'Fu', t).m.T() * lam(t + 1)
                if con:
                    m = m + data(ex, 'Gu', t).m.T() * y(t)
                return ninf(m)

            def gT():
                m = data(ex, 'Lx', T).m - lam(T)
                if con:
                    m = m + data(ex, 'Gx', T).m.T() * y(T)
                return ninf(m)
            f0 = 1 if cls == 'SolverPROXQP' else 0      # fs_[0] = diff(x0, x0) = 0, not part of PROXQP's vector
            fams = [(1 if con else 0, T, gx), (0, T, gu), (f0, T + 1, lambda t: ninf(at(ex, 'fs_', t)))]

            def post():
                sc_ = [gT()]
                if cls == 'SolverCSQP':
                    # node 0: the state is fixed, the code counts the gradient without the constraint term
                    sc_.append(ninf(gx0(P(0))))
                if con:
                    sc_.append(sc(ex, 'constraint_norm_'))
                S.is_max('KKT_ is the largest entry of the Lagrangian gradients, gaps%s' %
                         (' and the constraint violation' if con else ''), fld(ex, 'KKT_'), fams, sc_)
            S.post(post)
            if cls == 'SolverPROXQP':
                S.exact('the last block of fs_flat_ stays zero', lambda: [
                    (ex.as_ev(ex.arr_read(fld(ex, 'fs_flat_').arr, T)), EV(Mat.zero('V'), NDX, 1))])
            keep = ['xs_', 'us_', 'fs_', 'y_', 'preg_', 'dreg_', 'lag_mul_', 'cost_', 'gap_norm_', 'constraint_norm_',
                    'merit_', 'xs_try_', 'us_try_', 'dx_', 'du_', 'dxtilde_', 'dutilde_', 'Vx_', 'Vxx_']
            if cls == 'SolverCSQP':
                # CSQP computes its dynamics multipliers here, from the last direction
                keep.remove('lag_mul_')
                S.forall('the multipliers are those of the last subproblem', 0, T + 1, lambda t: [
                    (at(ex, 'lag_mul_', t), EV(at(ex, 'Vx_', t).m + at(ex, 'Vxx_', t).m * at(ex, 'dxtilde_', t).m, NDX, 1))])
            bad = [n for n in keep if ex.prog.field_owner(cls, n) or n in lb.ABSTRACT_FIELDS]
            S.frame('the residual test changes no iterate, direction, multiplier or norm', S._snap[0], bad)
            S.leave()
    return run


def flat_zero_tail(ex):
    """class invariant of PROXQP: the last block of fs_flat_ is never written and zero"""
    k = owner(ex, 'fs_flat_')
    pre = 'f.%s.%s' % k

    def fn(*a):
        j = P(a[-1])
        if ex.entails(to_z3(j) == to_z3(T)):
            return EV(Mat.zero('V'), NDX, 1)
        if not ex.entails(to_z3(j) != to_z3(T)):
            if ex.decide(to_z3(j) == to_z3(T)):
                return EV(Mat.zero('V'), NDX, 1)
        return lb.vec(pre, (j,), P(NDX))
    ex.lib.field_over[k] = lambda e: Flat(Arr('vec', Base(pre + '.z', fn), T + 1), P(NDX))


# ------------------------------------------------------------------ C06
def trystep(cls):
    con = cls in ('SolverCSQP', 'SolverPROXQP')

    def run(r):
        ex = r.ex(cls)
        ex.finite = True
        S = Spec(ex, 'C06')
        f = r.method(cls, 'tryStep', 1)
        al = Sc(App('arg.steplength', (), 'real'))
        ps = r.paths(ex, f, [al])
        r.vacuity(ex, ps, ('norm', 'throw'))
        a = al.z()
        for p in ps:
            S.enter(p)
            keep = [n for n in ('xs_', 'us_', 'dx_', 'du_', 'lag_mul_', 'y_', 'z_', 'cost_', 'gap_norm_', 'constraint_norm_',
                                'merit_', 'KKT_', 'fs_', 'preg_', 'dreg_', 'dxtilde_', 'dutilde_')
                    if ex.prog.field_owner(cls, n) or n in lb.ABSTRACT_FIELDS]
            S.frame('the iterate, direction and multipliers stay as they were', S._snap[0], keep)
            if p.out == 'throw':
                S.holds('only a step length outside [0,1] is rejected (finite evaluations)', z3.Or(a < 0, a > 1))
                S.leave()
                continue
            S.holds('a step length outside [0,1] is rejected', z3.And(a >= 0, a <= 1))
            A = al.p

            S.forall('trial states are integrate(x, a dx)', 0, T + 1, lambda t: [
                (at(ex, 'xs_try_', t), integ(ex, at(ex, 'xs_', t), at(ex, 'dx_', t).m.scale(A)))])
            S.forall('trial controls are u + a du', 0, T, lambda t: [
                (at(ex, 'us_try_', t), EV(at(ex, 'us_', t).m + at(ex, 'du_', t).m.scale(A), nu(t), 1))])
            xt = lambda t: at(ex, 'xs_try_', t).m
            ut = lambda t: at(ex, 'us_try_', t).m
            F = lambda n, t: trial(ex, n, t, xt(t), ut(t))
            FT = lambda n: trial(ex, n, T, xt(T), None)

            def cost():
                return [(sc(ex, 'cost_try_'), seq(ex, 0, T, lambda t: F('cost', t).p) + FT('cost').p)]
            S.exact('cost_try_ is the sum of the node costs of the trial', cost)

            def gap():
                return [(sc(ex, 'gap_norm_try_'),
                         seq(ex, 0, T, lambda t: n1(sdiff(ex, at(ex, 'xs_try_', t + 1), F('xnext', t)))))]
            S.exact('gap_norm_try_ is the 1-norm of the dynamics gaps of the trial', gap)
            if con:
                def viol(g, t):
                    lo, hi = glb(t), gub(t)
                    zero = Mat.zero('V')
                    return n1(tm.vfun('max', lo - g, zero)) + n1(tm.vfun('max', g - hi, zero))

                def cons():
                    return [(sc(ex, 'constraint_norm_try_'),
                             seq(ex, 0, T, lambda t: viol(F('g', t).m, t)) + viol(FT('g').m, T))]
                S.exact('constraint_norm_try_ is the 1-norm of the bound violations of the trial', cons)
            ret = ex.deref(p.val)

            def merit():
                c, g = sc(ex, 'cost_try_'), sc(ex, 'gap_norm_try_')
                md = sc(ex, 'mu_dynamic_')
                if not con:
                    m = c + md * g
                else:
                    v = sc(ex, 'constraint_norm_try_')
                    mc = sc(ex, 'mu_constraint_')
                    m = c + md * g + mc * v
                    if cls == 'SolverCSQP':
                        if ex.decide(z3.Or(to_z3(md, 'real') < 0, to_z3(mc, 'real') < 0)):
                            m = c + sc(ex, 'lag_mul_inf_norm_coef_') * sc(ex, 'lag_mul_inf_norm_') * (g + v)
                return [(sc(ex, 'merit_try_'), m), (ret.p, m)]
            S.exact('the returned merit is cost plus weighted gaps and violations', merit)
            S.leave()
    return run


def integ(ex, x, dm):
    return EV(Mat.atom(App('integrate', (x.m, dm), 'vec')), NX, 1)


def sdiff(ex, a, b):
    return EV(Mat.atom(App('diff', (a.m, b.m), 'vec')), NDX, 1)


def trial(ex, name, t, x, u, split=True):
    """the model function at node t (a control of dimension 0 is the empty control)"""
    t = P(t)
    if u is None or u.is_zero() or (ex.decide if split else ex.entails)(to_z3(nu(t)) == 0):
        u = Mat.zero('V')
    kind, dims = DATA[name]
    if kind == 'dbl':
        return Sc(App('F.' + name, (t, x, u), 'real'))
    rr, c = dims(t)
    return EV(Mat.atom(App('F.' + name, (t, x, u), 'vec' if kind == 'vec' else 'mat', kind == 'mats')), rr, c)


def glb(t):
    return Mat.atom(App('g_lb', (P(t),), 'vec'))


def gub(t):
    return Mat.atom(App('g_ub', (P(t),), 'vec'))


# ------------------------------------------------------------------ C04 rollouts
def rollout(cls):
    def run(r):
        ex = r.ex(cls)
        ex.finite = True
        S = Spec(ex, 'C04')
        f = r.method(cls, 'tryStep', 1)
        al = Sc(App('arg.steplength', (), 'real'))
        fdd = cls == 'SolverFDDP'
        ps = r.paths(ex, f, [al])
        r.vacuity(ex, ps, ('norm', 'throw'))
        a = al.z()
        before = dict(ex.fields)
        for p in ps:
            S.enter(p)
            S.frame('the iterate and the gains stay as they were', S._snap[0],
                    ['xs_', 'us_', 'K_', 'k_', 'Vxx_', 'Vx_', 'fs_', 'cost_', 'preg_', 'dreg_'])
            if p.out == 'throw':
                S.holds('only a step length outside [0,1] is rejected (finite evaluations)', z3.Or(a < 0, a > 1))
                S.leave()
                continue
            S.holds('a step length outside [0,1] is rejected', z3.And(a >= 0, a <= 1))
            A = al.p
            xt = lambda t: at(ex, 'xs_try_', t)
            ut = lambda t: at(ex, 'us_try_', t)
            F = lambda n, t: trial(ex, n, t, xt(t).m, ut(t).m if t is not T else None)

            def ctl(t):
                d = sdiff(ex, at(ex, 'xs_', t), xt(t)).m
                if at(ex, 'xs_', t).m.key() == xt(t).m.key():
                    d = Mat.zero('V')
                return [(ut(t), EV(at(ex, 'us_', t).m - at(ex, 'k_', t).m.scale(A) - at(ex, 'K_', t).m * d, nu(t), 1))]
            S.forall('trial controls follow the feedback policy', 0, T, ctl)

            def first():
                if not fdd:
                    v0 = S._snap[0].get(owner(ex, 'xs_try_')) or init(ex, owner(ex, 'xs_try_'))
                    return [(xt(P(0)), ex.as_ev(ex.arr_read(v0, P(0))))]
                x0 = EV(Mat.atom(App('x0', (), 'vec')), NX, 1)
                if keepgap(ex, a):
                    x0 = integ(ex, x0, at(ex, 'fs_', 0).m.scale(A - 1))
                return [(xt(P(0)), x0)]
            S.exact('the rollout starts at the initial state%s' % (' (keeping the gap fraction)' if fdd else ''), first)

            def nxt(t):
                w = F('xnext', t)
                if fdd and keepgap(ex, a):
                    w = integ(ex, w, at(ex, 'fs_', t + 1).m.scale(A - 1))
                return [(xt(t + 1), w)]
            S.forall('trial states follow the dynamics', 0, T, nxt)

            def cost():
                return [(sc(ex, 'cost_try_'), seq(ex, 0, T, lambda t: F('cost', t).p) + F('cost', T).p)]
            S.exact('cost_try_ is the cost of the trial trajectory', cost)
            for pr in ('C04', 'C21'):
                S.cat = pr
                S.exact('the reported decrease is that of the cost', lambda: [
                    (ex.deref(p.val).p, sc(ex, 'cost_') - sc(ex, 'cost_try_'))])
            S.cat = 'C04'
            S.leave()
    return run


def keepgap(ex, a):
    return not ex.decide(z3.Or(fld(ex, 'is_feasible_').b, a == 1))


def init(ex, k):
    sv = ex.fields
    ex.fields = {}
    try:
        return ex.field(k)
    finally:
        ex.fields = sv


def register(prog):
    for cls in RES_PROP:
        add('%s::checkKKTConditions' % cls, [RES_PROP[cls]], residual(cls))
    for cls in ('SolverSQP', 'SolverCSQP', 'SolverPROXQP'):
        add('%s::tryStep' % cls, ['C06'], trystep(cls))
    for cls in ('SolverDDP', 'SolverFDDP'):
        add('%s::tryStep' % cls, ['C04', 'C21'], rollout(cls))
