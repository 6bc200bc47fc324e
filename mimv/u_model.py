"""C21: DDP and FDDP: the Riccati policy, the predicted improvement, the gap norm of a trial, the acceptance tests."""
from .unit import *
from . import terms as tm, loops, lib as lb
from . import u_data, u_lq, u_dir, u_solve
from .u_data import sdiff, trial

from fractions import Fraction
PROP = 'C21'
HALF = P(Fraction(1, 2))


def dot(a, b):
    return tm.scal(a.T() * b)


def element(ex, i):
    """entry i of d_"""
    return ex.elem_get(fld(ex, 'd_'), P(i)).p


def riccati(cls):
    def run(r):
        ex = r.ex(cls)
        ex.finite = True
        S = Spec(ex, PROP)
        S.dbg = r.dbg
        S.rewrites.append(u_lq.cancel_inverse)
        ex.global_pc += [z3.Not(fld(ex, 'preg_').nan), z3.Not(fld(ex, 'dreg_').nan)]
        f = r.method(cls, 'backwardPass', 0)
        ps = r.paths(ex, f)
        r.vacuity(ex, ps, ('norm',))
        for p in ps:
            if p.out != 'norm':
                continue
            S.enter(p)
            D = lambda n, t: data(ex, n, t).m
            A = lambda n, t: at(ex, n, t).m
            pr, dr = sc(ex, 'preg_'), sc(ex, 'dreg_')
            feas = fld(ex, 'is_feasible_').b
            eye = u_lq.eye

            def gapterm(t):
                return Mat.zero('V') if ex.decide(feas) else A('Vxx_', t) * A('fs_', t)
            S.exact('terminal value function: Hessian', lambda: [
                (at(ex, 'Vxx_', T), EV(D('Lxx', T) + eye(pr), NDX, NDX))])
            S.exact('terminal value function: gradient', lambda: [
                (at(ex, 'Vx_', T), EV(D('Lx', T) + gapterm(T), NDX, 1))])
            S.forall('Qu', 0, T, lambda t: [
                (at(ex, 'Qu_', t), EV(D('Lu', t) + D('Fu', t).T() * A('Vx_', t + 1), nu(t), 1))])
            S.forall('Quu', 0, T, lambda t: [] if ex.decide(to_z3(nu(t)) == 0) else [
                (at(ex, 'Quu_', t), EV(D('Luu', t) + D('Fu', t).T() * A('Vxx_', t + 1) * D('Fu', t) + eye(dr), nu(t), nu(t)))])
            S.forall('the feedforward term solves Quu k = Qu', 0, T, lambda t: [
                (EV(A('Quu_', t) * A('k_', t), nu(t), 1), at(ex, 'Qu_', t))])
            S.forall('the gain solves Quu K = Qxu\'', 0, T, lambda t: [
                (EV(A('Quu_', t) * A('K_', t), nu(t), NDX),
                 EV(D('Lxu', t).T() + D('Fu', t).T() * A('Vxx_', t + 1) * D('Fx', t), nu(t), NDX))])
            S.forall('Quuk is Quu k', 0, T, lambda t: [
                (at(ex, 'Quuk_', t), EV(A('Quu_', t) * A('k_', t), nu(t), 1))])

            def hess(t):
                M = D('Lxx', t) + D('Fx', t).T() * A('Vxx_', t + 1) * D('Fx', t) - \
                    (D('Lxu', t) + D('Fx', t).T() * A('Vxx_', t + 1) * D('Fu', t)) * A('K_', t)
                return [(at(ex, 'Vxx_', t), EV(M.scale(HALF) + M.T().scale(HALF) + eye(pr), NDX, NDX))]
            S.forall('value function: Hessian', 0, T, hess)
            S.forall('value function: gradient', 0, T, lambda t: [
                (at(ex, 'Vx_', t), EV(D('Lx', t) + D('Fx', t).T() * A('Vx_', t + 1) - A('K_', t).T() * A('Qu_', t) + gapterm(t),
                                      NDX, 1))])
            S.leave()
    return run


def improvement(cls):
    """d_ after expectedImprovement (FDDP: after updateExpectedImprovement and expectedImprovement)"""
    def run(r):
        ex = r.ex(cls)
        ex.finite = True
        S = Spec(ex, PROP)
        fdd = cls == 'SolverFDDP'
        f = r.method(cls, 'expectedImprovement', 0)
        u = r.method(cls, 'updateExpectedImprovement', 0) if fdd else None

        def go():
            if fdd:
                ex.run_function(u, [])
            return ex.run_function(f, [])
        ps = ex.explore(go)
        r.vacuity(ex, ps, ('norm',))
        for p in ps:
            S.enter(p)
            if p.out != 'norm':
                S.rec('expectedImprovement returns', 'refuted', 'throws')
                S.leave()
                continue
            A = lambda n, t: at(ex, n, t).m
            feas = fld(ex, 'is_feasible_').b

            def ctl(a, b, t):
                # a node without controls contributes nothing
                return P(0) if ex.decide(to_z3(nu(t)) == 0) else dot(A(a, t), A(b, t))

            def lin():
                w = seq(ex, 0, T, lambda t: ctl('Qu_', 'k_', t))
                if fdd and not ex.decide(feas):
                    w = w - seq(ex, 0, T + 1, lambda t: dot(A('Vx_', t), A('fs_', t))) + move()
                return [(element(ex, 0), w)]

            def move():
                return -seq(ex, 0, T + 1, lambda t: dot(A('fs_', t), A('Vxx_', t) * sdiff(
                    ex, at(ex, 'xs_try_', t), at(ex, 'xs_', t)).m))

            def quad():
                w = -seq(ex, 0, T, lambda t: ctl('k_', 'Quuk_', t))
                if fdd and not ex.decide(feas):
                    w = w + seq(ex, 0, T + 1, lambda t: dot(A('fs_', t), A('Vxx_', t) * A('fs_', t))) - move() * 2
                return [(element(ex, 1), w)]
            S.exact('the predicted slope is that of the quadratic model', lin)
            S.exact('the predicted curvature is that of the quadratic model', quad)
            S.frame('nothing else changes', S._snap[0], ['xs_', 'us_', 'xs_try_', 'us_try_', 'fs_', 'cost_', 'cost_try_', 'k_', 'K_',
                                                        'Vxx_', 'Vx_', 'Qu_', 'Quuk_'])
            S.leave()
    return run


def trialgap(r):
    cls = 'SolverFDDP'
    ex = r.ex(cls)
    ex.finite = True
    S = Spec(ex, PROP)
    f = r.method(cls, 'tryStep', 1)
    al = Sc(App('arg.steplength', (), 'real'))
    ps = r.paths(ex, f, [al])
    r.vacuity(ex, ps, ('norm',))
    for p in ps:
        if p.out != 'norm':
            continue
        S.enter(p)
        xt = lambda t: at(ex, 'xs_try_', t)
        ut = lambda t: at(ex, 'us_try_', t)

        def gap(t):
            a, b = xt(t), trial(ex, 'xnext', t - 1, xt(t - 1).m, ut(t - 1).m)
            return sdiff(ex, a, b).m

        def want():
            if not u_data.keepgap(ex, al.z()):
                return [(sc(ex, 'gap_norm_try_'), P(0))]
            x0 = EV(Mat.atom(App('x0', (), 'vec')), NX, 1)

            def node(t):
                # summed as the code does: the gap at the start of node t
                if ex.decide(to_z3(t) == 0):
                    return tm.norm1(sdiff(ex, xt(P(0)), x0).m)
                return tm.norm1(gap(t - 1 + 1))
            w = seq(ex, 0, T, node) + tm.norm1(gap(T))
            return [(sc(ex, 'gap_norm_try_'), w)]
        S.exact('gap_norm_try_ is the 1-norm of the gaps of the trial trajectory', want)
        S.leave()


# ------------------------------------------------------------------ which trials the solves adopt
class Model(u_solve.Cert, u_solve.Filter):
    """the acceptance test of the line search, stated over the model of the current direction and the true values of the trial"""
    fdd = False

    def __init__(self, ctl):
        self.ctl = ctl
        ctl.split_rec = True
        self.fdd = ctl.cls == 'SolverFDDP'

    def lists(self):
        return u_solve.LISTS[:2] if self.fdd else ()

    def init(self, ex):
        if self.fdd:
            u_solve.Filter.init(self, ex)
        else:
            u_solve.Adopt.init(self, ex)
        for k in ('m1', 'm2', 'mv', 'al'):
            ex.ghost[k] = Sc(App('init.' + k, (), 'real'))
        ex.ghost['wasfeas'] = Bo(False)
        self.k = 0

    def fresh(self, ex, *ks):
        nm = u_solve.cname(ex, None)
        for k in ks:
            ex.ghost[k] = Sc(App('%s.%s' % (nm, k), (), 'real'))

    def dir(self, ex):
        self.fresh(ex, 'm1', 'm2', 'mv')

    def kkt(self, ex):
        if self.fdd:
            u_solve.Filter.kkt(self, ex)

    def try_(self, ex, a):
        self.fresh(ex, 'mv')
        ex.ghost['al'] = a
        ex.ghost['wasfeas'] = fld(ex, 'is_feasible_')

    def move(self, ex):
        """how much the model moves with the trial: nothing when the iterate has no gaps"""
        return zpoly(z3.If(fld(ex, 'is_feasible_').b, z3.RealVal(0), gz(ex, 'mv')))

    def improve(self, ex, nm):
        m1, m2 = ex.ghost['m1'].p, ex.ghost['m2'].p
        if nm == 'updateExpectedImprovement':
            for f, v in (('dg_', m1), ('dq_', m2)):
                ex.fields[owner(ex, f)] = Sc(v)
        if nm == 'expectedImprovement':
            k = ('SolverAbstract', 'd_')
            v = ex.fields[k]
            if self.fdd:
                # proved of the body for the values updateExpectedImprovement left (SolverFDDP::expectedImprovement)
                m1, m2 = sc(ex, 'dg_'), sc(ex, 'dq_')
                if not ex.decide(fld(ex, 'is_feasible_').b):
                    mv = ex.ghost['mv'].p
                    m1, m2 = m1 + mv, m2 - mv * 2
            for i, w in ((0, m1), (1, m2)):
                v = ex.elem_set(v, P(i), Sc(w))
            ex.fields[k] = v

    def adopted(self, ex, what, same):
        R = lambda f: num(ex, f)
        m1, m2, mv, a = (gz(ex, k) for k in ('m1', 'm2', 'mv', 'al'))
        feas = gz(ex, 'wasfeas')
        self.fresh(ex, 'mv')
        ex.oblige(PROP, z3.Or(same, z3.And(gz(ex, 'okpair'), gz(ex, 'lastok') == to_z3(cur_pair(ex)))),
                  'the iterate is left as it is unless the last trial is adopted', what)
        dV = gz(ex, 'c') - gz(ex, 'tc')
        half = z3.RealVal('1/2')
        if not self.fdd:
            e = a * (m1 + half * a * m2)
            ex.oblige(PROP, z3.Or(same, z3.And(e >= 0, z3.Or(m1 < R('th_grad_'), z3.Not(feas),
                                                              dV > R('th_acceptstep_') * e))),
                      'an adopted trial has a predicted decrease and achieves its share of it', what)
            return
        fl = fld(ex, 'use_filter_line_search_').b
        d1 = z3.If(feas, m1, m1 + mv)
        d2 = z3.If(feas, m2, m2 - 2 * mv)
        e = a * (d1 + half * a * d2)
        ok = z3.If(e >= 0, z3.Or(d1 < R('th_grad_'), dV > R('th_acceptstep_') * e), dV > R('th_acceptnegstep_') * e)
        ex.oblige(PROP, z3.Implies(z3.And(z3.Not(fl), z3.Not(same)), ok),
                  'model mode: an adopted trial achieves its share of the predicted change', what)
        i = z3.Int('i!adopt')
        end = to_z3(g(ex, 'C2').end)
        n, fs = gz(ex, 'n'), num(ex, 'filter_size_')
        ex.oblige(PROP, z3.Implies(z3.And(fl, z3.Not(same)), z3.ForAll([i], z3.Implies(
            z3.And(i < end, i >= end - n, i >= end - fs), self.better(ex, i)))),
            'filter mode: the adopted trial improves on each of the last iterates', what)

    def atoms(self, ex, n, W):
        out = u_solve.Cert.atoms(self, ex, n, W)
        out.append(('cost current', lambda e: num(e, 'cost_') == to_z3(Sc(App('Cost', (cur_pair(e),), 'real')).p, 'real')))
        return out

    def cands(self, ex, n, W):
        out = u_solve.Filter.cands(self, ex, n, W) if self.fdd else u_solve.Adopt.cands(self, ex, n, W)
        return out

    def exit(self, ex, S, p, ret):
        pass


from .u_solve import gz, g, cur_pair


def register(prog):
    add('SolverDDP::backwardPass (Riccati)', [PROP], riccati('SolverDDP'))
    for cls in ('SolverDDP', 'SolverFDDP'):
        add('%s::expectedImprovement' % cls, [PROP], improvement(cls))
    add('SolverFDDP::tryStep (gap norm)', [PROP], trialgap)
    for cls in ('SolverDDP', 'SolverFDDP'):
        add('%s::solve (acceptance)' % cls, [PROP], u_solve.mon(cls, PROP, [Model]), safety=False)
