"""C09-C11 and the CSQP part of C02, C14: penalties, slacks, multipliers and the inner loop of SolverCSQP."""
from .unit import *
from . import terms as tm, loops, lib as lb
from .symex import INF as INFA
from .u_data import glb, gub
from . import u_solve, u_dir
from .symex import CppThrow, Ret

CLS = 'SolverCSQP'


def zi():
    return to_z3(P(INFA), 'real')


def el(ex, name, t, k):
    """component k of element t of an array of vectors"""
    v = fld(ex, name)
    v = ex.arr_read(v, P(t))
    return elem(ex, v, k)


def elem(ex, v, k):
    if isinstance(v, Arr):
        return ex.arr_read(v, P(k)).p
    return tm.comp(ex.as_ev(v).m, P(k))


def bound(ex, which, t, k):
    e = (glb if which == 'g_lb' else gub)(P(t))
    return tm.comp(e.m if isinstance(e, EV) else e, P(k))


def bounds_ok(ex, t, k):
    """admissible bounds: lower below upper, infinite or of moderate size"""
    lb_, ub = to_z3(bound(ex, 'g_lb', t, k), 'real'), to_z3(bound(ex, 'g_ub', t, k), 'real')
    M = z3.Real('bound_size')
    I = zi()
    return z3.And(lb_ <= ub, z3.Or(lb_ == -I, z3.And(lb_ >= -M, lb_ <= M)), z3.Or(ub == I, z3.And(ub >= -M, ub <= M)),
                  M >= 0, I > 4 * M + 1)


def penalty(ex, t, k, base):
    """the penalty the property prescribes for a component"""
    l, u = to_z3(bound(ex, 'g_lb', t, k), 'real'), to_z3(bound(ex, 'g_ub', t, k), 'real')
    I = zi()
    b = to_z3(base, 'real')
    return z3.If(z3.And(l == -I, u == I), num(ex, 'rho_min_'),
                 z3.If(u - l <= z3.RealVal('1e-6'), 1000 * b, b))


def pointwise(ex, S, name, node, fn, rng=None):
    """fn(t, k) -> z3 condition for every node and every component k in [0, ng(t))"""
    k = App('k@comp', (), 'int')

    def run(t):
        out = []
        zt = to_z3(P(t))
        ex.pc += [zt >= 0, zt <= to_z3(T), to_z3(P(k)) >= 0, to_z3(P(k)) < to_z3(ng(P(t)))]
        if node == 'running':
            ex.pc += [zt < to_z3(T)]
        if ex.solve(list(ex.pc))[0] == z3.unsat:
            return []
        c = fn(P(t), P(k))
        r, m = ex.solve(list(ex.pc) + [z3.Not(c)], timeout=20000)
        if r == z3.unsat:
            return [(name, 'proved', '')]
        return [(name, ex.verdict(c) if r == z3.sat else 'unknown', ex.cex(m, c) if m is not None and r == z3.sat else str(c)[:300])]
    t = App('t@comp', (), 'int')
    if node in ('running', 'all'):
        S.collect(name, S.each(lambda: run(P(t)) if not ex.pc.append(to_z3(P(t)) < to_z3(T)) else []))
    if node in ('terminal', 'all'):
        S.collect(name + ' (terminal node)', S.each(lambda: run(T)))


def positive(ex, names):
    for n in names:
        ex.global_pc.append(num(ex, n) > 0)


def consistent(ex, S, base, what='all'):
    def f(t, k):
        bo = bounds_ok(ex, t, k)
        rho, inv = to_z3(el(ex, 'rho_vec_', t, k), 'real'), to_z3(el(ex, 'inv_rho_vec_', t, k), 'real')
        return z3.Implies(bo, z3.And(rho == penalty(ex, t, k, base), rho > 0, inv * rho == 1))
    pointwise(ex, S, 'penalty of every component as prescribed, inverse exact', what, f)


def apply_rho(r):
    ex = r.ex(CLS)
    S = Spec(ex, 'C10')
    positive(ex, ['rho_min_'])
    rho = Sc(App('arg.rho', (), 'real'))
    ex.global_pc.append(rho.z() > 0)
    f = r.method(CLS, 'apply_rho_update', 1)
    ps = r.paths(ex, f, [rho])
    r.vacuity(ex, ps, ('norm',))
    r.notes.add('constraint bounds: lower <= upper, each infinite or of bounded size')
    for p in ps:
        if p.out != 'norm':
            continue
        S.enter(p)
        consistent(ex, S, rho.p)
        frame_only(S, 'only the penalty vectors change', p, ['rho_vec_', 'inv_rho_vec_', 'problem_'])
        S.leave()


def iterarg(ex):
    it = In(App('arg.iter', (), 'int'))
    ex.global_pc += [it.z() >= 0, num(ex, 'rho_update_interval_') >= 1]
    ex.notes.add('class invariant used: rho_update_interval_ >= 1 (set_rho_update_interval, initial value)')
    return it


def modz(ex, it):
    """iter % rho_update_interval_ == 0, as the code computes it"""
    return App('mod', (it.p, fld(ex, 'rho_update_interval_').p), 'int').z3() == 0


def pmin(a, b):
    za, zb = to_z3(a, 'real'), to_z3(b, 'real')
    return z3.If(zb < za, zb, za)


def update_rho(nan):
    """adapted penalty: only at the interval, only outside the band, within the limits, vectors consistent"""
    def run(r):
        ex = r.ex(CLS)
        S = Spec(ex, 'C10')
        ex.nanmode = nan
        if nan:
            ex.ghost['#divnan'] = True
        positive(ex, ['rho_min_', 'rho_sparse_', 'adaptive_rho_tolerance_'])
        ex.global_pc += [num(ex, 'rho_min_') <= num(ex, 'rho_max_')]
        it = iterarg(ex)
        r0, lo, hi = fld(ex, 'rho_sparse_'), fld(ex, 'rho_min_'), fld(ex, 'rho_max_')
        tol = fld(ex, 'adaptive_rho_tolerance_')
        if nan:
            ex.global_pc += [z3.Not(v.nan) for v in (r0, lo, hi, tol) if v.nan is not None]
        q = sc(ex, 'norm_primal_') * sc(ex, 'norm_dual_rel_')
        d = sc(ex, 'norm_dual_') * sc(ex, 'norm_primal_rel_')
        raw = P(App('sqrt', (q.div(d),), 'real')) * r0.p
        zr = to_z3(raw, 'real')
        est = z3.If(zr < lo.z(), lo.z(), z3.If(zr > hi.z(), hi.z(), zr))
        f = r.method(CLS, 'update_rho_vec', 1)
        ps = r.paths(ex, f, [it])
        r.vacuity(ex, ps, ('norm',))
        for p in ps:
            if p.out != 'norm':
                continue
            S.enter(p)
            r1 = fld(ex, 'rho_sparse_')
            upd = modz(ex, it)
            out = z3.Or(est > r0.z() * tol.z(), est < r0.z() / tol.z())
            S.holds('the base penalty changes only at the update interval', z3.Implies(z3.Not(upd), r1.z() == r0.z()))
            S.holds('the adapted base penalty stays within its limits',
                    z3.Implies(r1.z() != r0.z(), z3.And(r1.z() >= lo.z(), r1.z() <= hi.z())))
            if nan:
                S.holds('the base penalty never becomes NaN', z3.Not(r1.nan) if r1.nan is not None else z3.BoolVal(True))
                S.leave()
                continue
            S.holds('the base penalty changes exactly when the estimate leaves the tolerance band, to the estimate',
                    z3.Implies(upd, r1.z() == z3.If(out, est, r0.z())))
            touched = [n for n in ('rho_vec_', 'inv_rho_vec_') if fld(ex, n).key() != Ex0(ex, n).key()]
            if touched:
                consistent(ex, S, r1.p)
                S.holds('the penalty vectors change only at the update interval', upd)
            else:
                S.holds('an unchanged penalty vector belongs to an unchanged base penalty', r1.z() == r0.z())
            frame_only(S, 'only penalties change', p, ['rho_vec_', 'inv_rho_vec_', 'rho_sparse_', 'rho_estimate_sparse_',
                                                       'problem_'])
            S.leave()
    return run


def Ex0(ex, n):
    """initial value of a field"""
    sv = ex.fields
    ex.fields = {}
    try:
        return fld(ex, n)
    finally:
        ex.fields = sv


def reset_rho(r):
    ex = r.ex(CLS)
    S = Spec(ex, 'C10')
    positive(ex, ['rho_min_', 'rho_sparse_base_'])
    b0 = sc(ex, 'rho_sparse_base_')
    f = r.method(CLS, 'reset_rho_vec', 0)
    ps = r.paths(ex, f)
    r.vacuity(ex, ps, ('norm',))
    for p in ps:
        if p.out != 'norm':
            continue
        S.enter(p)
        S.holds('the base penalty is the configured one', num(ex, 'rho_sparse_') == to_z3(b0, 'real'))
        consistent(ex, S, b0)
        frame_only(S, 'only penalties change', p, ['rho_vec_', 'inv_rho_vec_', 'rho_sparse_', 'problem_'])
        S.leave()


# ------------------------------------------------------------------ C09, C11
def lagrangian(heur):
    def run(r):
        ex = r.ex(CLS)
        S = Spec(ex, 'C09')
        it = iterarg(ex)
        hb = fld(ex, 'update_rho_with_heuristic_').b
        ex.global_pc.append(hb if heur else z3.Not(hb))
        old = {n: fld(ex, n) for n in ('z_', 'y_', 'rho_vec_', 'inv_rho_vec_', 'dxtilde_', 'dutilde_')}
        al = sc(ex, 'alpha_')
        f = r.method(CLS, 'update_lagrangian_parameters', 1)
        ps = r.paths(ex, f, [it])
        r.vacuity(ex, ps, ('norm',))
        rd = lambda n, t: ex.as_ev(ex.arr_read(old[n], P(t))).m
        D = lambda n, t: data(ex, n, t).m

        def cdx(t):
            c = D('Gx', t) * rd('dxtilde_', t)
            return c if P(t).key() == T.key() else c + D('Gu', t) * rd('dutilde_', t)
        for p in ps:
            if p.out != 'norm':
                continue
            S.enter(p)

            def comp(t, k):
                c = lambda m: to_z3(tm.comp(m, k), 'real')
                l = to_z3(bound(ex, 'g_lb', t, k), 'real') - c(D('g', t))
                u = to_z3(bound(ex, 'g_ub', t, k), 'real') - c(D('g', t))
                rho, inv = c(rd('rho_vec_', t)), c(rd('inv_rho_vec_', t))
                zr = to_z3(al, 'real') * c(cdx(t)) + (1 - to_z3(al, 'real')) * c(rd('z_', t))
                return l, u, rho, inv, zr, c(rd('y_', t)), to_z3(el(ex, 'z_', t, k), 'real'), to_z3(el(ex, 'y_', t, k), 'real')

            def pre(t, k, *cs):
                l, u, rho, inv = comp(t, k)[:4]
                return z3.Implies(z3.And(l <= u, rho > 0, rho * inv == 1), z3.And(*cs))

            def slack(t, k):
                l, u, rho, inv, zr, y0, z1, y1 = comp(t, k)
                return pre(t, k, l <= z1, z1 <= u)

            def proj(t, k):
                l, u, rho, inv, zr, y0, z1, y1 = comp(t, k)
                v = zr + y0 * inv
                return pre(t, k, z1 == z3.If(v < l, l, z3.If(v > u, u, v)))

            def dual(t, k):
                l, u, rho, inv, zr, y0, z1, y1 = comp(t, k)
                return pre(t, k, y1 == y0 + rho * (zr - z1))

            def remainder(t, k):
                l, u, rho, inv, zr, y0, z1, y1 = comp(t, k)
                # y0 = rho inv y0 since inv is the exact reciprocal
                return pre(t, k, z3.Implies(y0 == rho * (inv * y0), y1 == rho * ((zr + y0 * inv) - z1)))

            def compl(t, k):
                l, u, rho, inv, zr, y0, z1, y1 = comp(t, k)
                v = z3.Real('unprojected')
                return pre(t, k, z3.Implies(z3.And(y1 == rho * (v - z1), z1 == z3.If(v < l, l, z3.If(v > u, u, v))),
                                            z3.And(z3.Or(y1 >= 0, z1 == l), z3.Or(y1 <= 0, z1 == u))))
            pointwise(ex, S, 'the slack is within its shifted bounds', 'all', slack)
            pointwise(ex, S, 'slack is the relaxed projection', 'all', proj)
            pointwise(ex, S, 'multiplier follows the dual ascent update', 'all', dual)
            pointwise(ex, S, 'multiplier is the scaled remainder of the projection', 'all', remainder)
            pointwise(ex, S, 'multiplier and slack are complementary', 'all', compl)
            S.forall('the reported step is the candidate step', 0, T, lambda t: [
                (at(ex, 'dx_', t), EV(rd('dxtilde_', t), NDX, 1)), (at(ex, 'du_', t), EV(rd('dutilde_', t), nu(t), 1))])
            S.exact('the reported terminal step is the candidate step', lambda: [(at(ex, 'dx_', T), EV(rd('dxtilde_', T), NDX, 1))])
            frame_only(S, 'penalties, candidate step and trajectories are untouched', p,
                       'z_ z_prev_ z_relaxed_ y_ dx_ du_ tmp_dual_cwise_ tmp_Cdx_Cdu_ norm_primal_ norm_dual_ norm_primal_rel_ '
                       'norm_dual_rel_ problem_'.split())
            S.cat = 'C11'
            at_upd = ex.entails(modz(ex, it))
            if at_upd:
                z = lambda t: at(ex, 'z_', t).m
                w = lambda t: tm.diag(rd('rho_vec_', t)) * (z(t) - rd('z_', t))
                y = lambda t: at(ex, 'y_', t).m
                con = lambda fn: (lambda t: P(0) if ex.decide(to_z3(ng(t)) == 0) else fn(t))
                fam = lambda fn: (0, T, con(fn))
                end = lambda fn: fn(T)
                jac = lambda m: (lambda which, t: ninf(D(which, t).T() * m(t)))
                S.is_max('primal residual', fld(ex, 'norm_primal_'), [fam(lambda t: ninf(cdx(t) - z(t)))], [end(lambda t: ninf(cdx(t) - z(t)))])
                S.is_max('primal scale', fld(ex, 'norm_primal_rel_'), [fam(lambda t: ninf(cdx(t))), fam(lambda t: ninf(z(t)))],
                         [ninf(cdx(T)), ninf(z(T))])
                if heur:
                    S.is_max('dual residual', fld(ex, 'norm_dual_'), [fam(lambda t: ninf(w(t)))], [ninf(w(T))])
                    S.is_max('dual scale', fld(ex, 'norm_dual_rel_'), [fam(lambda t: ninf(y(t)))], [ninf(y(T))])
                else:
                    for nm, fl, m in (('dual residual', 'norm_dual_', w), ('dual scale', 'norm_dual_rel_', y)):
                        S.is_max(nm, fld(ex, fl), [fam(lambda t: ninf(D('Gx', t).T() * m(t))), fam(lambda t: ninf(D('Gu', t).T() * m(t)))],
                                 [ninf(D('Gx', T).T() * m(T))])
            S.cat = 'C09'
            S.leave()
    return run


# ------------------------------------------------------------------ C10, C11, C14: the inner loop
WRI = {'reset_params': ['y_'], 'update_lagrangian_parameters': ['y_'], 'backwardPass': [], 'backwardPass_mt': [],
       'backwardPass_without_rho_update': [], 'backwardPass_without_rho_update_mt': [],
       'backwardPass_without_constraints': [], 'forwardPass': [], 'forwardPass_without_constraints': [],
       'update_rho_vec': [], 'printQPCallbacks': []}
EXTRA = ['max_qp_iters_', 'rho_update_interval_', 'eps_abs_', 'eps_rel_', 'equality_qp_initial_guess_', 'reset_y_', 'with_qp_callbacks_',
         'alpha_', 'sigma_']


class Inner(u_solve.Ctl):
    """computeDirection of SolverCSQP against the contracts of the passes it calls.

    ghost state: steps (inner iterations done), rv / fv (version of the penalties now / those the factorisation was built
    from), tobs (the time limit was observed), now (clock), it (iteration number given to the last multiplier update)"""

    def __init__(self, r):
        self.r, self.cls, self.prop = r, CLS, 'C11'
        ex = self.ex = r.ex(CLS, ctl=True)
        ex.keep_noearly = True
        ex.maxpaths = 20000
        ex.merge = True
        self.mons = [self]
        ex.ctl_names = set(WRI) | {'take_time', 'qp_iters_'}
        ex.on_sync = lambda e, w: None
        ex.ctl_spec = self.candidates
        c = ex.contracts
        for nm in WRI:
            c[nm] = getattr(self, 'c_' + nm, None) or self.c_plain(nm)
        c['take_time'] = self.c_time
        names = u_solve.reach_names(ex, r.method(CLS, 'computeDirection', 1)) | set(u_solve.PROT) | set(EXTRA) | {
            'norm_primal_', 'norm_dual_', 'norm_primal_rel_', 'norm_dual_rel_', 'norm_primal_tolerance_', 'norm_dual_tolerance_'}
        self.open = [k for k in all_fields(ex) if k[1] in names]
        ex.poison = set(k for k in all_fields(ex) if k[1] not in names)
        self.opendata = []
        ex.global_pc += [num(ex, 'rho_update_interval_') >= 1, num(ex, 'max_qp_iters_') >= 0]
        ex.notes.add('class invariant used: rho_update_interval_ >= 1 (set_rho_update_interval, initial value)')
        ex.notes.add('the profiler clock is monotone')
        for nm in WRI:
            u_solve.WR[(CLS, nm)] = WRI[nm]

    # -------------------------------------------------------------- lemmas
    def lemma(self):
        """arithmetic of the remainder, at the current iteration number"""
        ex = self.ex
        n = fld(ex, 'rho_update_interval_').p
        zn = to_z3(n)
        md = lambda q: App('mod', (P(q), n), 'int').z3()
        for q in (fld(ex, 'qp_iters_').p, g(ex, 'steps').p):
            for d in (-1, 0, 1):
                a, b = q + d, q + d + 1
                ex.assume(z3.Implies(to_z3(a) >= 0, z3.And(md(a) >= 0, md(a) < zn, md(b) == z3.If(md(a) + 1 == zn, 0, md(a) + 1))))
        ex.assume(md(P(0)) == 0)
        ex.assume(md(P(1)) == z3.If(zn == 1, 0, 1))

    def havoc(self, method, nm):
        keep = set(EXTRA)
        if method != 'update_lagrangian_parameters':
            keep |= {'norm_primal_', 'norm_dual_', 'norm_primal_rel_', 'norm_dual_rel_'}
        keep |= {'norm_primal_tolerance_', 'norm_dual_tolerance_'}
        u_solve.Ctl.havoc(self, method, nm, keep)

    # -------------------------------------------------------------- contracts
    def moved(self, name):
        """the step, slacks, multipliers or penalties change"""
        self.ex.ghost['av'] = u_solve.fresh_int(name, 'av')

    def c_plain(self, nm):
        def h(ex, args, n):
            name = u_solve.cname(ex, n)
            self.lemma()
            ex.oblige('C22', gz(ex, 'rst'), 'every pass of a direction comes after the reset of slacks and multipliers', ex.where(n))
            if nm.startswith('backwardPass') and nm != 'backwardPass_without_constraints':
                ex.oblige('C22', z3.Or(z3.Not(truth(fld(ex, 'equality_qp_initial_guess_'))), gz(ex, 'ws')),
                          'every direction starts from the unconstrained warm start when so configured', ex.where(n))
            if nm == 'forwardPass_without_constraints':
                ex.ghost['ws'] = Bo(True)
            if nm.startswith('backwardPass_without_rho'):
                # (C10) the penalties are still those of the factorisation
                sv = ex.obs_prop if hasattr(ex, 'obs_prop') else None
                ex.oblige('C10', gz(ex, 'fv') == gz(ex, 'rv'),
                          'a factorisation is reused only while the penalties it was built from are unchanged', ex.where(n))
            if nm == 'forwardPass_without_constraints':
                ex.oblige('C08', gz(ex, 'gu'), 'the unconstrained warm start uses the gains of the unconstrained subproblem', ex.where(n))
            if nm == 'forwardPass':
                ex.oblige('C08', gz(ex, 'ga') == gz(ex, 'av'),
                          'the candidate step uses gains built with the current step, slacks, multipliers and penalties', ex.where(n))
            self.havoc(nm, name)
            if nm == 'forwardPass':
                ex.ghost['cv'] = g(ex, 'av')
            if nm == 'forwardPass_without_constraints':
                self.moved(name)
            if nm.startswith('backwardPass'):
                ex.ghost['gu'] = Bo(nm == 'backwardPass_without_constraints')
                ex.ghost['ga'] = g(ex, 'av') if nm != 'backwardPass_without_constraints' else u_solve.fresh_int(name, 'ga')
            if nm.startswith('backwardPass') and ex.choose(2) == 1:
                ex.ghost['fv'] = u_solve.fresh_int(name, 'fv')
                ex.ghost['ga'] = u_solve.fresh_int(name, 'ga')
                ex.ghost['gu'] = Bo(False)
                raise CppThrow('std::exception')
            if nm in ('backwardPass', 'backwardPass_mt'):
                ex.ghost['fv'] = g(ex, 'rv')
            if nm == 'backwardPass_without_constraints':
                ex.ghost['fv'] = u_solve.fresh_int(name, 'fv')
            return Opq('void')
        return h

    def c_reset_params(self, ex, args, n):
        name = u_solve.cname(ex, n)
        self.havoc('reset_params', name)
        rr = fld(ex, 'reset_rho_').b
        ex.ghost['rv'] = u_solve.ite(rr, u_solve.fresh_int(name, 'rv').p, g(ex, 'rv').p)
        self.moved(name)
        ex.oblige('C22', z3.Not(gz(ex, 'rst')), 'slacks and multipliers are reset once, at the start of a direction', ex.where(n))
        ex.ghost['rst'] = Bo(True)
        return Opq('void')

    def c_update_lagrangian_parameters(self, ex, args, n):
        name = u_solve.cname(ex, n)
        it = ex.deref(args[0])
        self.lemma()
        ex.oblige('C08', gz(ex, 'cv') == gz(ex, 'av'),
                  'slacks and multipliers are updated with the candidate step of this iteration', ex.where(n))
        self.havoc('update_lagrangian_parameters', name)
        self.moved(name)
        ex.ghost['steps'] = In(g(ex, 'steps').p + 1)
        ex.ghost['it'] = In(it.p)
        ex.ghost['np'], ex.ghost['nd'] = fld(ex, 'norm_primal_'), fld(ex, 'norm_dual_')
        ex.ghost['npr'], ex.ghost['ndr'] = fld(ex, 'norm_primal_rel_'), fld(ex, 'norm_dual_rel_')
        ex.oblige('C11', it.z() == gz(ex, 'steps'), 'the multiplier update is told the number of the inner iteration', ex.where(n))
        ex.oblige('C14', gz(ex, 'steps') <= num(ex, 'max_qp_iters_'), 'inner iterations within the budget', ex.where(n))
        return Opq('void')

    def c_update_rho_vec(self, ex, args, n):
        name = u_solve.cname(ex, n)
        it = ex.deref(args[0])
        self.lemma()
        ex.oblige('C10', it.z() == gz(ex, 'steps'), 'the penalty update is told the number of the inner iteration', ex.where(n))
        self.havoc('update_rho_vec', name)
        upd = App('mod', (it.p, fld(ex, 'rho_update_interval_').p), 'int').z3() == 0
        ex.ghost['rv'] = u_solve.ite(upd, u_solve.fresh_int(name, 'rv').p, g(ex, 'rv').p)
        ex.ghost['av'] = u_solve.ite(upd, u_solve.fresh_int(name, 'av').p, g(ex, 'av').p)
        return Opq('void')

    def c_time(self, ex, args, n):
        nm = u_solve.cname(ex, n)
        t = Sc(App(nm + '.time', (), 'real'))
        ex.assume(t.z() >= gz(ex, 'now'))
        ex.ghost['now'] = t
        ex.ghost['tobs'] = Bo(z3.simplify(z3.Or(gz(ex, 'tobs'), t.z() - num(ex, 'start_time_') >= num(ex, 'max_solve_time_'))))
        return t

    # -------------------------------------------------------------- invariants
    def bounds(self, ex):
        return [('max_qp_iters_', lambda e: num(e, 'max_qp_iters_')), ('max_qp_iters_+1', lambda e: num(e, 'max_qp_iters_') + 1)]

    def cands(self, ex, n, W):
        md = lambda e, q: App('mod', (P(q), fld(e, 'rho_update_interval_').p), 'int').z3()
        out = []

        def val(e, lv):
            v = lv.get(e)
            if not isinstance(v, In):
                raise KeyError
            return v.p
        ok = lambda e: gz(e, 'fv') == gz(e, 'rv')
        qs = [(u_solve.kn(k), lv) for k, lv in self.ints if k[-1] not in ('rv', 'fv', 'it', 'av', 'ga', 'cv')]
        for nm, lv in qs:
            for d in (-1, 0):
                out.append(('mod(%s%+d)!=0 => factorisation current' % (nm, d), lambda e, lv=lv, d=d: z3.Or(
                    md(e, val(e, lv) + d) == 0, ok(e))))
            for d in (0, 1):
                out.append(('%s<=max+%d' % (nm, d), lambda e, lv=lv, d=d: to_z3(val(e, lv)) <= num(e, 'max_qp_iters_') + d))
            out.append(('%s>=1' % nm, lambda e, lv=lv: to_z3(val(e, lv)) >= 1))
        out.append(('no timeout', lambda e: z3.Not(gz(e, 'tobs'))))
        out.append(('flag unchanged', lambda e: fld(e, 'max_solve_time_reached_').b == self.flag0))
        out.append(('it=steps', lambda e: gz(e, 'it') == gz(e, 'steps')))
        for a, b in (('np', 'norm_primal_'), ('nd', 'norm_dual_'), ('npr', 'norm_primal_rel_'), ('ndr', 'norm_dual_rel_')):
            out.append((b + ' reported', lambda e, a=a, b=b: z3.Or(gz(e, 'steps') == 0, num(e, b) == gz(e, a))))
        return out

    def run_inner(self):
        ex = self.ex
        f = self.r.method(CLS, 'computeDirection', 1)
        for k, v in (('steps', In(0)), ('it', In(0)), ('rv', In(App('init.rv', (), 'int'))), ('fv', In(App('init.fv', (), 'int'))),
                     ('av', In(App('init.av', (), 'int'))), ('ga', In(App('init.ga', (), 'int'))),
                     ('cv', In(App('init.cv', (), 'int'))), ('gu', Bo(False)), ('rst', Bo(False)), ('ws', Bo(False))):
            ex.ghost[k] = v
        ex.ghost['tobs'] = Bo(False)
        for k in ('now', 'np', 'nd', 'npr', 'ndr'):
            ex.ghost[k] = Sc(App('init.' + k, (), 'real'))
        self.flag0 = fld(ex, 'max_solve_time_reached_').b
        before = dict(ex.fields)
        ps = self.r.paths(ex, f, [Bo(App('arg.recalc', (), 'bool').z3())])
        self.r.vacuity(ex, ps, ('norm', 'throw'))
        S = Spec(ex, 'C11')
        names = u_solve.protected(ex, CLS, 'computeDirection')
        for p in ps:
            S.enter(p)
            self.lemma()
            for pr in ('C02', 'C13', 'C16'):
                S.cat = pr
                S.frame('computeDirection changes nothing its callers rely on (%s)' % p.out, before, names)
            S.cat = 'C14'
            flag = fld(ex, 'max_solve_time_reached_').b
            if p.out == 'throw':
                S.holds('a failed direction leaves the time flag alone', flag == self.flag0)
                S.leave()
                continue
            S.holds('the time flag is raised exactly when the limit was observed', flag == z3.Or(self.flag0, gz(ex, 'tobs')))
            st, q, mx = gz(ex, 'steps'), num(ex, 'qp_iters_'), num(ex, 'max_qp_iters_')
            S.holds('the reported number of inner iterations is the number done', q == st)
            S.holds('at most the configured number of inner iterations', z3.And(st >= 0, st <= mx))
            S.cat = 'C11'
            A, R = num(ex, 'eps_abs_'), num(ex, 'eps_rel_')
            small = z3.If(R < 0, -R, R) <= z3.Q(1, 2**52)
            tol = lambda rel: z3.If(small, A, A + R * gz(ex, rel))
            md = App('mod', (g(ex, 'steps').p, fld(ex, 'rho_update_interval_').p), 'int').z3()
            passed = z3.And(st >= 1, md == 0, gz(ex, 'np') <= tol('npr'), gz(ex, 'nd') <= tol('ndr'))
            S.holds('the inner loop ends early only on the time limit or on the residual test',
                    z3.Or(st >= mx, gz(ex, 'tobs'), passed))
            S.holds('the reported residuals are those of the last inner iteration', z3.Or(st == 0, z3.And(
                num(ex, 'norm_primal_') == gz(ex, 'np'), num(ex, 'norm_dual_') == gz(ex, 'nd'))))
            S.leave()


FACT = ['K_', 'Quu_llt_', 'Vxx_', 'Vxx_fs_', 'Quu_', 'Qxu_', 'Lxx_', 'Lxu_', 'Luu_']
PEN = ['rho_vec_', 'inv_rho_vec_', 'rho_sparse_', 'rho_min_', 'rho_max_', 'alpha_', 'sigma_']
STEP = ['y_', 'z_', 'dx_', 'du_']
CAND = ['dxtilde_', 'dutilde_']
NORMS = ['norm_primal_', 'norm_dual_', 'norm_primal_rel_', 'norm_dual_rel_']


def pass_frame(nm, nargs):
    """what computeDirection assumes is left alone by one of its passes, also when the pass ends with an exception"""
    def run(r):
        ex = r.ex(CLS)
        S = Spec(ex, 'C10')
        f = r.method(CLS, nm, nargs)
        for k, v in WRI.items():
            u_solve.WR[(CLS, k)] = v
        u_dir.throwing(ex)
        ex.contracts['pow'] = lambda e, a, n: Sc(App('pow@%d' % tm.intern(('pow', str(n.get('id')))), (), 'real'))
        args = [In(App('arg.iter', (), 'int'))] if nargs else []
        ex.global_pc += [num(ex, 'rho_update_interval_') >= 1] + [a.z() >= 0 for a in args]
        ps = r.paths(ex, f, args)
        r.vacuity(ex, ps, ('norm',))
        has = lambda ns: [x for x in ns if u_solve.has_field(ex, x)]
        base = u_solve.protected(ex, CLS, nm) + has(EXTRA) + has(['norm_primal_tolerance_', 'norm_dual_tolerance_'])
        if nm != 'update_lagrangian_parameters':
            base += has(NORMS)
        fact = has(FACT)
        pen = has(PEN)
        for p in ps:
            S.enter(p)
            pre = S._snap[0]
            for pr in ('C10', 'C11', 'C14', 'C02', 'C13', 'C16'):
                S.cat = pr
                S.frame('%s changes nothing its callers rely on (%s)' % (nm, p.out), pre, base)
            S.cat = 'C10'
            if nm in ('forwardPass', 'update_lagrangian_parameters', 'update_rho_vec', 'printQPCallbacks'):
                S.frame('%s leaves the factorisation alone (%s)' % (nm, p.out), pre, fact)
            S.cat = 'C08'
            if nm.startswith('backward') or nm in ('forwardPass', 'printQPCallbacks'):
                S.frame('%s leaves step, slacks and multipliers alone (%s)' % (nm, p.out), pre, has(STEP))
            if nm == 'printQPCallbacks':
                S.frame('printQPCallbacks leaves the candidate step alone (%s)' % p.out, pre, has(CAND + ['k_']))
            S.cat = 'C10'
            if nm not in ('update_rho_vec', 'reset_params'):
                S.frame('%s leaves the penalties alone (%s)' % (nm, p.out), pre, pen)
            if nm == 'reset_params' and ex.entails(z3.Not(fld(ex, 'reset_rho_').b)):
                S.frame('reset_params leaves the penalties alone unless told to reset them', pre, pen)
            S.leave()
    return run


def truth(v):
    return v.b if isinstance(v, Bo) else v.z() != 0


def g(ex, k):
    return ex.ghost[k]


def gz(ex, k):
    v = ex.ghost[k]
    return v.b if isinstance(v, Bo) else v.z()


def inner(r):
    Inner(r).run_inner()


def register(prog):
    add(CLS + '::apply_rho_update', ['C10'], apply_rho)
    add(CLS + '::update_rho_vec', ['C10'], update_rho(False))
    add(CLS + '::update_rho_vec (NaN)', ['C10'], update_rho(True), safety=False)
    add(CLS + '::reset_rho_vec', ['C10'], reset_rho)
    add(CLS + '::update_lagrangian_parameters', ['C09', 'C11'], lagrangian(False))
    add(CLS + '::update_lagrangian_parameters (heuristic)', ['C09', 'C11'], lagrangian(True))
    add(CLS + '::computeDirection (inner loop)', ['C08', 'C10', 'C11', 'C14', 'C02', 'C13', 'C16', 'C22'], inner)
    for nm in WRI:
        add(CLS + '::%s (callee frame)' % nm, ['C08', 'C10', 'C11', 'C14', 'C02', 'C13', 'C16'],
            pass_frame(nm, 1 if nm in ('forwardPass', 'update_lagrangian_parameters', 'update_rho_vec', 'printQPCallbacks') else 0))
