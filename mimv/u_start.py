"""C22 (and C07: the flag the SQP direction depends on): every solve starts from its arguments and the settings, not from what earlier solves left."""
from .unit import *
from . import terms as tm, lib as lb
from . import u_solve, u_csqp
from .u_solve import Adopt, fld, num, gz, to_z3, z3, Bo, cur_pair, owner, has_field
from .u_csqp import CLS, WRI, consistent, positive, Ex0


class Start(Adopt):
    """at the first direction of a solve everything an earlier solve can have left behind is set anew"""

    def init(self, ex):
        Adopt.init(self, ex)
        ex.ghost['began'] = Bo(False)
        ex.ghost['rhor'] = Bo(False)
        ex.ghost['evald'] = Bo(False)

    def started(self, ex, what):
        x, u = fld(ex, 'xs_'), fld(ex, 'us_')
        S = Spec(ex, 'C22')
        if self.ctl.cls in u_solve.LS:
            w, nm = self.ctl.xs0.store(P(0), lb.x0_value()), 'the warm start with its first state replaced by the initial state'
        else:
            w, nm = self.ctl.xs0, 'the warm start'
        ok = x.key() == w.key() and u.key() == self.ctl.us0.key()
        S.rec('the solve starts from ' + nm, 'proved' if ok else 'refuted', '' if ok else 'xs_=%r us_=%r at %s' % (x, u, what))

    def conds(self, ex):
        c = self.ctl
        a = c.reg
        p, d = fld(ex, 'preg_'), fld(ex, 'dreg_')
        nn = lambda v: z3.Not(v.nan) if v.nan is not None else z3.BoolVal(True)

        def want(v):
            m = num(ex, 'reg_min_')
            w = z3.If(a.nan, m, a.z())
            if c.cls == CLS:
                w = z3.If(fld(ex, 'remove_reg_').b, z3.RealVal(0), w)
            return z3.And(nn(v), v.z() == w)
        out = [('the regularisation starts at the requested value, or at its minimum', z3.And(want(p), want(d))),
               ('the iteration counter starts at zero', num(ex, 'iter_') == 0)]
        if c.cls not in u_solve.LS:
            out.append(('the feasibility flag is that of the call', fld(ex, 'is_feasible_').b == c.feas))
        if c.cls == CLS:
            out.append(('the time-limit flag is cleared', z3.Not(fld(ex, 'max_solve_time_reached_').b)))
            out.append(('the penalties are reset after the evaluation, unless every direction resets them',
                        z3.Or(fld(ex, 'reset_rho_').b, gz(ex, 'rhor'))))
        return out

    def dir(self, ex):
        b = gz(ex, 'began')
        if z3.is_true(z3.simplify(b)):
            return
        for nm, c in self.conds(ex):
            ex.oblige('C22', z3.Or(b, c), 'first direction of a solve: ' + nm, 'computeDirection')
        ex.ghost['began'] = Bo(True)

    def dirok(self, ex):
        ex.oblige('C22', gz(ex, 'diff') == to_z3(cur_pair(ex)),
                  'every direction uses the derivatives of the current trajectory', 'computeDirection')

    def calc(self, ex):
        ex.ghost['evald'] = Bo(True)

    def framed(self, ex, nm):
        if nm == 'reset_rho_vec':
            ex.ghost['rhor'] = ex.ghost['evald']

    def cands(self, ex, n, W):
        def st(i):
            return lambda e: z3.Or(gz(e, 'began'), self.conds(e)[i][1])
        it = lambda e: z3.Or(gz(e, 'began'), num(e, 'iter_') == 0)
        bi = lambda e: z3.Or(z3.Not(gz(e, 'began')), num(e, 'iter_') >= 1)
        out = Adopt.cands(self, ex, n, W) + [('iter_=0 unless begun', it), ('begun => iter_>=1', bi)]
        out += [('start%d' % i, st(i)) for i in range(len(self.conds(ex)))]
        return out

    def atoms(self, ex, n, W):
        return [(k + ' current', lambda e, k=k: gz(e, k) == to_z3(cur_pair(e))) for k in ('calc', 'diff')]

    def adopted(self, ex, what, same):
        pass

    def exit(self, ex, S, p, ret):
        pass


class Gaps:
    """C07 assumes the backward pass sees an infeasible trajectory; here: SQP never asks for a direction of another kind"""

    def __init__(self, ctl):
        self.ctl = ctl

    def init(self, ex):
        pass

    def dir(self, ex):
        ex.oblige('C07', z3.Not(fld(ex, 'is_feasible_').b), 'every direction is computed with the gaps of the dynamics', 'computeDirection')

    def cands(self, ex, n, W):
        return [('gaps used', lambda e: z3.Not(fld(e, 'is_feasible_').b))]

    def exit(self, ex, S, p, ret):
        pass


def start(cls, empty):
    def run(r):
        c = u_solve.Ctl(r, cls, 'C22', [Start])
        c.ex.dbg = r.dbg
        c.empty = empty
        c.run()
    return run


def reset(ry, rr):
    """reset_params of SolverCSQP: zero slacks; zero multipliers and base penalties when so configured"""
    def run(r):
        ex = r.ex(CLS)
        S = Spec(ex, 'C22')
        positive(ex, ['rho_min_', 'rho_sparse_base_'])
        b0 = sc(ex, 'rho_sparse_base_')
        for n, v in (('reset_y_', ry), ('reset_rho_', rr)):
            ex.global_pc.append(fld(ex, n).b == z3.BoolVal(v))
        before = dict(ex.fields)
        ps = r.paths(ex, r.method(CLS, 'reset_params', 0))
        r.vacuity(ex, ps, ('norm',))
        for p in ps:
            if p.out != 'norm':
                S.enter(p)
                S.rec('reset_params returns', 'refuted', 'throws')
                S.leave()
                continue
            S.enter(p)
            for n in ('z_',) + (('y_',) if ry else ()):
                S.forall('every direction starts with zero %s' % n, 0, T, lambda t, n=n: [(at(ex, n, t), EV(Mat.zero('V'), ng(t), 1))])
                S.exact('every direction starts with zero %s (terminal)' % n,
                        lambda n=n: [(at(ex, n, T), EV(Mat.zero('V'), ng(P(T)), 1))])
            if not ry:
                S.frame('the multipliers are kept when so configured', before, ['y_'])
            if rr:
                S.holds('every direction starts with the configured base penalty', num(ex, 'rho_sparse_') == to_z3(b0, 'real'))
                consistent(ex, S, b0)
            S.leave()
    return run


def register(prog):
    for cls in u_solve.SOLVERS:
        add('%s::solve (start)' % cls, ['C22'], start(cls, False), safety=False)
        add('%s::solve (start, default warm start)' % cls, ['C22'], start(cls, True), safety=False)
    add('SolverSQP::solve (gaps in the direction)', ['C07'], u_solve.mon('SolverSQP', 'C07', [Gaps]), safety=False)
    for ry in (True, False):
        for rr in (True, False):
            add('%s::reset_params (%s multipliers, %s penalties)' % (CLS, 'reset' if ry else 'kept', 'reset' if rr else 'kept'),
                ['C22'], reset(ry, rr))
