"""SolverPROXQP: the QP it assembles and what it reads back (C19); calc / computeDirection contracts for C03."""
from .unit import *
from . import terms as tm, loops, lib as lb
from .symex import psum
from . import u_solve, u_dir, u_data
from .u_data import glb, gub, sdiff, trial
from .u_dir import VALS, DERIV, is_current, gaps_current, cost_of, viol_of

CLS = 'SolverPROXQP'
NE = T * NDX                            # class invariants established by the constructor
NV = NE + psum('nu', T)
NI = psum('ng', T) + ng(T)
ONE, ZERO = P(1), P(0)
BIG = {'P_': (NV, NV), 'A_': (NE, NV), 'C_': (NI, NV), 'q_': (NV, ONE), 'b_': (NE, ONE), 'l_': (NI, ONE), 'u_': (NI, ONE)}


def setup(r):
    ex = r.ex(CLS)
    ex.finite = True
    prepare(r, ex)
    return ex


def prepare(r, ex):
    ex.big = BIG
    for k, v in (('n_eq', NE), ('n_vars', NV), ('n_in', NI)):
        ex.lib.field_over[owner(ex, k)] = lambda e, v=v: In(v)
    r.notes.add('class invariant used: n_eq = T*ndx, n_vars = n_eq + sum nu, n_in = sum ng, the QP matrices have these sizes and '
                'hold zeros outside the blocks written by calc (constructor)')


# ------------------------------------------------------------------ the linearised subproblem, block by block
def spec_blocks(ex):
    """name -> [(lo, hi or None, block(t) -> Blk)]: the blocks of the QP around the current trajectory; hi None: the single
    node t = lo. dx of node t+1 sits at t*ndx, du of node t at T*ndx + sum of the earlier nu, the constraints of node t at the
    sum of the earlier ng."""
    x = lambda t: t * NDX - NDX         # first variable of dx_t (t >= 1)
    u = lambda t: NE + psum('nu', t)
    g = lambda t: psum('ng', t)
    D = lambda n, t: dat(ex, n, t)
    n = NDX
    ev = lambda m, r, c: EV(m, r, c)
    S = {}
    S['P_'] = [
        (1, T, lambda t: Blk(x(t), n, x(t), n, D('Lxx', t))),
        (1, T, lambda t: Blk(x(t), n, u(t), nu(t), D('Lxu', t))),
        (1, T, lambda t: Blk(u(t), nu(t), x(t), n, ev(D('Lxu', t).m.T(), nu(t), n))),
        (0, T, lambda t: Blk(u(t), nu(t), u(t), nu(t), D('Luu', t))),
        (T, None, lambda t: Blk(x(t), n, x(t), n, D('Lxx', t)))]
    S['q_'] = [
        (1, T, lambda t: Blk(x(t), n, 0, 1, D('Lx', t))),
        (0, T, lambda t: Blk(u(t), nu(t), 0, 1, D('Lu', t))),
        (T, None, lambda t: Blk(x(t), n, 0, 1, D('Lx', t)))]
    S['A_'] = [
        (1, T, lambda t: Blk(t * n, n, x(t), n, ev(-D('Fx', t).m, n, n))),
        (0, T, lambda t: Blk(t * n, n, u(t), nu(t), ev(-D('Fu', t).m, n, nu(t)))),
        (0, T, lambda t: Blk(t * n, n, x(t + 1), n, ev(Mat.ident(), n, n)))]
    S['b_'] = [(0, T, lambda t: Blk(t * n, n, 0, 1, gap(ex, t)))]
    S['C_'] = [
        (1, T, lambda t: Blk(g(t), ng(t), x(t), n, D('Gx', t))),
        (0, T, lambda t: Blk(g(t), ng(t), u(t), nu(t), D('Gu', t))),
        (T, None, lambda t: Blk(g(t), ng(t), x(t), n, D('Gx', t)))]
    S['l_'] = [
        (0, T, lambda t: Blk(g(t), ng(t), 0, 1, ev(glb(t) - D('g', t).m, ng(t), 1))),
        (T, None, lambda t: Blk(g(t), ng(t), 0, 1, ev(glb(t) - D('g', t).m, ng(t), 1)))]
    S['u_'] = [
        (0, T, lambda t: Blk(g(t), ng(t), 0, 1, ev(gub(t) - D('g', t).m, ng(t), 1))),
        (T, None, lambda t: Blk(g(t), ng(t), 0, 1, ev(gub(t) - D('g', t).m, ng(t), 1)))]
    return S


def dat(ex, n, t):
    x, u = at(ex, 'xs_', t).m, None if P(t).key() == T.key() else at(ex, 'us_', t).m
    return u_data.trial(ex, n, t, x, u, split=False)


def gap(ex, t):
    return sdiff(ex, at(ex, 'xs_', t + 1), dat(ex, 'xnext', t))


# ------------------------------------------------------------------ comparison of block sets
def flatten(ws, ctx=()):
    """[(loops, Blk)]: loops = ((var, lo, hi, guards), ...)"""
    for w in ws:
        if isinstance(w, Fam):
            for gs, inner in w.cases:
                yield from flatten(inner, ctx + ((w.var, w.lo, w.hi, tuple(gs)),))
        else:
            yield ctx, w


class Blocks:
    def __init__(self, ex, S, name, got, want):
        self.ex, self.S, self.name, self.got, self.want = ex, S, name, list(flatten(got.ws)), want

    def nonempty(self, b):
        return z3.And(to_z3(b.nr) > 0, to_z3(b.nc) > 0)

    def same(self, b, w):
        """None (different place) or the list of pairs to compare"""
        e = self.ex.entails
        for p, q in ((b.row, w.row), (b.col, w.col), (b.nr, w.nr), (b.nc, w.nc)):
            if p.key() != q.key() and not e(to_z3(p) == to_z3(q)):
                return None
        return (EV(b.val.m, b.val.r, b.val.c), EV(w.val.m, w.val.r, w.val.c))

    def inst(self, ctx, b, t):
        """instances of a write at node t or a neighbour: (range, Blk)"""
        if not ctx:
            yield z3.BoolVal(True), b
            return
        if len(ctx) > 1:
            raise Undecided('block writes of nested loops')
        var, lo, hi, gs = ctx[0]
        for d in (0, 1, -1):
            sb = Subst([(var, P(t) + d)])
            i = to_z3(P(t) + d)
            yield z3.And(to_z3(lo.subst(sb)) <= i, i < to_z3(hi.subst(sb)), *[sb.zx(g) for g in gs]), b.subst(sb)
        # the first and last iteration
        for j in (lo, hi - 1):
            sb = Subst([(var, j)])
            yield z3.And(to_z3(lo) < to_z3(hi), *[sb.zx(g) for g in gs]), b.subst(sb)

    def written(self, what, lo, hi, blk):
        """every block of the subproblem is written with its value (unless it is empty)"""
        ex = self.ex
        t = P(App('v@blk', (), 'int')) if hi is not None else P(lo)

        def run():
            if hi is not None:
                ex.pc.append(z3.And(to_z3(P(lo)) <= to_z3(t), to_z3(t) < to_z3(P(hi))))
            w = blk(t)
            if not ex.decide(self.nonempty(w)):
                return []
            for ctx, b in self.got:
                for rng, bb in self.inst(ctx, b, t):
                    pr = self.same(bb, w)
                    if pr is None:
                        continue
                    if ex.entails(rng):
                        return [pr]
                    if not ex.entails(z3.Not(rng)) and ex.decide(rng):
                        return [pr]
            return None
        self.S.cases(what, run)

    def foreseen(self, what, ctx, b):
        """every block written is a block of the subproblem"""
        ex = self.ex
        if len(ctx) > 1:
            raise Undecided('block writes of nested loops')

        def run():
            i = ZERO
            bb = b
            if ctx:
                var, lo, hi, gs = ctx[0]
                i = P(App('v@wr', (), 'int'))
                sb = Subst([(var, i)])
                ex.pc.append(z3.And(to_z3(lo) <= to_z3(i), to_z3(i) < to_z3(hi), *[sb.zx(g) for g in gs]))
                bb = b.subst(sb)
            if not ex.decide(self.nonempty(bb)):
                return []
            for lo, hi, blk in self.want:
                ts = [P(lo)] if hi is None else [i, i + 1, i - 1, P(lo), P(hi) - 1]
                for t in ts:
                    if hi is not None:
                        rng = z3.And(to_z3(P(lo)) <= to_z3(t), to_z3(t) < to_z3(P(hi)))
                        if not ex.entails(rng):
                            if ex.entails(z3.Not(rng)) or not ex.decide(rng):
                                continue
                    pr = self.same(bb, blk(t))
                    if pr is not None:
                        return [pr]
            return None
        self.S.cases(what, run)

    def run(self):
        nm = self.name
        for k, (lo, hi, blk) in enumerate(self.want):
            self.written('%s: block %d of the linearised subproblem is handed over' % (nm, k), lo, hi, blk)
        for k, (ctx, b) in enumerate(self.got):
            self.foreseen('%s: block write %d belongs to the linearised subproblem' % (nm, k), ctx, b)


def check_qp(ex, S, mats):
    want = spec_blocks(ex)
    for n, big in mats.items():
        Blocks(ex, S, n, big, want[n]).run()


def calc(r):
    ex = setup(r)
    S = Spec(ex, 'C19')
    f = r.method(CLS, 'calc', 1)
    ps = r.paths(ex, f, [Bo(True)])
    r.vacuity(ex, ps, ('norm',))
    for p in ps:
        S.enter(p)
        S.cat = 'C03'
        is_current(ex, S, VALS, 'the node data are those of the current trajectory')
        is_current(ex, S, DERIV, 'the derivatives are those of the current trajectory')
        gaps_current(ex, S)
        S.exact('cost_ is the cost of the current trajectory', lambda: [(sc(ex, 'cost_'), cost_of(ex))])
        S.exact('gap_norm_ is the 1-norm of the gaps', lambda: [
            (sc(ex, 'gap_norm_'), seq(ex, 0, T, lambda t: n1(at(ex, 'fs_', t + 1))))])
        S.exact('constraint_norm_ is the 1-norm of the bound violations', lambda: [(sc(ex, 'constraint_norm_'), viol_of(ex))])
        S.exact('merit_ is cost plus weighted gaps and violations', lambda: [
            (sc(ex, 'merit_'), sc(ex, 'cost_') + sc(ex, 'mu_dynamic_') * sc(ex, 'gap_norm_') +
             sc(ex, 'mu_constraint_') * sc(ex, 'constraint_norm_'))])
        S.cat = 'C19'
        check_qp(ex, S, {n: fld(ex, n) for n in BIG})
        S.leave()


def direction(r):
    ex = setup(r)
    S = Spec(ex, 'C19')
    f = r.method(CLS, 'computeDirection', 1)
    ps = r.paths(ex, f, [Bo(True)])
    r.vacuity(ex, ps, ('norm',))
    r.notes.add('ProxQP: init copies its arguments, solve fills results of the dimensions given to the constructor')
    for p in ps:
        S.enter(p)
        o = ex.ghost.get('qp')
        ok = isinstance(o, QP) and o.args is not None and len(o.args) >= 7
        S.rec('one QP is initialised and solved', 'proved' if ok else 'refuted', repr(o))
        if not ok:
            S.leave()
            continue
        S.exact('the QP is created with the numbers of variables, equalities and inequalities', lambda: [
            (d.p, w) for d, w in zip(o.dims, (NV, NE, NI))])
        mats = {}
        for n, a in zip(('P_', 'q_', 'A_', 'b_', 'C_', 'l_', 'u_'), o.args):
            big = a.big if isinstance(a, lb.Sparse) else a
            if isinstance(big, Opq) and big.tag.startswith('field:'):
                S.rec('argument %s of the QP is the assembled %s' % (n, n), 'refuted', 'stale: %s' % big.tag)
                continue
            if not isinstance(big, Big):
                raise Undecided('QP argument %s' % n)
            dims = BIG[n]
            same = big.name.split('|')[0].endswith('.' + n) and all(p.key() == q.key() for p, q in zip((big.r, big.c), dims))
            S.rec('argument %s of the QP is the assembled %s' % (n, n), 'proved' if same else 'refuted', repr(big.name))
            mats[n] = big
        check_qp(ex, S, mats)
        for k, w in (('eps_abs', 'eps_abs_'), ('eps_rel', 'eps_rel_'), ('max_iter', 'max_qp_iters_')):
            v = o.setting('settings.' + k)
            S.rec('the QP solver gets %s' % w, 'proved' if v is not None and v.p.key() == fld(ex, w).p.key() else 'refuted', repr(v))
        seg = lambda w, i, n: EV(Mat.atom(App('seg.%s.results.%s' % (o.run, w), (P(i), P(n)), 'vec')), n, 1)
        S.forall('the state steps are the corresponding part of the QP solution', 0, T, lambda t: [
            (at(ex, 'dx_', t + 1), seg('x', t * NDX, NDX))])
        S.forall('the control steps are the corresponding part of the QP solution', 0, T, lambda t: [
            (at(ex, 'du_', t), seg('x', NE + psum('nu', t), nu(t)))])
        S.forall('the dynamics multipliers are the negated equality multipliers', 0, T, lambda t: [
            (at(ex, 'lag_mul_', t + 1), EV(-seg('y', t * NDX, NDX).m, NDX, 1))])
        S.forall('the constraint multipliers are the inequality multipliers', 0, T, lambda t: [
            (at(ex, 'y_', t), seg('z', psum('ng', t), ng(t)))])
        S.exact('the constraint multipliers of the terminal node are the inequality multipliers', lambda: [
            (at(ex, 'y_', T), seg('z', psum('ng', T), ng(T)))])
        S.exact('the QP iterations and residuals reported are those of the QP solver', lambda: [
            (fld(ex, 'qp_iters_').p, P(App(o.run + '.results.info.iter', (), 'int'))),
            (sc(ex, 'norm_primal_'), P(App(o.run + '.results.info.pri_res', (), 'real'))),
            (sc(ex, 'norm_dual_'), P(App(o.run + '.results.info.dua_res', (), 'real')))])
        S.leave()


def register(prog):
    add(CLS + '::calc', ['C19', 'C03'], calc)
    add(CLS + '::computeDirection (QP)', ['C19'], direction)
    rec = lambda ex: [Bo(App('arg.recalc', (), 'bool').z3())]
    pr = ['C03', 'C13', 'C16']
    add(CLS + '::calc (frame)', pr, u_dir.frame_contract(CLS, 'calc', 1, rec, pr))
    add(CLS + '::computeDirection (frame)', pr, u_dir.frame_contract(CLS, 'computeDirection', 1, rec, pr))
    add(CLS + '::computeDirection (first state)', ['C13'], u_dir.first_step(CLS, 'computeDirection', 1, rec))
