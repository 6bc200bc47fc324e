"""The contracts the solve-level proofs (u_solve) assume of the callees, proved on their bodies:
computeDirection / calc (what they compute from the current trajectory), frames of every callee, throw paths included."""
from .unit import *
from . import u_solve
from .u_data import sdiff, RES_PROP
from . import u_data
from .symex import CppThrow



def trial(ex, n, t, x, u):
    return u_data.trial(ex, n, t, x, u, split=False)


DERIV = ('Lx', 'Lu', 'Lxx', 'Luu', 'Lxu', 'Fx', 'Fu', 'Gx', 'Gu')
VALS = ('cost', 'xnext', 'g')


def throwing(ex, on=True):
    """model and problem evaluations may throw at any call, leaving the node data in any state"""
    def mk(kind, name):
        def h(ex, *a):
            if ex.choose(2) == 1:
                nm = 'thrown%d' % ex.loopno
                ex.loopno += 1
                for f in DATA:
                    ex.fields[('data', f)] = ex.like_symbol(ex.field(('data', f)), '%s.%s' % (nm, f), ())
                raise CppThrow('std::exception')
            return NotImplemented
        return h
    for k in ('problem.calc', 'problem.calcDiff', 'model.calc', 'model.calcDiff'):
        ex.contracts[k] = mk(*k.split('.'))


    def qp(e, what):
        if e.choose(2) == 1:
            raise CppThrow('std::exception')
    ex.contracts['qp'] = qp


def solver(r, cls):
    ex = r.ex(cls)
    if cls == 'SolverPROXQP':
        from . import u_proxqp
        u_proxqp.prepare(r, ex)
    return ex


def calc_current(ex):
    """precondition: the node data hold the values of the current trajectory"""
    ex.lib.problem_calc(ex, 'calc', ex.field(('SolverAbstract', 'xs_')), ex.field(('SolverAbstract', 'us_')), None)


def is_current(ex, S, names, what):
    x = lambda t: at(ex, 'xs_', t).m
    u = lambda t: at(ex, 'us_', t).m

    def want(n, t):
        return trial(ex, n, t, x(t), None if t.key() == T.key() else u(t))

    def pair(n, t):
        g, w = data(ex, n, t), want(n, t)
        return (g, w)
    for n in names:
        S.forall('%s: %s at every node' % (what, n), 0, T, lambda t, n=n: [pair(n, t)])
        if n not in ('xnext', 'Lu', 'Luu', 'Lxu', 'Fx', 'Fu', 'Gu'):
            S.exact('%s: %s at the terminal node' % (what, n), lambda n=n: [pair(n, T)])


def gaps_current(ex, S):
    x = lambda t: at(ex, 'xs_', t)
    x0 = EV(Mat.atom(App('x0', (), 'vec')), NX, 1)
    S.forall('gaps of the current trajectory', 0, T, lambda t: [
        (at(ex, 'fs_', t + 1), sdiff(ex, x(t + 1), trial(ex, 'xnext', t, x(t).m, at(ex, 'us_', t).m)))])


def dir_contract(cls, first):
    prop = RES_PROP[cls]

    def run(r):
        ex = r.ex(cls)
        ex.finite = True
        S = Spec(ex, prop)
        f = r.method(cls, 'computeDirection', 1)
        it = num(ex, 'iter_')
        ex.global_pc.append(it == 0 if first else it >= 1)

        def go():
            if not first:
                calc_current(ex)
            ex.run_function(f, [Bo(True)])
        ps = ex.explore(go)
        r.vacuity(ex, ps, ('norm',))
        for p in ps:
            if p.out != 'norm':
                continue
            S.enter(p)
            is_current(ex, S, VALS, 'the node data are those of the current trajectory')
            is_current(ex, S, DERIV, 'the derivatives are those of the current trajectory')
            gaps_current(ex, S)
            x0 = EV(Mat.atom(App('x0', (), 'vec')), NX, 1)
            S.exact('initial gap', lambda: [(at(ex, 'fs_', 0), sdiff(ex, at(ex, 'xs_', 0), x0))])
            cost = lambda: seq(ex, 0, T, lambda t: trial(ex, 'cost', t, at(ex, 'xs_', t).m, at(ex, 'us_', t).m).p) + \
                trial(ex, 'cost', T, at(ex, 'xs_', T).m, None).p
            S.exact('cost_ is the cost of the current trajectory', lambda: [(sc(ex, 'cost_'), cost())])
            if cls in ('SolverSQP', 'SolverFDDP'):
                gap = lambda: seq(ex, 0, T, lambda t: n1(at(ex, 'fs_', t + 1))) + n1(at(ex, 'fs_', 0))
                S.exact('gap_norm_ is the 1-norm of the gaps', lambda: [(sc(ex, 'gap_norm_'), gap())])
            if cls == 'SolverSQP':
                S.exact('merit_ is cost plus weighted gaps',
                        lambda: [(sc(ex, 'merit_'), sc(ex, 'cost_') + sc(ex, 'mu_dynamic_') * sc(ex, 'gap_norm_'))])
            S.leave()
    return run


def dir_again(cls):
    """computeDirection(false): a new direction from the derivatives, cost and gaps already there"""
    def run(r):
        ex = r.ex(cls)
        S = Spec(ex, 'C21')
        f = r.method(cls, 'computeDirection', 1)
        throwing(ex)
        ps = r.paths(ex, f, [Bo(False)])
        r.vacuity(ex, ps, ('norm',))
        for p in ps:
            S.enter(p)
            S.frame('without recalculation cost and gaps stay (%s)' % p.out, S._snap[0], ['cost_', 'fs_'])
            if cls == 'SolverFDDP' and p.out == 'norm':
                S.exact('gap_norm_ is the 1-norm of the gaps', lambda: [
                    (sc(ex, 'gap_norm_'), seq(ex, 0, T, lambda t: n1(at(ex, 'fs_', t + 1))) + n1(at(ex, 'fs_', 0)))])
            S.leave()
    return run


def calc_contract(cls):
    """calc(true): data, derivatives, gaps, cost, gap norm and violation are those of the current trajectory"""
    prop = RES_PROP[cls]

    def run(r):
        ex = r.ex(cls)
        ex.finite = True
        S = Spec(ex, prop)
        f = r.method(cls, 'calc', 1)
        before = dict(ex.fields)
        ps = r.paths(ex, f, [Bo(True)])
        r.vacuity(ex, ps, ('norm',))
        for p in ps:
            S.enter(p)
            is_current(ex, S, VALS, 'the node data are those of the current trajectory')
            is_current(ex, S, DERIV, 'the derivatives are those of the current trajectory')
            gaps_current(ex, S)
            S.exact('cost_ is the cost of the current trajectory', lambda: [(sc(ex, 'cost_'), cost_of(ex))])
            S.exact('gap_norm_ is the 1-norm of the gaps', lambda: [
                (sc(ex, 'gap_norm_'), seq(ex, 0, T, lambda t: n1(at(ex, 'fs_', t + 1))))])
            S.exact('constraint_norm_ is the 1-norm of the bound violations', lambda: [(sc(ex, 'constraint_norm_'), viol_of(ex))])
            if cls == 'SolverPROXQP':
                S.exact('merit_ is cost plus weighted gaps and violations', lambda: [
                    (sc(ex, 'merit_'), sc(ex, 'cost_') + sc(ex, 'mu_dynamic_') * sc(ex, 'gap_norm_') +
                     sc(ex, 'mu_constraint_') * sc(ex, 'constraint_norm_'))])
            S.leave()
    return run


def cost_of(ex):
    return seq(ex, 0, T, lambda t: trial(ex, 'cost', t, at(ex, 'xs_', t).m, at(ex, 'us_', t).m).p) + \
        trial(ex, 'cost', T, at(ex, 'xs_', T).m, None).p


def viol_of(ex):
    def viol(g, t):
        zero = Mat.zero('V')
        return n1(tm.vfun('max', u_data.glb(t) - g, zero)) + n1(tm.vfun('max', g - u_data.gub(t), zero))
    return seq(ex, 0, T, lambda t: viol(trial(ex, 'g', t, at(ex, 'xs_', t).m, at(ex, 'us_', t).m).m, t)) + \
        viol(trial(ex, 'g', T, at(ex, 'xs_', T).m, None).m, T)


def frame_contract(cls, name, nargs, args, props, kinds=('norm', 'throw')):
    """what the callers may rely on is left alone, also when the call ends with an exception"""
    def run(r):
        ex = solver(r, cls)
        S = Spec(ex, props[0])
        f = r.method(cls, name, nargs)
        throwing(ex)
        if name == 'resizeData':
            ex.contracts[('SolverAbstract', 'resizeData')] = lambda e, a, n: Opq('void')
            r.notes.add('crocoddyl: SolverAbstract::resizeData changes nothing when the dimensions are those of the constructor')
        ps = r.paths(ex, f, args(ex))
        r.vacuity(ex, ps, ('norm',))
        names = u_solve.protected(ex, cls, name)
        for p in ps:
            S.enter(p)
            for pr in props:
                S.cat = pr
                S.frame('%s changes nothing its callers rely on (%s)' % (name, p.out), S._snap[0], names)
            S.leave()
    return run


def zero_step(ex, cls):
    """class invariant: the first state step is zero"""
    names = [n for n in ('dx_', 'dxtilde_') if u_solve.has_field(ex, n)]
    for n in names:
        k = owner(ex, n)
        old = ex.field(k)
        ex.lib.field_over[k] = lambda e, old=old: old.store(P(0), EV(Mat.zero('V'), NDX, 1))
        ex.fields.pop(k, None)
    return names


def first_step(cls, name, nargs, args):
    """the first state step stays zero, also when the call ends with an exception"""
    def run(r):
        ex = solver(r, cls)
        S = Spec(ex, 'C13')
        f = r.method(cls, name, nargs)
        throwing(ex)
        names = zero_step(ex, cls)
        if u_solve.has_field(ex, 'rho_update_interval_'):
            ex.global_pc += [num(ex, 'rho_update_interval_') >= 1]
        ex.contracts['pow'] = lambda e, a, n: Sc(App('pow@%d' % tm.intern(('pow', str(n.get('id')))), (), 'real'))
        ps = r.paths(ex, f, args(ex))
        r.vacuity(ex, ps, ('norm',))
        r.notes.add('class invariant used and kept: dx_[0] = 0 (established by the constructor)')
        for p in ps:
            S.enter(p)
            for n in names:
                S.exact('the first element of %s stays zero (%s)' % (n, p.out), lambda n=n: [
                    (at(ex, n, P(0)), EV(Mat.zero('V'), NDX, 1))])
            if name == 'tryStep' and p.out == 'norm':
                S.exact('the first state of the trial is that of the iterate', lambda: [
                    (at(ex, 'xs_try_', P(0)), at(ex, 'xs_', P(0)))])
            S.leave()
    return run


def register(prog):
    for cls in ('SolverSQP', 'SolverDDP', 'SolverFDDP'):
        pr = [RES_PROP[cls]]
        add(cls + '::computeDirection (first iteration)', pr, dir_contract(cls, True))
        add(cls + '::computeDirection (later iterations)', pr, dir_contract(cls, False))
        add(cls + '::computeDirection (frame)', pr + ['C13', 'C16'],
            frame_contract(cls, 'computeDirection', 1, lambda ex: [Bo(App('arg.recalc', (), 'bool').z3())], pr + ['C13', 'C16']))
    for cls in ('SolverDDP', 'SolverFDDP'):
        add(cls + '::computeDirection (without recalculation)', ['C21'], dir_again(cls))
    for cls in u_solve.SOLVERS:
        pr = [RES_PROP[cls]]
        sl = Sc(App('arg.steplength', (), 'real'))
        p2 = pr + (['C13', 'C16'] if cls in u_solve.LS else ['C21'])
        add(cls + '::tryStep (frame)', p2, frame_contract(cls, 'tryStep', 1, lambda ex, sl=sl: [sl], p2))
    for cls in ('SolverCSQP',):
        pr = [RES_PROP[cls]]
        add(cls + '::calc', pr, calc_contract(cls))
        add(cls + '::calc (frame)', pr + ['C13', 'C16'],
            frame_contract(cls, 'calc', 1, lambda ex: [Bo(App('arg.recalc', (), 'bool').z3())], pr + ['C13', 'C16']))
    for cls in u_solve.LS:
        sl = Sc(App('arg.steplength', (), 'real'))
        add(cls + '::tryStep (first state)', ['C13'], first_step(cls, 'tryStep', 1, lambda ex, sl=sl: [sl]))
    add('SolverSQP::computeDirection (first state)', ['C13'],
        first_step('SolverSQP', 'computeDirection', 1, lambda ex: [Bo(App('arg.recalc', (), 'bool').z3())]))
    for cls in u_solve.SOLVERS:
        pr = [RES_PROP[cls]] + (['C13', 'C16'] if cls in u_solve.LS else ['C21'])
        for nm in ('checkKKTConditions', 'stoppingCriteria', 'expectedImprovement', 'updateExpectedImprovement', 'reset_rho_vec',
                   'printCallbacks', 'resizeData'):
            f = prog.find_method(cls, nm, 0)
            if f is None or f.body is None or nm in ('stoppingCriteria', 'expectedImprovement') and cls in u_solve.LS:
                continue
            add('%s::%s (frame)' % (cls, nm), pr, frame_contract(cls, nm, 0, lambda ex: [], pr))
    for nm in ('forwardPass', 'update_lagrangian_parameters', 'reset_params', 'backwardPass', 'backwardPass_mt',
               'backwardPass_without_rho_update', 'backwardPass_without_rho_update_mt', 'backwardPass_without_constraints',
               'forwardPass_without_constraints', 'update_rho_vec'):
        na = 1 if nm in ('forwardPass', 'update_lagrangian_parameters', 'update_rho_vec') else 0
        a = {'forwardPass': lambda ex: [Sc(App('arg.steplength', (), 'real'))]}.get(
            nm, lambda ex: [pos(ex)]) if na else lambda ex: []
        add('SolverCSQP::%s (first state)' % nm, ['C13'], first_step('SolverCSQP', nm, na, a))


def pos(ex):
    ex.global_pc.append(App('arg.iter', (), 'int').z3() >= 0)
    return In(App('arg.iter', (), 'int'))
