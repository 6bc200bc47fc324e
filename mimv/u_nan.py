"""NaN handling of the callees of solve: a step evaluated without exception has no NaN in its values, a residual with a
NaN component is NaN (C16)."""
from .unit import *
from . import u_solve


def nan_try(cls):
    def run(r):
        ex = r.ex(cls)
        ex.nanmode = True
        S = Spec(ex, 'C16')
        f = r.method(cls, 'tryStep', 1)
        al = Sc(App('arg.steplength', (), 'real'), App('arg.steplength.nan', (), 'bool').z3())
        ps = r.paths(ex, f, [al])
        r.vacuity(ex, ps, ('norm', 'throw'))
        for p in ps:
            if p.out != 'norm':
                continue
            S.enter(p)
            for n in ('cost_try_', 'gap_norm_try_', 'constraint_norm_try_'):
                if ex.prog.field_owner(cls, n):
                    v = fld(ex, n)
                    S.holds('a step that returns normally has no NaN in ' + n,
                            z3.Not(v.nan) if v.nan is not None else z3.BoolVal(True))
            S.leave()
    return run


def nan(v):
    return v.nan if v.nan is not None else z3.BoolVal(False)


def zlin(e):
    """z3 integer term -> Poly (linear terms keep their structure)"""
    if z3.is_add(e):
        return sum((zlin(x) for x in e.children()), P(0))
    if z3.is_sub(e):
        a, b = e.children()
        return zlin(a) - zlin(b)
    return tm.zpoly(e)


def unrolled(ex, c):
    """c with the NaN flags of elements written by a loop replaced by those of the value written in that iteration (the guards
    of the iteration, which finished normally, are assumed)"""
    sub, seen, st = [], set(), [c]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        nm = x.decl().name().split('|')[0]
        if nm.endswith('.nan') and nm[:-4] in ex.fvdef and z3.is_bool(x) and x.num_args():
            l, under = ex.fvdef[nm[:-4]]
            if not l.params and x.num_args() == 1:
                i = zlin(x.arg(0)) - l.c
                if ex.decide(z3.And(to_z3(l.lo) <= to_z3(i), to_z3(i) < to_z3(l.hi))):
                    v = ex.rng_value(l, i)
                    if v is not None:
                        sub.append((x, nan(v)))
                        continue
        st.extend(x.children())
    return z3.substitute(c, *sub) if sub else c


def each_node(ex, S, name, lo, hi, fn):
    """for every node of the range: fn(t) holds"""
    t = App('t@nan', (), 'int')

    def run():
        ex.pc += [to_z3(P(lo)) <= t.z3(), t.z3() < to_z3(P(hi))]
        if ex.solve(list(ex.pc))[0] == z3.unsat:
            return []
        c = fn(P(t))
        r, m = ex.solve(list(ex.pc) + [z3.Not(c)], timeout=20000)
        if r != z3.unsat:
            c = unrolled(ex, c)
            r, m = ex.solve(list(ex.pc) + [z3.Not(c)], timeout=20000)
        if r == z3.unsat:
            return [(name, 'proved', '')]
        return [(name, ex.verdict(c) if r == z3.sat else 'unknown', ex.cex(m, c) if m is not None and r == z3.sat else str(c)[:300])]
    S.collect(name, S.each(run))


def once(ex, S, name, fn):
    def run():
        c = fn()
        r, m = ex.solve(list(ex.pc) + [z3.Not(c)], timeout=20000)
        if r == z3.unsat:
            return [(name, 'proved', '')]
        return [(name, ex.verdict(c) if r == z3.sat else 'unknown', ex.cex(m, c) if m is not None and r == z3.sat else str(c)[:300])]
    S.collect(name, S.each(run))


def nan_try_nodes(cls):
    """the values of the nodes of the trial: a NaN node makes the step fail"""
    con = cls in u_solve.CON

    def run(r):
        ex = r.ex(cls)
        ex.nanmode = True
        S = Spec(ex, 'C16')
        f = r.method(cls, 'tryStep', 1)
        al = Sc(App('arg.steplength', (), 'real'))
        ps = r.paths(ex, f, [al])
        r.vacuity(ex, ps, ('norm', 'throw'))
        for p in ps:
            if p.out != 'norm':
                continue
            S.enter(p)
            d = lambda n, t: nan(data(ex, n, t))
            each_node(ex, S, 'no node cost of an evaluated trial is NaN', 0, T + 1, lambda t: z3.Not(d('cost', t)))
            each_node(ex, S, 'no predicted state of an evaluated trial is NaN', 0, T, lambda t: z3.Not(d('xnext', t)))
            if con:
                each_node(ex, S, 'no constraint value of an evaluated trial is NaN', 0, T + 1, lambda t: z3.Not(d('g', t)))
            S.leave()
    return run


def nan_kkt(cls):
    con = cls in u_solve.CON

    def run(r):
        ex = r.ex(cls)
        ex.nanmode = True
        S = Spec(ex, 'C16')
        f = r.method(cls, 'checkKKTConditions', 0)
        if cls == 'SolverPROXQP':
            from .u_data import flat_zero_tail
            flat_zero_tail(ex)
        ps = r.paths(ex, f)
        r.vacuity(ex, ps)
        for p in ps:
            if p.out != 'norm':
                continue
            S.enter(p)
            K = nan(fld(ex, 'KKT_'))
            d = lambda n, t: nan(data(ex, n, t))
            lam = lambda t: nan(at(ex, 'lag_mul_', t))
            y = lambda t: nan(at(ex, 'y_', t))
            F = z3.BoolVal(False)

            def cons(n, t):
                # a node without constraints has an empty Jacobian and an empty multiplier
                return [z3.And(to_z3(ng(t)) > 0, z3.Or(d(n, t), y(t)))]

            def bad_x(t):
                return z3.Or(d('Lx', t), d('Fx', t), lam(t + 1), lam(t), *(cons('Gx', t) if con else []))

            def bad_u(t):
                return z3.And(to_z3(nu(t)) > 0, z3.Or(d('Lu', t), d('Fu', t), lam(t + 1), *(cons('Gu', t) if con else [])))
            f0 = 1 if cls == 'SolverPROXQP' else 0
            for nm, lo, hi, fn in (('state gradient', 1 if con else 0, T, bad_x), ('control gradient', 0, T, bad_u),
                                   ('gap', f0, T + 1, lambda t: nan(at(ex, 'fs_', t)))):
                each_node(ex, S, 'a NaN in a %s makes the residual NaN' % nm, lo, hi, lambda t, fn=fn: z3.Implies(fn(t), K))
            once(ex, S, 'a NaN in the terminal gradient makes the residual NaN', lambda: z3.Implies(
                z3.Or(d('Lx', T), lam(T), *(cons('Gx', T) if con else [])), K))
            if con:
                S.holds('a NaN constraint violation makes the residual NaN', z3.Implies(nan(fld(ex, 'constraint_norm_')), K))
            S.leave()
    return run


def register(prog):
    for cls in u_solve.SOLVERS:
        add(cls + '::tryStep (NaN)', ['C16'], nan_try(cls), safety=False)
        add(cls + '::tryStep (NaN nodes)', ['C16'], nan_try_nodes(cls), safety=False)
    for cls in u_solve.SOLVERS:
        add(cls + '::checkKKTConditions (NaN)', ['C16'], nan_kkt(cls), safety=False)
