"""Solve-level contracts: the outer loops of the solvers, with every callee replaced by its contract.

State of a solve is tracked by ghost variables set by the contracts: which trajectory the node data, derivatives,
gaps and trial values belong to, what was tried and accepted, how often the callbacks ran."""
from .unit import *
from . import loops, terms as tm, lib as lb
from .loops import LGhost, LField, LVar
from .symex import CppThrow, Ret, LV

SOLVERS = ('SolverSQP', 'SolverCSQP', 'SolverPROXQP', 'SolverDDP', 'SolverFDDP')
CON = ('SolverCSQP', 'SolverPROXQP')
LS = ('SolverSQP', 'SolverCSQP', 'SolverPROXQP')

# fields whose value the callers rely on; a contract may change any other field
PROT = '''xs_ us_ iter_ is_feasible_ was_feasible_ preg_ dreg_ steplength_ alphas_ filter_size_ use_filter_line_search_
cost_list_ gap_list_ constraint_list_ termination_tol_ th_acceptstep_ th_stop_ th_stepdec_ th_stepinc_ th_grad_
th_acceptnegstep_ reg_min_ reg_max_ reg_incfactor_ reg_decfactor_ mu_dynamic_ mu_constraint_ max_qp_iters_
extra_iteration_for_last_kkt_ callbacks_ with_callbacks_ remove_reg_ max_solve_time_ start_time_
max_solve_time_reached_ qp_iters_ KKT_ lag_mul_ y_ fs_ cost_ merit_ gap_norm_ constraint_norm_ cost_try_ merit_try_
gap_norm_try_ constraint_norm_try_ xs_try_ us_try_ is_worse_than_memory_ reset_rho_ lag_mul_inf_norm_
lag_mul_inf_norm_coef_ problem_ rho_update_interval_ eps_abs_ eps_rel_ d_ dg_ dq_ dV_'''.split()

TRY = ['cost_try_', 'merit_try_', 'gap_norm_try_', 'constraint_norm_try_', 'xs_try_', 'us_try_']
WR = {
    ('SolverSQP', 'computeDirection'): ['cost_', 'merit_', 'gap_norm_', 'fs_', 'lag_mul_'],
    ('SolverDDP', 'computeDirection'): ['cost_', 'fs_'],
    ('SolverFDDP', 'computeDirection'): ['cost_', 'gap_norm_', 'fs_'],
    ('SolverCSQP', 'computeDirection'): ['y_', 'max_solve_time_reached_', 'qp_iters_'],
    ('SolverPROXQP', 'computeDirection'): ['cost_', 'merit_', 'gap_norm_', 'constraint_norm_', 'fs_', 'lag_mul_', 'y_',
                                           'KKT_', 'qp_iters_'],
    ('SolverSQP', 'checkKKTConditions'): ['KKT_'],
    ('SolverDDP', 'checkKKTConditions'): ['KKT_'],
    ('SolverFDDP', 'checkKKTConditions'): ['KKT_'],
    ('SolverPROXQP', 'checkKKTConditions'): ['KKT_'],
    ('SolverCSQP', 'checkKKTConditions'): ['KKT_', 'lag_mul_'],
    ('SolverSQP', 'tryStep'): TRY, ('SolverCSQP', 'tryStep'): TRY, ('SolverPROXQP', 'tryStep'): TRY,
    ('SolverDDP', 'tryStep'): TRY + ['lag_mul_'], ('SolverFDDP', 'tryStep'): TRY + ['lag_mul_'],
    ('SolverSQP', 'expectedImprovement'): ['d_'], ('SolverCSQP', 'expectedImprovement'): ['d_'],
    ('SolverPROXQP', 'expectedImprovement'): ['d_'], ('SolverDDP', 'expectedImprovement'): ['d_'],
    ('SolverFDDP', 'expectedImprovement'): ['d_'], ('SolverFDDP', 'updateExpectedImprovement'): ['dg_', 'dq_'],
    ('SolverCSQP', 'calc'): ['cost_', 'gap_norm_', 'constraint_norm_', 'fs_'],
    ('SolverPROXQP', 'calc'): ['cost_', 'merit_', 'gap_norm_', 'constraint_norm_', 'fs_'],
}


def protected(ex, cls, method):
    w = set(WR.get((cls, method), ()))
    return [n for n in PROT if n not in w and (ex.prog.field_owner(cls, n) or n in lb.ABSTRACT_FIELDS or n in lb.SHAPES)
            and has_field(ex, n)]


def has_field(ex, n):
    try:
        fld(ex, n)
        return True
    except Unsupported:
        return False


# ------------------------------------------------------------------ identities
def pid(xs, us):
    return App('pair@%d' % tm.intern(('pair', xs.key(), us.key())), (), 'int')


def vid(*vs):
    return App('vid@%d' % tm.intern(('vid',) + tuple(v.key() for v in vs)), (), 'int')


def leaves(n):
    """what an argument expression is made of"""
    out = []

    def walk(m):
        if m.kind in ('StringLiteral', 'CXXThisExpr', 'DeclRefExpr', 'MemberExpr', 'ConditionalOperator', 'CallExpr'):
            out.append((m.kind, m.value if m.kind == 'StringLiteral' else m.name))
        for c in m.inner or []:
            if c is not None:
                walk(c)
    walk(n)
    return out


def cur_pair(ex):
    return P(pid(fld(ex, 'xs_'), fld(ex, 'us_')))


def cname(ex, n):
    k = tm.intern(('C', n.id if n is not None else 0, ex.loopno,
                   tuple(tuple(str(x) for x in d.taken) for d in ex.decs), tuple(ex.epoch)))
    ex.loopno += 1
    return 'C%d' % k


def reach_names(ex, f):
    """member names mentioned in a function and in the methods it inlines"""
    out, todo, seen = set(), [f], set()
    while todo:
        m = todo.pop()
        st = [m.body]
        while st:
            x = st.pop()
            if x is None:
                continue
            if x.kind == 'MemberExpr' and x.name:
                out.add(x.name)
                if x.name not in seen and x.name not in ex.contracts and x.name not in loops.BUILTIN:
                    seen.add(x.name)
                    f2 = ex.prog.find_method(ex.cls, x.name)
                    if f2 is not None and f2.body is not None:
                        todo.append(f2)
            st.extend(x.inner)
    return out


def g(ex, k):
    return ex.ghost[k]


def gz(ex, k):
    v = ex.ghost[k]
    return v.b if isinstance(v, Bo) else v.z()


def fresh_int(nm, what):
    return In(App('%s.%s' % (nm, what), (), 'int'))


def ite(c, a, b):
    """integer if-then-else of Polys"""
    return In(zpoly(z3.If(c, to_z3(a), to_z3(b))))


class Ctl:
    """contracts and ghost state of one solver"""
    cls = None

    def __init__(self, r, cls, prop, mons, nan=False):
        self.r, self.cls, self.prop = r, cls, prop
        ex = self.ex = r.ex(cls, ctl=True)
        ex.nanmode = nan
        ex.keep_noearly = True
        ex.maxpaths = 20000
        ex.merge = True
        self.mons = [m(self) for m in mons]
        ex.ctl_names = {'computeDirection', 'tryStep', 'checkKKTConditions', 'callbacks_', 'alphas_', 'cost_list_',
                        'gap_list_', 'constraint_list_', 'calc', 'calcDiff', 'setCandidate', 'take_time',
                        'increaseRegularization', 'decreaseRegularization', 'qp_iters_'}
        ex.on_sync = lambda e, w: self.fire('sync', w)
        ex.ctl_spec = self.candidates
        c = ex.contracts
        c['computeDirection'] = self.c_dir
        c['tryStep'] = self.c_try
        c['checkKKTConditions'] = self.c_kkt
        c['problem.calc'] = self.c_pcalc
        c['problem.calcDiff'] = self.c_pcalcdiff
        c['callback'] = self.c_callback
        c['take_time'] = self.c_time
        for nm in ('expectedImprovement', 'updateExpectedImprovement', 'stoppingCriteria', 'reset_rho_vec',
                   'printCallbacks', 'printQPCallbacks', 'resizeData'):
            c[nm] = self.c_frame(nm)
        if cls == 'SolverCSQP':
            c['calc'] = self.c_calc
        names = reach_names(ex, r.method(cls, 'solve', 5)) | set(PROT)
        self.open = [k for k in all_fields(ex) if k[1] in names]
        ex.poison = set(k for k in all_fields(ex) if k[1] not in names)
        self.opendata = [f for f in DATA if f in names]
        ex.poison |= set(('data', f) for f in DATA if f not in names)
        al = fld(ex, 'alphas_')
        ex.global_pc.append(to_z3(al.len) >= 1)
        r.notes.add('class invariant used: the step-length list is not empty (set_alphas, constructor)')

    empty = False         # whether the warm start is the default (empty) one
    split_rec = False     # whether computeDirection(true) and computeDirection(false) are told apart

    # -------------------------------------------------------------- helpers
    def fire(self, ev, *a):
        for m in self.mons:
            f = getattr(m, 'try_' if ev == 'try' else ev, None)
            if f is not None:
                f(self.ex, *a)

    def havoc(self, method, nm, extra_keep=()):
        ex = self.ex
        keep = set(protected(ex, self.cls, method)) | set(extra_keep)
        for (c, n) in self.open:
            if n in keep or n in ('problem_', 'callbacks_'):
                continue
            old = ex.field((c, n))
            ex.fields[(c, n)] = ex.like_symbol(old, '%s.%s.%s' % (nm, c, n), ())
        for n in WR.get((self.cls, method), ()):
            k = owner(ex, n)
            if k[0] == 'SolverAbstract' and has_field(ex, n) and n not in extra_keep:
                ex.fields[k] = ex.like_symbol(ex.field(k), '%s.%s.%s' % ((nm,) + k), ())
        for n in ('d_', 'stop_', 'dV_', 'dVexp_', 'ffeas_', 'feas_'):
            k = ('SolverAbstract', n)
            if n not in PROT:
                try:
                    ex.fields[k] = ex.like_symbol(ex.field(k), '%s.%s.%s' % ((nm,) + k), ())
                except Unsupported:
                    pass

    def havoc_data(self, nm):
        ex = self.ex
        for f in self.opendata:
            ex.fields[('data', f)] = ex.like_symbol(ex.field(('data', f)), '%s.data.%s' % (nm, f), ())

    def values_of_current(self, nm):
        """cost, gap and violation of the current trajectory: functions of the pair"""
        ex = self.ex
        p = cur_pair(ex)
        for k, f in (('c', 'Cost'), ('g', 'Gap'), ('v', 'Con')):
            ex.ghost[k] = Sc(App(f, (p,), 'real'))

    # -------------------------------------------------------------- contracts
    def c_frame(self, nm):
        def h(ex, args, n):
            self.fire('sync', nm)
            if nm == 'resizeData':
                return Opq('void')
            name = cname(ex, n)
            self.havoc(nm, name)
            self.fire('framed', nm)
            self.fire('improve', nm)
            if nm == 'expectedImprovement':
                return LField(('SolverAbstract', 'd_'))
            if nm == 'stoppingCriteria':
                return fld(ex, 'stop_')
            return Opq('void')
        return h

    def c_pcalc(self, ex, args, n):
        nm = cname(ex, n)
        xs, us = ex.deref(args[0]), ex.deref(args[1])
        self.fire('sync', 'problem calc')
        self.havoc_data(nm)
        if ex.choose(2) == 0:
            ex.ghost['calc'] = In(P(pid(xs, us)))
            return Sc(App('Cost', (P(pid(xs, us)),), 'real'))
        ex.ghost['calc'] = fresh_int(nm, 'calc')
        raise CppThrow('std::exception')

    def c_pcalcdiff(self, ex, args, n):
        nm = cname(ex, n)
        xs, us = ex.deref(args[0]), ex.deref(args[1])
        self.havoc_data(nm)
        p = P(pid(xs, us))
        if ex.choose(2) == 0:
            ex.ghost['diff'] = ite(gz(ex, 'calc') == to_z3(p), p, fresh_int(nm, 'diff').p)
            return Sc(App('Cost', (p,), 'real'))
        ex.ghost['diff'] = fresh_int(nm, 'diff')
        raise CppThrow('std::exception')

    def c_callback(self, ex, args, n):
        self.fire('callback', args[0].idx)
        self.fire('cbargs', [leaves(a) for a in args[1:]])
        return Opq('void')

    def c_time(self, ex, args, n):
        nm = cname(ex, n)
        t = Sc(App(nm + '.time', (), 'real'))
        old = ex.ghost.get('now')
        if old is not None:
            ex.assume(t.z() >= old.z())
        ex.ghost['now'] = t
        self.fire('time', t)
        return t

    def eqsc(self, v, gk):
        """field value v is the true quantity gk (finite or NaN alike)"""
        self.ex.assume(v.z() == gz(self.ex, gk))

    def c_calc(self, ex, args, n):
        """CSQP::calc(true): node data, derivatives, gaps, violations of the current trajectory"""
        nm = cname(ex, n)
        if not (len(args) == 1 and isinstance(ex.deref(args[0]), Bo) and z3.is_true(z3.simplify(ex.deref(args[0]).b))):
            raise Unsupported('calc(false)')
        self.fire('sync', 'calc')
        self.fire('calc')
        self.havoc('calc', nm)
        self.havoc_data(nm)
        if ex.choose(2) == 1:
            for k in ('calc', 'diff', 'fs', 'con'):
                ex.ghost[k] = fresh_int(nm, k)
            raise CppThrow('std::exception')
        for k in ('calc', 'diff', 'fs', 'con'):
            ex.ghost[k] = In(cur_pair(ex))
        self.values_of_current(nm)
        self.eqsc(fld(ex, 'cost_'), 'c')
        self.eqsc(fld(ex, 'gap_norm_'), 'g')
        self.eqsc(fld(ex, 'constraint_norm_'), 'v')
        return Opq('void')

    def c_dir(self, ex, args, n):
        nm = cname(ex, n)
        cls = self.cls
        rec = ex.deref(args[0]) if args else Bo(True)
        rb = rec.b
        self.fire('sync', 'computeDirection')
        self.fire('dir')
        if cls == 'SolverCSQP':
            self.flag0 = fld(ex, 'max_solve_time_reached_').b
        if self.split_rec and not ex.decide(rb):
            # without recalculation: cost and gaps stay as they are (proved: computeDirection (without recalculation))
            self.havoc('computeDirection', nm, ('cost_', 'fs_'))
        else:
            self.havoc('computeDirection', nm)
        throw = ex.choose(2) == 1
        p = cur_pair(ex)
        cp = to_z3(p)
        if cls in ('SolverSQP', 'SolverDDP', 'SolverFDDP'):
            self.havoc_data(nm)
            it0 = num(ex, 'iter_') == 0
            C0, D0, F0 = g(ex, 'calc').p, g(ex, 'diff').p, g(ex, 'fs').p
            if throw:
                ex.ghost['calc'] = ite(z3.And(rb, it0), fresh_int(nm, 'calc').p, C0)
                ex.ghost['diff'] = ite(rb, fresh_int(nm, 'diff').p, D0)
                ex.ghost['fs'] = ite(rb, fresh_int(nm, 'fs').p, F0)
                ex.ghost['con'] = fresh_int(nm, 'con')
            else:
                C1 = ite(z3.And(rb, it0), p, C0)
                ex.ghost['calc'] = C1
                ok = z3.And(rb, C1.z() == cp)
                ex.ghost['diff'] = ite(rb, ite(C1.z() == cp, p, fresh_int(nm, 'diff').p).p, D0)
                ex.ghost['fs'] = ite(rb, ite(C1.z() == cp, p, fresh_int(nm, 'fs').p).p, F0)
                if cls == 'SolverSQP':
                    self.values_of_current(nm)
                    ex.assume(z3.Implies(ok, z3.And(num(ex, 'cost_') == gz(ex, 'c'), num(ex, 'gap_norm_') == gz(ex, 'g'))))
                    if not ex.nanmode:
                        ex.assume(num(ex, 'merit_') == num(ex, 'cost_') + num(ex, 'mu_dynamic_') * num(ex, 'gap_norm_'))
                elif self.split_rec:
                    self.values_of_current(nm)
                    ex.assume(z3.Implies(ok, num(ex, 'cost_') == gz(ex, 'c')))
                    if cls == 'SolverFDDP':
                        ex.ghost['g'] = Sc(App('Norm1', (P(vid(fld(ex, 'fs_'))),), 'real'))
                        ex.assume(num(ex, 'gap_norm_') == gz(ex, 'g'))
        elif cls == 'SolverPROXQP':
            self.havoc_data(nm)
            for k in ('calc', 'diff', 'fs', 'con', 'kdiff', 'kfs', 'kcon', 'klag', 'kval'):
                if k != 'kval':
                    ex.ghost[k] = fresh_int(nm, k)
            ex.ghost['kval'] = fld(ex, 'KKT_')
            if not throw:
                if not z3.is_true(z3.simplify(rb)):
                    if not ex.entails(rb):
                        raise Unsupported('computeDirection(false) of SolverPROXQP')
                for k in ('calc', 'diff', 'fs', 'con', 'kdiff', 'kfs', 'kcon'):
                    ex.ghost[k] = In(p)
                self.values_of_current(nm)
                ex.assume(z3.And(num(ex, 'cost_') == gz(ex, 'c'), num(ex, 'gap_norm_') == gz(ex, 'g'),
                                 num(ex, 'constraint_norm_') == gz(ex, 'v')))
                if not ex.nanmode:
                    ex.assume(num(ex, 'merit_') == num(ex, 'cost_') + num(ex, 'mu_dynamic_') * num(ex, 'gap_norm_') +
                              num(ex, 'mu_constraint_') * num(ex, 'constraint_norm_'))
        else:
            old = self.before
        if cls == 'SolverCSQP':
            self.csqp_dir(nm, throw)
        if throw:
            self.fire('dirfail')
            raise CppThrow('std::exception')
        self.fire('dirok')
        if cls == 'SolverPROXQP':
            self.fire('kkt')
        return Opq('void')

    before = None

    def csqp_dir(self, nm, throw):
        ex = self.ex
        m, q, mx = num(ex, 'max_solve_time_reached_') if False else fld(ex, 'max_solve_time_reached_'), \
            fld(ex, 'qp_iters_'), fld(ex, 'max_qp_iters_')
        ex.assume(z3.And(q.z() >= 0, z3.Implies(mx.z() >= 0, q.z() <= mx.z())))
        k = owner(ex, 'max_solve_time_reached_')
        b = z3.BoolVal(False) if throw else App(nm + '.timeout', (), 'bool').z3()
        ex.fields[k] = Bo(z3.simplify(z3.Or(self.flag0, b)))
        self.fire('csqp_dir', nm, b)

    def c_kkt(self, ex, args, n):
        nm = cname(ex, n)
        self.fire('sync', 'checkKKTConditions')
        self.havoc('checkKKTConditions', nm)
        for k, s in (('kdiff', 'diff'), ('kfs', 'fs'), ('kcon', 'con')):
            ex.ghost[k] = ex.ghost[s]
        ids = [fld(ex, 'lag_mul_')]
        if self.cls in CON:
            ids.append(fld(ex, 'y_'))
        ex.ghost['klag'] = In(P(vid(*ids)))
        ex.ghost['kval'] = fld(ex, 'KKT_')
        self.fire('kkt')
        return Opq('void')

    def c_try(self, ex, args, n):
        nm = cname(ex, n)
        a = ex.deref(args[0])
        self.fire('sync', 'tryStep')
        self.fire('try', a)
        x0 = at(ex, 'xs_', 0)
        self.havoc('tryStep', nm)
        self.havoc_data(nm)
        diffs = ('Lx', 'Lu', 'Lxx', 'Luu', 'Lxu', 'Fx', 'Fu', 'Gx', 'Gu')
        if ex.choose(2) == 1:
            ex.ghost['calc'] = fresh_int(nm, 'calc')
            ex.ghost['lastok'] = fresh_int(nm, 'lastok')
            ex.ghost['okpair'] = Bo(False)
            raise CppThrow('std::exception')
        if self.cls in LS:
            k = owner(ex, 'xs_try_')
            ex.fields[k] = ex.fields[k].store(P(0), x0)
        p = P(pid(fld(ex, 'xs_try_'), fld(ex, 'us_try_')))
        ex.ghost['lastok'] = In(p)
        ex.ghost['okpair'] = Bo(True)
        ex.ghost['calc'] = In(p)
        for k, f, fl in (('tc', 'Cost', 'cost_try_'), ('tg', 'Gap', 'gap_norm_try_'), ('tv', 'Con', 'constraint_norm_try_')):
            ex.ghost[k] = Sc(App(f, (p,), 'real'))
            if has_field(ex, fl) and (self.cls in LS or k == 'tc' or self.split_rec):
                v = fld(ex, fl)
                ex.assume(v.z() == gz(ex, k))
                if v.nan is not None and self.cls in LS:
                    ex.assume(z3.Not(v.nan))
        if self.cls in LS:
            m = self.trial_merit()
            if ex.nanmode:
                # the weights may be anything: the merit value can still be NaN (infinite weights)
                out = Sc(App(nm + '.merit', (), 'real'), App(nm + '.merit.nan', (), 'bool').z3())
            else:
                out = Sc(m)
                ex.assume(num(ex, 'merit_try_') == to_z3(m, 'real'))
            return out
        return Sc(fld(ex, 'cost_').p - fld(ex, 'cost_try_').p, zor2(fld(ex, 'cost_').nan, fld(ex, 'cost_try_').nan))

    def trial_merit(self):
        ex = self.ex
        c, gg, v = g(ex, 'tc').p, g(ex, 'tg').p, g(ex, 'tv').p
        return self.merit(c, gg, v)

    def merit(self, c, gg, v):
        ex = self.ex
        md = sc(ex, 'mu_dynamic_')
        if self.cls == 'SolverSQP':
            return c + md * gg
        mc = sc(ex, 'mu_constraint_')
        if self.cls == 'SolverPROXQP':
            return c + md * gg + mc * v
        neg = z3.Or(to_z3(md, 'real') < 0, to_z3(mc, 'real') < 0)
        w = sc(ex, 'lag_mul_inf_norm_coef_') * sc(ex, 'lag_mul_inf_norm_')
        return zpoly(z3.If(neg, to_z3(c + w * (gg + v), 'real'), to_z3(c + md * gg + mc * v, 'real')))

    # -------------------------------------------------------------- invariants
    def candidates(self, ex, n, W, S0, name):
        out = []
        ints, bools = [], []
        for key, c in W.items():
            try:
                v = c.lv.get(ex)
            except Unsupported:
                continue
            if isinstance(v, (In, Iter)):
                ints.append((key, c.lv))
            elif isinstance(v, Bo):
                bools.append((key, c.lv))
        gu = [('', None)]
        gb = list(bools)
        for d in range(1, len(ex.frames)):
            for k, v in ex.frames[d].items():
                if isinstance(v, Bo) and ('var', d, k) not in W:
                    gb.append((('var', d, k), LVar(d, k)))
        for k, lv in gb:
            gu.append((kn(k), lambda e, lv=lv: bz(lv.get(e))))
            gu.append(('!' + kn(k), lambda e, lv=lv: z3.Not(bz(lv.get(e)))))
        if not any(k[-1] == 'iter_' for k, lv in ints):
            gi0 = [('iter_>=1', lambda e: num(e, 'iter_') >= 1)]
        else:
            gi0 = []
        gi = gi0 + [(kn(k) + '>=1', lambda e, lv=lv: iz(lv.get(e)) >= 1) for k, lv in ints if not isghost(k)]
        self.ints, self.bools = ints, bools
        atoms = []
        for m in self.mons:
            f = getattr(m, 'atoms', None)
            if f:
                atoms += f(ex, n, W)
        for an, af in atoms:
            for gn, gf in gu:
                out.append(cand(gn, gf, an, af))
                if gf is not None:
                    for gn2, gf2 in gi:
                        out.append(cand(gn + '&' + gn2, (lambda e, a=gf, b=gf2: z3.And(a(e), b(e))), an, af))
            for gn2, gf2 in gi:
                out.append(cand(gn2, gf2, an, af))
        for m in self.mons:
            f = getattr(m, 'cands', None)
            if f:
                out += f(ex, n, W)
        for k, lv in bools:
            out.append((kn(k), lambda e, lv=lv: bz(lv.get(e))))
            out.append(('!' + kn(k), lambda e, lv=lv: z3.Not(bz(lv.get(e)))))
        for k, lv in ints:
            out.append(('0<=' + kn(k), lambda e, lv=lv: iz(lv.get(e)) >= 0))
            v = lv.get(ex)
            if isinstance(v, Iter):
                out.append((kn(k) + '<=len', lambda e, lv=lv: iz(lv.get(e)) <= to_z3(e.lib.length(e.deref(lv.get(e).lv)))))
            else:
                for bn, bf in self.bounds(ex):
                    out.append((kn(k) + '<=' + bn, lambda e, lv=lv, bf=bf: iz(lv.get(e)) <= bf(e)))
        # a counter of an event-free prefix: equalities between written integers
        for i in range(len(ints)):
            for j in range(i + 1, len(ints)):
                a, b = ints[i], ints[j]
                if isghost(a[0]) and isghost(b[0]) and (a[0][1] in IDG or b[0][1] in IDG):
                    continue
                if (isghost(a[0]) and a[0][1] in IDG) or (isghost(b[0]) and b[0][1] in IDG):
                    continue
                for d in (-1, 0, 1):
                    out.append(('%s=%s%+d' % (kn(a[0]), kn(b[0]), d),
                                lambda e, x=a[1], y=b[1], d=d: iz(x.get(e)) == iz(y.get(e)) + d))
        return [(nm, safe(f)) for nm, f in out]

    def bounds(self, ex):
        out = [('maxiter', lambda e: e.frames[1][self.maxid].z() if self.maxid in e.frames[1] else z3.IntVal(10 ** 9))]
        if has_field(ex, 'filter_size_'):
            out.append(('filter_size_', lambda e: num(e, 'filter_size_')))
        if has_field(ex, 'callbacks_'):
            out.append(('ncb', lambda e: to_z3(fld(e, 'callbacks_').len)))
        return out

    # -------------------------------------------------------------- run
    def start(self):
        ex = self.ex
        for k in ('calc', 'diff', 'fs', 'con', 'kdiff', 'kfs', 'kcon', 'klag', 'lastok'):
            ex.ghost[k] = In(App('init.' + k, (), 'int'))
        ex.ghost['okpair'] = Bo(False)
        ex.ghost['kval'] = Sc(App('init.kval', (), 'real'))
        for k in ('c', 'g', 'v', 'tc', 'tg', 'tv'):
            ex.ghost[k] = Sc(App('init.' + k, (), 'real'))
        self.fire('init')

    def run(self):
        ex = self.ex
        f = self.r.method(self.cls, 'solve', 5)
        xs0 = Arr('vec', Base('arg.xs', lambda j: lb.vec('arg.xs', (j,), P(NX))), T + 1)
        us0 = Arr('vec', Base('arg.us', lambda j: lb.vec('arg.us', (j,), nu(j))), T)
        axs, aus = xs0, us0
        if self.empty:
            axs = Arr('vec', Base('arg.xs0', lambda j: lb.vec('arg.xs0', (j,), P(NX))), P(0))
            aus = Arr('vec', Base('arg.us0', lambda j: lb.vec('arg.us0', (j,), nu(j))), P(0))
            xs0, us0 = lb.neutral_xs(), lb.zero_us()
        mi = App('arg.maxiter', (), 'int')
        ex.global_pc.append(mi.z3() >= 0)
        reg = Sc(App('arg.reginit', (), 'real'), App('arg.reginit.nan', (), 'bool').z3())
        self.maxid = f.params[2].id
        self.xs0, self.us0 = xs0, us0
        self.reg, self.feas = reg, App('arg.feas', (), 'bool').z3()
        for m in self.mons:
            m.maxi = mi.z3()
        self.start()
        args = [LTempRef(axs), LTempRef(aus), In(mi), Bo(App('arg.feas', (), 'bool').z3()), reg]
        ps = self.r.paths(ex, f, args)
        ex.dbg and print('final paths', len(ps))
        self.r.vacuity(ex, ps, ('norm',))
        S = Spec(ex, self.prop)
        for p in ps:
            S.enter(p)
            self.S = S
            ret = ex.deref(p.val) if p.out == 'norm' else None
            self.fire('sync', 'exit')
            self.fire('exit', S, p, ret)
            S.leave()
        return ps


IDG = {'calc', 'diff', 'fs', 'con', 'kdiff', 'kfs', 'kcon', 'klag', 'lastok', 'cur'}


def LTempRef(v):
    from .symex import LTemp
    return LTemp(v)


def zor2(a, b):
    from .symex import zor
    return zor(a, b)


def isghost(k):
    return k[0] == 'ghost'


def kn(k):
    return str(k[-1]) if k[0] != 'var' else 'v' + str(k[-1])[-5:]


def bz(v):
    if isinstance(v, Bo):
        return v.b
    raise KeyError


def iz(v):
    if isinstance(v, In):
        return v.z()
    if isinstance(v, Iter):
        return to_z3(v.idx)
    raise KeyError


def safe(f):
    def h(e):
        try:
            return f(e)
        except (KeyError, Unsupported, AttributeError):
            return None
    return h


def cand(gn, gf, an, af):
    if gf is None:
        return (an, af)
    return (gn + ' => ' + an, lambda e: z3.Implies(gf(e), af(e)))


# ------------------------------------------------------------------ C01-C04: success is a certificate
class Cert:
    def __init__(self, ctl):
        self.ctl = ctl

    def atoms(self, ex, n, W):
        out = []
        for k in ('calc', 'diff', 'fs'):
            out.append((k + ' current', lambda e, k=k: gz(e, k) == to_z3(cur_pair(e))))
        return out

    def exit(self, ex, S, p, ret):
        if p.out != 'norm':
            return
        cls = self.ctl.cls
        ok = ret.b
        K = fld(ex, 'KKT_')
        nn = z3.Not(K.nan) if K.nan is not None else z3.BoolVal(True)
        S.holds('success: the reported residual is at most the tolerance and not NaN',
                z3.Implies(ok, z3.And(K.z() <= num(ex, 'termination_tol_'), nn)))
        S.holds('success: the reported residual is the one of the last residual test',
                z3.Implies(ok, K.z() == gz(ex, 'kval')))
        S.holds('success: the residual test used the derivatives of the returned trajectory',
                z3.Implies(ok, gz(ex, 'kdiff') == to_z3(cur_pair(ex))))
        S.holds('success: the residual test used the gaps of the returned trajectory',
                z3.Implies(ok, gz(ex, 'kfs') == to_z3(cur_pair(ex))))
        if cls in CON:
            S.holds('success: the residual test used the constraint violation of the returned trajectory',
                    z3.Implies(ok, gz(ex, 'kcon') == to_z3(cur_pair(ex))))
        if cls != 'SolverPROXQP':
            ids = [fld(ex, 'lag_mul_')] + ([fld(ex, 'y_')] if cls in CON else [])
            S.holds('success: the residual test used the returned multipliers',
                    z3.Implies(ok, gz(ex, 'klag') == to_z3(P(vid(*ids)))))


# ------------------------------------------------------------------ adoption of trials
def zb(b):
    return z3.BoolVal(bool(b)) if isinstance(b, bool) else b


class Adopt:
    """watches the current trajectory: it changes once, to the corrected warm start, and then only to the last tried one"""

    def __init__(self, ctl):
        self.ctl = ctl

    def init(self, ex):
        ex.ghost['cur'] = In(App('init.cur', (), 'int'))
        ex.ghost['cset'] = Bo(False)
        ex.ghost['curok'] = Bo(False)

    def warm(self, ex, what):
        x, u = fld(ex, 'xs_'), fld(ex, 'us_')
        return None

    def sync(self, ex, what):
        cur = cur_pair(ex)
        if z3.is_false(z3.simplify(gz(ex, 'cset'))):
            ex.ghost['cset'] = Bo(True)
            ex.ghost['cur'] = In(cur)
            ex.ghost['okpair'] = Bo(False)
            self.started(ex, what)
            return
        g0 = g(ex, 'cur').p
        if g0.key() == cur.key():
            return
        if ex.entails(to_z3(g0) == to_z3(cur)):
            return
        self.adopted(ex, what, to_z3(g0) == to_z3(cur))
        ex.ghost['cur'] = In(cur)

    def started(self, ex, what):
        pass

    def adopted(self, ex, what, same):
        pass

    def dir(self, ex):
        pass

    def cands(self, ex, n, W):
        out = [('cur', lambda e: gz(e, 'cur') == to_z3(cur_pair(e))),
               ('trial', lambda e: z3.Implies(gz(e, 'okpair'), gz(e, 'lastok') == to_z3(
                   pid(fld(e, 'xs_try_'), fld(e, 'us_try_')))))]
        return out


class Chk(Adopt):
    """C13, C16: what is adopted is the last trial that was evaluated without an exception"""

    def started(self, ex, what):
        x, u = fld(ex, 'xs_'), fld(ex, 'us_')
        S = Spec(ex, 'C13')
        ok = x.key() == self.ctl.xs0.store(P(0), lb.x0_value()).key() and u.key() == self.ctl.us0.key()
        S.rec('the solve starts from the warm start with its first state replaced by the initial state',
              'proved' if ok else 'refuted', '' if ok else 'xs_=%r us_=%r at %s' % (x, u, what))

    def adopted(self, ex, what, same):
        for pr in ('C13', 'C16'):
            ex.oblige(pr, z3.Or(same, z3.And(gz(ex, 'okpair'), gz(ex, 'lastok') == to_z3(cur_pair(ex)))),
                      'the current trajectory is only replaced by the last trial, evaluated without exception or NaN', what)

    @staticmethod
    def first(e):
        d = at(e, 'xs_', 0).m - lb.x0_value().m
        return to_z3(tm.norm1(d), 'real') == 0

    def cands(self, ex, n, W):
        return Adopt.cands(self, ex, n, W) + [('x0', self.first)]

    def exit(self, ex, S, p, ret):
        S.cat = 'C13'
        S.holds('the first state of the returned trajectory is the initial state', self.first(ex))
        if p.out == 'norm':
            K = fld(ex, 'KKT_')
            nn = z3.Not(K.nan) if K.nan is not None else z3.BoolVal(True)
            S.cat = 'C16'
            S.holds('no success with a NaN residual', z3.Implies(ret.b, nn))
        S.cat = self.ctl.prop


class ChkD(Chk):
    """C16 for DDP and FDDP (their warm start is C13's only for the SQP solvers)"""
    started = Adopt.started

    def adopted(self, ex, what, same):
        ex.oblige('C16', z3.Or(same, z3.And(gz(ex, 'okpair'), gz(ex, 'lastok') == to_z3(cur_pair(ex)))),
                  'the current trajectory is only replaced by the last trial, evaluated without exception or NaN', what)

    def cands(self, ex, n, W):
        return Adopt.cands(self, ex, n, W)

    def exit(self, ex, S, p, ret):
        if p.out == 'norm':
            K = fld(ex, 'KKT_')
            nn = z3.Not(K.nan) if K.nan is not None else z3.BoolVal(True)
            S.cat = 'C16'
            S.holds('no success with a NaN residual', z3.Implies(ret.b, nn))
        S.cat = self.ctl.prop


# ------------------------------------------------------------------ C05: the line search
LISTS = (('cost_list_', 'C2', 'c', 'tc'), ('gap_list_', 'G2', 'g', 'tg'), ('constraint_list_', 'V2', 'v', 'tv'))


class Filter(Adopt):
    zero = False

    def lists(self):
        return LISTS if self.ctl.cls in CON else LISTS[:2]

    def init(self, ex):
        Adopt.init(self, ex)
        fs = num(ex, 'filter_size_')
        e0 = None
        for f, gk, _, _ in self.lists():
            L = fld(ex, f)
            ex.global_pc += [to_z3(L.cap) == fs, to_z3(L.size) == fs]
            if e0 is not None:
                ex.global_pc.append(to_z3(L.end) == to_z3(e0))
            e0 = L.end
            ex.ghost[gk] = L
        ex.global_pc.append(fs == 0 if self.zero else fs >= 1)
        ex.ghost['n'] = In(0)
        self.ctl.r.notes.add('class invariant used: the line-search lists are full with capacity filter_size_ '
                             '(constructor, set_filter_size)')
        self.ctl.r.notes.add('precondition (C05): the cost, gap norm and violation of the iterates are not NaN')

    def kkt(self, ex):
        ex.ghost['n'] = In(g(ex, 'n').p + 1)
        if self.zero:
            return
        for f, gk, k, _ in self.lists():
            o = g(ex, gk)
            ex.ghost[gk] = Circ(z3.Store(o.log, to_z3(o.end), g(ex, k).z()),
                                z3.Store(o.nlog, to_z3(o.end), z3.BoolVal(False)), o.end + 1, o.size, o.cap)

    def better(self, ex, i, ghost=True):
        out = []
        for f, gk, _, tk in self.lists():
            log = (g(ex, gk) if ghost else fld(ex, f)).log
            out.append(gz(ex, tk) < z3.Select(log, i))
        return z3.Or(*out)

    def adopted(self, ex, what, same):
        fl = fld(ex, 'use_filter_line_search_').b
        i = z3.Int('i!adopt')
        end = to_z3(g(ex, 'C2').end)
        n, fs = gz(ex, 'n'), num(ex, 'filter_size_')
        ex.oblige('C05', z3.Or(same, gz(ex, 'lastok') == to_z3(cur_pair(ex))),
                  'the iterate is left as it is unless the last trial is adopted', what)
        if not self.zero:
            ex.oblige('C05', z3.Implies(z3.And(fl, z3.Not(same)), z3.ForAll([i], z3.Implies(
                z3.And(i < end, i >= end - n, i >= end - fs), self.better(ex, i)))),
                'filter mode: the adopted trial improves on each of the last iterates', what)
        ex.oblige('C05', z3.Implies(z3.And(z3.Not(fl), z3.Not(same)),
                                    to_z3(self.ctl.trial_merit(), 'real') <
                                    to_z3(self.ctl.merit(g(ex, 'c').p, g(ex, 'g').p, g(ex, 'v').p), 'real')),
                  'merit mode: the adopted trial has a strictly lower merit value', what)

    def cands(self, ex, n, W):
        out = Adopt.cands(self, ex, n, W)
        if self.zero:
            return out
        ls = self.lists()
        for f, gk, _, _ in ls:
            out.append((gk + ' log', lambda e, f=f, gk=gk: fld(e, f).log == g(e, gk).log))
            out.append((gk + ' end', lambda e, f=f, gk=gk: to_z3(fld(e, f).end) == to_z3(g(e, gk).end)))
            out.append((gk + ' cap', lambda e, f=f: to_z3(fld(e, f).cap) == num(e, 'filter_size_')))
            out.append((gk + ' size', lambda e, f=f: to_z3(fld(e, f).size) == num(e, 'filter_size_')))
            out.append((gk + ' ends', lambda e, gk=gk: to_z3(g(e, gk).end) == to_z3(g(e, 'C2').end)))
        # the part of the filter compared so far
        ctl = self.ctl
        cnt = [(k, lv) for k, lv in ctl.ints if k[0] == 'var']
        flags = [(k, lv) for k, lv in ctl.bools]

        def rng(e, lv, kind, hi):
            i = z3.Int('i!flt')
            end = to_z3(g(e, 'C2').end)
            v = iz(lv.get(e))
            fs, nn = num(e, 'filter_size_'), gz(e, 'n')
            w = {'new': [i < end, i >= end - v],
                 'old': [i >= end - nn, i >= end - fs, z3.Or(i < end - nn + v, i < end - fs + v)],
                 'abs': [i < end, i >= end - nn, i >= end - fs, i < end - fs + v],
                 'absd': [i < end, i >= end - nn, i >= end - fs, i >= end - fs + v]}[kind]
            return z3.ForAll([i], z3.Implies(z3.And(*w), self.better(e, i, False)))
        for k, lv in cnt:
            for kind in ('new', 'old', 'abs', 'absd'):
                for fk, fl in flags + [(None, None)]:
                    for neg in (True, False):
                        if fk is None and neg:
                            continue
                        nm = 'filter %s %s %s%s' % (kn(k), kind, '!' if neg else '', kn(fk) if fk else '')

                        def f(e, lv=lv, kind=kind, fl=fl, neg=neg):
                            q = rng(e, lv, kind, None)
                            if fl is None:
                                return q
                            b = bz(fl.get(e))
                            return z3.Implies(z3.Not(b) if neg else b, q)
                        out.append((nm, f))
        return out


class Filter0(Filter):
    zero = True


class Lists:
    """C18: the line-search lists stay full, whatever the filter size"""

    def __init__(self, ctl):
        self.ctl = ctl

    def names(self, ex):
        return [f for f, _, _, _ in LISTS if ex.prog.field_owner(self.ctl.cls, f)]

    def full(self, e, f):
        L, fs = fld(e, f), num(e, 'filter_size_')
        return z3.And(to_z3(L.cap) == fs, to_z3(L.size) == fs)

    def init(self, ex):
        for f in self.names(ex):
            ex.global_pc.append(self.full(ex, f))
        self.ctl.r.notes.add('class invariant used: the line-search lists are full with capacity filter_size_ '
                             '(constructor, set_filter_size)')

    def cands(self, ex, n, W):
        return [(f, lambda e, f=f: self.full(e, f)) for f in self.names(ex)]


# ------------------------------------------------------------------ C12, C17: regularisation and step length
class Reg:
    """every retry follows an increase; the update after a line search follows from the last step tried"""

    def __init__(self, ctl):
        self.ctl = ctl

    def init(self, ex):
        ex.ghost['failed'] = Bo(False)
        ex.ghost['tried'] = Bo(False)
        for k in ('pf', 'p0', 'sl'):
            ex.ghost[k] = Sc(App('init.' + k, (), 'real'))
        ex.ghost['pfn'] = Bo(False)
        ex.global_pc += [num(ex, 'reg_incfactor_') > 1, num(ex, 'reg_decfactor_') > 1,
                         num(ex, 'reg_min_') >= 0, num(ex, 'reg_max_') >= 0]
        self.ctl.r.notes.add('class invariant used: regularisation factors above 1, limits not negative (setters, constructor)')

    @staticmethod
    def nn(v):
        return z3.Not(v.nan) if v.nan is not None else z3.BoolVal(True)

    def ready(self, ex, what):
        """at the next direction: retries increase, the line search is over"""
        p = fld(ex, 'preg_')
        ex.oblige('C12', z3.Implies(gz(ex, 'failed'), z3.And(self.nn(p), p.z() > gz(ex, 'pf'), z3.Or(
            p.z() == gz(ex, 'pf') * num(ex, 'reg_incfactor_'), p.z() >= num(ex, 'reg_max_')))),
            'a retry of a failed direction uses a strictly larger regularisation', what)

    def dir(self, ex):
        self.ready(ex, 'computeDirection')
        self.rule(ex, 'computeDirection')
        self.equal(ex, 'computeDirection')

    def calc(self, ex):
        self.rule(ex, 'calc')

    def equal(self, ex, what):
        p, d = fld(ex, 'preg_'), fld(ex, 'dreg_')
        ex.oblige('C12', z3.And(self.nn(p) == self.nn(d), z3.Implies(self.nn(p), p.z() == d.z())),
                  'state and control regularisation are equal', what)

    def dirfail(self, ex):
        p = fld(ex, 'preg_')
        ex.ghost['failed'] = Bo(True)
        ex.ghost['pf'] = Sc(p.p)

    def dirok(self, ex):
        ex.ghost['failed'] = Bo(False)

    def kkt(self, ex):
        if self.ctl.cls != 'SolverPROXQP':
            ex.oblige('C12', z3.Not(gz(ex, 'failed')), 'no residual test of a failed direction', 'checkKKTConditions')

    def try_(self, ex, a):
        ex.ghost['tried'] = Bo(True)
        ex.ghost['sl'] = Sc(a.p)
        p = fld(ex, 'preg_')
        ex.ghost['p0'] = Sc(p.p)

    def dec(self, ex, x):
        y = x / num(ex, 'reg_decfactor_')
        return z3.If(y < num(ex, 'reg_min_'), num(ex, 'reg_min_'), y)

    def inc(self, ex, x):
        y = x * num(ex, 'reg_incfactor_')
        return z3.If(y > num(ex, 'reg_max_'), num(ex, 'reg_max_'), y)

    def rule_ok(self, ex):
        p = fld(ex, 'preg_')
        x, sl = gz(ex, 'p0'), gz(ex, 'sl')
        d, i = num(ex, 'th_stepdec_'), num(ex, 'th_stepinc_')
        if self.ctl.cls == 'SolverCSQP':
            w = z3.Or(p.z() == x, z3.And(z3.Not(fld(ex, 'remove_reg_').b), p.z() == z3.If(
                sl > d, self.dec(ex, x), self.inc(ex, x))))
        else:
            y = z3.If(sl > d, self.dec(ex, x), x)
            w = p.z() == z3.If(sl <= i, self.inc(ex, y), y)
        return z3.Implies(self.nn(p), w)

    def rule(self, ex, what):
        t = gz(ex, 'tried')
        if z3.is_false(z3.simplify(t)):
            return
        ex.oblige('C17', z3.Implies(t, num(ex, 'steplength_') == gz(ex, 'sl')),
                  'the reported step length is the one last tried', what)
        ex.oblige('C17', z3.Implies(t, self.rule_ok(ex)),
                  'the regularisation update follows from the last step tried', what)
        ex.ghost['tried'] = Bo(False)

    def exit(self, ex, S, p, ret):
        if p.out != 'norm':
            return
        S.cat = 'C17'
        t = gz(ex, 'tried')
        S.holds('the reported step length is the one last tried', z3.Implies(t, num(ex, 'steplength_') == gz(ex, 'sl')))
        S.holds('the regularisation update follows from the last step tried', z3.Implies(t, self.rule_ok(ex)))
        S.cat = 'C12'
        S.holds('a solve whose last direction failed returns failure', z3.Implies(gz(ex, 'failed'), z3.Not(ret.b)))
        pr, d = fld(ex, 'preg_'), fld(ex, 'dreg_')
        S.holds('state and control regularisation are equal',
                z3.And(self.nn(pr) == self.nn(d), z3.Implies(self.nn(pr), pr.z() == d.z())))
        S.cat = self.ctl.prop

    def cands(self, ex, n, W):
        def rdy(e):
            p = fld(e, 'preg_')
            return z3.Implies(gz(e, 'failed'), z3.And(self.nn(p), p.z() > gz(e, 'pf'), z3.Or(
                p.z() == gz(e, 'pf') * num(e, 'reg_incfactor_'), p.z() >= num(e, 'reg_max_'))))

        def eq(e):
            p, d = fld(e, 'preg_'), fld(e, 'dreg_')
            return z3.And(self.nn(p) == self.nn(d), z3.Implies(self.nn(p), p.z() == d.z()))
        t = lambda e: gz(e, 'tried')
        ff = lambda e: z3.Implies(gz(e, 'failed'), z3.Not(fld(e, 'max_solve_time_reached_').b))
        return [('failed => !timeout', ff), ('!failed', lambda e: z3.Not(gz(e, 'failed'))), ('!tried', lambda e: z3.Not(t(e))), ('ready', rdy), ('peqd', eq),
                ('sl', lambda e: z3.Implies(t(e), num(e, 'steplength_') == gz(e, 'sl'))),
                ('rule', lambda e: z3.Implies(t(e), self.rule_ok(e))),
                ('p0', lambda e: z3.Implies(t(e), fld(e, 'preg_').z() == gz(e, 'p0'))),
                ('pnn', lambda e: self.nn(fld(e, 'preg_')))]


# ------------------------------------------------------------------ C14: budgets
class Budget:
    def __init__(self, ctl):
        self.ctl = ctl

    def init(self, ex):
        ex.ghost['n'] = In(0)
        ex.ghost['ls'] = In(0)
        ex.ghost['kk'] = Bo(False)
        ex.ghost['t0'] = Bo(False)
        ex.ghost['tobs'] = Bo(False)
        ex.ghost['now'] = Sc(App('init.now', (), 'real'))
        ex.ghost['begin'] = Sc(App('init.now', (), 'real'))
        self.ctl.r.notes.add('precondition (C14): the profiler clock is monotone; at least one step length')

    def mi(self, ex):
        return ex.frames[1][self.ctl.maxid].z()

    def extra(self, ex):
        return fld(ex, 'extra_iteration_for_last_kkt_').b if has_field(ex, 'extra_iteration_for_last_kkt_') else z3.BoolVal(False)

    def kkt(self, ex):
        n = g(ex, 'n').p + 1
        ex.ghost['n'] = In(n)
        ex.ghost['kk'] = Bo(True)
        ex.oblige('C14', to_z3(n) <= self.mi(ex) + z3.If(self.extra(ex), 1, 0), 'outer iterations within the budget', 'kkt')

    def try_(self, ex, a):
        if not ex.entails(z3.Not(gz(ex, 'kk'))):
            ex.ghost['ls'] = ite(gz(ex, 'kk'), g(ex, 'ls').p + 1, g(ex, 'ls').p)
        ex.ghost['kk'] = Bo(False)
        ex.oblige('C14', gz(ex, 'n') <= self.mi(ex), 'no step in the extra final iteration', 'tryStep')

    def time(self, ex, t):
        if z3.is_false(z3.simplify(gz(ex, 't0'))):
            ex.ghost['t0'] = Bo(True)
            ex.ghost['begin'] = t
            return
        ex.ghost['tobs'] = Bo(z3.simplify(z3.Or(gz(ex, 'tobs'), t.z() - gz(ex, 'begin') >= num(ex, 'max_solve_time_'))))

    def calc(self, ex):
        if self.ctl.cls == 'SolverCSQP':
            ex.oblige('C14', z3.Not(gz(ex, 'tobs')), 'no outer iteration starts once the time limit was observed', 'calc')

    def csqp_dir(self, ex, nm, b):
        t = Sc(App(nm + '.time', (), 'real'))
        ex.assume(t.z() >= gz(ex, 'now'))
        ex.assume(z3.Implies(b, t.z() - num(ex, 'start_time_') >= num(ex, 'max_solve_time_')))
        ex.ghost['now'] = t
        ex.ghost['tobs'] = Bo(z3.Or(gz(ex, 'tobs'), b))

    def exit(self, ex, S, p, ret):
        if p.out != 'norm':
            return
        S.cat = 'C14'
        it = num(ex, 'iter_')
        S.holds('the reported iteration counter is within the budget', z3.And(it >= 0, it <= self.maxi))
        S.holds('the reported iteration counter is the number of iterations with a step (or one less if it ended there)',
                z3.And(it <= gz(ex, 'ls'), gz(ex, 'ls') <= it + 1))
        k = z3.Or(gz(ex, 'ls') == it, z3.And(self.extra(ex), gz(ex, 'ls') == it + 1)) if self.ctl.cls == 'SolverCSQP' \
            else gz(ex, 'ls') == it
        S.holds('success: the reported iteration counter is the number of line searches done (CSQP: a failed one may precede '
                'the extra final test)', z3.Implies(ret.b, k))
        if self.ctl.cls == 'SolverCSQP':
            S.holds('the time-limit flag is set exactly when the limit was observed', z3.Implies(
                z3.Or(self.maxi > 0), fld(ex, 'max_solve_time_reached_').b == gz(ex, 'tobs')))
        S.cat = self.ctl.prop

    def cands(self, ex, n, W):
        kk, t = (lambda e: gz(e, 'kk')), (lambda e: gz(e, 'tobs'))
        out = [('kk', kk), ('!kk', lambda e: z3.Not(kk(e))), ('tobs', t), ('!tobs', lambda e: z3.Not(t(e)))]
        for a in ('n', 'ls'):
            for b in (None, 'iter_'):
                for d in (0, 1):
                    out.append(('%s=%s+%d' % (a, b, d), lambda e, a=a, b=b, d=d: gz(e, a) == (num(e, b) if b else 0) + d))
                    out.append(('kk => %s=%s+%d' % (a, b, d), lambda e, a=a, b=b, d=d: z3.Implies(kk(e), gz(e, a) == (
                        num(e, b) if b else 0) + d)))
                    out.append(('!kk => %s=%s+%d' % (a, b, d), lambda e, a=a, b=b, d=d: z3.Implies(z3.Not(kk(e)), gz(e, a) == (
                        num(e, b) if b else 0) + d)))
        for k, lv in self.ctl.ints:
            if k[0] == 'var':
                out.append(('kk => %s=0' % kn(k), lambda e, lv=lv: z3.Implies(kk(e), iz(lv.get(e)) == 0)))
        out.append(('iter<=max', lambda e: num(e, 'iter_') <= self.mi(e)))
        out.append(('iter<max', lambda e: num(e, 'iter_') < self.mi(e)))
        out.append(('n<=max', lambda e: gz(e, 'n') <= self.mi(e)))
        if self.ctl.cls == 'SolverCSQP':
            f = lambda e: fld(e, 'max_solve_time_reached_').b
            out.append(('flag', lambda e: f(e) == t(e)))
            out.append(('t0', lambda e: gz(e, 't0')))
            out.append(('begin', lambda e: gz(e, 'begin') == num(e, 'start_time_')))
            out.append(('over', lambda e: z3.Implies(t(e), gz(e, 'now') - num(e, 'start_time_') >= num(e, 'max_solve_time_'))))
        return out


# ------------------------------------------------------------------ C17: callbacks
class Callbacks:
    def __init__(self, ctl):
        self.ctl = ctl

    def init(self, ex):
        ex.ghost['cbn'] = In(0)
        ex.ghost['kk'] = Bo(False)

    def done(self, ex, what):
        ex.oblige('C17', z3.Implies(gz(ex, 'kk'), gz(ex, 'cbn') == to_z3(fld(ex, 'callbacks_').len)),
                  'every callback ran exactly once between the residual test and ' + what, what)

    def kkt(self, ex):
        ex.ghost['cbn'] = In(0)
        ex.ghost['kk'] = Bo(True)

    def callback(self, ex, idx):
        ex.oblige('C17', z3.And(gz(ex, 'kk'), to_z3(P(idx)) == gz(ex, 'cbn')),
                  'callbacks run in order, once each, after the residual test', 'callback')
        ex.ghost['cbn'] = In(g(ex, 'cbn').p + 1)

    def try_(self, ex, a):
        self.done(ex, 'the step')
        ex.ghost['kk'] = Bo(False)

    def dir(self, ex):
        self.done(ex, 'the next direction')
        ex.ghost['kk'] = Bo(False)

    def calc(self, ex):
        self.done(ex, 'the next iteration')
        ex.ghost['kk'] = Bo(False)

    def exit(self, ex, S, p, ret):
        if p.out == 'norm':
            S.cat = 'C17'
            S.holds('every callback ran exactly once between the residual test and the return',
                    z3.Implies(gz(ex, 'kk'), gz(ex, 'cbn') == to_z3(fld(ex, 'callbacks_').len)))
            S.cat = self.ctl.prop

    def cands(self, ex, n, W):
        kk = lambda e: gz(e, 'kk')
        out = [('kk', kk), ('!kk', lambda e: z3.Not(kk(e))),
               ('cb done', lambda e: z3.Implies(kk(e), gz(e, 'cbn') == to_z3(fld(e, 'callbacks_').len)))]
        for k, lv in self.ctl.ints:
            if k[0] == 'var':
                out.append(('cbn=' + kn(k), lambda e, lv=lv: gz(e, 'cbn') == iz(lv.get(e))))
        return out


class CbState(Cert):
    """C17: what a callback can read is the state of the current iterate"""

    def values(self, ex):
        p = cur_pair(ex)
        V = [Sc(App(f, (p,), 'real')).p for f in ('Cost', 'Gap', 'Con')]
        out = [('cost_', V[0], 'cost'), ('gap_norm_', V[1], 'gap norm')]
        if self.ctl.cls in CON:
            out.append(('constraint_norm_', V[2], 'constraint violation'))
        return out + [('merit_', self.ctl.merit(*V), 'merit value')]

    def atoms(self, ex, n, W):
        def vals(e):
            return z3.And(*[num(e, f) == to_z3(w, 'real') for f, w, _ in self.values(e)])
        return Cert.atoms(self, ex, n, W) + [('values current', vals)]

    def callback(self, ex, idx):
        for f, w, nm in self.values(ex):
            ex.oblige('C17', num(ex, f) == to_z3(w, 'real'), 'a callback sees the %s of the current iterate' % nm, 'callback')

    def cbargs(self, ex, args):
        S = Spec(ex, 'C17')
        want = {'SolverSQP': 'SQP', 'SolverCSQP': 'CSQP'}.get(self.ctl.cls)
        ok = None
        if len(args) == 2 and len(args[1]) == 1 and args[1][0][0] == 'StringLiteral' and args[0] and \
                all(k == 'CXXThisExpr' for k, _ in args[0]):
            ok = str(args[1][0][1]).strip('"') == want
        elif len(args) == 2 and args[0] and all(k == 'CXXThisExpr' for k, _ in args[0]):
            ok = None
        for pr in ('C20', 'C17'):
            S.cat = pr
            S.rec('a callback gets the solver and the type "%s"' % want,
                  'proved' if ok else 'unknown' if ok is None else 'refuted', 'called with %r' % (args,))

    def exit(self, ex, S, p, ret):
        pass


def cert(cls, prop):
    def run(r):
        c = Ctl(r, cls, prop, [Cert], nan=True)
        c.ex.dbg = r.dbg
        c.run()
    return run


RES_PROP = {'SolverSQP': 'C01', 'SolverCSQP': 'C02', 'SolverPROXQP': 'C03', 'SolverDDP': 'C04', 'SolverFDDP': 'C04'}


def mon(cls, prop, mons, nan=False):
    def run(r):
        c = Ctl(r, cls, prop, mons, nan=nan)
        c.ex.dbg = r.dbg
        c.run()
    return run


def register(prog):
    for cls in SOLVERS:
        add('%s::solve (certificate)' % cls, [RES_PROP[cls]], cert(cls, RES_PROP[cls]), safety=False)
        add('%s::solve (regularisation)' % cls, ['C12', 'C17'], mon(cls, 'C12', [Reg]), safety=False)
        add('%s::solve (budget)' % cls, ['C14'], mon(cls, 'C14', [Budget]), safety=False)
    for cls in LS:
        add('%s::solve (adoption)' % cls, ['C13', 'C16'], mon(cls, 'C13', [Chk], nan=True), safety=False)
        add('%s::solve (line search)' % cls, ['C05'], mon(cls, 'C05', [Cert, Filter]))
        add('%s::solve (line search, filter size 0)' % cls, ['C05'], mon(cls, 'C05', [Cert, Filter0]))
    for cls in ('SolverDDP', 'SolverFDDP'):
        add('%s::solve (adoption)' % cls, ['C16'], mon(cls, 'C16', [ChkD], nan=True), safety=False)
        add('%s::solve (buffers)' % cls, [], mon(cls, 'C18', [Lists] if cls == 'SolverFDDP' else []))
    for cls in ('SolverSQP', 'SolverCSQP'):
        add('%s::solve (callbacks)' % cls, ['C17'], mon(cls, 'C17', [Callbacks]), safety=False)
        add('%s::solve (values seen by the callbacks)' % cls, ['C17', 'C20'], mon(cls, 'C17', [CbState]), safety=False)
