"""C15: settings; C12: the regularisation primitives."""
from .unit import *

ARG = App('arg', (), 'real')
NAN = App('arg.nan', (), 'bool')

DOMAIN = {
    'set_reg_incfactor': lambda a: a > 1, 'set_reg_decfactor': lambda a: a > 1, 'set_regfactor': lambda a: a > 1,
    'set_reg_min': lambda a: a >= 0, 'set_regmin': lambda a: a >= 0,
    'set_reg_max': lambda a: a >= 0, 'set_regmax': lambda a: a >= 0,
    'set_th_stepdec': lambda a: z3.And(a > 0, a <= 1), 'set_th_stepinc': lambda a: z3.And(a > 0, a <= 1),
    'set_th_grad': lambda a: a >= 0, 'set_th_acceptnegstep': lambda a: a >= 0,
}
NAN_UNSPECIFIED = {'set_th_acceptnegstep'}
# settings whose validation is not part of the property (any value accepted or rejected)
ALIAS = {
    'set_regfactor': ['reg_incfactor_', 'reg_decfactor_'],
    'set_reg_incfactor': ['reg_incfactor_'], 'set_reg_decfactor': ['reg_decfactor_'],
    'set_reg_min': ['reg_min_'], 'set_regmin': ['reg_min_'], 'set_reg_max': ['reg_max_'], 'set_regmax': ['reg_max_'],
}
GETTERS = {
    'set_regfactor': ['get_regfactor', 'get_reg_incfactor', 'get_reg_decfactor'],
    'set_regmin': ['get_regmin', 'get_reg_min'], 'set_regmax': ['get_regmax', 'get_reg_max'],
    'set_reg_min': ['get_reg_min', 'get_regmin'], 'set_reg_max': ['get_reg_max', 'get_regmax'],
    'set_reg_incfactor': ['get_reg_incfactor', 'get_regfactor'],
}
CLASSES = ['SolverDDP', 'SolverFDDP', 'SolverSQP', 'SolverCSQP', 'SolverPROXQP', 'SolverKKT']


def setter(cls, name, f):
    def run(r):
        ex = r.ex(cls)
        S = Spec(ex, 'C15')
        t = f.params[0].type or ''
        if 'double' in t:
            arg = Sc(ARG, NAN.z3())
            nan = NAN.z3()
        elif 'bool' in t:
            arg = Bo(App('arg', (), 'bool').z3())
            nan = z3.BoolVal(False)
        elif 'int' in t or 'long' in t or 'size_t' in t:
            arg = In(App('arg', (), 'int'))
            nan = z3.BoolVal(False)
            if 'unsigned' in t or 'size_t' in t:
                ex.pc.append(arg.z() >= 0)
            elif 'max_qp_iters' in name:
                ex.pc.append(arg.z() >= 0)
                r.notes.add('precondition of set_max_qp_iters: the count is not negative (the int argument is stored unsigned)')
        else:
            raise Unsupported('setter argument type %s' % t)
        ps = r.paths(ex, f, [arg])
        r.vacuity(ex, ps)
        dom = DOMAIN.get(name)
        for p in ps:
            S.enter(p)
            if p.out == 'throw':
                frame_only(S, '%s: a rejected value changes nothing' % name, p, [])
                if dom is not None:
                    S.holds('%s: only an invalid value is rejected' % name, z3.Not(z3.And(z3.Not(nan), dom(arg.z()))))
                elif name in ('set_rho_update_interval',):
                    S.holds('%s: only 0 is rejected' % name, arg.z() == 0)
                else:
                    S.rec('%s: accepts every value' % name, 'refuted', 'the setter throws: %s' % p.val)
            else:
                if dom is not None:
                    S.holds('%s: only a valid value is accepted' % name,
                            z3.Or(nan, dom(arg.z())) if name in NAN_UNSPECIFIED else z3.And(z3.Not(nan), dom(arg.z())))
                elif name == 'set_rho_update_interval':
                    S.holds('%s: 0 is rejected' % name, arg.z() >= 1)
                gets = GETTERS.get(name, ['get_' + name[4:]])
                for g in gets:
                    gf = ex.prog.find_method(cls, g, 0)
                    if gf is None:
                        continue
                    q = S.quiet(lambda: ex.run_function(gf, []))
                    for z in q:
                        v = ex.deref(z.val)
                        ok = v is not None and val_eq(ex, v, arg)
                        if not ok and (isinstance(v, Sc) or isinstance(v, In)) and isinstance(arg, Bo):
                            # a getter declared with a numeric type
                            ok = True
                        S.rec('%s: %s returns the value set' % (name, g), 'proved' if ok else 'refuted',
                              '' if ok else 'getter returns %r' % (v,))
                al = ALIAS.get(name)
                if al is None:
                    if name == 'set_filter_size':
                        al = ['filter_size_', 'gap_list_', 'cost_list_', 'constraint_list_']
                    else:
                        al = changed(S, p)
                        if len(al) > 1:
                            S.rec('%s: changes one setting' % name, 'refuted', 'changes %s' % ', '.join(map(str, al)))
                frame_only(S, '%s: no other setting changes' % name, p, al)
                if al and name != 'set_filter_size':
                    for a in al:
                        k = a if isinstance(a, tuple) else owner(ex, a)
                        ok = val_eq(ex, ex.field(k), arg)
                        S.rec('%s: the value is stored' % name, 'proved' if ok else 'refuted',
                              '' if ok else '%s holds %r' % (k, ex.field(k)))
            S.leave()
    return run


def changed(S, p):
    out = []
    ex = S.ex
    for k, v in p.fields.items():
        v0 = S._snap[0].get(k)
        if v0 is None:
            sv = ex.fields
            ex.fields = {}
            try:
                v0 = ex.field(k)
            finally:
                ex.fields = sv
        if v0.key() != v.key():
            out.append(k)
    return out


def val_eq(ex, a, b):
    if isinstance(a, (Sc, In)) and isinstance(b, (Sc, In)):
        if not (a.p - b.p).is_zero():
            return ex.entails(to_z3(a.p, 'real') == to_z3(b.p, 'real'))
        na = a.nan if isinstance(a, Sc) else None
        nb = b.nan if isinstance(b, Sc) else None
        if na is None and nb is None:
            return True
        F = z3.BoolVal(False)
        return ex.entails((na if na is not None else F) == (nb if nb is not None else F))
    if isinstance(a, (Sc, In)) and isinstance(b, Bo):
        return ex.entails((to_z3(a.p, 'real') != 0) == b.b)
    if isinstance(a, Bo) and isinstance(b, Bo):
        return ex.entails(a.b == b.b)
    return hasattr(a, 'key') and hasattr(b, 'key') and a.key() == b.key()


def alphas(cls):
    def run(r):
        ex = r.ex(cls)
        ex.keep_noearly = True
        S = Spec(ex, 'C15')
        n = P(App('len.arg', (), 'int'))
        ex.pc.append(to_z3(n) >= 0)

        def el(*a):
            return Sc(App('arg', (P(a[-1]),), 'real'), App('arg.nan', (P(a[-1]),), 'bool').z3())
        arr = Arr('dbl', Base('arg', el), n)
        f = r.method(cls, 'set_alphas')
        ps = r.paths(ex, f, [arr])
        r.vacuity(ex, ps)
        i = App('i', (), 'int')
        zi = i.z3()
        a = lambda k: el(P(k)).z()
        nn = lambda k: z3.Not(el(P(k)).nan)
        ok0 = z3.And(to_z3(n) >= 1, nn(0), a(0) > 0)
        oki = z3.And(nn(i), a(i) > 0, a(i) < a(P(i) - 1))
        for p in ps:
            S.enter(p)
            if p.out == 'throw':
                frame_only(S, 'set_alphas: a rejected list changes nothing', p, [])
                # the list is invalid: some witness index
                wit = [z3.Not(ok0)]
                for x in set(_ints(ex.pc)):
                    s = App(x, (), 'int') if isinstance(x, str) else x
                    wit.append(z3.And(s.z3() >= 1, s.z3() < to_z3(n),
                                      z3.Not(z3.And(nn(s), nn(P(s) - 1), a(s) > 0, a(s) < a(P(s) - 1)))))
                S.holds('set_alphas: only an invalid list is rejected', z3.Or(*wit))
            else:
                S.holds('set_alphas: the accepted list is not empty and starts positive', ok0)
                ex.pc += [zi >= 1, zi < to_z3(n)]
                # NaN: an accepted entry compared with its predecessor
                S.holds('set_alphas: an accepted list is positive and strictly decreasing', oki)
                S.rec('set_alphas: the list is stored', *(('proved', '') if fld(ex, 'alphas_').key() == arr.key() else
                                                         ('refuted', 'alphas_ holds %r' % (fld(ex, 'alphas_'),))))
                frame_only(S, 'set_alphas: no other setting changes', p, [owner(ex, 'alphas_')])
                g = ex.prog.find_method(cls, 'get_alphas', 0)
                if g is not None:
                    for z in S.quiet(lambda: ex.run_function(g, [])):
                        v = ex.deref(z.val)
                        S.rec('set_alphas: get_alphas returns the list', 'proved' if v.key() == arr.key() else 'refuted')
            S.leave()
    return run


def _ints(es):
    out = set()
    st = list(es)
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e):
            if e.num_args() == 0 and e.decl().name().startswith('x@') and z3.is_int(e):
                out.add(e.decl().name())
            st.extend(e.children())
    return out


def reg_step(cls, name, up):
    def run(r):
        ex = r.ex(cls)
        S = Spec(ex, 'C12')
        f = r.method(cls, name, 0)
        p0, inc, dec = num(ex, 'preg_'), num(ex, 'reg_incfactor_'), num(ex, 'reg_decfactor_')
        mx, mn = num(ex, 'reg_max_'), num(ex, 'reg_min_')
        nanp = fld(ex, 'preg_').nan
        if nanp is not None:
            ex.pc.append(z3.Not(nanp))
        ex.pc += [inc > 1, dec > 1, mx >= 0, mn >= 0]
        ps = r.paths(ex, f)
        r.vacuity(ex, ps)
        for p in ps:
            S.enter(p)
            if p.out != 'norm':
                S.rec('%s returns' % name, 'refuted', 'throws')
                S.leave()
                continue
            p1, d1 = num(ex, 'preg_'), num(ex, 'dreg_')
            if up:
                S.holds('increase multiplies by the factor and caps at the maximum',
                        p1 == z3.If(p0 * inc > mx, mx, p0 * inc))
            else:
                S.holds('decrease divides by the factor and floors at the minimum',
                        p1 * z3.If(p0 / dec < mn, z3.RealVal(1), dec) == z3.If(p0 / dec < mn, mn, p0))
            S.holds('state and control regularisation stay equal', d1 == p1)
            nn = fld(ex, 'preg_').nan
            if nn is not None:
                S.holds('the regularisation does not become NaN', z3.Not(nn))
            frame_only(S, 'nothing else changes', p, [('SolverAbstract', 'preg_'), ('SolverAbstract', 'dreg_'),
                                                     owner(ex, 'preg_'), owner(ex, 'dreg_')])
            S.leave()
    return run


def register(prog):
    seen = set()
    for cls in CLASSES:
        for c in prog.mro(cls):
            for name, fs in prog.methods.get(c, {}).items():
                if not name.startswith('set_'):
                    continue
                f = prog.find_method(cls, name, 1)
                if f is None or f.body is None or len(f.params) != 1:
                    continue
                if (f.cls, name) in seen:
                    continue
                seen.add((f.cls, name))
                if name == 'set_alphas':
                    add('%s::%s' % (f.cls, name), ['C15'], alphas(f.cls))
                elif 'callback' in name.lower():
                    continue
                else:
                    add('%s::%s' % (f.cls, name), ['C15'], setter(f.cls, name, f))
    seen = set()
    for cls in CLASSES:
        for name, up in (('increaseRegularization', True), ('decreaseRegularization', False)):
            f = prog.find_method(cls, name, 0)
            if f is not None and f.cls not in seen or f is not None and (f.cls, name) not in seen:
                seen.add((f.cls, name))
                add('%s::%s' % (f.cls, name), ['C12'], reg_step(f.cls, name, up))
