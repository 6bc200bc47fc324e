"""C15, C19: the Python properties of the solver classes are bound to the getter and setter of the setting they are named after."""
from .unit import *
from .u_logger import PyEx, FILES, table
from .u_settings import val_eq, changed, DOMAIN, NAN_UNSPECIFIED, ARG, NAN


def find(ex, cls, pre, name, n):
    for x in (name, name.lower(), name.upper()):
        f = ex.prog.find_method(cls, pre + x, n)
        if f is not None:
            return f
    return None


def ref(px, gs, nm):
    if len(gs) != 1 or gs[0][0] not in ('CXXMethodDecl', 'FieldDecl'):
        px.rec(nm, None, 'bound to something of an unknown form: %r' % (gs,))
        return None
    return gs[0]


def read(ex, S, cls, g):
    """the values a getter reference returns in the current state"""
    if g[0] == 'FieldDecl':
        return [ex.field(owner(ex, g[1]))]
    f = ex.prog.find_method(cls, g[1], 0)
    if f is None:
        raise Unsupported('getter %s::%s not found' % (cls, g[1]))
    out = []
    for z in S.quiet(lambda: ex.run_function(f, [])):
        out.append(ex.deref(z.val) if z.out == 'norm' else None)
    return out


def argument(ex, f):
    t = f.params[0].type or ''
    if 'vector' in t or '&' in t or '*' in t or '<' in t:
        return None
    if 'double' in t:
        return Sc(ARG, NAN.z3())
    if 'bool' in t:
        return Bo(App('arg', (), 'bool').z3())
    if 'int' in t or 'long' in t or 'size_t' in t:
        a = In(App('arg', (), 'int'))
        ex.pc.append(a.z() >= 0)
        return a
    return None


def u_props(cls):
    fn = FILES[cls][0]

    def run(r):
        tab = table('expose' + cls, fn)
        if not tab:
            raise Unsupported('no properties found in bindings/%s' % fn)
        px = PyEx('C15')
        r.exs.append(px)
        px.funcs_seen['expose%s (bindings/%s)' % (cls, fn)] = 1
        last = {}
        for name, gs, kind in tab:
            last[name] = (gs, kind)
        for name, (gs, kind) in last.items():
            if name is None or kind != 'add_property' or not gs:
                continue
            ex = r.ex(cls)
            S = Spec(ex, 'C15')
            nm = 'solver.%s reads the quantity of that name' % name
            want = find(ex, cls, 'get_', name, 0)
            if want is not None:
                g = ref(px, gs[0], nm)
                if g is not None and g != ('CXXMethodDecl', want.name):
                    for p in r.paths(ex, want, []):
                        S.enter(p)
                        v = ex.deref(p.val)
                        got = read(ex, S, cls, g)
                        bad = [x for x in got if x is None or not val_eq(ex, x, v)]
                        S.rec(nm, 'refuted' if bad else 'proved', 'bound to %s' % g[1])
                        S.leave()
                elif g is not None:
                    px.rec(nm, True)
            if len(gs) < 2:
                continue
            nm = 'solver.%s = v sets the quantity of that name' % name
            s = ref(px, gs[1], nm)
            g = ref(px, gs[0], nm)
            if s is None or g is None:
                continue
            if s[0] == 'FieldDecl':
                px.rec(nm, g == s, 'reads %s and writes %s' % (g[1], s[1]), 'bindings/' + fn)
                continue
            f = ex.prog.find_method(cls, s[1], 1)
            if f is None or f.body is None:
                # a setter of crocoddyl: by name
                px.rec(nm, True if s[1].lower() in ('set_' + name.lower(), 'set' + name.lower()) else None, 'bound to %s' % s[1])
                continue
            arg = argument(ex, f)
            if arg is None:
                px.rec(nm, True if s[1].replace('set', '', 1).strip('_').lower() == g[1].replace('get', '', 1).strip('_').lower()
                       else None, 'reads %s and writes %s' % (g[1], s[1]))
                continue
            dom = DOMAIN.get('set_' + name.lower())
            mine = find(ex, cls, 'set_', name, 1)
            if mine is not None and mine.name != f.name:
                a, b = effect(r, cls, mine, arg), effect(r, cls, f, arg)
                px.rec(nm, a == b, '%s changes %s, %s changes %s' % (s[1], sorted(b), mine.name, sorted(a)), 'bindings/' + fn)
            for p in r.paths(ex, f, [arg]):
                S.enter(p)
                if p.out != 'norm':
                    if dom is None and name != 'rho_update_interval':
                        S.rec('solver.%s = v accepts every value' % name, 'refuted', '%s throws' % s[1])
                else:
                    if dom is not None:
                        S.holds('solver.%s = v accepts only a valid value' % name,
                                z3.Or(NAN.z3(), dom(arg.z())) if 'set_' + name.lower() in NAN_UNSPECIFIED
                                else z3.And(z3.Not(NAN.z3()), dom(arg.z())))
                    bad = []
                    for x in read(ex, S, cls, g):
                        if x is None or not val_eq(ex, x, arg):
                            if x is not None and isinstance(arg, Bo) and isinstance(x, (Sc, In)):
                                continue
                            bad.append(x)
                    S.rec(nm, 'refuted' if bad else 'proved', 'writes %s, then %s returns %r' % (s[1], g[1], bad[:1]))
                S.leave()
    return run


def effect(r, cls, f, arg):
    ex = r.ex(cls)
    S = Spec(ex, 'C15')
    if isinstance(arg, In):
        ex.pc.append(arg.z() >= 0)
    out = set()
    for p in r.paths(ex, f, [arg]):
        S.enter(p)
        if p.out == 'norm':
            out |= set(changed(S, p))
        S.leave()
    return out


def register(prog):
    for c in FILES:
        add('bindings of %s: a property reads and writes the setting of its name' % c, ['C15'], u_props(c), safety=False)
