"""Verification units: one function of the code under its contract."""
import time
import traceback
import z3
from . import front, symex, lib
from .symex import Ex, Unsupported, T_, zand
from .terms import App, P, to_z3
from .values import *
from .spec import *
from . import lib as lb

UNITS = []
CAT_PROP = {'index': 'C18', 'dim': 'C18', 'wrap': 'C18', 'div0': 'C18'}


class Unit:
    def __init__(self, name, props, fn, safety=True):
        self.name, self.props, self.fn, self.safety = name, list(props), fn, safety
        if safety and 'C18' not in self.props:
            self.props.append('C18')


def unit(name, *props, safety=True):
    def deco(fn):
        UNITS.append(Unit(name, props, fn, safety))
        return fn
    return deco


def add(name, props, fn, safety=True):
    UNITS.append(Unit(name, props, fn, safety))


class Run:
    """context handed to a unit"""

    def __init__(self, prog, unit, timeout):
        self.prog = prog
        self.unit = unit
        self.exs = []
        self.timeout = timeout
        self.t0 = time.time()
        self.notes = set()
        self.vac = []
        import os
        self.dbg = bool(os.environ.get('MIMV_DBG'))

    def ex(self, cls, **kw):
        L = lib.Lib()
        e = Ex(self.prog, cls, L, **kw)
        e.field_init = L.field_init(e)
        e.deadline = self.t0 + self.timeout
        self.exs.append(e)
        return e

    def method(self, cls, name, nargs=None):
        f = self.prog.find_method(cls, name, nargs)
        if f is None:
            raise Unsupported('%s::%s not found' % (cls, name))
        return f

    def paths(self, ex, f, args=()):
        ps = ex.explore(lambda: ex.run_function(f, list(args)))
        if not ps:
            raise Unsupported('no feasible path through %r' % f)
        return ps

    def vacuity(self, ex, ps, kinds=('norm',)):
        """some path of each kind must be reachable (the preconditions are not contradictory)"""
        for k in kinds:
            ok = False
            for p in ps:
                if p.out != k:
                    continue
                if ex.solve(list(ex.pc) + list(p.pcs))[0] != z3.unsat:
                    ok = True
                    break
            self.vac.append((k, ok))
            if not ok:
                ex.record('cover', 'a %s exit is reachable' % k, 'unknown', 'no feasible path: the contract would be vacuous')


def run_unit(prog, u, timeout):
    """returns a plain dict (picklable)"""
    r = Run(prog, u, timeout)
    err = None
    try:
        u.fn(r)
    except (Unsupported, Undecided) as e:
        err = str(e)[:400]
    except RecursionError:
        err = 'recursion limit'
    except Exception as e:
        err = 'internal: %s: %s | %s' % (type(e).__name__, str(e)[:200], ' / '.join(
            l.strip() for l in traceback.format_exc().split('\n')[-7:-1]))
    obs = []
    for ex in r.exs:
        for o in ex.obs.values():
            prop = CAT_PROP.get(o.cat, o.cat)
            if prop == 'C18' and o.cat in CAT_PROP and not u.safety:
                continue
            obs.append(dict(prop=prop, kind=o.cat if o.cat in CAT_PROP else 'post', name=o.name, status=o.status,
                            detail=o.detail, where=o.where, n=o.n))
    funcs = {}
    for ex in r.exs:
        for k, v in ex.funcs_seen.items():
            funcs[k] = funcs.get(k, 0) + v
    return dict(unit=u.name, props=u.props, err=err, obs=obs, funcs=sorted(funcs),
                queries=sum(e.stats.queries for e in r.exs), solver_s=round(sum(e.stats.time for e in r.exs), 3),
                wall=round(time.time() - r.t0, 2), notes=sorted(set().union(r.notes, *[e.notes for e in r.exs])),
                vac=r.vac, invariants=[x for e in r.exs for x in e.invariants])


# ------------------------------------------------------------------ common pieces
def all_fields(ex):
    out = []
    for c in ex.prog.mro(ex.cls):
        for n in ex.prog.fields.get(c, {}):
            out.append((c, n))
    return out


def frame_only(S, name, p, allowed):
    """no field other than the allowed ones differs from its initial value"""
    ex = S.ex
    bad = []
    al = set(allowed)
    for k, v in p.fields.items():
        if k in al or k[1] in al:
            continue
        sv = ex.fields
        ex.fields = {}
        try:
            v0 = S._snap[0].get(k)
            if v0 is None:
                v0 = ex.field(k)
        finally:
            ex.fields = sv
        if v0.key() != v.key():
            bad.append('%s::%s' % k)
    S.rec(name, 'refuted' if bad else 'proved', 'changed: ' + ', '.join(bad) if bad else '')
