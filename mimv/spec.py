"""Specification language of the contracts: reading solver state, equalities over normal forms,
sums and maxima over nodes, quantified postconditions; every check is one named obligation."""
import time
import z3
from . import terms as tm
from .terms import App, Poly, Mat, P, Subst, to_z3, zpoly
from .values import *
from .symex import (Ex, Unsupported, T_, NDX, NX, nu, ng, INF, zand, Infeasible, Ret)
from . import lib as lb
from . import loops
from .loops import poly_atoms_deep, max_args, z_names

T = P(T_)
DATA = lb.DATA


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ state access
def owner(ex, name, cls=None):
    c = cls or ex.cls
    o = ex.prog.field_owner(c, name)
    if o is None or name in lb.ABSTRACT_FIELDS and o is None:
        o = 'SolverAbstract'
    return (o, name)


def fld(ex, name, cls=None):
    return ex.field(owner(ex, name, cls))


def setf(ex, name, v, cls=None):
    ex.fields[owner(ex, name, cls)] = v


def at(ex, name, t, cls=None):
    v = fld(ex, name, cls)
    if isinstance(v, Flat):
        v = v.arr
    return ex.as_ev(ex.arr_read(v, P(t)))


def data(ex, name, t):
    v = ex.arr_read(ex.field(('data', name)), P(t))
    return ex.as_ev(v)


def sc(ex, name, cls=None):
    v = fld(ex, name, cls)
    return v.p


def num(ex, name, cls=None):
    return fld(ex, name, cls).z()


# ------------------------------------------------------------------ dimensions and zero words
def atom_dims(a):
    """(rows, cols) of a matrix atom, or None"""
    n = a.name
    if n.startswith('F.') and n[2:] in DATA:
        return DATA[n[2:]][1](P(a.args[0]))
    if n.startswith('d.') and n[2:] in DATA:
        return DATA[n[2:]][1](P(a.args[-1]))
    if n.startswith('f.'):
        s = n.rsplit('.', 1)[1]
        if s in lb.SHAPES and a.args:
            return lb.SHAPES[s][2](P(a.args[-1]))
        if s in lb.SINGLE and lb.SINGLE[s]:
            return lb.SINGLE[s][1]()
    if n in ('integrate', 'x0'):
        return (P(NX), P(1))
    if n == 'diff':
        return (P(NDX), P(1))
    if n in ('g_lb', 'g_ub'):
        return (ng(a.args[0]), P(1))
    if n in EXTRA_DIMS:
        return EXTRA_DIMS[n](a)
    if n.startswith('L') and '.' in n:
        # loop-defined element symbols: L<k>.field.<Class>.<name>.<m>
        p = n.split('.')
        for s in p:
            if s in lb.SHAPES and a.args:
                return lb.SHAPES[s][2](P(a.args[-1]))
    if n in ('inv', 'inverse') and a.args and isinstance(a.args[0], Mat):
        return mat_dims(a.args[0])
    if n in ('vabs', 'vinv', 'vmax', 'vmin') or n.startswith('v'):
        for x in a.args:
            if isinstance(x, Mat):
                d = mat_dims(x)
                if d is not None:
                    return d
    return None


EXTRA_DIMS = {}


def fac_dims(f):
    d = atom_dims(f.atom)
    if d is None:
        return None
    return (d[1], d[0]) if f.t else d


def mat_dims(m):
    for w in m.t:
        if w:
            a, b = fac_dims(w[0]), fac_dims(w[-1])
            r = a[0] if a else None
            c = b[1] if b else None
            return (r, c)
    return None


def word_factors(w):
    for f in w:
        yield f
        if f.atom.name in ('cw', 'diag'):
            for x in f.atom.args:
                yield from word_factors(x)


def empty_controls(ex, y):
    """model functions of a node without controls: their control argument is the empty vector"""
    mp = {}
    for a in poly_atoms_deep(y):
        if isinstance(a, App) and a.name.startswith('F.') and len(a.args) == 3 and isinstance(a.args[2], Mat) and \
                not a.args[2].is_zero() and a.id not in mp:
            t = to_z3(P(a.args[0]))
            if ex.entails(z3.Or(to_z3(nu(P(a.args[0]))) == 0, t >= to_z3(T))):
                mp[a.id] = (a, App(a.name, (a.args[0], a.args[1], Mat.zero('V')), a.sort, a.sym))
    return y.subst(Subst(list(mp.values()))) if mp else y


def kill_zero(ex, m):
    """drop words with an outer or inner dimension that is 0 under the path condition"""
    m0 = m
    m = empty_controls(ex, m)
    out = {}
    changed = m is not m0
    for w, c in m.t.items():
        dims = []
        for f in word_factors(w):
            d = fac_dims(f)
            if d:
                dims += [x for x in d if x is not None and not x.is_const() and x.key() not in
                         (P(NDX).key(), P(NX).key())]
        seen = set()
        zero = False
        for d in dims:
            if d.key() in seen:
                continue
            seen.add(d.key())
            if ex.entails(to_z3(d) == 0):
                zero = True
                break
        if zero:
            changed = True
        else:
            out[w] = c
    return Mat(out, m.kind) if changed else m


def kill_zero_poly(ex, p):
    """norms / inner products of vectors of dimension 0 vanish"""
    p = empty_controls(ex, p)
    r = Poly({})
    for mono, c in p.t.items():
        z = False
        term = Poly({(): c})
        for a, e in mono:
            if a.name in ('norm1', 'norminf', 'sqnorm') and a.args and isinstance(a.args[0], Mat):
                m = kill_zero(ex, a.args[0])
                if m.is_zero():
                    z = True
                    break
                if m is not a.args[0]:
                    q = tm.norm1(m) if a.name == 'norm1' else tm.norminf(m) if a.name == 'norminf' else P(App('sqnorm', (tm.sign_norm(m),), 'real'))
                    for _ in range(e):
                        term = term * q
                    continue
            if a.name == 'scal' or a.name == 's':
                for x in a.args:
                    if isinstance(x, Mat):
                        if kill_zero(ex, x).is_zero():
                            z = True
            if z:
                break
            term = term * Poly({((a, e),): tm.Fraction(1)})
        if not z:
            r = r + term
    return r


# ------------------------------------------------------------------ obligations
class Spec:
    """checks postconditions on paths; records obligations in ex.obs"""

    def __init__(self, ex, cat='post'):
        self.ex = ex
        self.cat = cat
        self.rewrites = []

    dbg = False

    def enter(self, p):
        ex = self.ex
        self._snap = ex.snapshot()
        ex.fields, ex.frames, ex.ghost = dict(p.fields), [dict(f) for f in p.frames], dict(p.ghost)
        ex.pc = list(self._snap[3]) + list(p.pcs)

    def leave(self):
        self.ex.restore(self._snap)

    def rec(self, name, status, detail=''):
        on = self.ex.oblig_on
        self.ex.oblig_on = True
        try:
            self.ex.record(self.cat, name, status, detail)
        finally:
            self.ex.oblig_on = on

    def post(self, fn):
        """run a postcondition; branches it opens are explored"""
        for p in self.quiet(fn):
            if p.out != 'norm':
                self.rec('specification evaluated', 'unknown', 'specification raised %s' % p.val)

    def quiet(self, fn):
        """run fn with branching on the executor; returns explored paths"""
        ex = self.ex
        on = ex.oblig_on
        ex.oblig_on = False
        try:
            return ex.explore(fn)
        finally:
            ex.oblig_on = on

    def each(self, fn):
        """run fn() on every branch it opens; fn returns list of (name, status, detail)"""
        res = []
        for p in self.quiet(fn):
            if p.out != 'norm':
                res.append(('?', 'unknown', 'specification raised %s' % p.val))
            else:
                res.extend(p.val or [])
        return res

    def forall(self, name, lo, hi, fn, var=None):
        """for every lo <= t < hi: all pairs (got, want) returned by fn(t) are equal"""
        ex = self.ex
        t = App(var or 't', (), 'int')
        zt = to_z3(P(t))

        def run():
            ex.pc.append(to_z3(P(lo)) <= zt)
            ex.pc.append(zt < to_z3(P(hi)))
            if ex.solve(list(ex.pc))[0] == z3.unsat:
                return []
            out = []
            for g, w in fn(P(t)):
                r = self.equal(g, w)
                if r[0] != 'proved' and ex.entails(z3.BoolVal(False)):
                    continue
                if r[0] != 'proved' and (ex.fvdef or ex.scdef):
                    r2 = self.equal(self.unroll(ex.as_ev(g), t), self.unroll(ex.as_ev(w), t))
                    if r2[0] == 'proved':
                        r = r2
                if r[0] != 'proved':
                    for pt in (P(lo), P(hi) - 1):
                        if ex.entails(zt == to_z3(pt)):
                            sb = Subst([(t, pt)])
                            r2 = self.equal(self.unroll(ex.as_ev(g).subst(sb), pt), self.unroll(ex.as_ev(w).subst(sb), pt))
                            if r2[0] == 'proved':
                                r = r2
                                break
                if r[0] != 'proved' and self.dbg:
                    print('FORALL', name, r, locals().get('r2'))
                out.append((name,) + r)
            return out
        self.collect(name, self.each(run))

    def exact(self, name, fn):
        """all pairs returned by fn() are equal"""
        ex = self.ex

        def run():
            out = []
            for g, w in fn():
                r = self.equal(g, w)
                if r[0] != 'proved' and ex.entails(z3.BoolVal(False)):
                    continue
                if r[0] != 'proved' and (ex.fvdef or ex.scdef):
                    for pt in (P(0), T):
                        r2 = self.equal(self.unroll(ex.as_ev(g), pt), self.unroll(ex.as_ev(w), pt))
                        if r2[0] == 'proved':
                            r = r2
                            break
                out.append((name,) + r)
            return out
        self.collect(name, self.each(run))

    def cases(self, name, fn):
        """on every branch fn() opens: None (nothing to compare with: refuted) or pairs that must be equal"""
        ex = self.ex

        def run():
            r = fn()
            if ex.entails(z3.BoolVal(False)):
                return []
            if r is None:
                return [(name, 'refuted', 'no counterpart on path %s' % self.pcs())]
            return [(name,) + self.equal(g, w) for g, w in r]
        self.collect(name, self.each(run))

    def collect(self, name, res):
        if not res:
            self.rec(name, 'proved', '')
            return
        for nm, st, det in res:
            self.rec(name, st, det)

    def equal(self, g, w):
        """(status, detail)"""
        ex = self.ex
        g, w = ex.as_ev(g), ex.as_ev(w)
        if isinstance(g, EV) and isinstance(w, (EV, Mat)):
            wm = w.m if isinstance(w, EV) else w
            d = g.m - wm if g.m.kind == wm.kind or g.m.is_zero() or wm.is_zero() else None
            if d is None:
                return (ex.verdict(g.m), 'shape mismatch: %r vs %r' % (g.m, wm))
            if d.is_zero():
                return ('proved', '')
            d = kill_zero(ex, d)
            if d.is_zero():
                return ('proved', '')
            for rw in self.rewrites:
                d = rw(ex, d)
                if d.is_zero():
                    return ('proved', '')
            return (ex.verdict(d), 'difference of code and specification: %s  [path: %s]' % (str(d)[:500], self.pcs()))
        gp = g.p if isinstance(g, (Sc, In)) else P(g)
        wp = w.p if isinstance(w, (Sc, In)) else P(w)
        d = gp - wp
        if d.is_zero():
            return ('proved', '')
        d = kill_zero_poly(ex, d)
        if d.is_zero():
            return ('proved', '')
        return self.poly_zero(d)

    # ------------------------------------------------------------ recursive symbols
    def unroll(self, v, t):
        """express loop-defined symbols of the iteration at index t by those of the iteration before"""
        ex = self.ex
        t = P(t)
        for _ in range(60):
            hit = None
            for a in loops.val_atoms(v)[0]:
                if not isinstance(a, App):
                    continue
                if a.name in ex.scdef:
                    d = ex.scdef[a.name]
                    e, dr = a.args[len(d[0])] - d[4], d[4]
                elif a.name in ex.fvdef:
                    l = ex.fvdef[a.name][0]
                    e, dr = a.args[len(l.params)] - l.c, ex.loopdir.get(a.name, 1)
                else:
                    continue
                k = e - t
                if a.name in ex.scdef:
                    d = ex.scdef[a.name]
                    at_start = ex.entails(to_z3(a.args[len(d[0])]) == to_z3(d[2] if dr > 0 else d[3] - 1))
                else:
                    zi = to_z3(e)
                    at_start = ex.entails(z3.Or(zi < to_z3(l.lo), zi >= to_z3(l.hi)))
                if at_start:
                    hit = (a, 1000)
                    continue
                if k.is_const() and (k.cval() >= 0 if dr > 0 else k.cval() <= 0):
                    if hit is None or abs(k.cval()) > abs(hit[1]):
                        hit = (a, k.cval())
            if hit is None:
                return v
            d = ex.unfold(hit[0])
            if ex.entails(z3.BoolVal(False)):
                raise Infeasible()
            d = ex.as_ev(d)
            if isinstance(d, LLT):
                d = d.m
            v = v.subst(Subst([(hit[0], d.m if isinstance(d, EV) else d.p)]))
        raise Undecided('recursive definition does not unroll')

    def pcs(self):
        return ' & '.join(str(c).replace('\n', ' ')[:120] for c in self.ex.pc[-6:])

    def poly_zero(self, d):
        ex = self.ex
        if any(a.name.startswith('sum@') for a in d.atoms()):
            r = self.sum_zero(d)
            if r is not None and r[0] != 'proved':
                # once more with the summands where they stand: a summand at t may use what iteration t-1 left
                r2 = self.sum_zero(d, False)
                if r2 is not None and r2[0] == 'proved':
                    return r2
            if r is not None:
                return r
        c = to_z3(d, 'real') == 0
        r, m = ex.solve(list(ex.pc) + [z3.Not(c)], timeout=10000)
        if r == z3.unsat:
            return ('proved', '')
        if r == z3.sat:
            return (ex.verdict(d), 'difference: %s; %s' % (str(d)[:400], ex.cex(m, c)))
        return ('unknown', 'solver returned unknown: %s' % str(d)[:300])

    # ------------------------------------------------------------ sums
    def sum_zero(self, d, align=True):
        """d contains node sums: normalise all to [0,T) and show the summand and the rest vanish"""
        ex = self.ex
        groups = {}
        rest = P(0)
        v = App('v@sum', (), 'int')
        for mono, c in d.t.items():
            ss = [a for a, e in mono if a.name.startswith('sum@')]
            if not ss:
                rest = rest + Poly({mono: c})
                continue
            if len(ss) > 1 or any(a is ss[0] and e != 1 for a, e in mono):
                return ('unknown', 'product of sums')
            coef = Poly({tuple((a, e) for a, e in mono if a is not ss[0]): c})
            ag = ex.aggs[ss[0].name]
            sb = Subst([(p, q) for p, q in zip(ag.params, ss[0].args)]) if ag.params else None
            cases = ag.cases
            lo, hi = ag.lo, ag.hi
            if sb:
                cases = [([sb.zx(g) for g in gs], x.subst(sb)) for gs, x in cases]
                lo, hi = lo.subst(sb), hi.subst(sb)
            off = min_offset([x for _, x in cases], ag.var) if align else 0
            s2 = Subst([(ag.var, P(v) - off)])
            lo, hi = lo + off, hi + off
            cases = [([s2.zx(g) for g in gs], x.subst(s2)) for gs, x in cases]
            if not lo.is_const():
                return ('unknown', 'sum with a symbolic lower limit')
            dh = hi - T
            if not dh.is_const():
                # a sum over another range
                key = (lo.key(), hi.key())
            else:
                key = 'T'
                for k in range(min(0, int(lo.cval())), max(0, int(lo.cval()))):
                    # [a,T) -> [0,T)
                    rest = rest + coef * self.case_at(cases, v, P(k)) * (-1 if lo.cval() > 0 else 1)
                b = int(dh.cval())
                for k in range(min(0, b), max(0, b)):
                    rest = rest + coef * self.case_at(cases, v, T + k) * (1 if b > 0 else -1)
            groups.setdefault(key, []).append((coef, cases, lo, hi))
        out = []
        for key, ls in groups.items():
            lo, hi = (P(0), T) if key == 'T' else (ls[0][2], ls[0][3])
            zt = to_z3(P(v))

            def run():
                ex.pc.append(to_z3(lo) <= zt)
                ex.pc.append(zt < to_z3(hi))
                s = P(0)
                for coef, cases, _, _ in ls:
                    x = cases[-1][1]
                    for gs, y in cases[:-1]:
                        if ex.decide(zand(gs)):
                            x = y
                            break
                    s = s + coef * x
                s = kill_zero_poly(ex, s)
                if not s.is_zero() and (ex.fvdef or ex.scdef):
                    s = kill_zero_poly(ex, self.unroll(Sc(s), v).p)
                    if not s.is_zero() and not align and not ex.entails(zt == to_z3(lo)):
                        s = kill_zero_poly(ex, self.unroll(Sc(s), P(v) - 1).p)
                return s
            for p in self.quiet(run):
                s = p.val
                if s.is_zero():
                    continue
                old = ex.pc
                ex.pc = list(old) + list(p.pcs)
                try:
                    if key == 'T' and ex.entails(zt == 0):
                        rest = rest + s.subst(Subst([(v, P(0))]))
                        continue
                    if key == 'T' and ex.entails(zt == to_z3(T) - 1):
                        rest = rest + s.subst(Subst([(v, T - 1)]))
                        continue
                    c = to_z3(s, 'real') == 0
                    r, m = ex.solve(list(ex.pc) + [z3.Not(c)])
                    if r == z3.unsat:
                        continue
                    return (ex.verdict(s) if r == z3.sat else 'unknown', 'summands differ by %s at %s' % (str(s)[:400], self.pcs()))
                finally:
                    ex.pc = old
        rest = kill_zero_poly(ex, rest)
        if not rest.is_zero() and (ex.fvdef or ex.scdef) and ex.decs:
            for pt in (T - 1, P(0)):
                r2 = kill_zero_poly(ex, self.unroll(Sc(rest), pt).p)
                if r2.is_zero():
                    rest = r2
                    break
        if rest.is_zero():
            return ('proved', '')
        if any(a.name.startswith('sum@') for a in rest.atoms()):
            return ('unknown', 'sum left: %s' % str(rest)[:300])
        return self.poly_zero(rest)

    def case_at(self, cases, v, k):
        ex = self.ex
        s = Subst([(v, k)])
        for gs, y in cases[:-1]:
            g = s.zx(zand(gs))
            if ex.entails(g):
                return kill_zero_poly(ex, y.subst(s))
            if not ex.entails(z3.Not(g)):
                if not ex.decs:
                    raise Undecided('case of a sum at an endpoint')
                if ex.decide(g):
                    return kill_zero_poly(ex, y.subst(s))
        return kill_zero_poly(ex, cases[-1][1].subst(s))

    # ------------------------------------------------------------ maxima
    def is_max(self, name, got, fams, scalars):
        """got == max of scalars (Poly) and of families (lo, hi, fn(t) -> Poly); all entries >= 0"""
        ex = self.ex
        got = got.p if isinstance(got, Sc) else P(got)
        try:
            A = self.max_elems(got)
            B = []
            for lo, hi, fn in fams:
                v = App('v@max', (), 'int')
                cases = loops.cases_over(ex, v, lo, hi, lambda: fn(P(v)))
                for gs, x in cases:
                    B.append((v, P(lo), P(hi), gs, x))
            for s in scalars:
                for q in max_args(P(s)):
                    B.append((None, None, None, [], q))
            if not any(b[0] is None and b[4].is_zero() for b in B):
                B.append((None, None, None, [], P(0)))
            if not any(b[0] is None and b[4].is_zero() for b in A):
                A.append((None, None, None, [], P(0)))
            for X, Y, lab in ((A, B, 'the code takes the maximum of an extra term'),
                              (B, A, 'the code omits a term of the specification')):
                for el in X:
                    st, det = self.covered(el, Y)
                    if st != 'proved':
                        self.rec(name, st, '%s: %s' % (lab, det))
                        return
            self.rec(name, 'proved', '')
        except Undecided as e:
            self.rec(name, 'unknown', str(e))

    def max_elems(self, p):
        ex = self.ex
        out = []
        for q in max_args(p):
            if q.key() == (-P(INF)).key():
                continue    # maximum over an empty set
            if len(q.t) == 1:
                (m, c), = q.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].name.startswith('max@'):
                    ag = ex.aggs[m[0][0].name]
                    sb = Subst([(a, b) for a, b in zip(ag.params, m[0][0].args)]) if ag.params else None
                    for gs, x in ag.cases:
                        lo, hi = ag.lo, ag.hi
                        if sb:
                            gs, x = [sb.zx(g) for g in gs], x.subst(sb)
                            lo, hi = lo.subst(sb), hi.subst(sb)
                        for a in max_args(x):
                            out.append((ag.var, lo, hi, list(gs), a))
                    continue
            out.append((None, None, None, [], q))
        return out

    def covered(self, el, Y):
        r = self.covered1(el, Y)
        if r[0] in ('proved', 'unknown'):
            return r
        # once more with the nodes without constraints (controls) apart: products over an empty dimension vanish
        v, lo, hi, gs, x = el
        pt = v if v is not None else T
        ds = [d for d in (ng(P(pt)), nu(P(pt))) if d.t and not d.is_const()]
        for d in ds:
            z = to_z3(d) == 0
            st = [self.covered1((v, lo, hi, list(gs) + [c], x), Y)[0] for c in (z, z3.Not(z))]
            if all(q == 'proved' for q in st):
                return ('proved', '')
        return r

    def covered1(self, el, Y):
        ex = self.ex
        v, lo, hi, gs, x = el
        w = App('w@max', (), 'int')
        zw = to_z3(P(w))
        base = list(ex.pc)
        if v is not None:
            s = Subst([(v, P(w))])
            x = x.subst(s)
            ctx = base + [to_z3(lo) <= zw, zw < to_z3(hi)] + [s.zx(g) for g in gs]
            points = [P(0), P(1), T - 1, T, lo, hi - 1]
        else:
            ctx = base + list(gs)
            points = []
        old = ex.pc
        ex.pc = list(ctx)
        try:
            if kill_zero_poly(ex, x).is_zero():
                return ('proved', '')
            conds = []
            for (v2, lo2, hi2, gs2, y) in Y:
                if v2 is None:
                    if v is None:
                        if self.same(x, y):
                            return ('proved', '')
                    else:
                        for pt in points:
                            if self.same(x.subst(Subst([(w, pt)])), y):
                                conds.append(zw == to_z3(pt))
                else:
                    if v is None:
                        for pt in (P(0), P(1), T - 1, T):
                            s2 = Subst([(v2, pt)])
                            if self.same(y.subst(s2), x):
                                conds.append(zand([to_z3(lo2) <= to_z3(pt), to_z3(pt) < to_z3(hi2)] +
                                                  [s2.zx(g) for g in gs2]))
                    else:
                        for k in (-2, -1, 0, 1, 2):
                            s2 = Subst([(v2, P(w) + k)])
                            if self.same(y.subst(s2), x):
                                zk = to_z3(P(w) + k)
                                conds.append(zand([to_z3(lo2) <= zk, zk < to_z3(hi2)] + [s2.zx(g) for g in gs2]))
                        for pt in (P(0), P(1), T - 1, T):
                            xs = x.subst(Subst([(w, pt)]))
                            for pt2 in (P(0), P(1), T - 1, T):
                                s2 = Subst([(v2, pt2)])
                                if self.same(y.subst(s2), xs):
                                    zk = to_z3(pt2)
                                    conds.append(zand([zw == to_z3(pt), to_z3(lo2) <= zk, zk < to_z3(hi2)] +
                                                      [s2.zx(g) for g in gs2]))
            if conds:
                r, m = ex.solve(ctx + [z3.Not(z3.Or(*conds))])
                if r == z3.unsat:
                    return ('proved', '')
                if r == z3.unknown:
                    return ('unknown', 'solver unknown for %s' % str(x)[:200])
            return (ex.verdict(x, [q[4] for q in Y]), '%s %s' % (str(x)[:300], '' if v is None else 'for %s <= w < %s' % (lo, hi)))
        finally:
            ex.pc = old

    def same(self, x, y):
        d = x - y
        if d.is_zero():
            return True
        return kill_zero_poly(self.ex, d).is_zero()

    # ------------------------------------------------------------ formulas
    def holds(self, name, cond):
        ex = self.ex
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        r, m = ex.solve(list(ex.pc) + [z3.Not(cond)], timeout=20000)
        if r == z3.unsat:
            self.rec(name, 'proved')
        elif r == z3.sat:
            self.rec(name, ex.verdict(cond), ex.cex(m, cond))
        else:
            self.rec(name, 'unknown', 'solver returned unknown: %s' % str(cond)[:300])

    def frame(self, name, before, names):
        """fields unchanged"""
        ex = self.ex
        bad = []
        for f in names:
            k = f if isinstance(f, tuple) else owner(ex, f)
            v1 = ex.fields.get(k)
            v0 = before.get(k)
            if v1 is None:
                continue
            if v0 is None:
                sv = ex.fields
                ex.fields = {}
                v0 = ex.field(k)
                ex.fields = sv
            if v0.key() != v1.key():
                bad.append('%s::%s' % k)
        self.rec(name, 'refuted' if bad else 'proved', 'changed: ' + ', '.join(bad) if bad else '')


def min_offset(polys, var):
    """smallest constant offset of var among index arguments"""
    best = None
    for p in polys:
        for a in poly_atoms_deep(p):
            if isinstance(a, App):
                for q in a.args:
                    if isinstance(q, Poly):
                        d = q - P(var)
                        if d.is_const():
                            c = d.cval()
                            best = c if best is None or c < best else best
    return best if best is not None else 0


def seq(ex, lo, hi, fn, tag='v@spec'):
    """sum over lo <= t < hi of fn(t) (Poly) as a specification term"""
    v = App(tag, (), 'int')
    return loops.sum_over(ex, 'spec', v, P(lo), P(hi), lambda: fn(P(v)))


def n1(e):
    return tm.norm1(e.m if isinstance(e, EV) else e)


def ninf(e):
    return tm.norminf(e.m if isinstance(e, EV) else e)
