"""Term language of the verifier.

Poly : commutative polynomial (Fraction coefficients) over scalar atoms (ints and reals).
Mat  : noncommutative polynomial over matrix/vector atoms with Poly coefficients
       (the free algebra with transposition; an exact normal form for Eigen expressions
        in exact arithmetic).
App  : hash-consed application  name(args...)  of a given sort.
Every scalar App has a z3 counterpart (an uninterpreted function of the index / real terms
that occur in it), so that path conditions and scalar goals are decided by the SMT solver.
"""
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 1)

_intern = {}
_rev = []


def intern(key):
    i = _intern.get(key)
    if i is None:
        i = len(_rev)
        _intern[key] = i
        _rev.append(key)
    return i


class App:
    __slots__ = ('name', 'args', 'sort', 'sym', 'id', '_z3', '_idx')
    table = {}

    def __new__(cls, name, args=(), sort='real', sym=False):
        k = (name, tuple(argkey(a) for a in args), sort)
        o = cls.table.get(k)
        if o is not None:
            return o
        o = object.__new__(cls)
        o.name = name
        o.args = tuple(args)
        o.sort = sort
        o.sym = sym
        o.id = intern(('app',) + k)
        o._z3 = None
        o._idx = None
        cls.table[k] = o
        return o

    def __repr__(self):
        if not self.args:
            return str(self.name)
        return '%s(%s)' % (self.name, ', '.join(map(str, self.args)))

    def z3(self):
        if self._z3 is None:
            self._z3 = _mk_z3(self)
        return self._z3

    def subst(self, m):
        r = m.cache.get(self.id)
        if r is None:
            t = m.map.get(self.id)
            if t is not None:
                r = t
            else:
                na = tuple(asubst(a, m) for a in self.args)
                if all(x is y for x, y in zip(na, self.args)):
                    r = self
                else:
                    reb = REBUILD.get(self.name)
                    r = reb(na, self) if reb else App(self.name, na, self.sort, self.sym)
            m.cache[self.id] = r
        return r


REBUILD = {}


class Z:
    """A raw z3 expression used as an argument / scalar atom."""
    __slots__ = ('e', 'k')

    def __init__(self, e):
        self.e = e
        self.k = ('z', e.get_id())
        _keep.setdefault(e.get_id(), e)

    def __repr__(self):
        return 'z3<%s>' % self.e


_keep = {}


def argkey(a):
    if isinstance(a, App):
        return ('a', a.id)
    if isinstance(a, (Poly, Mat)):
        return a.key()
    if isinstance(a, Z):
        return a.k
    if isinstance(a, tuple):
        return ('t',) + tuple(argkey(x) for x in a)
    if isinstance(a, (str, int, bool, Fraction)) or a is None:
        return ('c', a)
    if isinstance(a, MF):
        return ('mf', a.atom.id, a.t)
    raise TypeError('argkey %r' % (a,))


class Subst:
    def __init__(self, pairs):
        """pairs: list of (App, replacement Poly/App/Mat)"""
        self.map = {}
        self.cache = {}
        self.z = []
        for a, p in pairs:
            self.map[a.id] = p
            if a.sort in ('int', 'real'):
                self.z.append((a.z3(), to_z3(p, a.sort)))
            elif a.sort in ('bool', 'obj'):
                self.z.append((a.z3(), p.z3() if isinstance(p, App) else p))

    def zx(self, e):
        if not self.z:
            return e
        return z3.substitute(e, *self.z)


def asubst(a, m):
    if isinstance(a, App):
        r = a.subst(m)
        return r
    if isinstance(a, (Poly, Mat)):
        return a.subst(m)
    if isinstance(a, Z):
        e = m.zx(a.e)
        return a if e.get_id() == a.e.get_id() else Z(e)
    if isinstance(a, tuple):
        na = tuple(asubst(x, m) for x in a)
        return a if all(x is y for x, y in zip(na, a)) else na
    if isinstance(a, MF):
        at = a.atom.subst(m)
        return a if at is a.atom else RawF(at, a.t) if isinstance(at, Mat) else MF(at, a.t)
    return a


class RawF:
    """a factor whose atom was replaced by a matrix expression; consumed by the REBUILD functions"""
    __slots__ = ('atom', 't')

    def __init__(self, atom, t):
        self.atom, self.t = atom, t


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t', '_k')

    def __init__(self, t):
        self.t = t          # dict: monomial (tuple of (App, power) sorted by id) -> Fraction
        self._k = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly({})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def key(self):
        if self._k is None:
            self._k = ('p',) + tuple(sorted((tuple((a.id, p) for a, p in m), c.numerator, c.denominator)
                                            for m, c in self.t.items()))
        return self._k

    def is_const(self):
        return all(m == () for m in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        return Poly(t)

    __rmul__ = __mul__

    def div(self, o):
        """exact real division"""
        o = P(o)
        if o.is_const():
            return self * Poly.const(1 / o.cval())
        if self.key() == o.key():
            return Poly.const(1)
        if len(o.t) == 1:
            (m, c), = o.t.items()
            inv = Poly({tuple((a, -p) for a, p in m): 1 / c})
            return self * inv
        # normalise by leading coefficient
        lead = min(o.t.items(), key=lambda kv: tuple((a.id, p) for a, p in kv[0]))[1]
        n = o * Poly.const(1 / lead)
        a = App('pinv', (n,), 'real')
        return self * Poly({((a, 1),): Fraction(1) / lead})

    def subst(self, m):
        changed = False
        r = Poly({})
        for mono, c in self.t.items():
            term = Poly({(): c})
            for a, p in mono:
                n = a.subst(m)
                if n is not a:
                    changed = True
                n = P(n)
                if p < 0:
                    n = Poly.const(1).div(n)
                for _ in range(abs(p)):
                    term = term * n
            r = r + term
        return r if changed else self

    def atoms(self):
        for m in self.t:
            for a, p in m:
                yield a

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in self.t.items():
            s = '*'.join(str(a) if p == 1 else '%s^%d' % (a, p) for a, p in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%s*%s' % (c, s))
        return ' + '.join(out)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, p in m1 + m2:
        if a in d:
            d[a] += p
        else:
            d[a] = p
    return tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda x: x[0].id))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, App):
        return Poly.atom(x)
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, float):
        return Poly.const(Fraction(x))
    if isinstance(x, Z):
        return Poly.atom(App('z', (x,), 'real'))
    raise TypeError('P %r' % (x,))


def sym(name, sort='real'):
    return App(name, (), sort)


_cnt = [0]


def fresh(prefix, sort='real', **kw):
    _cnt[0] += 1
    return App('%s!%d' % (prefix, _cnt[0]), (), sort, **kw)


def zpoly(e):
    """z3 arithmetic expression -> Poly (numerals folded, else atom)."""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return Poly.const(Fraction(e.as_string()) if not z3.is_int_value(e) else Fraction(e.as_long()))
    a = _zconst.get(e.get_id())
    if a is not None:
        return P(a)
    return P(App('z', (Z(e),), 'int' if z3.is_int(e) else 'real'))


_zconst = {}
Obj = z3.DeclareSort('Obj')


def _zsort(s):
    return {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort(), 'obj': Obj}[s]


def _shape(a, args, argmap):
    """structural shape of an argument with maximal scalar subterms abstracted to #k"""
    if isinstance(a, Poly):
        if a.is_const():
            return ('k', str(a.cval()))
        k = ('p', a.key())
        if k not in argmap:
            argmap[k] = len(args)
            args.append(to_z3(a))
        return '#%d' % argmap[k]
    if isinstance(a, Z):
        k = a.k
        if k not in argmap:
            argmap[k] = len(args)
            args.append(a.e)
        return '#%d' % argmap[k]
    if isinstance(a, App):
        if a.sort in ('int', 'real', 'obj'):
            return _shape(P(a), args, argmap) if a.sort != 'obj' else _shape(Z(a.z3()), args, argmap)
        return (a.name,) + tuple(_shape_arg(x, args, argmap) for x in a.args)
    if isinstance(a, MF):
        return ('mf', _shape(a.atom, args, argmap), a.t)
    if isinstance(a, tuple):
        return tuple(_shape(x, args, argmap) for x in a)
    if isinstance(a, Mat):
        # canonical order: sort by shape of word without args to be independent of ids
        items = []
        for w, c in a.t.items():
            items.append((repr(_skel(w)) + repr(_skel(c)), w, c))
        items.sort(key=lambda x: x[0])
        return ('M',) + tuple((_shape(w, args, argmap), _shape(c, args, argmap)) for _, w, c in items)
    return ('c', str(a))


def _shape_arg(x, args, argmap):
    """argument of an application: integer constants are arguments like variable indices (congruence)"""
    if isinstance(x, Poly) and x.is_const() and x.cval().denominator == 1:
        k = ('p', x.key())
        if k not in argmap:
            argmap[k] = len(args)
            args.append(z3.IntVal(int(x.cval())))
        return '#%d' % argmap[k]
    return _shape(x, args, argmap)


def _skel(a):
    if isinstance(a, Poly):
        return ('k', str(a.cval())) if a.is_const() else '#'
    if isinstance(a, Z):
        return '#'
    if isinstance(a, App):
        if a.sort in ('int', 'real', 'obj'):
            return '#'
        return (a.name,) + tuple('#' if isinstance(x, Poly) and x.is_const() and x.cval().denominator == 1 else _skel(x)
                                 for x in a.args)
    if isinstance(a, MF):
        return (_skel(a.atom), a.t)
    if isinstance(a, tuple):
        return tuple(_skel(x) for x in a)
    if isinstance(a, Mat):
        return ('M',) + tuple(sorted((repr(_skel(w)), repr(_skel(c))) for w, c in a.t.items()))
    return str(a)


FUNCS = {}     # decl name -> (base app name)


def _mk_z3(app):
    if app.name == 'z':
        return app.args[0].e
    if not app.args:
        c = z3.Const(str(app.name), _zsort(app.sort))
        _zconst[c.get_id()] = app
        _keep[c.get_id()] = c
        return c
    if app.name == 'pinv':
        return 1 / to_z3(app.args[0])
    if app.name in Z3DEF:
        return Z3DEF[app.name](app)
    args = []
    am = {}
    sh = tuple(_shape_arg(x, args, am) for x in app.args)
    nm = '%s|%d' % (app.name, intern(('shape', app.name, sh)))
    if args:
        f = z3.Function(nm, *([x.sort() for x in args] + [_zsort(app.sort)]))
        FUNCS[nm] = app.name
        return f(*args)
    c = z3.Const(nm, _zsort(app.sort))
    FUNCS[nm] = app.name
    _keep[c.get_id()] = c
    return c


Z3DEF = {}


def to_z3(p, sort=None):
    if isinstance(p, App):
        p = P(p)
    if not isinstance(p, Poly):
        if isinstance(p, Z):
            return p.e
        p = P(p)
    isint = all(a.sort == 'int' for a in p.atoms()) and all(c.denominator == 1 for c in p.t.values())
    if sort == 'real' and isint:
        isint = False
    ts = []
    for m, c in p.t.items():
        fs = []
        for a, pw in m:
            z = a.z3()
            if not isint and a.sort == 'int':
                z = z3.ToReal(z)
            if pw > 0:
                fs += [z] * pw
            else:
                fs += [1 / z] * (-pw)
        k = z3.IntVal(c.numerator) if isint else z3.RealVal(str(c))
        if not fs:
            ts.append(k)
        elif c == 1:
            ts.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        else:
            ts.append(z3.Product(k, *fs))
    if not ts:
        return z3.IntVal(0) if (isint and sort != 'real') else z3.RealVal(0)
    return z3.Sum(*ts) if len(ts) > 1 else ts[0]


# ---------------------------------------------------------------- matrices
class MF:
    """matrix factor: atom or its transpose"""
    __slots__ = ('atom', 't')
    table = {}

    def __new__(cls, atom, t=False):
        if atom.sym:
            t = False
        k = (atom.id, t)
        o = cls.table.get(k)
        if o is None:
            o = object.__new__(cls)
            o.atom = atom
            o.t = t
            cls.table[k] = o
        return o

    def T(self):
        return MF(self.atom, not self.t)

    def __repr__(self):
        return repr(self.atom) + ("'" if self.t else '')


def wkey(w):
    return tuple((f.atom.id, f.t) for f in w)


class Mat:
    """sum of coeff * word; kind: 'V' column vector, 'R' row vector, 'M' matrix, 'S' 1x1"""
    __slots__ = ('t', 'kind', '_k')

    def __init__(self, t, kind):
        self.t = t
        self.kind = kind
        self._k = None

    @staticmethod
    def atom(a):
        return Mat({(MF(a),): Poly.const(1)}, 'V' if a.sort == 'vec' else 'M')

    @staticmethod
    def zero(kind):
        return Mat({}, kind)

    @staticmethod
    def ident(c=1):
        return Mat({(): P(c)}, 'M')

    def key(self):
        if self._k is None:
            self._k = ('m',) + tuple(sorted((wkey(w), c.key()) for w, c in self.t.items()))
        return self._k

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        t = dict(self.t)
        for w, c in o.t.items():
            if w in t:
                n = t[w] + c
                if n.is_zero():
                    del t[w]
                else:
                    t[w] = n
            else:
                t[w] = c
        return Mat(t, self.kind if self.kind != 'M' else o.kind)

    def scale(self, p):
        p = P(p)
        if p.is_zero():
            return Mat({}, self.kind)
        t = {}
        for w, c in self.t.items():
            n = c * p
            if not n.is_zero():
                t[w] = n
        return Mat(t, self.kind)

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        kind = {('M', 'M'): 'M', ('M', 'V'): 'V', ('R', 'M'): 'R', ('R', 'V'): 'S', ('V', 'R'): 'M',
                ('S', 'R'): 'R', ('V', 'S'): 'V', ('S', 'S'): 'S'}.get((self.kind, o.kind))
        if kind is None:
            raise TypeError('product %s x %s' % (self.kind, o.kind))
        t = {}
        for w1, c1 in self.t.items():
            for w2, c2 in o.t.items():
                w = norm_word(w1 + w2)
                c = c1 * c2
                if w in t:
                    n = t[w] + c
                    if n.is_zero():
                        del t[w]
                    else:
                        t[w] = n
                else:
                    t[w] = c
        return Mat(t, kind)

    def T(self):
        t = {}
        for w, c in self.t.items():
            nw = tuple(f.T() for f in reversed(w))
            t[nw] = t[nw] + c if nw in t else c
        return Mat({w: c for w, c in t.items() if not c.is_zero()},
                   {'V': 'R', 'R': 'V'}.get(self.kind, self.kind))

    def subst(self, m):
        r = Mat({}, self.kind)
        ch = False
        for w, c in self.t.items():
            nc = c.subst(m)
            if nc is not c:
                ch = True
            term = None
            for f in w:
                na = f.atom.subst(m)
                if na is not f.atom:
                    ch = True
                fm = na if isinstance(na, Mat) else Mat.atom(na)
                if f.t:
                    fm = fm.T()
                term = fm if term is None else term * fm
            if term is None:
                term = Mat.ident()
            term = term.scale(nc)
            r = r + term
        if not ch:
            return self
        r.kind = self.kind
        return r

    def issym(self):
        return self.T().key() == self.key()

    def __eq__(self, o):
        return isinstance(o, Mat) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for w, c in self.t.items():
            s = '.'.join(map(repr, w)) or 'I'
            if c.is_const() and c.cval() == 1:
                out.append(s)
            elif c.is_const() and c.cval() == -1:
                out.append('-' + s)
            else:
                out.append('(%r)*%s' % (c, s))
        return ' + '.join(out)


def is_vecword(w):
    return bool(w) and w[-1].atom.sort == 'vec' and not w[-1].t and \
        not any(f.atom.sort == 'vec' for f in w[:-1])


def norm_word(w):
    """Diag(u) applied to a vector word -> cwise product atom; X^-1 X -> I"""
    w = list(w)
    i = 0
    while i < len(w) - 1:
        a, b = w[i].atom, w[i + 1].atom
        if a.name == 'inv' and _is_single(a.args[0], w[i + 1]) or b.name == 'inv' and _is_single(b.args[0], w[i]):
            del w[i:i + 2]
            i = max(0, i - 1)
            continue
        i += 1
    for i in range(len(w) - 1, -1, -1):
        if w[i].atom.name == 'diag' and i + 1 < len(w) and is_vecword(tuple(w[i + 1:])):
            m = cw_words(w[i].atom.args[0], tuple(w[i + 1:]))
            w = w[:i] + [MF(m)]
        elif w[i].atom.name == 'diag' and i > 0 and w[i].atom and is_rowword(tuple(w[:i])):
            left = tuple(f.T() for f in reversed(w[:i]))
            m = cw_words(w[i].atom.args[0], left)
            w = [MF(m, True)] + w[i + 1:]
            return norm_word(tuple(w))
    return tuple(w)


def is_rowword(w):
    return bool(w) and w[0].atom.sort == 'vec' and w[0].t and \
        not any(f.atom.sort == 'vec' for f in w[1:])


def _is_single(m, f):
    if not isinstance(m, Mat) or len(m.t) != 1:
        return False
    (w, c), = m.t.items()
    return c.is_const() and c.cval() == 1 and len(w) == 1 and w[0] is f


def cw_parts(w):
    if len(w) == 1 and w[0].atom.name == 'cw':
        return list(w[0].atom.args)
    return [w]


def cw_words(w1, w2):
    parts = cw_parts(w1) + cw_parts(w2)
    # rho * inv_rho = 1 style cancellation is done componentwise by the SMT solver, not here
    parts.sort(key=wkey)
    return App('cw', tuple(parts), 'vec')


def _reb_cw(args, old):
    r = None
    for w in args:
        # w is tuple of MFs possibly with substituted Mat atoms
        m = _word_to_mat(w)
        r = m if r is None else cwprod(r, m)
    if len(r.t) == 1:
        (w, c), = r.t.items()
        if len(w) == 1 and c.is_const() and c.cval() == 1 and not w[0].t:
            return w[0].atom
    return r


def _word_to_mat(w):
    term = None
    for f in w:
        fm = f.atom if isinstance(f.atom, Mat) else Mat.atom(f.atom)
        if f.t:
            fm = fm.T()
        term = fm if term is None else term * fm
    return term


REBUILD['cw'] = _reb_cw


def _reb_diag(args, old):
    m = _word_to_mat(args[0])
    d = diag(m)
    if len(d.t) == 1:
        (w, c), = d.t.items()
        if len(w) == 1 and c.is_const() and c.cval() == 1:
            return w[0].atom
    return d


REBUILD['diag'] = _reb_diag


def _reb_inv(args, old):
    m = args[0]
    return inv(m, atom=True)


REBUILD['inv'] = _reb_inv


def cwprod(a, b):
    r = Mat({}, a.kind)
    for w1, c1 in a.t.items():
        for w2, c2 in b.t.items():
            r = r + Mat({(MF(cw_words(w1, w2)),): c1 * c2}, 'V')
    r.kind = 'V'
    return r


def diag(v):
    t = {}
    for w, c in v.t.items():
        t[(MF(App('diag', (w,), 'mat', True)),)] = c
    return Mat(t, 'M')


def inv(m, atom=False):
    a = App('inv', (m,), 'mat', m.issym())
    return a if atom else Mat.atom(a)


def sign_norm(m):
    """return m or -m, whichever has canonical leading sign (for norms)"""
    if not m.t:
        return m
    w = min(m.t, key=lambda w: _skelkey(w, m.t[w]))
    c = m.t[w]
    lead = min(c.t.items(), key=lambda kv: repr(_skel(tuple(a for a, p in kv[0]))))[1]
    return -m if lead < 0 else m


def _skelkey(w, c):
    return (repr(_skel(w)), wkey(w))


def norm1(m):
    if m.is_zero():
        return P(0)
    return P(App('norm1', (sign_norm(m),), 'real'))


def norminf(m):
    if m.is_zero():
        return P(0)
    return P(App('norminf', (sign_norm(m),), 'real'))


def scal(m):
    """1x1 matrix polynomial -> Poly"""
    r = P(0)
    for w, c in m.t.items():
        if not w:
            r = r + c
            continue
        tw = tuple(f.T() for f in reversed(w))
        k = min(w, tw, key=wkey)
        r = r + c * P(App('s', (k,), 'real'))
    return r


def _reb_s(args, old):
    m = _word_to_mat(args[0])
    p = scal(m)
    if len(p.t) == 1:
        (mo, c), = p.t.items()
        if c == 1 and len(mo) == 1 and mo[0][1] == 1:
            return mo[0][0]
    return p


REBUILD['s'] = _reb_s
REBUILD['norm1'] = lambda a, o: _one(norm1(a[0]))
REBUILD['norminf'] = lambda a, o: _one(norminf(a[0]))


def _one(p):
    if len(p.t) == 1:
        (mo, c), = p.t.items()
        if c == 1 and len(mo) == 1 and mo[0][1] == 1:
            return mo[0][0]
    return p


def vfun(name, *args):
    """elementwise vector function"""
    if name in ('max', 'min'):
        args = sorted(args, key=lambda m: m.key())
        if args[0].key() == args[1].key():
            return args[0]
    return Mat.atom(App('v' + name, tuple(args), 'vec'))


def comp(v, k):
    """component k (int Poly) of vector Mat -> Poly"""
    r = P(0)
    for w, c in v.t.items():
        r = r + c * comp_word(w, k)
    return r


def comp_word(w, k):
    if len(w) == 1 and not w[0].t:
        a = w[0].atom
        if a.name == 'cw':
            r = P(1)
            for x in a.args:
                r = r * comp_word(x, k)
            return r
        if a.name in ('vmax', 'vmin'):
            x, y = comp(a.args[0], k), comp(a.args[1], k)
            zx, zy = to_z3(x, 'real'), to_z3(y, 'real')
            e = z3.If(zx < zy, zy, zx) if a.name == 'vmax' else z3.If(zy < zx, zy, zx)
            return zpoly(z3.simplify(e))
        if a.name == 'vabs':
            zx = to_z3(comp(a.args[0], k), 'real')
            return zpoly(z3.simplify(z3.If(zx < 0, -zx, zx)))
        if a.name == 'vinv':
            return P(1).div(comp(a.args[0], k))
        if a.name == 'vconst':
            return a.args[0]
    return P(App('comp', (w, k), 'real'))


def _reb_comp(args, old):
    m = _word_to_mat(args[0])
    return _one(comp(m, args[1]))


REBUILD['comp'] = _reb_comp


def zeros(kind='V'):
    return Mat({}, kind)
