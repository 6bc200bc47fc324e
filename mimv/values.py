"""Symbolic values of the executor (all immutable)."""
import z3
from .terms import (App, Poly, Mat, MF, P, Subst, Z, sym, to_z3, zpoly, comp, cwprod, diag, inv,
                    vfun, norm1, norminf, scal, fresh, Obj)


class Sc:
    """a double: exact real value plus an optional NaN flag (z3 Bool, None = never NaN)"""
    __slots__ = ('p', 'nan')

    def __init__(self, p, nan=None):
        self.p = P(p)
        self.nan = nan

    def z(self):
        return to_z3(self.p, 'real')

    def key(self):
        return ('sc', self.p.key(), None if self.nan is None else self.nan.get_id())

    def subst(self, m):
        return Sc(self.p.subst(m), None if self.nan is None else m.zx(self.nan))

    def __repr__(self):
        return 'Sc(%r%s)' % (self.p, '' if self.nan is None else ', nan=%s' % self.nan)


class In:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = P(p)

    def z(self):
        return to_z3(self.p)

    def key(self):
        return ('in', self.p.key())

    def subst(self, m):
        return In(self.p.subst(m))

    def __repr__(self):
        return 'In(%r)' % (self.p,)


class Bo:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = z3.BoolVal(b) if isinstance(b, bool) else b

    def key(self):
        return ('bo', self.b.get_id())

    def subst(self, m):
        return Bo(m.zx(self.b))

    def __repr__(self):
        return 'Bo(%s)' % self.b


class EV:
    """Eigen matrix/vector value: m (free algebra normal form), r x c"""
    __slots__ = ('m', 'r', 'c', 'arr', 'nan')

    def __init__(self, m, r, c, arr=False, nan=None):
        self.m = m
        self.r = P(r)
        self.c = P(c)
        self.arr = arr
        self.nan = nan      # z3 Bool: some entry may be NaN (None: exact-arithmetic mode)

    def key(self):
        return ('ev', self.m.key(), self.m.kind, self.r.key(), self.c.key(),
                None if self.nan is None else self.nan.get_id())

    def subst(self, m):
        return EV(self.m.subst(m), self.r.subst(m), self.c.subst(m), self.arr,
                  None if self.nan is None else m.zx(self.nan))

    def __repr__(self):
        return 'EV(%r; %r x %r)' % (self.m, self.r, self.c)


class LLT:
    """Cholesky object; m = factored matrix (EV) or None"""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def key(self):
        return ('llt', self.m.key() if self.m else None)

    def subst(self, m):
        return LLT(self.m.subst(m) if self.m else None)

    def __repr__(self):
        return 'LLT(%r)' % (self.m,)


class Opq:
    __slots__ = ('tag',)

    def __init__(self, tag=''):
        self.tag = tag

    def key(self):
        return ('opq', self.tag)

    def subst(self, m):
        return self

    def __repr__(self):
        return 'Opq(%s)' % self.tag


class Ref:
    """reference-like handle: model / data / state / problem / models / datas / this"""
    __slots__ = ('what', 'idx')

    def __init__(self, what, idx=None):
        self.what = what
        self.idx = idx

    def key(self):
        return ('ref', self.what, self.idx.key() if self.idx is not None else None)

    def subst(self, m):
        return Ref(self.what, self.idx.subst(m) if self.idx is not None else None)

    def __repr__(self):
        return 'Ref(%s,%s)' % (self.what, self.idx)


class Lam:
    __slots__ = ('node', 'cap')

    def __init__(self, node, cap):
        self.node = node
        self.cap = cap

    def key(self):
        return ('lam', id(self.node))

    def subst(self, m):
        return self


class Iter:
    """iterator / pointer into a container lvalue"""
    __slots__ = ('lv', 'idx')

    def __init__(self, lv, idx):
        self.lv = lv
        self.idx = P(idx)

    def key(self):
        return ('it', id(self.lv), self.idx.key())

    def subst(self, m):
        return Iter(self.lv, self.idx.subst(m))


class Tri:
    """triangular view value"""
    __slots__ = ('ev',)

    def __init__(self, ev):
        self.ev = ev

    def key(self):
        return ('tri', self.ev.key())

    def subst(self, m):
        return Tri(self.ev.subst(m))


class Flat:
    """a long vector made of equal blocks (arr: Arr of EV vectors, stride)"""
    __slots__ = ('arr', 'stride')

    def __init__(self, arr, stride):
        self.arr = arr
        self.stride = stride

    def key(self):
        return ('flat', self.arr.key(), self.stride.key())

    def subst(self, m):
        return Flat(self.arr.subst(m), self.stride.subst(m))


class Big:
    """a matrix or vector that is written block by block: known content = the log of the block writes on top of the
    initial content. ws: Blk | Fam in program order; None: content unknown"""
    __slots__ = ('name', 'r', 'c', 'ws')

    def __init__(self, name, r, c, ws=()):
        self.name, self.r, self.c = name, P(r), P(c)
        self.ws = None if ws is None else tuple(ws)

    def key(self):
        return ('big', self.name, self.r.key(), self.c.key(), None if self.ws is None else tuple(w.key() for w in self.ws))

    def subst(self, m):
        return Big(self.name, self.r.subst(m), self.c.subst(m), None if self.ws is None else [w.subst(m) for w in self.ws])

    def __repr__(self):
        return 'Big(%s; %r x %r; %s)' % (self.name, self.r, self.c, self.ws)


class BigView:
    """value of a block of a Big"""
    __slots__ = ('big', 'row', 'nr', 'col', 'nc')

    def __init__(self, big, row, nr, col, nc):
        self.big, self.row, self.nr, self.col, self.nc = big, P(row), P(nr), P(col), P(nc)

    def key(self):
        return ('bigview', self.big.key(), self.row.key(), self.nr.key(), self.col.key(), self.nc.key())

    def subst(self, m):
        return BigView(self.big.subst(m), self.row.subst(m), self.nr.subst(m), self.col.subst(m), self.nc.subst(m))

    def read(self, ex=None):
        from .symex import Unsupported
        b = self.big
        args = (self.row, self.nr) if b.name.startswith('qp') else (self.row, self.nr, self.col, self.nc)
        isv = self.nc.key() == P(1).key()
        if b.name.startswith('qp') and not isv:
            raise Unsupported('reading a matrix block of %s' % b.name)
        if b.ws == ():
            if b.name.endswith('|0'):
                if ex is not None and ex.loopvars:
                    raise Unsupported('reading back a block of %s in a loop' % b.name)
                return EV(Mat.zero('V' if isv else 'M'), self.nr, self.nc)
            return EV(Mat.atom(App('seg.' + b.name, args, 'vec' if isv else 'mat')), self.nr, self.nc)
        if b.ws and not b.name.endswith('|0'):
            w = b.ws[-1]
            if isinstance(w, Blk) and w.row.key() == self.row.key() and w.nr.key() == self.nr.key() and \
                    w.col.key() == self.col.key() and w.nc.key() == self.nc.key():
                return w.val
            # content that depends on earlier writes: unknown
            return EV(Mat.atom(App('seg.%s.%d' % (b.name, len(b.ws)), args, 'vec' if isv else 'mat')), self.nr, self.nc)
        raise Unsupported('reading back a block of %s' % b.name)


class Blk:
    """rows row..row+nr-1, columns col..col+nc-1 were set to val (EV)"""
    __slots__ = ('row', 'nr', 'col', 'nc', 'val')

    def __init__(self, row, nr, col, nc, val):
        self.row, self.nr, self.col, self.nc, self.val = P(row), P(nr), P(col), P(nc), val

    def key(self):
        return ('blk', self.row.key(), self.nr.key(), self.col.key(), self.nc.key(), self.val.key())

    def subst(self, m):
        return Blk(self.row.subst(m), self.nr.subst(m), self.col.subst(m), self.nc.subst(m), self.val.subst(m))

    def __repr__(self):
        return 'Blk(%r+%r, %r+%r = %r)' % (self.row, self.nr, self.col, self.nc, self.val)


class Fam:
    """the block writes of a loop: for lo <= var < hi, in the case whose guards hold, its writes"""
    __slots__ = ('var', 'lo', 'hi', 'cases')

    def __init__(self, var, lo, hi, cases):
        self.var, self.lo, self.hi, self.cases = var, P(lo), P(hi), cases

    def key(self):
        return ('fam', self.var.name, self.lo.key(), self.hi.key()) + tuple(
            (tuple(g.get_id() for g in gs), tuple(w.key() for w in ws)) for gs, ws in self.cases)

    def subst(self, m):
        return Fam(self.var, self.lo.subst(m), self.hi.subst(m),
                   [([m.zx(g) for g in gs], [w.subst(m) for w in ws]) for gs, ws in self.cases])

    def __repr__(self):
        return 'Fam(%r in [%r,%r): %s)' % (self.var, self.lo, self.hi, self.cases)


class QP:
    """ProxQP problem object: constructor and init arguments, settings, number of the last solve"""
    __slots__ = ('dims', 'args', 'sets', 'run')

    def __init__(self, dims, args=None, sets=(), run=None):
        self.dims, self.args, self.sets, self.run = tuple(dims), args, tuple(sorted(sets, key=lambda kv: kv[0])), run

    def key(self):
        return ('qp', tuple(d.key() for d in self.dims), None if self.args is None else tuple(a.key() for a in self.args),
                tuple((k, v.key()) for k, v in self.sets), self.run)

    def subst(self, m):
        return QP([d.subst(m) for d in self.dims], None if self.args is None else tuple(a.subst(m) for a in self.args),
                  [(k, v.subst(m)) for k, v in self.sets], self.run)

    def with_(self, **kw):
        d = dict(dims=self.dims, args=self.args, sets=self.sets, run=self.run)
        d.update(kw)
        return QP(**d)

    def setting(self, k):
        return dict(self.sets).get(k)


class Path_:
    """member path below a QP object (settings, results, results.info)"""
    __slots__ = ('lv', 'path')

    def __init__(self, lv, path):
        self.lv, self.path = lv, path

    def key(self):
        return ('qppath', id(self.lv), self.path)

    def subst(self, m):
        return self


class Circ:
    """boost::circular_buffer<double> as an append-only log: element k is log[end - size + k]"""
    __slots__ = ('log', 'nlog', 'end', 'size', 'cap')

    def __init__(self, log, nlog, end, size, cap):
        self.log = log      # z3 Array Int Real
        self.nlog = nlog    # z3 Array Int Bool (NaN flags)
        self.end = P(end)
        self.size = P(size)
        self.cap = P(cap)

    def key(self):
        return ('circ', self.log.get_id(), self.nlog.get_id(), self.end.key(), self.size.key(), self.cap.key())

    def subst(self, m):
        return Circ(m.zx(self.log), m.zx(self.nlog), self.end.subst(m), self.size.subst(m), self.cap.subst(m))


# ----------------------------------------------------------------- arrays over an index
class Base:
    """initial content of an array: element at index j is fn(j)"""
    __slots__ = ('name', 'fn', 'params')

    def __init__(self, name, fn, params=()):
        self.name = name
        self.fn = fn
        self.params = tuple(params)

    def key(self):
        return ('base', self.name) + tuple(P(p).key() if not isinstance(p, Mat) else p.key() for p in self.params)

    def get(self, j):
        return self.fn(*(self.params + (P(j),)))

    def subst(self, m):
        if not self.params:
            return self
        return Base(self.name, self.fn, tuple(p.subst(m) for p in self.params))


class St:
    __slots__ = ('idx', 'val')

    def __init__(self, idx, val):
        self.idx = P(idx)
        self.val = val

    def key(self):
        return ('st', self.idx.key(), self.val.key())

    def subst(self, m):
        return St(self.idx.subst(m), self.val.subst(m))


class Rng:
    """elements lo <= j-c < hi were (re)written by a loop; cases: [(guards, value or None)] over var"""
    __slots__ = ('name', 'params', 'var', 'lo', 'hi', 'c', 'cases', 'rec', 'scale')

    def __init__(self, name, params, var, lo, hi, c, cases, rec):
        self.name = name
        self.params = tuple(params)
        self.var = var
        self.lo = P(lo)
        self.hi = P(hi)
        self.c = P(c)
        self.cases = cases
        self.rec = rec

    def key(self):
        return ('rng', self.name) + tuple(P(p).key() for p in self.params) + (self.lo.key(), self.hi.key())

    def subst(self, m):
        # the bound variable is globally unique, so substitution cannot capture it
        return Rng(self.name, [p.subst(m) for p in self.params], self.var, self.lo.subst(m), self.hi.subst(m),
                   self.c.subst(m), [([m.zx(g) for g in gs], None if v is None else v.subst(m))
                                     for gs, v in self.cases], self.rec)


class Prev:
    """inside a loop body: elements written by the other iterations of this loop"""
    __slots__ = ('name', 'params', 'var', 'lo', 'hi', 'c', 'dir', 'active')

    def __init__(self, name, params, var, lo, hi, c, dir_):
        self.name = name
        self.params = tuple(params)
        self.var = var
        self.lo = lo
        self.hi = hi
        self.c = c
        self.dir = dir_

    def key(self):
        return ('prev', self.name)

    def subst(self, m):
        return self


class Arr:
    """kind: vec (Eigen vectors) | mat | dbl | llt | dvec (an Eigen vector seen by components)"""
    __slots__ = ('kind', 'base', 'len', 'layers')

    def __init__(self, kind, base, len_, layers=()):
        self.kind = kind
        self.base = base
        self.len = P(len_)
        self.layers = tuple(layers)

    def key(self):
        return ('arr', self.kind, self.base.key(), self.len.key()) + tuple(l.key() for l in self.layers)

    def subst(self, m):
        return Arr(self.kind, self.base.subst(m), self.len.subst(m), [l.subst(m) for l in self.layers])

    def store(self, idx, val):
        idx = P(idx)
        ls = self.layers
        while ls and isinstance(ls[-1], St) and ls[-1].idx.key() == idx.key():
            ls = ls[:-1]
        return Arr(self.kind, self.base, self.len, ls + (St(idx, val),))

    def __repr__(self):
        return 'Arr(%s %s len=%r +%d)' % (self.kind, self.base.name, self.len, len(self.layers))
