"""Symbolic executor / verification-condition generator over the clang AST.

Every path of a function is executed symbolically; calls to functions under contract use the
contract, other project functions are inlined; loops over nodes are summarised exactly
(element definitions, sums, maxima), other loops use inductive invariants (Houdini).
"""
import re
import time
import z3
from fractions import Fraction
from . import terms as tm
from .terms import App, Poly, Mat, MF, P, Subst, Z, sym, to_z3, zpoly, fresh
from .values import *
from . import front


class Unsupported(Exception):
    pass


class LoopUnsupported(Unsupported):
    pass


class CppThrow(Exception):
    def __init__(self, what='std::exception'):
        self.what = what


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Infeasible(Exception):
    pass


class Abort(Exception):
    """contract violated in a way that makes continuing pointless"""


INF = App('INF', (), 'real')
T_ = App('T', (), 'int')
NDX = App('ndx', (), 'int')
NX = App('nx', (), 'int')


def nu(t):
    return P(App('nu', (P(t),), 'int'))


def ng(t):
    return P(App('ng', (P(t),), 'int'))


def psum(which, t):
    """sum of nu or ng over the nodes before t (canonical: no constant offset, the sum before node 0 is 0)"""
    t = P(t)
    c = t.t.get((), 0)
    if c and getattr(c, 'denominator', 1) == 1:
        b = t - P(c)
        out = psum(which, b)
        c = int(c)
        for k in range(min(0, c), max(0, c)):
            out = out + P(App(which, (b + k,), 'int')) * (1 if c > 0 else -1)
        return out
    if t.is_zero():
        return P(0)
    return P(App('psum.' + which, (t,), 'int'))


for _w in ('nu', 'ng'):
    tm.REBUILD['psum.' + _w] = lambda args, old, w=_w: tm._one(psum(w, args[0]))
NONNEG = {'psum.nu', 'psum.ng', 'nu', 'ng', 'norm1', 'norminf', 'sqnorm', 'len', 'maxr'}


def zand(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def zor(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return z3.simplify(z3.Or(a, b))


# ------------------------------------------------------------------ l-values
class LV:
    pass


class LTemp(LV):
    def __init__(self, v):
        self.v = v

    def get(self, ex):
        return self.v

    def set(self, ex, v):
        self.v = v

    def root(self):
        return None


def strip(n):
    """without parentheses and implicit casts"""
    from .loops import unparen
    return unparen(n)


def same_node(a, b):
    """structurally equal expressions"""
    a, b = strip(a), strip(b)
    if a is None or b is None:
        return a is b
    if a.kind != b.kind or a.name != b.name or a.op != b.op or a.value != b.value or (a.ref and a.ref[2]) != (b.ref and b.ref[2]):
        return False
    x, y = [c for c in a.inner if c], [c for c in b.inner if c]
    return len(x) == len(y) and all(same_node(p, q) for p, q in zip(x, y))


def mentions_node(n, v):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        if same_node(x, v):
            return True
        st.extend(x.inner)
    return False


def pure(n):
    """no side effect that would make evaluating the expression once differ from evaluating it twice"""
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        if x.kind in ('LambdaExpr', 'CXXNewExpr', 'CXXThrowExpr', 'CompoundAssignOperator') or \
                x.kind == 'BinaryOperator' and x.op == '=' or x.kind == 'UnaryOperator' and x.op in ('++', '--'):
            return False
        if x.kind == 'CXXMemberCallExpr':
            m = strip(x.inner[0])
            if m is not None and m.kind == 'MemberExpr' and any(strip(q) is not None and strip(q).kind == 'CXXThisExpr' for q in m.inner):
                return False
        st.extend(x.inner)
    return True


def extremum(c, then, els):
    """'max' or 'min' when  c ? then : els  compares these two expressions and picks one, else None"""
    c = strip(c)
    if c is None or c.kind != 'BinaryOperator' or c.op not in ('<', '<=', '>', '>='):
        return None
    x, y = c.inner[0], c.inner[1]
    if 'double' not in (strip(x).type or '') or 'double' not in (strip(y).type or '') or not pure(c):
        return None
    up = c.op in ('<', '<=')
    if same_node(then, y) and same_node(els, x):
        return 'max' if up else 'min'
    if same_node(then, x) and same_node(els, y):
        return 'min' if up else 'max'
    return None


LOSSY = re.compile(r'\.exit(?![A-Za-z0-9_])')


class LVar(LV):
    def __init__(self, depth, vid):
        self.depth = depth
        self.vid = vid

    def get(self, ex):
        v = ex.frames[self.depth].get(self.vid)
        if v is None:
            raise Unsupported('read of uninitialised local %s' % (self.vid,))
        return v

    def set(self, ex, v):
        ex.frames[self.depth][self.vid] = v

    def root(self):
        return ('var', self.depth, self.vid)


class LField(LV):
    def __init__(self, key):
        self.k = key

    def get(self, ex):
        return ex.field(self.k)

    def set(self, ex, v):
        ex.lib.keeps_size(ex, self.k, v)
        ex.fields[self.k] = v

    def root(self):
        return self.k


class LElem(LV):
    def __init__(self, parent, idx, node=None):
        self.parent = parent
        self.idx = P(idx)

    def get(self, ex):
        p = self.parent.get(ex)
        return ex.elem_get(p, self.idx)

    def set(self, ex, v):
        p = self.parent.get(ex)
        if isinstance(self.parent, LField) and isinstance(v, EV):
            ex.lib.keeps_size(ex, self.parent.k, v, self.idx)
            ex.fields[self.parent.k] = ex.elem_set(p, self.idx, v)
            return
        self.parent.set(ex, ex.elem_set(p, self.idx, v))

    def root(self):
        return self.parent.root()


class LView(LV):
    """view of an Eigen object: noalias, array, matrix, diag, tri, selfadj, transpose"""

    def __init__(self, kind, parent, arg=None):
        self.kind = kind
        self.parent = parent
        self.arg = arg

    def get(self, ex):
        return ex.lib.view_get(ex, self)

    def set(self, ex, v):
        ex.lib.view_set(ex, self, v)

    def root(self):
        return self.parent.root()


class Dec:
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.alts = []


class Path:
    __slots__ = ('pcs', 'out', 'val', 'fields', 'frames', 'ghost', 'decs')


class Ob:
    __slots__ = ('cat', 'name', 'status', 'detail', 'where', 'n')

    def __init__(self, cat, name, status, detail, where):
        self.cat, self.name, self.status, self.detail, self.where = cat, name, status, detail, where
        self.n = 1


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.nf = 0


class Ex:
    def __init__(self, prog, cls, lib, contracts=None, ctl=False, timeout=4000, oblig_cats=None):
        self.prog = prog
        self.cls = cls
        self.big = None     # fields written block by block: name -> (rows, columns)
        self.lib = lib
        self.contracts = contracts or {}
        self.ctl = ctl
        self.timeout = timeout
        self.fields = {}
        self.frames = [{}]
        self.names = [{}]
        self.ghost = {}
        self.pc = []
        self.decs = []
        self.memo = {}
        self.loopno = 0
        self.obs = {}
        self.oblig_on = True
        self.oblig_cats = oblig_cats      # None: all
        self.stats = Stats()
        self.field_init = None     # fn(key) -> value
        self.ctor = False          # inside a constructor: the buffers get their sizes
        self.loopvars = []         # active data loops (params for symbols)
        self.scdef = {}            # running scalars of loops: name -> recursive definition
        self.loopdir = {}
        self.fvdef = {}            # FV name -> Rng + under-array
        self.aggs = {}             # aggregate name -> definition
        self.compdef = {}
        self.callstack = []
        self.facts = []            # global axioms (z3)
        self.satcache = {}
        self.maxpaths = 4000
        self.deadline = time.time() + 600
        self.cur = None
        self.funcs_seen = {}
        self.ctl_spec = None
        self.axiom_hooks = []
        self.global_pc = [to_z3(P(T_)) >= 1, to_z3(P(NDX)) >= 1, to_z3(P(NX)) >= 1]
        self.nanmode = False
        self.notes = set()
        self.keep = []
        self.epoch = []
        self.invariants = []
        self.gencache = {}
        self.hints = {}
        self.axcache = {}
        self.poison = set()
        self.symfv = set()       # loop-defined matrices proved symmetric
        self.nosym = set()
        self.symoff = {}         # how far before the loop their symmetry is used
        self.ctl_names = set()
        self.on_sync = None
        self.dbg = False

    def sync(self, what):
        if self.on_sync is not None:
            self.on_sync(self, what)

    keep_noearly = False
    merge = False
    finite = False

    # ------------------------------------------------------------ solver
    def _axioms(self, exprs):
        out, ids = [], set()
        for e in exprs:
            i = e.get_id()
            r = self.axcache.get(i)
            if r is None or r[2] != len(self.axiom_hooks):
                r = self.axcache[i] = (e, self._axioms1(e), len(self.axiom_hooks))
            for a in r[1]:
                if a.get_id() not in ids:
                    ids.add(a.get_id())
                    out.append(a)
        return out

    def _axioms1(self, e0):
        """non-negativity and similar facts of the terms of one formula"""
        seen = set()
        out = []
        stack = [e0]
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(e):
                continue
            if z3.is_app(e):
                nm = e.decl().name()
                if '|' in nm:
                    b = nm.split('|')[0]
                    if b in NONNEG:
                        out.append(e >= 0)
                    for h in self.axiom_hooks:
                        out.extend(h(b, e))
                stack.extend(e.children())
        return out

    def solve(self, exprs, timeout=None):
        """returns (status, model)"""
        key = tuple(sorted(set(e.get_id() for e in exprs)))
        r = self.satcache.get(key)
        if r is not None:
            return r[0], r[1]
        t = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        ax = self._axioms(exprs + self.global_pc + self.facts)
        cr, sr = s.ctx.ref(), s.solver
        done = set()
        for e in self.global_pc + self.facts + ax + exprs:
            i = e.get_id()
            if i in done:
                continue
            done.add(i)
            z3.Z3_solver_assert(cr, sr, e.as_ast())
        res = s.check()
        m = s.model() if res == z3.sat else None
        self.stats.queries += 1
        self.stats.time += time.time() - t
        self.satcache[key] = (res, m, exprs)
        return res, m

    def entails(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.solve(list(self.pc))[0] == z3.unsat
        r, _ = self.solve(list(self.pc) + [z3.Not(c)])
        return r == z3.unsat

    def decide(self, c):
        """branch on condition c; returns Python bool"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if time.time() > self.deadline:
            raise Unsupported('time budget of this verification unit exhausted')
        d = self.decs[-1]
        k = len(d.taken)
        if k < len(d.prefix):
            b = d.prefix[k]
            if b == 'T!':
                d.taken.append(b)
                return True
            if b == 'F!':
                d.taken.append(b)
                return False
            d.taken.append(b)
            self.pc.append(c if b else z3.Not(c))
            return b
        rn, _ = self.solve(list(self.pc) + [z3.Not(c)])
        if rn == z3.unsat:
            d.taken.append('T!')
            return True
        rp, _ = self.solve(list(self.pc) + [c])
        if rp == z3.unsat:
            d.taken.append('F!')
            return False
        d.alts.append(d.taken[:] + [False])
        d.taken.append(True)
        self.pc.append(c)
        return True

    def choose(self, n, labels=None):
        """nondeterministic choice among n alternatives"""
        if n == 1:
            return 0
        d = self.decs[-1]
        k = len(d.taken)
        if k < len(d.prefix):
            b = d.prefix[k]
        else:
            for j in range(n - 1, 0, -1):
                d.alts.append(d.taken[:] + [('c', j)])
            b = ('c', 0)
        d.taken.append(b)
        return b[1]

    def assume(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.pc.append(c)

    def assume_feasible(self, c):
        self.assume(c)
        if self.solve(list(self.pc))[0] == z3.unsat:
            raise Infeasible()

    def snapshot(self):
        return (dict(self.fields), [dict(f) for f in self.frames], dict(self.ghost), list(self.pc), self.loopno)

    def restore(self, s):
        self.fields = dict(s[0])
        self.frames = [dict(f) for f in s[1]]
        self.ghost = dict(s[2])
        self.pc = list(s[3])
        self.loopno = s[4]

    def explore(self, fn):
        snap = self.snapshot()
        npc = len(self.pc)
        work = [[]]
        out = []
        stack = list(self.callstack)
        lv = list(self.loopvars)
        while work:
            pre = work.pop()
            self.restore(snap)
            self.callstack[:] = stack
            self.loopvars = list(lv)
            d = Dec(pre)
            self.decs.append(d)
            p = Path()
            try:
                try:
                    p.out, p.val = 'norm', fn()
                except CppThrow as e:
                    p.out, p.val = 'throw', e.what
                except Ret as e:
                    p.out, p.val = 'ret', e.v
                except Brk:
                    p.out, p.val = 'brk', None
                except Cont:
                    p.out, p.val = 'cont', None
                except Infeasible:
                    p = None
            finally:
                self.decs.pop()
            work.extend(d.alts)
            if p is not None:
                p.pcs = self.pc[npc:]
                p.fields, p.frames, p.ghost = self.fields, self.frames, self.ghost
                p.decs = d.taken
                out.append(p)
            if len(out) > self.maxpaths:
                raise Unsupported('too many paths')
        self.restore(snap)
        self.callstack[:] = stack
        self.loopvars = lv
        return out

    # ------------------------------------------------------------ path merging
    def merged(self, fn):
        """run fn; paths that end the same way and differ in scalars only continue as one path"""
        depth = len(self.frames)
        S0 = self.snapshot()
        ps = self.explore(fn)
        self.loopno = S0[4] + 1
        if not ps:
            raise Infeasible()
        gs = self.merge_paths(ps, depth)
        p = gs[self.choose(len(gs))]
        self.fields, self.frames, self.ghost = dict(p.fields), [dict(f) for f in p.frames[:depth]], dict(p.ghost)
        self.pc = list(S0[3]) + list(p.pcs)
        self.leave(p)

    def leave(self, p):
        if p.out == 'throw':
            raise CppThrow(p.val)
        if p.out == 'ret':
            raise Ret(p.val)
        if p.out == 'brk':
            raise Brk()
        if p.out == 'cont':
            raise Cont()

    def merge_paths(self, ps, depth):
        groups = []
        for p in ps:
            for g in groups:
                d = self._diff(g[0], p, depth)
                if d is not None:
                    g.append(p)
                    break
            else:
                groups.append([p])
        out = []
        for g in groups:
            if len(g) == 1:
                out.append(g[0])
                continue
            keys = set()
            for p in g[1:]:
                keys |= self._diff(g[0], p, depth)
            q = Path()
            q.out, q.decs = g[0].out, g[0].decs
            q.fields, q.frames, q.ghost = dict(g[0].fields), [dict(f) for f in g[0].frames[:depth]], dict(g[0].ghost)
            # keep the common prefix of the path conditions
            k = 0
            while all(len(p.pcs) > k and p.pcs[k].get_id() == g[0].pcs[k].get_id() for p in g):
                k += 1
            cs = [zand(p.pcs[k:]) for p in g]
            q.pcs = list(g[0].pcs[:k]) + [z3.simplify(z3.Or(*cs))]
            q.val = g[0].val
            for key in keys:
                if key[0] == 'v' and any(key[2] not in p.frames[key[1]] for p in g):
                    q.frames[key[1]].pop(key[2], None)      # a local that is out of scope on some of the paths
                    continue
                vs = [self._pget(p, key) for p in g]
                v = vs[-1]
                for c, w in zip(reversed(cs[:-1]), reversed(vs[:-1])):
                    if w.key() != v.key():
                        v = self._ite(c, w, v)
                if key[0] == 'val':
                    q.val = v
                else:
                    (q.fields if key[0] == 'f' else q.ghost if key[0] == 'g' else q.frames[key[1]])[key[-1]] = v
            out.append(q)
        return out

    @staticmethod
    def _pget(p, key):
        if key[0] == 'f':
            return p.fields[key[1]]
        if key[0] == 'g':
            return p.ghost[key[1]]
        if key[0] == 'v':
            return p.frames[key[1]][key[2]]
        return p.val

    def _ite(self, c, a, b):
        from .terms import zpoly
        if isinstance(a, Sc):
            nan = None
            if a.nan is not None or b.nan is not None:
                f = z3.BoolVal(False)
                nan = z3.simplify(z3.If(c, f if a.nan is None else a.nan, f if b.nan is None else b.nan))
            return Sc(zpoly(z3.If(c, a.z(), b.z())) if a.p.key() != b.p.key() else a.p, nan)
        if isinstance(a, In):
            return In(zpoly(z3.If(c, a.z(), b.z())))
        return Bo(z3.simplify(z3.If(c, a.b, b.b)))

    def _diff(self, p, q, depth):
        """the places where two paths differ, None if they cannot be merged"""
        if p.out != q.out:
            return None
        out = set()
        if p.out == 'throw' and p.val != q.val:
            return None

        def mergeable(a, b):
            return type(a) is type(b) and isinstance(a, (Sc, In, Bo))
        if p.out == 'ret':
            a, b = p.val, q.val
            if a is not b:
                if a is None or b is None:
                    return None
                if a.key() != b.key():
                    if not mergeable(a, b):
                        return None
                    out.add(('val',))
        for tag, x, y in (('f', p.fields, q.fields), ('g', p.ghost, q.ghost)):
            for k in set(x) | set(y):
                a, b = x.get(k), y.get(k)
                if a is None or b is None:
                    if tag == 'g':
                        return None
                    # read on one path only: still the initial value there
                    if a is None:
                        a = x[k] = self.field_init(k)
                    else:
                        b = y[k] = self.field_init(k)
                    if a is None or b is None:
                        return None
                if a is b or a.key() == b.key():
                    continue
                if not mergeable(a, b):
                    return None
                out.add((tag, k))
        for d in range(depth):
            x, y = p.frames[d], q.frames[d]
            for k in set(x) & set(y):
                a, b = x[k], y[k]
                if a is b:
                    continue
                if isinstance(a, tuple) or isinstance(b, tuple):
                    if isinstance(a, tuple) and isinstance(b, tuple) and a[1] is b[1]:
                        continue
                    if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(a[1], LTemp) and \
                            isinstance(a[1].get(self), Opq):
                        continue
                    return None
                if a.key() != b.key():
                    if not mergeable(a, b):
                        return None
                    out.add(('v', d, k))
        return out

    # ------------------------------------------------------------ obligations
    def record(self, cat, name, status, detail='', where=None):
        if not self.oblig_on:
            return
        k = (cat, name)
        o = self.obs.get(k)
        rank = {'proved': 0, 'unknown': 1, 'refuted': 2}
        if o is None:
            self.obs[k] = Ob(cat, name, status, detail, where)
        else:
            o.n += 1
            if rank[status] > rank[o.status]:
                o.status, o.detail, o.where = status, detail, where

    def oblige(self, cat, cond, name, where=None):
        """prove cond under the path condition"""
        if not self.oblig_on or (self.oblig_cats is not None and cat not in self.oblig_cats):
            return
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.record(cat, name, 'proved', '', where)
            return
        r, m = self.solve(list(self.pc) + [z3.Not(c)], timeout=max(self.timeout, 10000))
        if r == z3.unsat:
            self.record(cat, name, 'proved', '', where)
        elif r == z3.sat:
            self.record(cat, name, self.verdict(c), self.cex(m, c), where)
        else:
            self.record(cat, name, 'unknown', 'solver returned unknown for %s' % (str(c)[:300]), where)

    def lossy(self, *xs):
        """does a value or formula contain a symbol standing for 'some value left by a loop' (no closed form)?"""
        from .loops import z_names
        for x in xs:
            if isinstance(x, (list, tuple)):
                if self.lossy(*x):
                    return True
            elif isinstance(x, z3.ExprRef):
                if any(LOSSY.search(n) for n in z_names(x, set())):
                    return True
            elif x is not None and LOSSY.search(repr(x)):
                return True
        return False

    def verdict(self, *xs):
        """status of an obligation that fails: undecided when it fails on a value the loop rules only over-approximate"""
        return 'unknown' if self.lossy(*xs) else 'refuted'

    def cex(self, m, c):
        s = []
        for d in m.decls():
            if d.arity() == 0 and '!' not in d.name() and '@' not in d.name():
                s.append('%s=%s' % (d.name(), m[d]))
        return 'counterexample: %s; failed: %s' % (', '.join(s[:40]), str(c)[:400])

    def where(self, n):
        if n is None:
            return None
        f = (n.file or '?')
        return '%s:%s' % (f.split('/')[-1], n.line)

    # ------------------------------------------------------------ fields
    def field(self, key):
        v = self.fields.get(key)
        if key in self.poison:
            raise Unsupported('field %s::%s is read although the contracts leave it open' % key)
        if v is None:
            v = self.field_init(key) if self.field_init else None
            if v is None:
                raise Unsupported('unknown field %s::%s' % key)
            self.fields[key] = v
        return v

    # ------------------------------------------------------------ arrays
    def elem_get(self, p, j):
        if isinstance(p, Arr):
            return self.arr_read(p, j)
        if isinstance(p, EV):
            if p.m.kind not in ('V', 'R'):
                raise Unsupported('component access of a matrix')
            m = p.m if p.m.kind == 'V' else p.m.T()
            return self.comp_of(EV(m, p.r, p.c, nan=p.nan), j)
        if isinstance(p, Circ):
            k = to_z3(p.end - p.size + j)
            return Sc(zpoly(z3.Select(p.log, k)), z3.Select(p.nlog, k) if self.nanmode else None)
        if isinstance(p, Ref) and p.what in ('models', 'datas'):
            return Ref('model' if p.what == 'models' else 'data', j)
        if isinstance(p, Flat):
            raise Unsupported('component access of a block vector')
        raise Unsupported('element access on %r' % (p,))

    def comp_of(self, ev, j):
        m = ev.m
        if m.is_zero():
            return Sc(0, ev.nan)
        if len(m.t) == 1:
            (w, c), = m.t.items()
            if len(w) == 1 and w[0].atom.name.startswith('vlam@') and not w[0].t:
                a = w[0].atom
                d = self.compdef[a.name]
                arr = d[1].subst(Subst(list(zip(d[0], a.args))))
                v = self.arr_read(arr, j)
                return Sc(c * v.p, v.nan)
        return Sc(tm.comp(m, P(j)), ev.nan)

    def elem_set(self, p, j, v):
        if isinstance(p, Arr):
            return p.store(j, v)
        if isinstance(p, EV) and p.m.kind == 'V':
            a = self.ev_to_dvec(p)
            return a.store(j, v)
        raise Unsupported('element store on %r' % (p,))

    def ev_to_dvec(self, p):
        return Arr('dvec', Base('dv:%s' % (tm.intern(p.m.key()),), lambda mm, rr, j: None, ()), p.r, ()) \
            if False else Arr('dvec', _EvBase(self, p), p.r, ())

    def as_ev(self, v):
        """dvec Arr -> EV"""
        if isinstance(v, EV):
            return v
        if isinstance(v, BigView):
            return v.read(self)
        if isinstance(v, Arr) and v.kind == 'dvec':
            if not v.layers and isinstance(v.base, _EvBase):
                return v.base.ev
            ps = [p for p in self.loopvars]
            nm = 'vlam@%d' % tm.intern(('vlam', v.key()))
            if nm not in self.compdef:
                self.compdef[nm] = (list(ps), v)
            a = App(nm, tuple(P(x) for x in ps), 'vec')
            return EV(Mat.atom(a), v.len, 1)
        return v

    def arr_read(self, a, j):
        j = P(j)
        jk = j.key()
        for n in range(len(a.layers) - 1, -1, -1):
            l = a.layers[n]
            if isinstance(l, St):
                if l.idx.key() == jk:
                    return l.val
                if self.decide(to_z3(l.idx) == to_z3(j)):
                    return l.val
            elif isinstance(l, Rng):
                i = j - l.c
                zi = to_z3(i)
                if self.decide(z3.And(to_z3(l.lo) <= zi, zi < to_z3(l.hi))):
                    if l.rec:
                        return self.fv_value(l, a, n, j)
                    v = self.rng_value(l, i)
                    if v is not None:
                        return v
            elif isinstance(l, Prev):
                d = j - P(l.var)
                if d.is_const() and l.c.is_const():
                    dd, cc = d.cval(), l.c.cval()
                    if (dd < cc) if l.dir > 0 else (dd > cc):
                        return self.prev_value(l, a, n, j, int(abs(dd - cc)))
                    continue
                i = j - l.c
                zi = to_z3(i)
                # other index: either never written by this loop, or decide on which side it lies
                if not self.decide(z3.And(to_z3(l.lo) <= zi, zi < to_z3(l.hi))):
                    continue
                earlier = zi < to_z3(P(l.var)) if l.dir > 0 else zi > to_z3(P(l.var))
                if self.decide(earlier):
                    return self.prev_value(l, a, n, j)
                continue
        return a.base.get(j)

    def rng_value(self, l, i):
        s = Subst([(l.var, i)])
        for gs, v in l.cases[:-1]:
            if self.decide(s.zx(zand(gs))):
                return None if v is None else v.subst(s)
        gs, v = l.cases[-1]
        self.assume(s.zx(zand(gs)))
        return None if v is None else v.subst(s)

    def like_symbol(self, v, app_name, args, symm=False):
        """a symbolic value of the same type/dimension as v"""
        if isinstance(v, Sc):
            nan = None
            if self.nanmode:
                nan = App(app_name + '.nan', args, 'bool').z3()
            return Sc(App(app_name, args, 'real'), nan)
        if isinstance(v, In):
            return In(App(app_name, args, 'int'))
        if isinstance(v, Bo):
            return Bo(App(app_name, args, 'bool').z3())
        if isinstance(v, EV):
            kind = 'vec' if v.m.kind == 'V' else 'mat'
            nan = App(app_name + '.nan', args, 'bool').z3() if self.nanmode else None
            return EV(Mat.atom(App(app_name, args, kind, symm)), v.r, v.c, nan=nan)
        if isinstance(v, LLT):
            return LLT(EV(Mat.atom(App(app_name, args, 'mat', True)), *((v.m.r, v.m.c) if v.m is not None else (P(0), P(0)))))
        if isinstance(v, Arr):
            if v.kind == 'dvec':
                return EV(Mat.atom(App(app_name, args, 'vec')), v.len, 1)
            kind = v.kind
            proto = v.base

            def fn(*xs):
                return self.like_symbol(proto.get(xs[-1]), app_name, tuple(xs))
            return Arr(kind, Base(app_name, fn, tuple(P(a) for a in args)), v.len)
        if isinstance(v, Flat):
            return Flat(self.like_symbol(v.arr, app_name, args), v.stride)
        if isinstance(v, Circ):
            z = [to_z3(a) for a in args]
            f = z3.Function(app_name + '.log', *([z3.IntSort()] * len(z) + [v.log.sort()])) if z else None
            g = z3.Function(app_name + '.nlog', *([z3.IntSort()] * len(z) + [v.nlog.sort()])) if z else None
            return Circ(f(*z) if z else z3.Const(app_name + '.log', v.log.sort()),
                        g(*z) if z else z3.Const(app_name + '.nlog', v.nlog.sort()),
                        App(app_name + '.end', args, 'int'), App(app_name + '.size', args, 'int'),
                        App(app_name + '.cap', args, 'int'))
        if isinstance(v, Iter):
            return Iter(v.lv, P(App(app_name, args, 'int')))
        if isinstance(v, (Opq, Ref, Lam)):
            return v
        if isinstance(v, Big):
            return Big(app_name, v.r, v.c, None)
        raise Unsupported('havoc of %r' % (v,))

    def prev_value(self, l, a, n, j, off=0):
        proto = Arr(a.kind, a.base, a.len, a.layers[:n]).base.get(j)
        symm = False
        if l.name not in self.nosym and isinstance(proto, EV) and proto.m.kind != 'V' and P(proto.r).key() == P(proto.c).key():
            # induction hypothesis, checked by loops.analyse when the iteration has been executed
            symm = True
            self.symfv.add(l.name)
            self.symoff[l.name] = max(off, self.symoff.get(l.name, 0))
        return self.like_symbol(proto, l.name, l.params + (P(j),), symm=symm)

    def fv_value(self, l, a, n, j):
        if l.name not in self.fvdef:
            self.fvdef[l.name] = (l, Arr(a.kind, a.base, a.len, a.layers[:n]))
        i = j - l.c
        s = Subst([(l.var, i)])
        v = next(v for _, v in l.cases if v is not None).subst(s)
        return self.like_symbol(v, l.name, l.params + (P(j),), symm=l.name in self.symfv)

    def unfold(self, app):
        """definition of a loop-defined symbol at its index (branches on the cases)"""
        if app.name in self.scdef:
            lvars, var, lo, hi, dr, cases, old = self.scdef[app.name]
            j = app.args[len(lvars)]
            s = Subst([(p, q) for p, q in zip(lvars, app.args)]) if lvars else None
            if self.decide(to_z3(j) == to_z3(lo if dr > 0 else hi - 1)):
                return old
            s2 = Subst([(var, j - dr)])
            for gs, v in cases[:-1]:
                if self.decide(s2.zx(zand(gs))):
                    return v.subst(s2)
            self.assume(s2.zx(zand(cases[-1][0])))
            return cases[-1][1].subst(s2)
        l, under = self.fvdef[app.name]
        np_ = len(l.params)
        s = Subst([(p, q) for p, q in zip(l.params, app.args[:np_]) if isinstance(p, App)]) if np_ else None
        j = app.args[np_]
        i = j - l.c
        zi = to_z3(i)
        if not self.decide(z3.And(to_z3(l.lo) <= zi, zi < to_z3(l.hi))):
            return self.arr_read(under, j)
        v = self.rng_value(l, i)
        if v is None:
            return self.arr_read(under, j)
        return v

    # ------------------------------------------------------------ statements
    def run_function(self, f, args, this=None, cap=None):
        if len(self.callstack) > 40:
            raise Unsupported('call depth')
        self.funcs_seen[repr(f)] = self.funcs_seen.get(repr(f), 0) + 1
        fr = {}
        self.frames.append(fr)
        self.callstack.append(f)
        try:
            for i, p in enumerate(f.params):
                if i < len(args):
                    v = args[i]
                else:
                    init = next((c for c in p.inner if c), None)
                    if init is None:
                        raise Unsupported('missing argument')
                    v = self.rv(init)
                self.bind(p, v)
            try:
                self.stmt(f.body)
            except Ret as r:
                return r.v
            return None
        finally:
            self.frames.pop()
            self.callstack.pop()

    def bind(self, decl, v):
        t = decl.qtype or ''
        isref = t.rstrip().endswith('&') or t.rstrip().endswith('&&')
        if isref:
            if not isinstance(v, LV):
                v = LTemp(v)
            self.frames[-1][decl.id] = ('ref', v)
        else:
            v = self.deref(v)
            self.frames[-1][decl.id] = self.conv_decl(decl, v)

    def conv_decl(self, decl, v):
        t = decl.type or ''
        t = t.replace('const', '').strip()
        if t == 'double' and isinstance(v, In):
            return Sc(v.p)
        return v

    def deref(self, v):
        n = 0
        while isinstance(v, LV):
            v = v.get(self)
            n += 1
        return v

    def rv(self, n):
        v = self.deref(self.ev(n))
        return v.read(self) if isinstance(v, BigView) else v

    def stmt(self, n):
        if n is None:
            return
        m = getattr(self, 's_' + n.kind, None)
        if m is not None:
            return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        for c in n.inner:
            self.stmt(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for c in n.inner:
            if c.kind == 'VarDecl':
                self.declare(c)
            elif c.kind in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl'):
                pass
            else:
                raise Unsupported('declaration %s' % c.kind)

    def per_call(self, n):
        """does the expression depend on the object, the arguments or local variables"""
        if n is None:
            return False
        if n.kind == 'CXXThisExpr':
            return True
        if n.kind == 'DeclRefExpr' and n.ref and any(n.ref[2] in f for f in self.frames):
            return True
        return any(self.per_call(x) for x in n.inner if x is not None)

    def declare(self, c):
        init = next((x for x in c.inner if x and not x.kind.endswith('Attr')), None)
        self.names[0][c.id] = c.name
        if c.extra and c.extra.get('storageClass') == 'static':
            t = c.type or ''
            const = t.startswith('const') and not t.rstrip().endswith('*')
            if not (const and not self.per_call(init)) and not (
                    'Stopwatch' in t or 'Watcher' in t or 'watch' in t.lower() or 'StopwatchTpl' in t):
                # the value may be left from an earlier call, of another object
                v = None
                try:
                    v = self.rv(init) if init else self.lib.default_value(self, c.type)
                    v = self.deref(v)
                except Unsupported:
                    v = Opq('static')
                if isinstance(v, EV) and not const:
                    raise Unsupported('static local %s' % c.name)
                if isinstance(v, (In, Sc, Bo, EV)):
                    if self.conv_decl(c, v) is not None:
                        v = self.conv_decl(c, v)
                    v = self.like_symbol(v, 'static.%s' % c.name, ())
                    self.notes.add('static local %s may hold any value at entry' % c.name)
                    if (c.qtype or '').rstrip().endswith('&'):
                        self.frames[-1][c.id] = ('ref', LTemp(v))
                    else:
                        self.frames[-1][c.id] = v
                    return
                if not isinstance(v, Opq):
                    raise Unsupported('static local %s' % c.name)
        if init is None:
            v = self.lib.default_value(self, c.type)
            self.frames[-1][c.id] = v
            return
        v = self.ev(init)
        self.bind(c, v)

    def s_ReturnStmt(self, n):
        e = next((c for c in n.inner if c), None)
        f = self.callstack[-1]
        if e is None:
            raise Ret(None)
        v = self.ev(e)
        rt = (f.node.qtype or '').split('(')[0].strip() if f.node is not None else ''
        if not rt.endswith('&'):
            v = self.deref(v)
            if rt.replace('const', '').strip() == 'double' and isinstance(v, In):
                v = Sc(v.p)
        raise Ret(v)

    def cond(self, n):
        v = self.rv(n)
        return self.decide(self.tobool(v))

    def tobool(self, v):
        if isinstance(v, Bo):
            return v.b
        if isinstance(v, In):
            return v.z() != 0
        if isinstance(v, Sc):
            return v.z() != 0
        if isinstance(v, Opq):
            return App('opq.%s.%d' % (v.tag, self._opq()), tuple(P(x) for x in self.loopvars), 'bool').z3()
        if isinstance(v, bool):
            return z3.BoolVal(v)
        raise Unsupported('condition %r' % (v,))

    def _opq(self):
        self.ghost['#opq'] = self.ghost.get('#opq', 0) + 1
        return self.ghost['#opq']

    def s_IfStmt(self, n):
        inner = list(n.inner)
        ex = n.extra or {}
        if ex.get('hasInit'):
            self.stmt(inner.pop(0))
        if ex.get('hasVar'):
            self.stmt(inner.pop(0))
        if len(inner) == 2 and not self.ctl and self.guarded_update(inner[0], inner[1]):
            return

        def run():
            if self.cond(inner[0]):
                self.stmt(inner[1])
            elif len(inner) > 2:
                self.stmt(inner[2])
        if self.merge:
            self.merged(run)
        else:
            run()

    def guarded_update(self, c, then):
        """if (v < e) v = e; is v = max(v, e), and if (c) flag = true; is flag = flag || c"""
        while then is not None and then.kind in ('CompoundStmt', 'ExprWithCleanups') and len([x for x in then.inner if x]) == 1:
            then = [x for x in then.inner if x][0]
        if then is None or then.kind != 'BinaryOperator' or then.op != '=':
            return False
        v, e = then.inner
        if strip(v).kind not in ('DeclRefExpr', 'MemberExpr'):
            return False
        t = (then.type or '').replace('const ', '')
        if t == 'double':
            k = extremum(c, e, v)
            if k is None:
                return False
            r = self.lib.minmax(self, k, self.rv(v), self.rv(e))
            self.ev(v).set(self, r)
            return True
        if t == 'bool' and self.loopvars:
            e = strip(e)
            if e.kind != 'CXXBoolLiteralExpr' or mentions_node(c, v):
                return False
            old = self.rv(v)
            if not isinstance(old, Bo):
                return False
            cv = self.rv(c)
            if not isinstance(cv, Bo):
                return False
            new = z3.Or(old.b, cv.b) if e.value else z3.And(old.b, z3.Not(cv.b))
            self.ev(v).set(self, Bo(z3.simplify(new)))
            return True
        return False

    def s_BreakStmt(self, n):
        raise Brk()

    def s_ContinueStmt(self, n):
        raise Cont()

    def s_CXXTryStmt(self, n):
        try:
            self.stmt(n.inner[0])
        except CppThrow as e:
            depth = None
            for h in n.inner[1:]:
                var = h.inner[0]
                body = h.inner[1]
                t = (var.type or '') if var is not None else '...'
                if var is None or 'std::exception' in t or 'exception' in t.lower():
                    if var is not None:
                        self.frames[-1][var.id] = ('ref', LTemp(Opq('exception')))
                    self.stmt(body)
                    return
                raise Unsupported('catch of %s' % t)
            raise

    def s_ForStmt(self, n):
        from . import loops
        loops.for_stmt(self, n)

    def s_WhileStmt(self, n):
        from . import loops
        loops.while_stmt(self, n)

    def s_DoStmt(self, n):
        from . import loops
        loops.do_stmt(self, n)

    def s_CXXForRangeStmt(self, n):
        from . import loops
        loops.range_for(self, n)

    def s_OMPParallelForDirective(self, n):
        raise Unsupported('OpenMP directive')

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, 'e_' + n.kind, None)
        if m is None:
            raise Unsupported('expression %s at %s' % (n.kind, self.where(n)))
        return m(n)

    def _first(self, n):
        return self.ev(next(c for c in n.inner if c))

    e_MaterializeTemporaryExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = _first
    e_ParenExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = _first
    e_CXXDefaultInitExpr = e_FullExpr = _first

    def e_CXXDefaultArgExpr(self, n):
        for c in n.inner:
            if c:
                return self.ev(c)
        return Opq('defaultarg')

    def e_ImplicitCastExpr(self, n):
        k = n.cast
        sub = next(c for c in n.inner if c)
        if k == 'LValueToRValue':
            return self.rv(sub)
        if k in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion',
                 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'BaseToDerived', 'BitCast', 'ToVoid', 'Dynamic'):
            if k == 'FunctionToPointerDecay':
                return Opq('fn')
            return self.ev(sub)
        v = self.rv(sub)
        return self.cast(k, v, n)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_CXXDynamicCastExpr = e_ImplicitCastExpr

    def cast(self, k, v, n):
        t = n.type or ''
        if k == 'IntegralCast':
            if isinstance(v, Bo):
                return In(zpoly(z3.If(v.b, z3.IntVal(1), z3.IntVal(0))))
            if isinstance(v, In):
                if 'unsigned' in t and not self._unsigned_sub(n):
                    if v.p.is_const() and v.p.cval() < 0:
                        raise Unsupported('negative constant converted to unsigned')
                    self.oblige('wrap', v.z() >= 0, 'conversion to unsigned of %s' % self.src(n), self.where(n))
                return v
            return v
        if k == 'IntegralToFloating':
            if isinstance(v, Bo):
                return Sc(zpoly(z3.If(v.b, z3.RealVal(1), z3.RealVal(0))))
            return Sc(v.p) if isinstance(v, In) else v
        if k == 'FloatingToIntegral':
            if isinstance(v, Sc):
                if v.p.is_const():
                    c = v.p.cval()
                    return In(int(c))
                if integral(v.p):
                    return In(v.p)
                z = v.z()
                return In(zpoly(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))))
            return v
        if k == 'FloatingCast':
            return v
        if k == 'IntegralToBoolean':
            return Bo(v.z() != 0) if isinstance(v, In) else v
        if k == 'FloatingToBoolean':
            return Bo(v.z() != 0)
        if k in ('PointerToBoolean', 'NullToPointer', 'MemberPointerToBoolean'):
            if isinstance(v, (Ref,)):
                return Bo(True)
            return v
        raise Unsupported('cast %s' % k)

    def _unsigned_sub(self, n):
        c = next(c for c in n.inner if c)
        return 'unsigned' in (c.type or '')

    def src(self, n):
        return re.sub(r'\s+', ' ', front.text(n))[:120]

    def e_IntegerLiteral(self, n):
        return In(int(n.value))

    def e_FloatingLiteral(self, n):
        txt = front.text(n)
        try:
            return Sc(Fraction(txt.rstrip('fFlL')))
        except (ValueError, ZeroDivisionError):
            return Sc(Fraction(float(n.value)))

    def e_CXXBoolLiteralExpr(self, n):
        return Bo(bool(n.value))

    def e_StringLiteral(self, n):
        return Opq('str')

    e_CharacterLiteral = e_PredefinedExpr = e_StringLiteral

    def e_CXXNullPtrLiteralExpr(self, n):
        return Opq('null')

    def e_CXXThisExpr(self, n):
        return Ref('this')

    def e_DeclRefExpr(self, n):
        k, name, rid, ty = n.ref
        for depth in range(len(self.frames) - 1, -1, -1):
            if rid in self.frames[depth]:
                v = self.frames[depth][rid]
                if isinstance(v, tuple) and v[0] == 'ref':
                    return v[1]
                return LVar(depth, rid)
        if k in ('VarDecl', 'EnumConstantDecl'):
            v = self.lib.global_var(self, name, n)
            if v is not None:
                return v
        return Opq('decl:%s' % name)

    def field_key(self, n):
        """owner class of an implicit/explicit this->member"""
        base = n.inner[0] if n.inner else None
        cls = None
        b = base
        while b is not None and b.kind in ('ImplicitCastExpr', 'ParenExpr'):
            if b.cast in ('UncheckedDerivedToBase', 'DerivedToBase'):
                cls = front._scls((b.type or '').replace('*', ''))
                break
            b = b.inner[0]
        if cls is None:
            cls = front._scls((base.type or '').replace('*', '').replace('const', ''))
        if cls.endswith('Tpl'):
            cls = cls[:-3]
        owner = self.prog.field_owner(cls, n.name)
        if owner is None:
            for c in self.prog.mro(cls):
                owner = c
        return (owner, n.name)

    def e_MemberExpr(self, n):
        base = self.ev(n.inner[0])
        b = self.deref(base)
        if isinstance(b, Ref):
            if b.what == 'this':
                return LField(self.field_key(n))
            if b.what == 'data':
                return LElem(LField(('data', n.name)), b.idx)
            if b.what == 'captured':
                pass
        return self.lib.member(self, n, base, b)

    def e_CXXConstructExpr(self, n):
        args = [c for c in n.inner if c]
        args = [a for a in args if a.kind != 'CXXDefaultArgExpr'] if len(args) > 1 else args
        return self.lib.construct(self, n, args)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n):
        xs = [c for c in n.inner if c]
        if len(xs) == 1:
            return self.ev(xs[0])
        raise Unsupported('initialiser list')

    def e_CXXScalarValueInitExpr(self, n):
        return self.lib.zero_value(self, n.type)

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_CXXThrowExpr(self, n):
        for c in n.inner:
            if c:
                raise CppThrow(front._scls(c.type or ''))
        raise CppThrow('rethrow')

    def e_ConditionalOperator(self, n):
        c, a, b = n.inner
        if (n.type or '') == 'void':
            # profiling macros:  status() ? start() : void()
            cv = self.rv(c)
            if isinstance(cv, Opq):
                return Opq('void')
            return self.ev(a) if self.decide(self.tobool(cv)) else self.ev(b)
        k = None if self.ctl else extremum(c, a, b)
        if k is not None and 'double' in (n.type or ''):
            return self.lib.minmax(self, k, self.rv(b), self.rv(a))
        return self.ev(a) if self.cond(c) else self.ev(b)

    def e_LambdaExpr(self, n):
        return Lam(n, dict(self.frames[-1]))

    def e_UnaryOperator(self, n):
        op = n.op
        sub = n.inner[0]
        if op in ('++', '--'):
            lv = self.ev(sub)
            old = self.deref(lv)
            d = 1 if op == '++' else -1
            if isinstance(old, In):
                if d < 0 and 'unsigned' in (sub.type or ''):
                    self.oblige('wrap', old.z() >= 1, 'decrement of %s' % self.src(sub), self.where(n))
                new = In(old.p + d)
            elif isinstance(old, Sc):
                new = Sc(old.p + d, old.nan)
            elif isinstance(old, Iter):
                new = Iter(old.lv, old.idx + d)
            else:
                raise Unsupported('++ on %r' % (old,))
            lv.set(self, new)
            return old if n.postfix else lv
        if op == '*':
            v = self.rv(sub)
            if isinstance(v, Ref):
                return v
            if isinstance(v, Iter):
                return self.lib.iter_deref(self, v, n)
            return v
        if op == '&':
            return self.ev(sub)
        v = self.rv(sub)
        if op == '!':
            if isinstance(v, Opq):
                return v
            return Bo(z3.Not(self.tobool(v)))
        if op == '-':
            if isinstance(v, In):
                return In(-v.p)
            return self.lib.neg(self, v)
        if op == '+':
            return v
        raise Unsupported('unary %s' % op)

    def e_BinaryOperator(self, n):
        op = n.op
        a, b = n.inner
        if op == '&&':
            x = self.tobool(self.rv(a))
            if not self.decide(x):
                return Bo(False)
            return Bo(self.tobool(self.rv(b)))
        if op == '||':
            x = self.tobool(self.rv(a))
            if self.decide(x):
                return Bo(True)
            return Bo(self.tobool(self.rv(b)))
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op == '=':
            lv = self.ev(a)
            v = self.rv(b)
            lv.set(self, v)
            return lv
        x, y = self.rv(a), self.rv(b)
        return self.binop(op, x, y, n)

    def binop(self, op, x, y, n):
        if isinstance(x, Opq) or isinstance(y, Opq):
            return Opq('op')
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return self.compare(op, x, y)
        if isinstance(x, Bo) and not isinstance(y, (EV, Sc)):
            x = In(zpoly(z3.If(x.b, z3.IntVal(1), z3.IntVal(0))))
        if isinstance(y, Bo) and not isinstance(x, (EV, Sc)):
            y = In(zpoly(z3.If(y.b, z3.IntVal(1), z3.IntVal(0))))
        if isinstance(x, In) and isinstance(y, In):
            if op == '+':
                return In(x.p + y.p)
            if op == '-':
                if 'unsigned' in (n.type or ''):
                    self.oblige('wrap', x.z() >= y.z(), 'unsigned subtraction %s' % self.src(n), self.where(n))
                return In(x.p - y.p)
            if op == '*':
                return In(x.p * y.p)
            if op == '%':
                self.oblige('div0', y.z() != 0, 'modulo by %s' % self.src(n), self.where(n))
                if y.p.is_const() and x.p.is_const():
                    return In(int(x.p.cval()) % int(y.p.cval()))
                return In(P(App('mod', (x.p, y.p), 'int')))
            if op == '/':
                self.oblige('div0', y.z() != 0, 'division by %s' % self.src(n), self.where(n))
                return In(P(App('idiv', (x.p, y.p), 'int')))
            raise Unsupported('int op %s' % op)
        return self.lib.arith(self, op, x, y, n)

    def compare(self, op, x, y):
        if isinstance(x, Iter) and isinstance(y, Iter):
            x, y = In(x.idx), In(y.idx)
        if isinstance(x, Bo) and isinstance(y, Bo):
            r = x.b == y.b
            return Bo(r if op == '==' else z3.Not(r))
        if isinstance(x, Bo):
            x = In(zpoly(z3.If(x.b, z3.IntVal(1), z3.IntVal(0))))
        if isinstance(y, Bo):
            y = In(zpoly(z3.If(y.b, z3.IntVal(1), z3.IntVal(0))))
        if isinstance(x, Sc) or isinstance(y, Sc):
            nan = None
            for v in (x, y):
                if isinstance(v, Sc) and v.nan is not None:
                    nan = zor(nan, v.nan)
            xp = x.p
            yp = y.p
            d = xp - yp
            if d.is_const():
                c = d.cval()
                r = {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
                r = z3.BoolVal(r)
            else:
                a, b = to_z3(xp, 'real'), to_z3(yp, 'real')
                r = {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
            if nan is not None:
                if op == '!=':
                    r = z3.Or(nan, r)
                else:
                    r = z3.And(z3.Not(nan), r)
            return Bo(z3.simplify(r))
        if isinstance(x, In) and isinstance(y, In):
            a, b = x.z(), y.z()
            return Bo({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op])
        raise Unsupported('comparison %s of %r and %r' % (op, x, y))

    def e_CompoundAssignOperator(self, n):
        lv = self.ev(n.inner[0])
        y = self.rv(n.inner[1])
        x = self.deref(lv)
        if isinstance(x, Sc) and isinstance(y, In):
            y = Sc(y.p)
        if isinstance(x, Bo):
            op = n.op[:-1]
            if op == '|':
                lv.set(self, Bo(z3.Or(x.b, self.tobool(y))))
                return lv
            if op == '&':
                lv.set(self, Bo(z3.And(x.b, self.tobool(y))))
                return lv
        lv.set(self, self.binop(n.op[:-1], x, y, n))
        return lv

    # ------------------------------------------------------------ calls
    def callee_ref(self, n):
        c = n.inner[0]
        while c.kind in ('ImplicitCastExpr', 'ParenExpr'):
            c = c.inner[0]
        return c

    def e_CallExpr(self, n):
        c = self.callee_ref(n)
        if c.kind == 'DeclRefExpr' and c.ref[0] in ('FunctionDecl', 'CXXMethodDecl'):
            tu = self.callstack[-1].tu if self.callstack else None
            k = self.prog.decls.get((tu, c.ref[2]))
            fs = None
            if k is not None:
                if k[0] is None:
                    fs = self.prog.free.get(k[1])
                else:
                    fs = [f for f in self.prog.methods.get(k[0], {}).get(k[1], []) if f.body is not None]
            elif c.ref[1] in self.prog.free and self.lib.free_call(self, c.ref[1], n, probe=True) is None:
                fs = self.prog.free.get(c.ref[1])
            if fs:
                args = [self.ev(a) for a in n.inner[1:]]
                f = next((f for f in fs if len(f.params) == len(args)), fs[0])
                return self.run_function(f, args)
            return self.lib.free_call(self, c.ref[1], n)
        v = self.rv(c)
        if isinstance(v, Lam):
            return self.call_lambda(v, [self.ev(a) for a in n.inner[1:]])
        raise Unsupported('call through %s' % c.kind)

    def call_lambda(self, lam, args):
        raise Unsupported('lambda')

    def e_CXXMemberCallExpr(self, n):
        me = n.inner[0]
        while me.kind in ('ImplicitCastExpr', 'ParenExpr'):
            me = me.inner[0]
        if me.kind != 'MemberExpr':
            raise Unsupported('member call through %s' % me.kind)
        obj = self.ev(me.inner[0])
        o = None
        if isinstance(obj, Ref):
            o = obj
        elif isinstance(obj, LV):
            v = obj.get(self)
            if isinstance(v, (Ref, Opq)):
                o = v
        if isinstance(o, Ref) and o.what == 'this':
            return self.call_this(n, me)
        return self.lib.method(self, n, me, obj)

    def call_this(self, n, me):
        name = me.name
        txt = front.text(me)
        argn = n.inner[1:]
        m = re.match(r'(?:this\s*->\s*)?([A-Za-z_:]+)::\s*%s$' % re.escape(name), txt.strip())
        if m:
            f = self.prog.find_method(front._scls(m.group(1)), name, len(argn))
            key = (front._scls(m.group(1)), name)
        else:
            tu = self.callstack[-1].tu if self.callstack else None
            k = self.prog.decls.get((tu, me.mref))
            f = self.prog.find_method(self.cls, name, len(argn))
            if f is not None and k is not None and len(f.params) != len(argn):
                f = next((g for g in self.prog.methods.get(k[0], {}).get(name, [])
                          if g.body is not None and len(g.params) >= len(argn)), f)
            key = (f.cls if f else 'SolverAbstract', name)
        return self.call_method(key, f, argn, n)

    def call_method(self, key, f, argn, n=None):
        h = self.contracts.get(key) or self.contracts.get(key[1])
        if h is not None:
            args = [self.ev(a) for a in argn]
            r = h(self, args, n)
            if r is not NotImplemented:
                return r
        if f is None:
            args = [self.ev(a) for a in argn if a.kind != 'CXXDefaultArgExpr']
            return self.lib.base_method(self, key[1], args, n)
        args = []
        for i, a in enumerate(argn):
            if a.kind == 'CXXDefaultArgExpr':
                break
            args.append(self.ev(a))
        return self.run_function(f, args)

    def e_CXXOperatorCallExpr(self, n):
        c = self.callee_ref(n)
        op = c.ref[1] if c.kind == 'DeclRefExpr' and c.ref else None
        args = n.inner[1:]
        return self.lib.operator(self, op, args, n)


def integral(p):
    """a polynomial with integer coefficients over integers"""
    return all(c.denominator == 1 for c in p.t.values()) and all(getattr(a, 'sort', None) == 'int' for a in p.atoms())


class _EvBase:
    """component view of an Eigen vector value"""
    def __init__(self, ex, ev):
        self.ex = ex
        self.ev = ev
        self.name = 'comp'

    def key(self):
        return ('evb', self.ev.key())

    def get(self, j):
        return self.ex.comp_of(self.ev, j)

    def subst(self, m):
        return _EvBase(self.ex, self.ev.subst(m))
