"""Contracts assumed for Eigen, the standard library, boost::circular_buffer and crocoddyl.

All of these are listed as trusted in the evidence (exact-arithmetic semantics of Eigen; the
documented behaviour of crocoddyl's ShootingProblem, ActionModel, State and SolverAbstract)."""
import re
import z3
from fractions import Fraction
from . import terms as tm
from .terms import App, Poly, Mat, MF, P, Subst, to_z3, zpoly
from .values import *
from . import front
from .symex import (Unsupported, LV, LTemp, LVar, LField, LElem, LView, INF, T_, NDX, NX, nu, ng, CppThrow, zor)

ONE = P(1)


def neutral_xs():
    return Arr('vec', Base('state.zero', lambda j: vec('state.zero', (j,), P(NX))), T1)


def zero_us():
    return Arr('vec', Base('zero.us', lambda j: EV(Mat.zero('V'), nu(P(j)), 1)), P(T_))


def vec(name, args, n):
    return EV(Mat.atom(App(name, tuple(P(a) for a in args), 'vec')), n, 1)


def mat(name, args, r, c, symm=False):
    return EV(Mat.atom(App(name, tuple(P(a) for a in args), 'mat', symm)), r, c)


T1 = P(T_) + 1
NDX_, NX_ = P(NDX), P(NX)

# data (per node) : dims
DATA = {
    'Lx': ('vec', lambda t: (NDX_, ONE)), 'Lu': ('vec', lambda t: (nu(t), ONE)),
    'Lxx': ('mats', lambda t: (NDX_, NDX_)), 'Luu': ('mats', lambda t: (nu(t), nu(t))),
    'Lxu': ('mat', lambda t: (NDX_, nu(t))), 'Fx': ('mat', lambda t: (NDX_, NDX_)),
    'Fu': ('mat', lambda t: (NDX_, nu(t))), 'Gx': ('mat', lambda t: (ng(t), NDX_)),
    'Gu': ('mat', lambda t: (ng(t), nu(t))), 'g': ('vec', lambda t: (ng(t), ONE)),
    'xnext': ('vec', lambda t: (NX_, ONE)), 'cost': ('dbl', None),
}

SHAPES = {
    # name: (kind, len, dims(t)) ; len 'T1' or 'T'
    'xs_': ('vec', T1, lambda t: (NX_, ONE)), 'us_': ('vec', P(T_), lambda t: (nu(t), ONE)),
    'fs_': ('vec', T1, lambda t: (NDX_, ONE)),
    'xs_try_': ('vec', T1, lambda t: (NX_, ONE)), 'us_try_': ('vec', P(T_), lambda t: (nu(t), ONE)),
    'fs_try_': ('vec', T1, lambda t: (NDX_, ONE)),
    'dx_': ('vec', T1, lambda t: (NDX_, ONE)), 'du_': ('vec', P(T_), lambda t: (nu(t), ONE)),
    'dxtilde_': ('vec', T1, lambda t: (NDX_, ONE)), 'dutilde_': ('vec', P(T_), lambda t: (nu(t), ONE)),
    'lag_mul_': ('vec', T1, lambda t: (NDX_, ONE)),
    'Vx_': ('vec', T1, lambda t: (NDX_, ONE)), 'Vxx_': ('mat', T1, lambda t: (NDX_, NDX_)),
    'Qx_': ('vec', P(T_), lambda t: (NDX_, ONE)), 'Qu_': ('vec', P(T_), lambda t: (nu(t), ONE)),
    'Qxx_': ('mat', P(T_), lambda t: (NDX_, NDX_)), 'Quu_': ('mat', P(T_), lambda t: (nu(t), nu(t))),
    'Qxu_': ('mat', P(T_), lambda t: (NDX_, nu(t))),
    'K_': ('mat', P(T_), lambda t: (nu(t), NDX_)), 'k_': ('vec', P(T_), lambda t: (nu(t), ONE)),
    # scratch: resized by the passes (element 0 serves every node in backwardPass_mt), so its entry size is not relied upon
    'FuTVxx_p_': ('mat', P(T_), lambda t: (P(App('rows.scratch', (P(t),), 'int')), NDX_)), 'Quuk_': ('vec', P(T_), lambda t: (nu(t), ONE)),
    'Quu_llt_': ('llt', P(T_), lambda t: (nu(t), nu(t))),
    'Vxx_fs_': ('vec', P(T_), lambda t: (NDX_, ONE)),
    'tmp_vec_u_': ('vec', P(T_), lambda t: (nu(t), ONE)),
    'z_': ('vec', T1, lambda t: (ng(t), ONE)), 'z_prev_': ('vec', T1, lambda t: (ng(t), ONE)),
    'z_relaxed_': ('vec', T1, lambda t: (ng(t), ONE)), 'y_': ('vec', T1, lambda t: (ng(t), ONE)),
    'rho_vec_': ('vec', T1, lambda t: (ng(t), ONE)), 'inv_rho_vec_': ('vec', T1, lambda t: (ng(t), ONE)),
    'tmp_Cdx_Cdu_': ('vec', T1, lambda t: (ng(t), ONE)), 'tmp_dual_cwise_': ('vec', T1, lambda t: (ng(t), ONE)),
    'tmp_rhoGx_mat_': ('mat', T1, lambda t: (ng(t), NDX_)), 'tmp_rhoGu_mat_': ('mat', P(T_), lambda t: (ng(t), nu(t))),
}
SCRATCH = {'FuTVxx_p_', 'xnext_'}
SHAPES_CLS = {
    ('SolverDDP', 'dx_'): ('vec', P(T_), lambda t: (NDX_, ONE)),
}
SINGLE = {
    'tmp_vec_x_': ('vec', lambda: (NDX_, ONE)), 'tmp_Vx_': ('vec', lambda: (NDX_, ONE)),
    'Vxx_tmp_': ('mat', lambda: (NDX_, NDX_)), 'FxTVxx_p_': ('mat', lambda: (NDX_, NDX_)),
    'fTVxx_p_': ('vec', lambda: (NDX_, ONE)), 'xnext_': ('vec', lambda: (P(App('rows.scratch.x', (), 'int')), ONE)),
    'd_': ('vec', lambda: (P(2), ONE)),
    # KKT solver
    'dxs_': None,
}
ABSTRACT_FIELDS = {
    'problem_': 'prob', 'xs_': None, 'us_': None, 'fs_': None, 'cost_': 'double', 'merit_': 'double',
    'stop_': 'double', 'dV_': 'double', 'dVexp_': 'double', 'd_': None, 'preg_': 'double', 'dreg_': 'double',
    'steplength_': 'double', 'th_acceptstep_': 'double', 'th_stop_': 'double', 'th_gaptol_': 'double',
    'ffeas_': 'double', 'feas_': 'double', 'iter_': 'unsigned long', 'is_feasible_': 'bool',
    'was_feasible_': 'bool', 'inffeas_': 'bool', 'tmp_feas_': 'double', 'callbacks_': 'cbs',
    'gfeas_': 'double', 'hfeas_': 'double', 'dfeas_': 'double', 'dPhi_': 'double', 'dPhiexp_': 'double',
    'ureg_': 'double', 'xreg_': 'double', 'upsilon_': 'double', 'dfeas_': 'double',
    'inffeas_': 'double', 'feasnorm_': 'double',
}
NAN_FIELDS = {'preg_', 'dreg_'}


def arr_of(prefix, kind, length, dims):
    if kind == 'vec':
        def fn(*a):
            r, c = dims(a[-1])
            return vec(prefix, a, r)
    elif kind in ('mat', 'mats'):
        def fn(*a):
            r, c = dims(a[-1])
            return mat(prefix, a, r, c, symm)
        symm = kind == 'mats'
        kind = 'mat'
    elif kind == 'llt':
        def fn(*a):
            r, c = dims(a[-1])
            return LLT(mat(prefix, a, r, c, True))
    elif kind == 'dbl':
        def fn(*a):
            return Sc(App(prefix, tuple(P(x) for x in a), 'real'))
    elif kind == 'cb':
        def fn(*a):
            return Ref('cb', P(a[-1]))
    else:
        raise Unsupported(kind)
    return Arr(kind, Base(prefix, fn), length)


def nan_flags(v, pre):
    """the same value with unknown NaN flags"""
    if isinstance(v, EV) and v.nan is None:
        return EV(v.m, v.r, v.c, v.arr, App(pre + '.nan', (), 'bool').z3())
    if isinstance(v, Flat):
        return Flat(nan_flags(v.arr, pre), v.stride)
    if isinstance(v, Arr) and v.kind in ('vec', 'mat', 'dbl'):
        b = v.base

        def fn(*a):
            e = b.get(a[-1])
            n = App(pre + '.nan', (P(a[-1]),), 'bool').z3()
            if isinstance(e, EV) and e.nan is None:
                return EV(e.m, e.r, e.c, e.arr, n)
            if isinstance(e, Sc) and e.nan is None:
                return Sc(e.p, n)
            return e
        return Arr(v.kind, Base(b.name + '#nan', fn), v.len)
    return v


def x0_value():
    return vec('x0', (), NX_)


class Lib:
    def __init__(self):
        self.field_over = {}
        self.on_calc = None

    # ------------------------------------------------------------ initial field values
    def field_init(self, ex):
        def init(key):
            v = init0(key)
            return nan_flags(v, ('d.' if key[0] == 'data' else 'f.%s.' % key[0]) + key[1]) if ex.nanmode else v

        def init0(key):
            cls, name = key
            if key in self.field_over:
                return self.field_over[key](ex)
            if cls == 'data':
                if name not in DATA:
                    return None
                kind, dims = DATA[name]
                return arr_of('d.' + name, kind, T1, dims)
            sh = SHAPES_CLS.get(key) or SHAPES.get(name)
            pre = 'f.%s.%s' % key if cls != 'SolverAbstract' else 'f.' + name
            if cls == 'SolverAbstract':
                t = ABSTRACT_FIELDS.get(name)
                if t is None and sh is None and name not in SINGLE:
                    return None
            else:
                f = ex.prog.fields.get(cls, {}).get(name)
                if f is None:
                    return None
                t = f[0]
            if t == 'prob':
                return Ref('prob')
            if t == 'cbs':
                return arr_of(pre, 'cb', P(App('n' + pre, (), 'int')), None)
            if name == 'fs_flat_':
                return Flat(arr_of(pre, 'vec', T1, lambda t: (NDX_, ONE)), NDX_)
            if sh is not None:
                return arr_of(pre, sh[0], sh[1], sh[2])
            if name in SINGLE and SINGLE[name] is not None:
                k, d = SINGLE[name]
                r, c = d()
                return vec(pre, (), r) if k == 'vec' else mat(pre, (), r, c)
            t = (t or '').replace('const ', '').strip()
            if t == 'double':
                nan = None
                if name in NAN_FIELDS or ex.nanmode:
                    nan = App(pre + '.nan', (), 'bool').z3()
                return Sc(App(pre, (), 'real'), nan)
            if t in ('unsigned long', 'int', 'unsigned int', 'long'):
                a = App(pre, (), 'int')
                if 'unsigned' in t:
                    ex.global_pc.append(a.z3() >= 0)
                return In(a)
            if t == 'bool':
                return Bo(App(pre, (), 'bool').z3())
            if 'circular_buffer' in t:
                nm = pre
                c = Circ(z3.Const(nm + '.log', z3.ArraySort(z3.IntSort(), z3.RealSort())),
                         z3.Const(nm + '.nlog', z3.ArraySort(z3.IntSort(), z3.BoolSort())),
                         App(nm + '.end', (), 'int'), App(nm + '.size', (), 'int'), App(nm + '.cap', (), 'int'))
                ex.global_pc.append(z3.And(to_z3(c.size) >= 0, to_z3(c.size) <= to_z3(c.cap)))
                return c
            if re.match(r'std::vector<double', t):
                a = App('len.' + pre, (), 'int')
                ex.global_pc.append(a.z3() >= 0)
                r = arr_of(pre, 'dbl', P(a), None)
                return r
            if 'CallbackAbstract' in t:
                a = App('len.' + pre, (), 'int')
                ex.global_pc.append(a.z3() >= 0)
                return arr_of(pre, 'cb', P(a), None)
            if 'shared_ptr' in t and 'ShootingProblem' in t:
                return Ref('prob')
            if ex.big and name in ex.big:
                r, c = ex.big[name]
                return Big(pre, r, c)
            if re.match(r'Eigen::Matrix<double, -1, 1', t):
                n_ = App('len.' + pre, (), 'int')
                ex.global_pc.append(n_.z3() >= 0)
                return vec(pre, (), P(n_))
            if re.match(r'Eigen::Matrix<double, -1, -1', t):
                return mat(pre, (), P(App('rows.' + pre, (), 'int')), P(App('cols.' + pre, (), 'int')))
            if re.match(r'Eigen::Matrix<double, (\d+), 1', t):
                return vec(pre, (), P(int(re.match(r'Eigen::Matrix<double, (\d+), 1', t).group(1))))
            return Opq('field:' + name)
        return init

    # ------------------------------------------------------------ misc
    def default_value(self, ex, t):
        t = (t or '').replace('const ', '').strip()
        if t in ('double', 'float'):
            return None if False else Sc(tm.fresh('uninit', 'real'))
        if t in ('int', 'unsigned long', 'unsigned int', 'long'):
            return In(tm.fresh('uninit', 'int'))
        if t == 'bool':
            return Bo(tm.fresh('uninit', 'bool').z3())
        if re.match(r'Eigen::Matrix<double, -1, 1', t):
            return EV(Mat.zero('V'), 0, 1)
        if re.match(r'Eigen::Matrix<double, -1, -1', t):
            return EV(Mat.zero('M'), 0, 0)
        return Opq('local')

    def zero_value(self, ex, t):
        t = (t or '').replace('const ', '').strip()
        if t == 'double':
            return Sc(0)
        if t == 'bool':
            return Bo(False)
        if t == 'void':
            return Opq('void')
        return In(0)

    def global_var(self, ex, name, n):
        if name == 'Success':
            return In(0)
        if name in ('NumericalIssue', 'InvalidInput', 'NoConvergence'):
            return In(1)
        return None

    def construct(self, ex, n, args):
        t = (n.type or '').replace('const ', '')
        if not args:
            return self.default_value(ex, n.type)
        if len(args) == 1 or 'Ref<' in t:
            v = ex.ev(args[0])
            d = ex.deref(v)
            if isinstance(d, In) and re.match(r'Eigen::Matrix<double, -1, 1', t):
                return EV(Mat.atom(tm.fresh('junk', 'vec')), d.p, 1)
            if 'LLT' in t:
                if isinstance(d, In):
                    return LLT(EV(Mat.atom(App('llt0', tuple(P(x) for x in ex.loopvars), 'mat', True)), d.p, d.p))
                if isinstance(d, LLT):
                    return d
                return LLT(None)
            if isinstance(d, Circ) or isinstance(d, Arr):
                return d if 'Ref<' not in t else v
            if 'Ref<' in t and 'const' not in (n.type or '') and isinstance(v, LV):
                return v
            if isinstance(v, LV) and 'Ref<' in t:
                return v
            return d
        if is_qp(t):
            return QP([ex.rv(a) for a in args if a.kind != 'CXXDefaultArgExpr'])
        if re.match(r'Eigen::Matrix<double, -1, -1', t):
            r, c = ex.rv(args[0]), ex.rv(args[1])
            return EV(Mat.atom(tm.fresh('junk', 'mat')), r.p, c.p)
        if re.match(r'std::vector<double', t):
            k, v = ex.rv(args[0]), ex.rv(args[1])
            if isinstance(k, In):
                return Arr('dbl', Base('const', lambda j: v), k.p)
        return Opq('construct:' + t[:40])

    def member(self, ex, n, base, b):
        if isinstance(b, Opq):
            return Opq('member')
        if isinstance(b, (QP, Path_)):
            path = n.name if isinstance(b, QP) else b.path + '.' + n.name
            lv = base if isinstance(b, QP) else b.lv
            if path in ('settings', 'results', 'results.info'):
                return Path_(lv, path)
            return LQP(lv, path)
        raise Unsupported('member %s of %r' % (n.name, b))

    def iter_deref(self, ex, it, n):
        self.bound(ex, ex.deref(it.lv), it.idx, n)
        return LElem(it.lv, it.idx)

    # ------------------------------------------------------------ bounds
    def length(self, v):
        if isinstance(v, Arr):
            return v.len
        if isinstance(v, EV):
            return v.r if v.m.kind != 'R' else v.c
        if isinstance(v, Circ):
            return v.size
        if isinstance(v, Flat):
            return v.arr.len * v.stride
        if isinstance(v, Ref):
            if v.what == 'models' or v.what == 'datas':
                return P(T_)
        raise Unsupported('length of %r' % (v,))

    def bound(self, ex, v, j, n):
        ln = self.length(v)
        zj, zl = to_z3(P(j)), to_z3(ln)
        ex.oblige('index', z3.And(zj >= 0, zj < zl), 'index in range: %s' % ex.src(n), ex.where(n))

    def keeps_size(self, ex, key, v, idx=None):
        """class invariant: the buffers keep the sizes they were given by the constructor"""
        if ex.ctor:
            return
        if idx is None:
            if isinstance(v, Arr) and v.kind in ('vec', 'mat', 'llt'):
                sh = SHAPES_CLS.get(key) or SHAPES.get(key[1])
                if sh is not None and P(v.len).key() != P(sh[1]).key():
                    ex.oblige('dim', to_z3(P(v.len)) == to_z3(P(sh[1])), 'the buffer %s keeps its length' % key[1], None)
                return
            sh = SINGLE.get(key[1])
            if sh is None or key[1] in SCRATCH or not isinstance(v, EV):
                return
            d = sh[1]()
        else:
            sh = SHAPES_CLS.get(key) or SHAPES.get(key[1])
            if sh is None or sh[0] not in ('vec', 'mat') or key[1] in SCRATCH:
                return
            d = sh[2](idx)
        for x, y in zip((v.r, v.c), d):
            if P(x).key() != P(y).key():
                ex.oblige('dim', to_z3(P(x)) == to_z3(P(y)), 'the buffer %s keeps its size' % key[1], None)

    def same_dim(self, ex, a, b, n, what):
        if not ex.oblig_on or (ex.oblig_cats is not None and 'dim' not in ex.oblig_cats):
            return
        for x, y in ((a.r, b.r), (a.c, b.c)):
            if x.key() != y.key():
                ex.oblige('dim', to_z3(x) == to_z3(y), 'sizes agree: %s' % ex.src(n), ex.where(n))
        else:
            ex.oblige('dim', True, 'sizes agree: %s' % ex.src(n), ex.where(n))

    # ------------------------------------------------------------ views
    def view_get(self, ex, lv):
        v = lv.parent.get(ex)
        if lv.kind == 'noalias':
            return v
        if lv.kind == 'array':
            v = ex.as_ev(v)
            return EV(v.m, v.r, v.c, True, v.nan)
        if lv.kind == 'transpose':
            v = ex.as_ev(v)
            return EV(v.m.T(), v.c, v.r, False, v.nan)
        if lv.kind == 'diag':
            v = ex.as_ev(v)
            return EV(Mat.atom(App('diagof', (v.m,), 'vec')), v.r, 1, False, v.nan)
        if lv.kind == 'tri':
            return Tri(ex.as_ev(v))
        if lv.kind == 'selfadj':
            v = ex.as_ev(v)
            return EV(sym_upper(v.m), v.r, v.c, False, v.nan)
        raise Unsupported('read of view %s' % lv.kind)

    def view_set(self, ex, lv, v):
        if lv.kind in ('noalias', 'array'):
            if isinstance(v, EV):
                v = EV(v.m, v.r, v.c, False, v.nan)
            lv.parent.set(ex, v)
            return
        if lv.kind == 'tri' and isinstance(v, Tri):
            old = ex.as_ev(lv.parent.get(ex))
            lv.parent.set(ex, EV(Mat.atom(App('triu', (v.ev.m, old.m), 'mat')), old.r, old.c, False,
                                 zor(v.ev.nan, old.nan)))
            return
        if lv.kind == 'transpose':
            v = ex.as_ev(v)
            lv.parent.set(ex, EV(v.m.T(), v.c, v.r, False, v.nan))
            return
        raise Unsupported('assignment to view %s' % lv.kind)

    # ------------------------------------------------------------ arithmetic
    def neg(self, ex, v):
        v = ex.as_ev(v)
        if isinstance(v, Sc):
            return Sc(-v.p, v.nan)
        if isinstance(v, In):
            return In(-v.p)
        if isinstance(v, EV):
            return EV(-v.m, v.r, v.c, v.arr, v.nan)
        if isinstance(v, Opq):
            return v
        raise Unsupported('negation of %r' % (v,))

    def arith(self, ex, op, x, y, n):
        x, y = ex.as_ev(x), ex.as_ev(y)
        if isinstance(x, Opq) or isinstance(y, Opq):
            return Opq('op')
        if isinstance(x, Flat) or isinstance(y, Flat):
            return self.flat_arith(ex, op, x, y, n)
        if isinstance(x, In) and not isinstance(y, In):
            x = Sc(x.p)
        if isinstance(y, In) and not isinstance(x, In):
            y = Sc(y.p)
        if isinstance(x, In) and isinstance(y, In):
            return ex.binop(op, x, y, n)
        if isinstance(x, Iter) or isinstance(y, Iter):
            raise Unsupported('iterator arithmetic')
        if isinstance(x, Sc) and isinstance(y, Sc):
            nan = zor(x.nan, y.nan)
            if op == '+':
                return Sc(x.p + y.p, nan)
            if op == '-':
                return Sc(x.p - y.p, nan)
            if op == '*':
                return Sc(x.p * y.p, nan)
            if op == '/':
                if ex.ghost.get('#divnan') and not y.p.is_const():
                    nan = zor(nan, z3.And(y.z() == 0, x.z() == 0))
                return Sc(x.p.div(y.p), nan)
        if isinstance(x, Sc) and isinstance(y, EV):
            if op == '*':
                return EV(y.m.scale(x.p), y.r, y.c, y.arr, zor(x.nan, y.nan))
            if op in '+-' and y.arr:
                return self.arr_shift(ex, y if op == '+' else self.neg(ex, y), x, 1, n)
        if isinstance(x, EV) and isinstance(y, Sc):
            if op == '*':
                return EV(x.m.scale(y.p), x.r, x.c, x.arr, zor(x.nan, y.nan))
            if op == '/':
                return EV(x.m.scale(P(1).div(y.p)), x.r, x.c, x.arr, zor(x.nan, y.nan))
            if op in '+-' and x.arr:
                return self.arr_shift(ex, x, y, 1 if op == '+' else -1, n)
        if isinstance(x, EV) and isinstance(y, EV):
            nan = zor(x.nan, y.nan)
            if op in '+-':
                self.same_dim(ex, x, y, n, op)
                return EV(x.m + y.m if op == '+' else x.m - y.m, x.r, x.c, x.arr, nan)
            if op == '*' and not x.arr:
                if x.c.key() != y.r.key():
                    ex.oblige('dim', to_z3(x.c) == to_z3(y.r), 'inner sizes agree: %s' % ex.src(n), ex.where(n))
                else:
                    ex.oblige('dim', True, 'inner sizes agree: %s' % ex.src(n), ex.where(n))
                m = x.m * y.m
                m = self.zero_inner(ex, x, y, m)
                return EV(m, x.r, y.c, False, nan)
            if op == '*' and x.arr:
                self.same_dim(ex, x, y, n, op)
                return EV(tm.cwprod(x.m, y.m), x.r, x.c, True, nan)
            if op == '/' and x.arr:
                self.same_dim(ex, x, y, n, op)
                return EV(tm.cwprod(x.m, cwinv(y.m)), x.r, x.c, True, nan)
        raise Unsupported('operator %s on %r and %r' % (op, x, y))

    def arr_shift(self, ex, x, s, sg, n):
        if x.m.kind == 'V':
            return EV(x.m + Mat.atom(App('vconst', (P(s.p),), 'vec')).scale(sg), x.r, x.c, True, zor(x.nan, s.nan))
        raise Unsupported('array + scalar on a matrix')

    def zero_inner(self, ex, x, y, m):
        """a product over an inner dimension known to be 0 vanishes"""
        k = x.c
        if m.is_zero() or k.is_const() and k.cval() > 0:
            return m
        if k.key() in (NDX_.key(), NX_.key()):
            return m
        if ex.entails(to_z3(k) == 0):
            return Mat.zero(m.kind)
        return m

    def flat_arith(self, ex, op, x, y, n):
        raise Unsupported('block vector arithmetic')

    # ------------------------------------------------------------ operators
    def operator(self, ex, op, args, n):
        if op in ('operator[]', 'operator()'):
            obj = ex.ev(args[0])
            o = ex.deref(obj)
            if isinstance(o, Lam):
                return ex.call_lambda(o, [ex.ev(a) for a in args[1:]])
            if isinstance(o, Ref) and o.what == 'cb':
                h = ex.contracts.get('callback')
                if h:
                    return h(ex, [o] + list(args[1:]), n)
                raise Unsupported('callback call')
            if isinstance(o, Opq):
                for a in args[1:]:
                    ex.ev(a)
                return Opq('idx')
            i = ex.rv(args[1])
            if isinstance(i, Sc):
                raise Unsupported('double index')
            if len(args) == 3:
                raise Unsupported('matrix element access')
            self.bound(ex, o, i.p, n)
            if isinstance(o, Ref):
                return ex.elem_get(o, i.p)
            if not isinstance(obj, LV):
                obj = LTemp(o)
            return LElem(obj, i.p)
        if op == 'operator->' or (op == 'operator*' and len(args) == 1):
            v = ex.ev(args[0])
            d = ex.deref(v)
            if isinstance(d, Iter):
                e = self.iter_deref(ex, d, n)
                return e
            return d if isinstance(d, (Ref, Opq)) else v
        if op == 'operator<<':
            for a in args:
                try:
                    ex.ev(a)
                except Unsupported:
                    pass
            return Opq('stream')
        if op == 'operator=':
            lv = ex.ev(args[0])
            v = ex.rv(args[1])
            return self.assign(ex, lv, v, n, args)
        if op in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            lv = ex.ev(args[0])
            y = ex.rv(args[1])
            return self.compound(ex, lv, op[8], y, n)
        if op in ('operator++', 'operator--'):
            lv = ex.ev(args[0])
            old = ex.deref(lv)
            if isinstance(old, Iter):
                new = Iter(old.lv, old.idx + (1 if op == 'operator++' else -1))
                lv.set(ex, new)
                return old if len(args) == 2 else lv
            raise Unsupported(op)
        if op in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            x, y = ex.rv(args[0]), ex.rv(args[1])
            if isinstance(x, Opq) or isinstance(y, Opq):
                return Opq('cmp')
            return ex.compare(op[8:], x, y)
        if op in ('operator+', 'operator-', 'operator*', 'operator/'):
            if len(args) == 1:
                return self.neg(ex, ex.rv(args[0])) if op == 'operator-' else ex.rv(args[0])
            x, y = ex.rv(args[0]), ex.rv(args[1])
            return self.arith(ex, op[8], x, y, n)
        raise Unsupported('operator %s' % op)

    def assign(self, ex, lv, v, n, args=None):
        if not isinstance(lv, LV):
            if isinstance(lv, Opq):
                return lv
            raise Unsupported('assignment to %r' % (lv,))
        if isinstance(v, BigView):
            v = v.read(ex)
        if isinstance(v, EV):
            v = EV(v.m, v.r, v.c, False, v.nan)
        tgt = lv
        while isinstance(tgt, LView) and tgt.kind in ('noalias', 'array'):
            tgt = tgt.parent
        if isinstance(tgt, (_Seg,)):
            tgt.set_checked(ex, v, n)
            return lv
        if isinstance(v, (Opq,)):
            cur = None
            try:
                cur = lv.get(ex)
            except Unsupported:
                pass
            if not isinstance(cur, (Opq, type(None))):
                raise Unsupported('assignment of unmodelled value to %s' % ex.src(n))
        if isinstance(v, Sc):
            cur = lv.get(ex)
            if isinstance(cur, EV):
                raise Unsupported('scalar fill assignment')
        lv.set(ex, v)
        return lv

    def compound(self, ex, lv, op, y, n):
        if not isinstance(lv, LV):
            raise Unsupported('compound assignment to %r' % (lv,))
        base = lv
        while isinstance(base, LView) and base.kind in ('noalias', 'array'):
            base = base.parent
        if isinstance(base, LView) and base.kind == 'diag':
            par = ex.as_ev(base.parent.get(ex))
            if isinstance(y, In):
                y = Sc(y.p)
            if isinstance(y, Sc):
                if op not in '+-':
                    raise Unsupported('diagonal %s=' % op)
                m = par.m + Mat.ident(y.p if op == '+' else -y.p)
                base.parent.set(ex, EV(m, par.r, par.c, False, zor(par.nan, y.nan)))
                return lv
            y = ex.as_ev(y)
            d = tm.diag(y.m)
            base.parent.set(ex, EV(par.m + d if op == '+' else par.m - d, par.r, par.c, False, zor(par.nan, y.nan)))
            return lv
        x = ex.deref(lv)
        if isinstance(x, Opq):
            return lv
        x = ex.as_ev(x)
        if isinstance(x, Sc) and isinstance(y, In):
            y = Sc(y.p)
        r = self.arith(ex, op, x, y, n)
        if isinstance(base, _Seg):
            base.set_checked(ex, r, n)
            return lv
        lv.set(ex, r)
        return lv

    # ------------------------------------------------------------ free functions
    def free_call(self, ex, name, n, probe=False):
        known = ('max', 'min', 'isnan', 'isfinite', 'isinf', 'raiseIfNaN', 'infinity', 'abs', 'fabs', 'sqrt', 'pow',
                 'epsilon', 'to_string', 'Zero', 'Identity', 'Constant', 'getProfiler', 'move', 'Ones',
                 'quiet_NaN', 'setprecision', 'scientific', 'fixed', 'endl', 'flush', 'max_element', 'floor',
                 'ceil', 'swap', 'fill', 'make_shared', 'static_pointer_cast', 'signaling_NaN', 'lowest',
                 'forward', 'setw', 'setfill', 'hypot', 'copysign', 'clamp', 'accumulate', 'ref', 'exp', 'log')
        if probe:
            return True if name in known else None
        a = [c for c in n.inner[1:] if c]
        t = (n.type or '').replace('const ', '')
        if name in ('max', 'min') and len(a) == 0:
            return Sc(App('DBL_' + name.upper(), (), 'real')) if 'double' in t else In(App('INT_' + name.upper(), (), 'int'))
        if name in ('max', 'min') and len(a) == 2:
            x, y = ex.rv(a[0]), ex.rv(a[1])
            return self.minmax(ex, name, x, y)
        if name in ('max', 'min') and len(a) == 1:
            xs = init_list(a[0])
            if xs and 'double' in t:
                r = ex.rv(xs[0])
                for q in xs[1:]:
                    r = self.minmax(ex, name, r, ex.rv(q))
                return r
        if name == 'clamp':
            x, lo, hi = [ex.rv(q) for q in a]
            return self.minmax(ex, 'min', self.minmax(ex, 'max', x, lo), hi)
        if name == 'isnan':
            v = ex.rv(a[0])
            return Bo(v.nan if isinstance(v, Sc) and v.nan is not None else False)
        if name == 'isfinite':
            v = ex.rv(a[0])
            return Bo(z3.Not(v.nan) if isinstance(v, Sc) and v.nan is not None else True)
        if name == 'isinf':
            return Bo(False)
        if name == 'raiseIfNaN':
            v = ex.rv(a[0])
            if ex.finite:
                ex.notes.add('exact-mode units: raiseIfNaN(x) is false (values are finite and below 1e30); '
                             'throwing evaluations are covered by the NaN and exception units')
                return Bo(v.nan if v.nan is not None else False)
            b = App('isbad', (v.p,), 'bool').z3()
            if v.nan is not None:
                b = z3.Or(b, v.nan)
            return Bo(b)
        if name == 'infinity':
            return Sc(INF)
        if name in ('quiet_NaN', 'signaling_NaN'):
            return Sc(tm.fresh('nanval', 'real'), z3.BoolVal(True))
        if name == 'lowest':
            return Sc(-P(App('DBL_MAX', (), 'real')))
        if name in ('abs', 'fabs'):
            v = ex.rv(a[0])
            if isinstance(v, In):
                z = v.z()
                return In(zpoly(z3.simplify(z3.If(z < 0, -z, z))))
            z = v.z()
            if v.p.is_const():
                return Sc(abs(v.p.cval()), v.nan)
            return Sc(zpoly(z3.simplify(z3.If(z < 0, -z, z))), v.nan)
        if name == 'sqrt':
            v = ex.rv(a[0])
            nan = v.nan
            if ex.ghost.get('#divnan'):
                nan = zor(nan, v.z() < 0)
            return Sc(App('sqrt', (v.p,), 'real'), nan)
        if name in ('exp', 'log', 'floor', 'ceil'):
            v = ex.rv(a[0])
            return Sc(App(name, (v.p,), 'real'), v.nan)
        if name == 'pow':
            x, y = ex.rv(a[0]), ex.rv(a[1])
            if x.p.is_const() and y.p.is_const() and y.p.cval().denominator == 1:
                return Sc(x.p.cval() ** int(y.p.cval()))
            return Sc(App('pow', (x.p, y.p), 'real'))
        if name == 'epsilon':
            return Sc(Fraction(1, 2 ** 52))
        if name in ('Zero', 'Identity', 'Constant', 'Ones'):
            xs = [ex.rv(q) for q in a]
            isvec = bool(re.search(r'Matrix<double, (-1|\d+), 1', t))
            if name == 'Zero':
                if isvec:
                    return EV(Mat.zero('V'), xs[0].p if xs else 2, 1)
                return EV(Mat.zero('M'), xs[0].p, xs[1].p)
            if name == 'Identity':
                return EV(Mat.ident(), xs[0].p, xs[1].p)
            if isvec:
                v = P(1) if name == 'Ones' else xs[1].p
                return EV(Mat.atom(App('vconst', (P(v),), 'vec')), xs[0].p, 1)
            raise Unsupported(name)
        if name in ('to_string', 'getProfiler', 'setprecision', 'scientific', 'fixed', 'endl', 'flush', 'setw',
                    'setfill'):
            return Opq(name)
        if name in ('move', 'forward', 'ref'):
            return ex.ev(a[0])
        if name == 'swap' and len(a) == 2:
            x, y = ex.ev(a[0]), ex.ev(a[1])
            vx, vy = ex.deref(x), ex.deref(y)
            x.set(ex, vy)
            y.set(ex, vx)
            return Opq('void')
        h = ex.contracts.get('free:' + name)
        if h:
            return h(ex, [ex.ev(q) for q in a], n)
        raise Unsupported('call of %s at %s' % (name, ex.where(n)))

    def minmax(self, ex, name, x, y):
        if isinstance(x, In) and isinstance(y, In):
            if x.p.is_const() and y.p.is_const():
                f = max if name == 'max' else min
                return In(f(x.p.cval(), y.p.cval()))
            a, b = x.z(), y.z()
            return In(zpoly(z3.If(a < b, b, a) if name == 'max' else z3.If(b < a, b, a)))
        if isinstance(x, In):
            x = Sc(x.p)
        if isinstance(y, In):
            y = Sc(y.p)
        # std::max(a,b) = (a<b)?b:a, std::min(a,b) = (b<a)?b:a : NaN in b is dropped, NaN in a is kept
        nan = x.nan
        if x.nan is not None or y.nan is not None:
            # value when y is NaN: x ; when x is NaN: NaN
            yn = y.nan if y.nan is not None else z3.BoolVal(False)
            if not z3.is_false(z3.simplify(yn)):
                p = mm(name, x.p, y.p)
                v = zpoly(z3.simplify(z3.If(yn, to_z3(x.p, 'real'), to_z3(p, 'real'))))
                return Sc(v, nan)
        return Sc(mm(name, x.p, y.p), nan)

    # ------------------------------------------------------------ methods
    def method(self, ex, n, me, obj):
        name = me.name
        o = ex.deref(obj)
        a = [c for c in n.inner[1:] if c and c.kind != 'CXXDefaultArgExpr']
        if isinstance(o, Opq):
            if o.tag == 'getProfiler' and name == 'take_time' or name == 'take_time':
                h = ex.contracts.get('take_time')
                if h:
                    return h(ex, [], n)
                ex.ghost['#time'] = ex.ghost.get('#time', 0) + 1
                return Sc(App('time!%d' % ex.ghost['#time'], (), 'real'))
            return Opq('m')
        if isinstance(o, Ref):
            return self.ref_method(ex, n, name, o, a)
        if isinstance(o, Circ):
            return self.circ_method(ex, n, name, obj, o, a)
        if isinstance(o, Arr) and o.kind != 'dvec':
            return self.arr_method(ex, n, name, obj, o, a)
        if isinstance(o, LLT):
            return self.llt_method(ex, n, name, obj, o, a)
        if isinstance(o, Flat):
            return self.flat_method(ex, n, me, name, obj, o, a)
        if isinstance(o, (Big, BigView)):
            return self.big_method(ex, n, name, obj, o, a)
        if isinstance(o, QP):
            return self.qp_method(ex, n, name, obj, o, a)
        if isinstance(o, (EV, Arr)):
            return self.eigen_method(ex, n, me, name, obj, o, a)
        if isinstance(o, Iter):
            raise Unsupported('method %s on iterator' % name)
        if isinstance(o, (In, Sc, Bo)) and name in ('get', 'value'):
            return o
        raise Unsupported('method %s on %r' % (name, o))

    def arr_method(self, ex, n, name, lv, o, a):
        if name == 'size':
            return In(o.len)
        if name == 'empty':
            return Bo(to_z3(o.len) == 0)
        if name == 'back':
            self.bound(ex, o, o.len - 1, n)
            return LElem(lv, o.len - 1)
        if name == 'front':
            self.bound(ex, o, P(0), n)
            return LElem(lv, P(0))
        if name == 'at':
            i = ex.rv(a[0]).p
            self.bound(ex, o, i, n)
            return LElem(lv, i)
        if name in ('begin', 'cbegin'):
            return Iter(lv, 0)
        if name in ('end', 'cend'):
            return Iter(lv, o.len)
        if name == 'resize':
            k = ex.rv(a[0]).p
            lv.set(ex, Arr(o.kind, o.base, k, o.layers))
            return Opq('void')
        if name in ('clear',):
            lv.set(ex, Arr(o.kind, o.base, P(0), ()))
            return Opq('void')
        if name == 'reserve':
            return Opq('void')
        if name == 'push_back':
            v = ex.rv(a[0])
            b = Arr(o.kind, o.base, o.len + 1, o.layers).store(o.len, v)
            lv.set(ex, b)
            return Opq('void')
        if name == 'fill' or name == 'assign':
            raise Unsupported('vector::%s' % name)
        raise Unsupported('vector::%s' % name)

    def circ_method(self, ex, n, name, lv, o, a):
        if name == 'push_back':
            v = ex.rv(a[0])
            zc = to_z3(o.cap)
            if ex.merge:
                nz = v.nan if v.nan is not None else z3.BoolVal(False)
                ze, zs = to_z3(o.end), to_z3(o.size)
                log, nl = z3.Store(o.log, ze, v.z()), z3.Store(o.nlog, ze, nz)
                pos = zc > 0
                if ex.entails(pos):
                    end = o.end + 1
                else:
                    log, nl = z3.If(pos, log, o.log), z3.If(pos, nl, o.nlog)
                    end = zpoly(z3.If(pos, ze + 1, ze))
                if ex.entails(zs >= zc):
                    size = o.cap
                else:
                    size = zpoly(z3.If(zs >= zc, zc, zs + 1))
                lv.set(ex, Circ(log, nl, end, size, o.cap))
                return Opq('void')
            # capacity 0: nothing happens
            if not ex.decide(zc > 0):
                return Opq('void')
            ze = to_z3(o.end)
            log = z3.Store(o.log, ze, v.z())
            nl = z3.Store(o.nlog, ze, v.nan if v.nan is not None else z3.BoolVal(False))
            full = ex.decide(to_z3(o.size) >= zc)
            lv.set(ex, Circ(log, nl, o.end + 1, o.cap if full else o.size + 1, o.cap))
            return Opq('void')
        if name == 'size':
            return In(o.size)
        if name == 'capacity':
            return In(o.cap)
        if name in ('clear',):
            lv.set(ex, Circ(o.log, o.nlog, o.end, P(0), o.cap))
            return Opq('void')
        if name == 'back':
            ex.oblige('index', to_z3(o.size) > 0, 'back() of a non-empty buffer', ex.where(n))
            return ex.elem_get(o, o.size - 1)
        if name == 'front':
            ex.oblige('index', to_z3(o.size) > 0, 'front() of a non-empty buffer', ex.where(n))
            return ex.elem_get(o, P(0))
        if name == 'at':
            i = ex.rv(a[0]).p
            return ex.elem_get(o, i)
        if name == 'resize':
            k = ex.rv(a[0]).p
            fill = ex.rv(a[1]) if len(a) > 1 else Sc(0)
            zk, zs = to_z3(k), to_z3(o.size)
            if ex.decide(zk <= zs):
                # elements are removed from the end; the capacity is kept
                lv.set(ex, Circ(o.log, o.nlog, o.end - (o.size - k), k, o.cap))
            else:
                # elements are appended at the end; the capacity grows if needed
                i = z3.Int('i!rs')
                log = z3.Lambda([i], z3.If(z3.And(i >= to_z3(o.end), i < to_z3(o.end + (k - o.size))), fill.z(),
                                           z3.Select(o.log, i)))
                nl = z3.Lambda([i], z3.If(z3.And(i >= to_z3(o.end), i < to_z3(o.end + (k - o.size))),
                                          z3.BoolVal(False), z3.Select(o.nlog, i)))
                cap = k if ex.decide(zk > to_z3(o.cap)) else o.cap
                lv.set(ex, Circ(log, nl, o.end + (k - o.size), k, cap))
            return Opq('void')
        if name in ('set_capacity', 'rset_capacity'):
            k = ex.rv(a[0]).p
            if ex.decide(to_z3(k) < to_z3(o.size)):
                if name == 'set_capacity':
                    lv.set(ex, Circ(o.log, o.nlog, o.end - (o.size - k), k, k))
                else:
                    lv.set(ex, Circ(o.log, o.nlog, o.end, k, k))
            else:
                lv.set(ex, Circ(o.log, o.nlog, o.end, o.size, k))
            return Opq('void')
        if name == 'rresize':
            k = ex.rv(a[0]).p
            if ex.decide(to_z3(k) <= to_z3(o.size)):
                lv.set(ex, Circ(o.log, o.nlog, o.end, k, o.cap))
                return Opq('void')
        raise Unsupported('circular_buffer::%s' % name)

    def llt_method(self, ex, n, name, lv, o, a):
        if name == 'compute':
            m = ex.as_ev(ex.rv(a[0]))
            if m.r.key() != m.c.key():
                ex.oblige('dim', to_z3(m.r) == to_z3(m.c), 'LLT of a square matrix', ex.where(n))
            if o.m is not None and o.m.r.key() != m.r.key():
                ex.oblige('dim', to_z3(o.m.r) == to_z3(m.r), 'the factorisation keeps its size: %s' % ex.src(n), ex.where(n))
            lv.set(ex, LLT(m))
            return lv
        if name == 'info':
            if o.m is None:
                raise Unsupported('info() before compute()')
            b = App('posdef', (o.m.m,), 'bool').z3()
            if ex.nanmode and o.m.nan is not None:
                b = z3.And(b, z3.Not(o.m.nan)) if ex.ghost.get('#lltnan') else b
            return In(zpoly(z3.If(b, z3.IntVal(0), z3.IntVal(1))))
        if name == 'solveInPlace':
            tgt = ex.ev(a[0])
            v = ex.as_ev(ex.deref(tgt))
            if o.m is None:
                raise Unsupported('solve before compute')
            r = self.llt_solve(ex, o, v, n)
            while isinstance(tgt, LView) and tgt.kind == 'noalias':
                tgt = tgt.parent
            tgt.set(ex, r)
            return Opq('void')
        if name == 'solve':
            v = ex.as_ev(ex.rv(a[0]))
            return self.llt_solve(ex, o, v, n)
        raise Unsupported('LLT::%s' % name)

    def llt_solve(self, ex, o, v, n):
        if o.m.r.key() != v.r.key():
            ex.oblige('dim', to_z3(o.m.r) == to_z3(v.r), 'LLT solve sizes agree: %s' % ex.src(n), ex.where(n))
        m = tm.inv(o.m.m) * v.m
        return EV(m, v.r, v.c, False, zor(o.m.nan, v.nan))

    def flat_method(self, ex, n, me, name, lv, o, a):
        if name in ('segment', 'tail', 'head'):
            xs = [ex.rv(q).p for q in a]
            ln = xs[-1]
            if ln.key() != o.stride.key():
                raise Unsupported('segment of a length different from the block size')
            if name == 'tail':
                k = o.arr.len - 1
            elif name == 'head':
                k = P(0)
            else:
                k = div_exact(xs[0], o.stride)
                if k is None:
                    raise Unsupported('segment offset is not a multiple of the block size')
            zk = to_z3(k)
            ex.oblige('index', z3.And(zk >= 0, zk < to_z3(o.arr.len)), 'block in range: %s' % ex.src(n), ex.where(n))
            return _Seg(lv, k)
        if name == 'lpNorm':
            p = norm_kind(n, me)
            return flat_norm(ex, o, p)
        if name == 'setZero':
            lv.set(ex, Flat(Arr('vec', Base('zeroblk', lambda j: EV(Mat.zero('V'), o.stride, 1)), o.arr.len), o.stride))
            return Opq('void')
        if name == 'resize':
            return Opq('void')
        if name == 'size':
            return In(o.arr.len * o.stride)
        if name in ('allFinite', 'hasNaN'):
            if not ex.nanmode:
                return Bo(name == 'allFinite')
            q = flat_nan(ex, o)
            return Bo(z3.Not(q) if name == 'allFinite' else q)
        raise Unsupported('block vector method %s' % name)

    def big_method(self, ex, n, name, lv, o, a):
        if name in ('noalias', 'derived', 'eval', 'matrix') and isinstance(lv, LV):
            return lv
        view = isinstance(o, BigView)
        row, nr, col, nc = (o.row, o.nr, o.col, o.nc) if view else (P(0), o.r, P(0), o.c)
        vec_ = nc.key() == P(1).key()
        if name == 'rows':
            return In(nr)
        if name == 'cols':
            return In(nc)
        if name == 'size':
            return In(nr * nc)
        xs = None
        r0, k, c0, m = P(0), nr, P(0), nc
        if name in BLOCKS:
            xs = [ex.rv(q) for q in a]
            if not all(isinstance(x, In) for x in xs):
                raise Unsupported('block index at %s' % ex.where(n))
            xs = [x.p for x in xs]
        if name == 'middleRows' and len(xs) == 2:
            r0, k = xs
        elif name == 'middleCols' and len(xs) == 2:
            c0, m = xs
        elif name == 'segment' and vec_ and len(xs) == 2:
            r0, k = xs
        elif name in ('head', 'topRows') and len(xs) == 1:
            k = xs[0]
        elif name in ('tail', 'bottomRows') and len(xs) == 1:
            k = xs[0]
            r0 = nr - k
        elif name == 'leftCols' and len(xs) == 1:
            m = xs[0]
        elif name == 'rightCols' and len(xs) == 1:
            m = xs[0]
            c0 = nc - m
        elif name == 'block' and len(xs) == 4:
            r0, c0, k, m = xs
        elif name == 'topLeftCorner' and len(xs) == 2:
            k, m = xs
        elif name == 'bottomRightCorner' and len(xs) == 2:
            k, m = xs
            r0, c0 = nr - k, nc - m
        elif name == 'row' and len(xs) == 1:
            r0, k = xs[0], P(1)
        elif name == 'col' and len(xs) == 1:
            c0, m = xs[0], P(1)
        elif name == 'setZero' and not a:
            if not view:
                lv.set(ex, Big(o.name.split('|')[0] + '|0', o.r, o.c, ()))
            else:
                lv.set(ex, EV(Mat.zero('V' if vec_ else 'M'), nr, nc))
            return lv
        elif name == 'setIdentity' and not a and view:
            lv.set(ex, EV(Mat.ident(), nr, nc))
            return lv
        elif name == 'sparseView' and not view:
            if o.ws is None:
                raise Unsupported('sparseView of unknown content')
            return Sparse(o)
        elif name in ('setZero', 'resize', 'conservativeResize'):
            xs = [ex.rv(q).p for q in a]
            if xs[0].key() == nr.key() and (len(xs) < 2 or xs[1].key() == nc.key()):
                if name == 'setZero':
                    lv.set(ex, Big(o.name.split('|')[0] + '|0', o.r, o.c, ()))
                return lv
            if ex.ctor and not view:
                z = '|0' if name == 'setZero' else ''
                lv.set(ex, Big(o.name.split('|')[0] + z, xs[0], xs[1] if len(xs) > 1 else P(1), ()))
                return lv
            raise Unsupported('resizing of %s' % (o.name if not view else 'a block'))
        else:
            raise Unsupported('Eigen method %s at %s' % (name, ex.where(n)))
        for what, i, cnt, tot in (('rows', r0, k, nr), ('columns', c0, m, nc)):
            if i.is_zero() and cnt.key() == tot.key():
                continue
            zi, zc = to_z3(i), to_z3(cnt)
            ex.oblige('index', z3.And(zi >= 0, zc >= 0, self.fits(ex, i + cnt, tot)), 'block %s in range: %s' % (what, ex.src(n)),
                      ex.where(n))
        root = lv.parent if isinstance(lv, LBlk) else lv
        return LBlk(root, row + r0, k, col + c0, m)

    def fits(self, ex, end, tot):
        """end <= tot, dimension sums being monotone"""
        d = tot - end
        extra = []
        for mono, c in d.t.items():
            for a, e in mono:
                if a.name.startswith('psum.'):
                    extra.append(a)
        facts = []
        for a in extra:
            w = a.name[5:]
            for b in extra:
                if a is b:
                    continue
                x, y = to_z3(P(a.args[0])), to_z3(P(b.args[0]))
                dim = to_z3(P(App(w, (b.args[0],), 'int')))
                if b.name == a.name:
                    # b = node of the smaller sum: everything before b, and node b itself
                    facts.append(z3.Implies(z3.And(0 <= y, y < x), to_z3(P(b)) + dim <= to_z3(P(a))))
                    facts.append(z3.Implies(y == x, to_z3(P(b)) == to_z3(P(a))))
            facts.append(z3.Implies(to_z3(P(a.args[0])) <= 0, to_z3(P(a)) == 0))
            facts.append(z3.Implies(0 < to_z3(P(a.args[0])), to_z3(P(App(w, (P(0),), 'int'))) <= to_z3(P(a))))
        return z3.Implies(z3.And(*facts), to_z3(end) <= to_z3(tot)) if facts else to_z3(end) <= to_z3(tot)

    def qp_method(self, ex, n, name, lv, o, a):
        if name == 'init':
            lv.set(ex, o.with_(args=tuple(ex.rv(q) for q in a), run=None))
            h = ex.contracts.get('qp')
            if h:
                h(ex, 'init')
            return Opq('void')
        if name == 'solve' and not a:
            h = ex.contracts.get('qp')
            if h:
                h(ex, 'solve')
            k = ex.loopno
            ex.loopno += 1
            o = o.with_(run='qp%d' % k)
            lv.set(ex, o)
            ex.ghost['qp'] = o
            return Opq('void')
        raise Unsupported('QP method %s' % name)

    def eigen_method(self, ex, n, me, name, lv, o, a):
        isl = isinstance(lv, LV)
        if name == 'noalias':
            return LView('noalias', lv)
        if name in ('array', 'matrix'):
            if isl:
                return LView('array', lv) if name == 'array' else lv
            e = ex.as_ev(o)
            return EV(e.m, e.r, e.c, name == 'array', e.nan)
        if name == 'derived' or name == 'eval' or name == 'const_cast_derived':
            return lv
        if name == 'transpose' and isl:
            return LView('transpose', lv)
        if name == 'diagonal':
            return LView('diag', lv if isl else LTemp(o))
        if name == 'triangularView':
            if 'Upper' not in front.text(me) and 'Upper' not in front.text(n):
                raise Unsupported('triangularView kind')
            return LView('tri', lv) if isl else Tri(ex.as_ev(o))
        if name == 'selfadjointView':
            if 'Upper' not in front.text(me) and 'Upper' not in front.text(n):
                raise Unsupported('selfadjointView kind')
            e = ex.as_ev(o)
            return EV(sym_upper(e.m), e.r, e.c, False, e.nan)
        e = ex.as_ev(o)
        if name == 'setZero':
            if a:
                xs = [ex.rv(q).p for q in a]
                lv.set(ex, EV(Mat.zero(e.m.kind), xs[0], xs[1] if len(xs) > 1 else e.c))
            else:
                lv.set(ex, EV(Mat.zero(e.m.kind), e.r, e.c))
            return lv
        if name == 'fill' or name == 'setConstant':
            v = ex.rv(a[0])
            v = Sc(v.p) if isinstance(v, In) else v
            if v.p.is_zero():
                lv.set(ex, EV(Mat.zero(e.m.kind), e.r, e.c, nan=v.nan))
            elif e.m.kind == 'V':
                lv.set(ex, EV(Mat.atom(App('vconst', (v.p,), 'vec')), e.r, e.c, nan=v.nan))
            else:
                raise Unsupported('fill of a matrix')
            return lv
        if name == 'setIdentity':
            lv.set(ex, EV(Mat.ident(), e.r, e.c))
            return lv
        if name in ('resize', 'conservativeResize'):
            xs = [ex.rv(q).p for q in a]
            r = xs[0]
            c = xs[1] if len(xs) > 1 else P(1)
            if r.key() == e.r.key() and c.key() == e.c.key():
                return lv
            k = 'vec' if e.m.kind == 'V' else 'mat'
            nm = 'junk@%s' % ex.where(n)
            lv.set(ex, EV(Mat.atom(App(nm, tuple(P(x) for x in ex.loopvars), k)), r, c))
            return lv
        if name in ('rows', 'size'):
            return In(e.r if name == 'rows' or e.m.kind == 'V' else e.r * e.c)
        if name == 'cols':
            return In(e.c)
        if name == 'transpose':
            return EV(e.m.T(), e.c, e.r, False, e.nan)
        if name == 'asDiagonal':
            return EV(tm.diag(e.m), e.r, e.r, False, e.nan)
        if name in ('cwiseMax', 'cwiseMin'):
            b = ex.as_ev(ex.rv(a[0]))
            if isinstance(b, In):
                b = Sc(b.p)
            if isinstance(b, Sc):
                bm = Mat.atom(App('vconst', (b.p,), 'vec')) if not b.p.is_zero() else Mat.zero('V')
                b = EV(bm, e.r, e.c, nan=b.nan)
            self.same_dim(ex, e, b, n, name)
            # as std::max, std::min entry by entry: a NaN of the argument is dropped, one of the object is kept
            # (sampled against the installed Eigen: harness TRUST)
            return EV(tm.vfun('max' if name == 'cwiseMax' else 'min', e.m, b.m), e.r, e.c, e.arr, e.nan)
        if name == 'cwiseProduct':
            b = ex.as_ev(ex.rv(a[0]))
            self.same_dim(ex, e, b, n, name)
            return EV(tm.cwprod(e.m, b.m), e.r, e.c, False, zor(e.nan, b.nan))
        if name == 'cwiseQuotient':
            b = ex.as_ev(ex.rv(a[0]))
            self.same_dim(ex, e, b, n, name)
            return EV(tm.cwprod(e.m, cwinv(b.m)), e.r, e.c, False, zor(e.nan, b.nan))
        if name in ('cwiseAbs', 'abs'):
            return EV(vabs(e.m), e.r, e.c, e.arr, e.nan)
        if name in ('cwiseInverse', 'inverse') and (name == 'cwiseInverse' or e.arr):
            return EV(cwinv(e.m), e.r, e.c, e.arr, e.nan)
        if name == 'lpNorm':
            p = norm_kind(n, me)
            return self.norm(ex, e, p)
        if name == 'maxCoeff' and is_vabs(e.m):
            return self.norm(ex, EV(is_vabs(e.m), e.r, e.c, nan=e.nan), 'inf')
        if name == 'sum' and is_vabs(e.m):
            return self.norm(ex, EV(is_vabs(e.m), e.r, e.c, nan=e.nan), '1')
        if name == 'squaredNorm':
            return Sc(App('sqnorm', (tm.sign_norm(e.m),), 'real') if not e.m.is_zero() else 0, e.nan)
        if name == 'norm':
            return Sc(App('sqrt', (P(App('sqnorm', (tm.sign_norm(e.m),), 'real')),), 'real') if not e.m.is_zero() else 0,
                      e.nan)
        if name == 'dot':
            b = ex.as_ev(ex.rv(a[0]))
            self.same_dim(ex, e, b, n, name)
            return Sc(tm.scal(e.m.T() * b.m), zor(e.nan, b.nan))
        if name == 'allFinite':
            return Bo(True if e.nan is None else z3.Not(e.nan))
        if name == 'hasNaN':
            return Bo(False if e.nan is None else e.nan)
        if name == 'isZero':
            return Bo(App('iszero', (e.m,), 'bool').z3())
        if name == 'data':
            return Opq('data')
        if name == 'llt':
            return LLT(e)
        if name == 'swap':
            y = ex.ev(a[0])
            vy = ex.deref(y)
            y.set(ex, o)
            lv.set(ex, vy)
            return Opq('void')
        h = ex.contracts.get('eigen:' + name)
        if h:
            return h(ex, lv, e, a, n)
        raise Unsupported('Eigen method %s at %s' % (name, ex.where(n)))

    def norm(self, ex, e, p):
        if e.m.kind == 'M' and False:
            raise Unsupported('matrix norm')
        nan = e.nan
        if e.m.kind == 'M':
            return Sc(App('mnorm' + p, (e.m,), 'real'), nan)
        m = e.m if e.m.kind == 'V' else e.m.T()
        if not e.r.is_const() and e.r.key() != NDX_.key() and not m.is_zero() and e.m.kind == 'V':
            if ex.entails(to_z3(e.r) == 0):
                return Sc(0, nan)
        if p == 'inf' and nan is not None:
            # Eigen's maxCoeff gives no guarantee for NaN entries: result may hide them
            if ex.ghost.get('#infnan'):
                return Sc(tm.norminf(m), nan)
            return Sc(tm.norminf(m), None)
        return Sc(tm.norm1(m) if p == '1' else tm.norminf(m), nan)

    # ------------------------------------------------------------ crocoddyl handles
    def ref_method(self, ex, n, name, o, a):
        w = o.what
        if w == 'prob':
            if name == 'get_T':
                return In(T_)
            if name == 'get_ndx':
                return In(NDX)
            if name == 'get_nx':
                return In(NX)
            if name == 'get_runningModels':
                return Ref('models')
            if name == 'get_runningDatas':
                return Ref('datas')
            if name == 'get_terminalModel':
                return Ref('model', P(T_))
            if name == 'get_terminalData':
                return Ref('data', P(T_))
            if name == 'get_x0':
                return x0_value()
            if name == 'is_updated':
                ex.notes.add('ShootingProblem::is_updated() is false (dimensions fixed at construction)')
                return Bo(False)
            if name == 'get_nthreads':
                return In(P(App('nthreads', (), 'int')))
            if name in ('calc', 'calcDiff'):
                xs, us = ex.ev(a[0]), ex.ev(a[1])
                h = ex.contracts.get('problem.' + name)
                if h:
                    r = h(ex, [xs, us], n)
                    if r is not NotImplemented:
                        return r
                return self.problem_calc(ex, name, ex.deref(xs), ex.deref(us), n)
            if name in ('get', 'operator bool'):
                return o
        if w == 'model':
            t = o.idx
            if name == 'get_nu':
                return In(nu(t))
            if name in ('get_ng',):
                return In(ng(t))
            if name == 'get_nh':
                return In(P(App('nh', (t,), 'int')))
            if name == 'get_state':
                return Ref('state', t)
            if name == 'get_g_lb':
                return vec('g_lb', (t,), ng(t))
            if name == 'get_g_ub':
                return vec('g_ub', (t,), ng(t))
            if name in ('calc', 'calcDiff'):
                d = ex.rv(a[0])
                xs = [ex.as_ev(ex.rv(q)) for q in a[1:]]
                h = ex.contracts.get('model.' + name)
                if h:
                    r = h(ex, o, d, xs, n)
                    if r is not NotImplemented:
                        return r
                return self.model_calc(ex, name, o, d, xs, n)
        if w == 'models' or w == 'datas':
            if name == 'size':
                return In(T_)
            if name == 'back':
                return Ref(w[:-1], P(T_) - 1)
            if name == 'front':
                return Ref(w[:-1], P(0))
            if name in ('begin', 'cbegin'):
                return Iter(LTemp(o), 0)
            if name in ('end', 'cend'):
                return Iter(LTemp(o), T_)
            if name == 'at':
                return ex.elem_get(o, ex.rv(a[0]).p)
        if w == 'state':
            if name == 'integrate':
                return self.state_op(ex, 'integrate', NX_, (NX_, NDX_), a, n)
            if name == 'diff':
                return self.state_op(ex, 'diff', NDX_, (NX_, NX_), a, n)
            if name == 'zero':
                return vec('state_zero', (), NX_)
            if name == 'get_nx':
                return In(NX)
            if name == 'get_ndx':
                return In(NDX)
            if name in ('Jintegrate', 'Jdiff'):
                raise Unsupported(name)
        if name in ('get', 'use_count'):
            return o
        raise Unsupported('method %s on %s at %s' % (name, w, ex.where(n)))

    def state_op(self, ex, name, nout, nin, a, n):
        x = ex.as_ev(ex.rv(a[0]))
        y = ex.as_ev(ex.rv(a[1]))
        for v, d in ((x, nin[0]), (y, nin[1])):
            if v.r.key() != d.key():
                ex.oblige('dim', to_z3(v.r) == to_z3(d), 'argument size of %s: %s' % (name, ex.src(n)), ex.where(n))
        nan = zor(x.nan, y.nan)
        if name == 'integrate' and y.m.is_zero():
            ex.notes.add('State::integrate(x, 0) = x')
            m = x.m
        elif name == 'diff' and x.m.key() == y.m.key():
            ex.notes.add('State::diff(x, x) = 0')
            m = Mat.zero('V')
        else:
            m = Mat.atom(App(name, (x.m, y.m), 'vec'))
        out = EV(m, nout, 1, nan=nan)
        if len(a) == 2:
            return out
        lv = ex.ev(a[2])
        old = ex.as_ev(ex.deref(lv))
        if old.r.key() != nout.key():
            ex.oblige('dim', to_z3(old.r) == to_z3(nout), 'output size of %s: %s' % (name, ex.src(n)), ex.where(n))
        while isinstance(lv, LView) and lv.kind == 'noalias':
            lv = lv.parent
        lv.set(ex, out)
        return Opq('void')

    def model_calc(self, ex, name, o, d, xs, n):
        t = o.idx
        if not (isinstance(d, Ref) and d.what == 'data'):
            raise Unsupported('calc on unknown data')
        if d.idx.key() != t.key():
            ex.oblige('index', to_z3(d.idx) == to_z3(t), 'model and data belong to the same node: %s' % ex.src(n),
                      ex.where(n))
        x = xs[0]
        if x.r.key() != NX_.key():
            ex.oblige('dim', to_z3(x.r) == to_z3(NX_), 'state size in calc', ex.where(n))
        if len(xs) > 1:
            u = xs[1]
            if u.r.key() != nu(t).key():
                ex.oblige('dim', to_z3(u.r) == to_z3(nu(t)), 'control size in calc', ex.where(n))
            um = u.m
            if not um.is_zero() and ex.decide(to_z3(nu(t)) == 0):
                um = Mat.zero('V')
            nan = zor(x.nan, u.nan)
        else:
            um = Mat.zero('V')
            nan = x.nan
            # calc(d, x) is calc of a terminal node; for a running node without controls it is the same
        names = ('cost', 'xnext', 'g') if name == 'calc' else ('Lx', 'Lu', 'Lxx', 'Luu', 'Lxu', 'Fx', 'Fu', 'Gx', 'Gu')
        for f in names:
            kind, dims = DATA[f]
            args = (t, x.m, um)
            lv = LElem(LField(('data', f)), t)
            nan = App('F.%s.nan' % f, args, 'bool').z3() if ex.nanmode else None
            if kind == 'dbl':
                lv.set(ex, Sc(App('F.' + f, args, 'real'), nan))
            else:
                r, c = dims(t)
                k = 'vec' if kind == 'vec' else 'mat'
                lv.set(ex, EV(Mat.atom(App('F.' + f, args, k, kind == 'mats')), r, c, nan=nan))
        return Opq('void')

    def problem_calc(self, ex, name, xs, us, n):
        names = ('cost', 'xnext', 'g') if name == 'calc' else ('Lx', 'Lu', 'Lxx', 'Luu', 'Lxu', 'Fx', 'Fu', 'Gx', 'Gu')
        for f in names:
            kind, dims = DATA[f]

            def fn(*aa, f=f, kind=kind, dims=dims):
                t = P(aa[-1])
                x = ex.as_ev(ex.arr_read(xs, t))
                if ex.entails(to_z3(t) >= to_z3(P(T_))):
                    um = Mat.zero('V')
                else:
                    um = ex.as_ev(ex.arr_read(us, t)).m
                    if not um.is_zero() and ex.entails(to_z3(nu(t)) == 0):
                        um = Mat.zero('V')
                args = (t, x.m, um)
                nan = App('F.%s.nan' % f, args, 'bool').z3() if ex.nanmode else None
                if kind == 'dbl':
                    return Sc(App('F.' + f, args, 'real'), nan)
                r, c = dims(t)
                return EV(Mat.atom(App('F.' + f, args, 'vec' if kind == 'vec' else 'mat', kind == 'mats')), r, c, nan=nan)
            k = {'mats': 'mat'}.get(kind, kind)
            ex.fields[('data', f)] = Arr(k, Base('F.%s@%d' % (f, tm.intern(('pc', xs.key(), us.key()))), fn), T1)
        # value: sum of the node costs held by the datas
        cost = ex.field(('data', 'cost'))
        i = App('i@pc', (), 'int')
        from . import loops
        return Sc(loops.sum_over(ex, 'pc%d' % tm.intern(('sum', cost.key())), i, P(0), P(T_),
                                 lambda: ex.arr_read(cost, P(i)).p) + ex.arr_read(cost, P(T_)).p)

    # ------------------------------------------------------------ SolverAbstract
    def base_method(self, ex, name, args, n):
        F = lambda f: ('SolverAbstract', f)
        if name == 'setCandidate':
            xs, us = ex.deref(args[0]), ex.deref(args[1])
            feas = ex.deref(args[2]) if len(args) > 2 else Bo(False)
            # crocoddyl: an empty warm start stands for neutral states and zero controls
            if isinstance(xs, Arr) and to_z3(xs.len).eq(z3.IntVal(0)):
                xs = neutral_xs()
            if isinstance(us, Arr) and to_z3(us.len).eq(z3.IntVal(0)):
                us = zero_us()
            ex.fields[F('xs_')] = xs
            ex.fields[F('us_')] = us
            ex.fields[F('is_feasible_')] = feas
            return Opq('void')
        if name == 'computeDynamicFeasibility':
            return self.dyn_feas(ex, n)
        if name in ('get_xs', 'get_us', 'get_fs', 'get_cost', 'get_is_feasible', 'get_iter', 'get_preg', 'get_dreg',
                    'get_steplength', 'get_stop', 'get_merit'):
            return LField(F(name[4:] + '_'))
        if name == 'get_problem':
            return Ref('prob')
        if name == 'resizeData':
            raise Unsupported('resizeData')
        raise Unsupported('SolverAbstract::%s' % name)

    def dyn_feas(self, ex, n):
        """crocoddyl: fs_[0]=diff(xs_[0],x0), fs_[t+1]=diff(xs_[t+1],xnext_t), whatever the feasibility flags"""
        F = lambda f: ('SolverAbstract', f)
        xs = ex.field(F('xs_'))
        xn = ex.field(('data', 'xnext'))

        def fn(*aa):
            j = P(aa[-1])
            x = ex.as_ev(ex.arr_read(xs, j))
            if ex.decide(to_z3(j) == 0):
                y = x0_value()
            else:
                y = ex.as_ev(ex.arr_read(xn, j - 1))
            if x.m.key() == y.m.key():
                return EV(Mat.zero('V'), NDX_, 1)
            return EV(Mat.atom(App('diff', (x.m, y.m), 'vec')), NDX_, 1)
        ex.fields[F('fs_')] = Arr('vec', Base('gap@%d' % tm.intern(('gap', xs.key(), xn.key())), fn), T1)
        return Sc(App('ffeas', (), 'real'))


BLOCKS = {'middleRows', 'middleCols', 'segment', 'head', 'tail', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'block',
          'topLeftCorner', 'bottomRightCorner', 'row', 'col'}


def is_qp(t):
    return re.match(r'(struct |class )?proxsuite::proxqp::(sparse|dense)::QP<', (t or '').strip()) is not None


class Sparse:
    """sparse copy of a Big"""
    __slots__ = ('big',)

    def __init__(self, big):
        self.big = big

    def key(self):
        return ('sparse', self.big.key())

    def subst(self, m):
        return Sparse(self.big.subst(m))


class LBlk(LV):
    """block of a matrix that is written block by block"""

    def __init__(self, parent, row, nr, col, nc):
        self.parent, self.row, self.nr, self.col, self.nc = parent, P(row), P(nr), P(col), P(nc)

    def get(self, ex):
        return BigView(self.parent.get(ex), self.row, self.nr, self.col, self.nc)

    def set(self, ex, v):
        b = self.parent.get(ex)
        v = ex.as_ev(v)
        if not isinstance(v, EV):
            raise Unsupported('block assignment of %r' % (v,))
        ex.oblige('dim', z3.And(to_z3(v.r) == to_z3(self.nr), to_z3(v.c) == to_z3(self.nc)), 'block assignment sizes agree', None)
        if b.ws is None:
            return
        self.parent.set(ex, Big(b.name, b.r, b.c, b.ws + (Blk(self.row, self.nr, self.col, self.nc, v),)))

    def root(self):
        return self.parent.root()


class LQP(LV):
    """a member below a QP object"""

    def __init__(self, parent, path):
        self.parent, self.path = parent, path

    def get(self, ex):
        o = self.parent.get(ex)
        if self.path.startswith('settings.'):
            v = o.setting(self.path)
            return v if v is not None else Opq('qp setting')
        if o.run is None:
            raise Unsupported('QP result before a solve')
        pre = o.run + '.' + self.path
        if self.path in ('results.x', 'results.y', 'results.z'):
            return Big('%s' % pre, o.dims['xyz'.index(self.path[-1])].p, P(1))
        if self.path.startswith('results.info.iter'):
            a = App(pre, (), 'int')
            ex.assume(a.z3() >= 0)
            return In(a)
        if self.path.startswith('results.info.') and self.path[13:] in ('pri_res', 'dua_res', 'objValue', 'duality_gap'):
            return Sc(App(pre, (), 'real'))
        return Opq('qp member')

    def set(self, ex, v):
        if not self.path.startswith('settings.'):
            raise Unsupported('assignment to QP %s' % self.path)
        o = self.parent.get(ex)
        d = dict(o.sets)
        d[self.path] = v
        self.parent.set(ex, o.with_(sets=list(d.items())))

    def root(self):
        return self.parent.root()


class _Seg(LV):
    """block k of a Flat"""

    def __init__(self, parent, k):
        self.parent = parent
        self.k = k

    def get(self, ex):
        f = self.parent.get(ex)
        return ex.arr_read(f.arr, self.k)

    def set(self, ex, v):
        f = self.parent.get(ex)
        self.parent.set(ex, Flat(f.arr.store(self.k, v), f.stride))

    def set_checked(self, ex, v, n):
        f = self.parent.get(ex)
        v = ex.as_ev(v)
        if v.r.key() != f.stride.key():
            ex.oblige('dim', to_z3(v.r) == to_z3(f.stride), 'block size agrees: %s' % ex.src(n), ex.where(n))
        self.set(ex, v)

    def root(self):
        return self.parent.root()


def div_exact(p, d):
    """p / d as an integer polynomial, or None"""
    if p.is_zero():
        return P(0)
    (dm, dc), = d.t.items() if len(d.t) == 1 else ((None, None),)
    if dm is None:
        return None
    out = {}
    for m, c in p.t.items():
        dd = dict(m)
        for a, e in dm:
            if dd.get(a, 0) < e:
                return None
            dd[a] -= e
        k = tuple(sorted(((a, e) for a, e in dd.items() if e), key=lambda x: x[0].id))
        out[k] = c / dc
    return Poly(out)


def norm_kind(n, me):
    t = re.sub(r'\s+', '', front.text(me)) or re.sub(r'\s+', '', front.text(n))
    m = re.search(r'lpNorm<([^>]*)>$', t) or re.search(r'lpNorm<([^>]*)>\(\)$', t)
    if not m:
        m2 = re.findall(r'lpNorm<([^>]*)>', re.sub(r'\s+', '', front.text(n)))
        if not m2:
            raise Unsupported('norm kind')
        k = m2[-1]
    else:
        k = m.group(1)
    if k == '1':
        return '1'
    if 'Infinity' in k or k == '-1':
        return 'inf'
    raise Unsupported('lpNorm<%s>' % k)


def flat_nan(ex, o):
    """some block has a NaN"""
    from . import loops
    i = App('i@flat', (), 'int')

    def f():
        v = ex.as_ev(ex.arr_read(o.arr, P(i)))
        return In(zpoly(z3.If(v.nan, z3.IntVal(1), z3.IntVal(0)))) if v.nan is not None else In(0)
    out = []
    for gs, v in loops.cases_over(ex, i, P(0), o.arr.len, f):
        b = z3.simplify(to_z3(v) == 1)
        if not z3.is_false(b):
            out.append(z3.And(*gs, b))
    if not out:
        return z3.BoolVal(False)
    zi = i.z3()
    return z3.Exists([zi], z3.And(zi >= 0, zi < to_z3(o.arr.len), z3.Or(*out)))


def flat_norm(ex, o, p):
    from . import loops
    if ex.nanmode:
        n = flat_nan(ex, o)
        ex.nanmode = False
        try:
            r = flat_norm(ex, o, p)
        finally:
            ex.nanmode = True
        return Sc(r.p, n if p == '1' else z3.And(n, App('infnan', (r.p,), 'bool').z3()))
    i = App('i@flat', (), 'int')
    key = tm.intern(('flat', o.key()))
    f = lambda: ex.as_ev(ex.arr_read(o.arr, P(i)))
    if p == '1':
        return Sc(loops.sum_over(ex, 'flat%d' % key, i, P(0), o.arr.len, lambda: tm.norm1(f().m)))
    cases = loops.cases_over(ex, i, P(0), o.arr.len, lambda: tm.norminf(f().m))
    return Sc(loops.max_atom(ex, 'flat%d' % key, i, P(0), o.arr.len, cases, base=[P(0)]))


def init_list(n):
    """the elements of a braced list passed as std::initializer_list, or None"""
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        if x.kind == 'InitListExpr':
            return [c for c in x.inner if c]
        st.extend(x.inner)
    return None


def mm(name, x, y):
    """n-ary max/min atom"""
    nm = 'maxn' if name == 'max' else 'minn'
    parts = {}
    for p in (x, y):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].name == nm:
                for q in m[0][0].args:
                    parts[q.key()] = q
                continue
        parts[p.key()] = p
    consts = [q for q in parts.values() if q.is_const()]
    if len(consts) > 1:
        best = (max if name == 'max' else min)(q.cval() for q in consts)
        for q in consts:
            del parts[q.key()]
        parts[P(best).key()] = P(best)
    if len(parts) == 1:
        return next(iter(parts.values()))
    return P(App(nm, tuple(sorted(parts.values(), key=lambda q: repr(q.key()))), 'real'))


def _z3_mm(app):
    r = None
    for a in app.args:
        z = to_z3(a, 'real')
        if r is None:
            r = z
        else:
            r = z3.If(r < z, z, r) if app.name == 'maxn' else z3.If(z < r, z, r)
    return r


tm.Z3DEF['maxn'] = _z3_mm
tm.Z3DEF['minn'] = _z3_mm


def _reb_mm(args, old):
    r = args[0]
    for a in args[1:]:
        r = mm('max' if old.name == 'maxn' else 'min', P(r), P(a))
    return tm._one(P(r))


tm.REBUILD['maxn'] = _reb_mm
tm.REBUILD['minn'] = _reb_mm
tm.Z3DEF['mod'] = lambda a: to_z3(a.args[0]) % to_z3(a.args[1])
tm.Z3DEF['idiv'] = lambda a: to_z3(a.args[0]) / to_z3(a.args[1])


def cwinv(m):
    if len(m.t) == 1:
        (w, c), = m.t.items()
        return Mat.atom(App('vinv', (Mat({w: P(1)}, 'V'),), 'vec')).scale(P(1).div(c))
    return Mat.atom(App('vinv', (m,), 'vec'))


def vabs(m):
    return Mat.atom(App('vabs', (tm.sign_norm(m),), 'vec')) if not m.is_zero() else m


def is_vabs(m):
    if len(m.t) == 1:
        (w, c), = m.t.items()
        if len(w) == 1 and w[0].atom.name == 'vabs' and c.is_const() and c.cval() == 1:
            return w[0].atom.args[0]
    return None


def sym_upper(m):
    if len(m.t) == 1:
        (w, c), = m.t.items()
        if len(w) == 1 and w[0].atom.name == 'triu' and c.is_const() and c.cval() == 1:
            m = w[0].atom.args[0]
    if m.issym():
        return m
    return Mat.atom(App('symu', (m,), 'mat', True))
