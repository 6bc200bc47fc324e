"""Symbolic execution of a small part of Python (CPython's own ast), for the callback logger.

Every path through a function is followed; conditions on unknown values split paths. Histories (the dict of lists of
the logger) are symbolic: each key may be present with an arbitrary earlier list or absent.
Anything outside the subset raises Unsupported (the unit is then undecided)."""
import ast
from .symex import Unsupported


class V:
    pass


class Const(V):
    def __init__(s, v):
        s.v = v

    def __repr__(s):
        return repr(s.v)


class Sym(V):
    """an unknown immutable value"""
    def __init__(s, k):
        s.k = k

    def __repr__(s):
        return s.k


class Obj(V):
    def __init__(s, name):
        s.name = name

    def __repr__(s):
        return '<%s>' % s.name


class Attr(V):
    """value of an attribute of the solver, read at event number `when`"""
    def __init__(s, obj, name):
        s.obj, s.name = obj, name

    def __repr__(s):
        return '%s.%s' % (s.obj.name, s.name)


class Copy(V):
    def __init__(s, of, deep):
        s.of, s.deep = of, deep

    def __repr__(s):
        return 'copy(%r)' % s.of


class Op(V):
    def __init__(s, op, args):
        s.op, s.args = op, args

    def __repr__(s):
        return '%s(%s)' % (s.op, ', '.join(map(repr, s.args)))


class PyList(V):
    """base: None or the key of an unknown earlier history; items appended since"""
    def __init__(s, base=None, items=()):
        s.base, s.items = base, list(items)

    def __repr__(s):
        return '%s+%r' % (s.base or '', s.items)


class PyTuple(V):
    def __init__(s, items):
        s.items = list(items)


class PyDict(V):
    def __init__(s, d=None, hist=None):
        s.d = dict(d or {})          # const key -> V
        s.hist = hist                # name: unknown earlier contents
        s.absent = set()             # keys known not to be in the earlier contents
        s.seen = set()               # keys whose presence was decided
        s.factory = None

    def __repr__(s):
        return 'dict(%r)' % s.d


class Func(V):
    def __init__(s, node, env, self_=None):
        s.node, s.env, s.self_ = node, env, self_


class Bound(V):
    def __init__(s, obj, name):
        s.obj, s.name = obj, name


class Lib(V):
    def __init__(s, name):
        s.name = name

    def __repr__(s):
        return s.name


class _Return(Exception):
    pass


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class PyRaise(Exception):
    def __init__(s, typ):
        s.typ = typ


class Path:
    pass


class Env:
    def __init__(s, parent=None):
        s.d, s.parent = {}, parent
        s.glob = s.nonloc = ()

    def get(s, n):
        e = s
        while e is not None:
            if n in e.d:
                return e.d[n]
            e = e.parent
        return None


class Py:
    def __init__(self, src, cls):
        self.tree = ast.parse(src)
        self.cls = None
        self.nodes = set()
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef) and n.name == cls:
                self.cls = n
        if self.cls is None:
            raise Unsupported('class %s not found' % cls)
        self.methods = {n.name: n for n in self.cls.body if isinstance(n, ast.FunctionDef)}

    # ---------------------------------------------------------------- paths
    def explore(self, run, limit=40000, presence=None, partial=False):
        self.presence = presence
        out = []
        todo = [[]]
        while todo:
            self.script = todo.pop()
            n0 = len(self.script)
            self.pos = 0
            self.facts = {}
            self.eqs = {}
            self.solver_writes = []
            self.depth = 0
            p = Path()
            p.val = None
            try:
                p.val = run()
                p.out = 'norm'
            except PyRaise as e:
                p.out = 'raise'
                p.val = e.typ
            p.facts = dict(self.facts)
            p.writes = list(self.solver_writes)
            out.append(p)
            # alternatives of the decisions made beyond the script
            for i in range(n0, len(self.script)):
                todo.append(self.script[:i] + [not self.script[i]])
            if len(out) > limit and partial:
                return out
            if len(out) > limit:
                raise Unsupported('too many paths')
        return out

    def decide(self, key):
        if key in self.facts:
            return self.facts[key]
        if self.presence is not None and key.startswith('in:'):
            self.facts[key] = self.presence
            return self.presence
        if self.pos < len(self.script):
            b = self.script[self.pos]
        else:
            b = True
            self.script.append(b)
        self.pos += 1
        self.facts[key] = b
        return b

    # ---------------------------------------------------------------- calls
    def module_env(self):
        env = Env()
        for n in self.tree.body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    nm = a.asname or a.name
                    if isinstance(n, ast.Import):
                        env.d[nm] = Lib(a.name)
                    elif n.module and n.level == 0:
                        env.d[nm] = Lib('%s.%s' % (n.module, a.name))
            elif isinstance(n, ast.FunctionDef):
                env.d[n.name] = Func(n, env)
            elif isinstance(n, ast.ClassDef):
                env.d[n.name] = Lib(n.name)
            elif isinstance(n, ast.Assign) or isinstance(n, ast.AnnAssign):
                try:
                    self.stmt(n, env)
                    for v in env.d.values():
                        shared(v)
                except (Unsupported, PyRaise):
                    pass
        return env

    def call_method(self, name, self_, args):
        m = self.methods.get(name)
        if m is None:
            raise Unsupported('method %s not found' % name)
        return self.call(Func(m, self.module_env(), self_), list(args), {})

    def call(self, f, args, kw):
        self.depth += 1
        if self.depth > 30:
            raise Unsupported('recursion')
        node = f.node
        env = Env(f.env)
        a = node.args
        if a.kwarg:
            raise Unsupported('**kwargs')
        decos = [d.id for d in getattr(node, 'decorator_list', []) if isinstance(d, ast.Name)]
        if len(decos) != len(getattr(node, 'decorator_list', [])) or any(d != 'staticmethod' for d in decos):
            raise Unsupported('decorator')
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = ([f.self_] if f.self_ is not None and 'staticmethod' not in decos else []) + args
        if len(pos) > len(names):
            if not a.vararg:
                raise PyRaise('TypeError')
            env.d[a.vararg.arg] = PyTuple(pos[len(names):])
            pos = pos[:len(names)]
        elif a.vararg:
            env.d[a.vararg.arg] = PyTuple([])
        for n, v in zip(names, pos):
            env.d[n] = v
        rest = names[len(pos):]
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            rest.append(k.arg)
            if d is not None:
                defs[k.arg] = d
        for n in rest:
            if n in kw:
                env.d[n] = kw.pop(n)
            elif n in defs:
                env.d[n] = shared(self.ev(defs[n], f.env))
            else:
                raise PyRaise('TypeError')
        if kw:
            raise PyRaise('TypeError')
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            try:
                self.block(node.body, env)
            except _Return as e:
                return e.args[0]
            return Const(None)
        finally:
            self.depth -= 1

    # ---------------------------------------------------------------- statements
    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        k = type(s)
        if k is ast.Expr:
            self.ev(s.value, env)
        elif k is ast.Pass:
            pass
        elif k is ast.FunctionDef:
            env.d[s.name] = Func(s, env)
        elif k is ast.Return:
            raise _Return(self.ev(s.value, env) if s.value else Const(None))
        elif k is ast.If:
            self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif k is ast.Assign:
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif k is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif k is ast.AugAssign:
            cur = self.ev(_load(s.target), env)
            v = self.ev(s.value, env)
            if isinstance(cur, PyList) and isinstance(s.op, ast.Add):
                self.extend(cur, v)
                return
            self.assign(s.target, self.binop(s.op, cur, v), env)
        elif k is ast.For:
            its = self.iterate(self.ev(s.iter, env))
            brk = False
            for x in its:
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except _Break:
                    brk = True
                    break
                except _Continue:
                    continue
            if not brk:
                self.block(s.orelse, env)
        elif k is ast.Break:
            raise _Break()
        elif k is ast.Continue:
            raise _Continue()
        elif k is ast.Raise:
            if s.exc is None:
                raise Unsupported('bare raise')
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if not isinstance(e, ast.Name):
                raise Unsupported('raise of an expression')
            raise PyRaise(e.id)
        elif k is ast.Try:
            self.try_(s, env)
        elif k is ast.Assert:
            if not self.truth(self.ev(s.test, env)):
                raise PyRaise('AssertionError')
        elif k in (ast.Import, ast.ImportFrom):
            for a in s.names:
                nm = a.asname or a.name
                env.d[nm] = Lib(a.name if k is ast.Import else '%s.%s' % (s.module, a.name))
        elif k is ast.Delete:
            raise Unsupported('del')
        else:
            raise Unsupported('statement %s' % k.__name__)

    def try_(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    names = []
                    if h.type is None:
                        names = None
                    elif isinstance(h.type, ast.Name):
                        names = [h.type.id]
                    elif isinstance(h.type, ast.Tuple):
                        names = [x.id for x in h.type.elts]
                    if names is None or e.typ in names or 'Exception' in names or 'BaseException' in names or \
                            (e.typ == 'KeyError' and 'LookupError' in names):
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.d[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            if len(vs) != len(t.elts):
                raise Unsupported('unpacking')
            for a, b in zip(t.elts, vs):
                self.assign(a, b, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj) and o.name == 'self':
                self.fields[t.attr] = v
            elif isinstance(o, Obj):
                self.solver_writes.append('%s.%s' % (o.name, t.attr))
            else:
                raise Unsupported('attribute assignment')
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, PyDict) and isinstance(i, Const):
                o.d[i.v] = v
                o.seen.add(i.v)
            elif isinstance(o, (Attr,)):
                self.solver_writes.append(repr(o))
            else:
                raise Unsupported('subscript assignment')
        else:
            raise Unsupported('assignment target')

    # ---------------------------------------------------------------- expressions
    def truth(self, v):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, PyDict) and v.hist is None:
            return bool(v.d)
        if isinstance(v, PyList) and v.base is None:
            return bool(v.items)
        if isinstance(v, PyTuple):
            return bool(v.items)
        if isinstance(v, PyList) and v.items:
            return True
        if isinstance(v, (Obj, Func, Lib)):
            return True
        return self.decide('true:%r' % v)

    def iterate(self, v):
        if isinstance(v, PyTuple):
            return list(v.items)
        if isinstance(v, PyList) and v.base is None:
            return list(v.items)
        if isinstance(v, PyDict) and v.hist is None:
            return [Const(k) for k in v.d]
        if isinstance(v, Const) and isinstance(v.v, (tuple, str)):
            return [Const(x) for x in v.v]
        raise Unsupported('iteration over %r' % v)

    def present(self, d, k):
        if k in d.d:
            return True
        if d.hist is None or k in d.absent:
            return False
        if self.decide('in:%s:%s' % (d.hist, k)):
            d.d[k] = PyList(base=k)
            return True
        d.absent.add(k)
        return False

    def getitem(self, d, k):
        if self.present(d, k):
            return d.d[k]
        if d.factory == 'list':
            d.d[k] = PyList()
            return d.d[k]
        raise PyRaise('KeyError')

    def ev(self, e, env):
        k = type(e)
        if k is ast.Constant:
            return Const(e.value)
        if k is ast.Name:
            v = env.get(e.id)
            if v is not None:
                return v
            if e.id in ('getattr', 'print', 'str', 'list', 'dict', 'tuple', 'len', 'float', 'int', 'super', 'isinstance',
                        'setattr', 'hasattr', 'zip', 'enumerate', 'repr', 'bool'):
                return Lib(e.id)
            if e.id in ('True', 'False', 'None'):
                return Const({'True': True, 'False': False, 'None': None}[e.id])
            return Lib('?' + e.id)
        if k is ast.Attribute:
            return self.attr(self.ev(e.value, env), e.attr)
        if k in (ast.Tuple, ast.List, ast.Set):
            xs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    xs += self.iterate(self.ev(x.value, env))
                else:
                    xs.append(self.ev(x, env))
            return PyTuple(xs) if k is not ast.List else PyList(items=xs)
        if k is ast.Dict:
            d = PyDict()
            for a, b in zip(e.keys, e.values):
                if a is None:
                    o = self.ev(b, env)
                    if not isinstance(o, PyDict) or o.hist is not None:
                        raise Unsupported('**')
                    d.d.update(o.d)
                    continue
                a = self.ev(a, env)
                if not isinstance(a, Const):
                    raise Unsupported('dict key')
                d.d[a.v] = self.ev(b, env)
            return d
        if k is ast.Subscript:
            o, i = self.ev(e.value, env), self.ev(e.slice, env)
            if isinstance(o, PyDict) and isinstance(i, Const):
                return self.getitem(o, i.v)
            if isinstance(o, (PyTuple, PyList)) and isinstance(i, Const) and isinstance(i.v, int) and \
                    getattr(o, 'base', None) is None:
                return o.items[i.v]
            if isinstance(o, Attr):
                return Op('item', [o, i])
            if isinstance(o, PyList) and isinstance(i, Const) and i.v == -1:
                return o.items[-1] if o.items else Op('item', [Sym('old:%s' % o.base), i])
            raise Unsupported('subscript')
        if k is ast.BoolOp:
            v = None
            for x in e.values:
                v = self.ev(x, env)
                b = self.truth(v)
                if b != isinstance(e.op, ast.And):
                    return v
            return v
        if k is ast.UnaryOp and isinstance(e.op, ast.Not):
            return Const(not self.truth(self.ev(e.operand, env)))
        if k is ast.UnaryOp:
            v = self.ev(e.operand, env)
            return Const(-v.v) if isinstance(v, Const) and isinstance(e.op, ast.USub) else Op(type(e.op).__name__, [v])
        if k is ast.IfExp:
            return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
        if k is ast.Compare:
            l = self.ev(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                r = self.ev(r, env)
                if not self.compare(op, l, r):
                    return Const(False)
                l = r
            return Const(True)
        if k is ast.BinOp:
            return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))
        if k is ast.JoinedStr:
            return Op('fstring', [self.ev(x.value, env) if isinstance(x, ast.FormattedValue) else Const(x.value)
                                  for x in e.values])
        if k is ast.Lambda:
            return Func(e, env)
        if k is ast.NamedExpr:
            v = self.ev(e.value, env)
            env.d[e.target.id] = v
            return v
        if k in (ast.ListComp, ast.GeneratorExp):
            out = []
            self.comp(e.generators, 0, Env(env), lambda en: out.append(self.ev(e.elt, en)))
            return PyList(items=out)
        if k is ast.DictComp:
            d = PyDict()

            def put(en):
                a = self.ev(e.key, en)
                if not isinstance(a, Const):
                    raise Unsupported('dict key')
                d.d[a.v] = self.ev(e.value, en)
            self.comp(e.generators, 0, Env(env), put)
            return d
        if k is ast.Call:
            return self.callexpr(e, env)
        raise Unsupported('expression %s' % k.__name__)

    def comp(self, gens, i, env, f):
        if i == len(gens):
            f(env)
            return
        for x in self.iterate(self.ev(gens[i].iter, env)):
            self.assign(gens[i].target, x, env)
            if all(self.truth(self.ev(c, env)) for c in gens[i].ifs):
                self.comp(gens, i + 1, env, f)

    def binop(self, op, a, b):
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Mod)):
            try:
                return Const({ast.Add: lambda: a.v + b.v, ast.Sub: lambda: a.v - b.v, ast.Mult: lambda: a.v * b.v,
                              ast.Mod: lambda: a.v % b.v}[type(op)]())
            except Exception:
                raise Unsupported('constant expression')
        if isinstance(op, ast.Add) and isinstance(a, PyList):
            n = PyList(a.base, a.items)
            self.extend(n, b)
            return n
        if isinstance(op, ast.Add) and isinstance(a, PyTuple) and isinstance(b, PyTuple):
            return PyTuple(a.items + b.items)
        if isinstance(op, ast.BitOr) and isinstance(a, PyDict) and isinstance(b, PyDict) and a.hist is None and b.hist is None:
            return PyDict({**a.d, **b.d})
        return Op(type(op).__name__, [a, b])

    def extend(self, l, v):
        l.items += self.iterate(v)

    def compare(self, op, a, b):
        if isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot)):
            inv = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}[type(op)]()
            return not self.compare(inv, a, b)
        if isinstance(op, ast.In):
            if isinstance(b, Bound) and b.name == 'keys':
                b = b.obj
            if isinstance(b, PyDict) and isinstance(a, Const):
                return self.present(b, a.v)
            return any([self.compare(ast.Eq(), a, x) for x in self.iterate(b)])
        if isinstance(op, (ast.Eq, ast.Is)):
            if isinstance(a, Const) and isinstance(b, Const):
                return a.v == b.v
            if isinstance(b, Sym):
                a, b = b, a
            if isinstance(a, Sym) and isinstance(b, Const):
                if a.k in self.eqs:
                    return self.eqs[a.k] == b.v
                if self.decide('eq:%s:%r' % (a.k, b.v)):
                    self.eqs[a.k] = b.v
                    return True
                return False
            if isinstance(a, Const) and a.v is None or isinstance(b, Const) and b.v is None:
                if isinstance(a, (PyDict, PyList, PyTuple, Obj, Func)) or isinstance(b, (PyDict, PyList, PyTuple, Obj, Func)):
                    return False
        return self.decide('%s:%r:%r' % (type(op).__name__, a, b))

    def attr(self, o, n):
        if isinstance(o, Obj) and o.name == 'self':
            if n in self.fields:
                return self.fields[n]
            if n in self.methods:
                return Func(self.methods[n], self.module_env(), o)
            for s in self.cls.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in s.targets):
                    return shared(self.ev(s.value, self.module_env()))
            return Sym('self.' + n)
        if isinstance(o, Obj):
            return Attr(o, n)
        if isinstance(o, Lib) and o.name == self.cls.name:
            for s in self.cls.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in s.targets):
                    return shared(self.ev(s.value, self.module_env()))
        if isinstance(o, Lib):
            return Lib(o.name + '.' + n)
        return Bound(o, n)

    def callexpr(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for q in e.keywords:
            if q.arg is None:
                o = self.ev(q.value, env)
                if not isinstance(o, PyDict) or o.hist is not None:
                    raise Unsupported('**')
                kw.update(o.d)
            else:
                kw[q.arg] = self.ev(q.value, env)
        return self.apply(f, args, kw)

    def apply(self, f, args, kw):
        if isinstance(f, Func):
            return self.call(f, args, kw)
        if isinstance(f, Lib):
            n = f.name
            if n == 'getattr' and len(args) >= 2 and isinstance(args[1], Const):
                return self.attr(args[0], args[1].v)
            if n in ('copy.copy', 'copy.deepcopy'):
                return Copy(args[0], n.endswith('deepcopy')) if isinstance(args[0], Attr) else args[0]
            if n in ('numpy.array', 'numpy.copy'):
                return Op(n, args)
            if n == 'print' or n.startswith('logging.'):
                return Const(None)
            if n == 'super':
                return Obj('super')
            if n == 'list' and not args:
                return PyList()
            if n in ('list', 'tuple') and args:
                if isinstance(args[0], (Attr, Copy)):
                    return Op(n, args)
                return (PyList if n == 'list' else PyTuple)(items=self.iterate(args[0]))
            if n == 'dict' and not args:
                return PyDict(kw)
            if n in ('collections.defaultdict', 'defaultdict'):
                d = PyDict()
                if args and isinstance(args[0], Lib) and args[0].name == 'list':
                    d.factory = 'list'
                return d
            if n in ('collections.OrderedDict', 'OrderedDict') and not args:
                return PyDict()
            if n == 'zip':
                return PyList(items=[PyTuple(t) for t in zip(*[self.iterate(a) for a in args])])
            if n == 'enumerate':
                return PyList(items=[PyTuple([Const(i), x]) for i, x in enumerate(self.iterate(args[0]))])
            if n in ('float', 'int', 'str', 'repr', 'bool') and len(args) == 1:
                return args[0] if n == 'float' and isinstance(args[0], Attr) else Op(n, args)
            if n == 'len' and len(args) == 1 and isinstance(args[0], PyList):
                return Const(len(args[0].items)) if args[0].base is None else Op('len', args)
            if n == 'isinstance':
                return Sym('isinstance:%r:%r' % (args[0], args[1]))
            if n.endswith('CallbackAbstract.__init__') and len(args) == 1 and isinstance(args[0], Obj):
                return Const(None)
            raise Unsupported('call of %s' % n)
        if isinstance(f, Attr):
            if f.obj.name == 'super':
                return Const(None)
            raise Unsupported('call of %r' % f)
        if isinstance(f, Bound):
            o, n = f.obj, f.name
            if isinstance(o, PyList):
                if n == 'append' and len(args) == 1:
                    o.items.append(args[0])
                    return Const(None)
                if n == 'extend' and len(args) == 1:
                    self.extend(o, args[0])
                    return Const(None)
                if n == 'copy' and not args:
                    return PyList(o.base, o.items)
                raise Unsupported('list.%s' % n)
            if isinstance(o, PyDict):
                if n in ('setdefault', 'get') and args and isinstance(args[0], Const):
                    if self.present(o, args[0].v):
                        return o.d[args[0].v]
                    v = args[1] if len(args) > 1 else Const(None)
                    if n == 'setdefault':
                        o.d[args[0].v] = v
                    return v
                if n in ('items', 'keys', 'values') and o.hist is None:
                    return PyList(items=[PyTuple([Const(a), b]) if n == 'items' else Const(a) if n == 'keys' else b
                                         for a, b in o.d.items()])
                if n == 'keys':
                    return Bound(o, 'keys')
                if n == 'update' and len(args) <= 1 and all(isinstance(a, PyDict) and a.hist is None for a in args):
                    for a in args:
                        o.d.update(a.d)
                    o.d.update(kw)
                    return Const(None)
                raise Unsupported('dict.%s' % n)
            if isinstance(o, (Attr, Copy)) and n in ('copy', 'tolist', '__copy__') and not args:
                return Copy(o, False) if n != 'tolist' else Op('tolist', [o])
            if isinstance(o, Const) and isinstance(o.v, str):
                return Op('str.' + n, [o] + args)
            raise Unsupported('call of %s' % n)
        raise Unsupported('call')


def shared(v):
    """an object that outlives the call (class attribute, module variable, default argument)"""
    if isinstance(v, (PyDict, PyList)):
        v.shared = True
    return v


def _load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t
