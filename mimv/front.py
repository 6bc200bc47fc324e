"""Front end: clang's typed AST of the solver translation units in /repo's current tree.

The verifier works on this AST (the text the compiler sees) - nothing is transcribed by hand.
"""
import concurrent.futures
import json
import os
import re
import subprocess
import sys

REPO = os.environ.get('MIMV_REPO', '/repo')
PFX = '/opt/mim-venv/lib/python3.12/site-packages/cmeel.prefix'
DEFS = ('-DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 '
        '-DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL -DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP '
        '-DMIM_SOLVERS_WITH_PROXQP -DOCTOMAP_MAJOR_VERSION=1 -DOCTOMAP_MINOR_VERSION=10 '
        '-DOCTOMAP_PATCH_VERSION=0 -DPINOCCHIO_ENABLE_COMPATIBILITY_WITH_VERSION_2 '
        '-DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_WITH_HPP_FCL '
        '-DPINOCCHIO_WITH_URDFDOM').split()


def flags(repo=None):
    repo = repo or REPO
    inc = PFX + '/include'
    return DEFS + ['-I%s/_build' % repo, '-I%s/_build/include' % repo, '-I%s/include' % repo, '-idirafter', os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'gen'),
                   '-isystem', inc, '-isystem', inc + '/eigen3', '-isystem', inc + '/urdfdom',
                   '-isystem', inc + '/urdfdom_headers', '-std=gnu++17']


class FrontError(Exception):
    pass


class N:
    """AST node"""
    __slots__ = ('kind', 'name', 'inner', 'type', 'qtype', 'op', 'value', 'cast', 'arrow', 'postfix',
                 'ref', 'mref', 'id', 'file', 'b', 'e', 'line', 'lv', 'extra')

    def __repr__(self):
        return '<%s %s %s:%s>' % (self.kind, self.name or self.op or '', os.path.basename(self.file or '?'),
                                  self.line)


_txt = {}


def text(n):
    if not n.file:
        return ''
    if n.file not in _txt:
        try:
            _txt[n.file] = open(n.file, encoding='utf8', errors='replace').read().encode()
        except OSError:
            _txt[n.file] = b''
    return _txt[n.file][n.b:n.e].decode(errors='replace')


def _pos(loc):
    """offset within file, preferring the expansion location"""
    if 'expansionLoc' in loc:
        loc = loc['expansionLoc']
    return loc.get('offset'), loc.get('tokLen', 0), loc.get('line')


class _Conv:
    def __init__(self):
        self.file = None
        self.line = None

    def loc(self, l):
        """returns (file, offset, tokLen, line) of the expansion, updating the running file/line"""
        if not l:
            return None
        if 'spellingLoc' in l or 'expansionLoc' in l:
            r = None
            for k in l:
                if k in ('spellingLoc', 'expansionLoc'):
                    x = self.loc(l[k])
                    if k == 'expansionLoc':
                        r = x
            return r
        if 'file' in l:
            self.file = l['file']
        if 'line' in l:
            self.line = l['line']
        if 'offset' not in l:
            return None
        return (self.file, l['offset'], l.get('tokLen', 0), self.line)

    def conv(self, d):
        if not d:
            return None
        n = N()
        n.file = None
        n.b = n.e = 0
        n.line = None
        n.extra = None
        if 'loc' in d:
            self.loc(d['loc'])
        r = d.get('range')
        if r:
            b = self.loc(r.get('begin'))
            e = self.loc(r.get('end'))
            if b and e:
                n.file, n.b, n.line = b[0], b[1], b[3]
                n.e = e[1] + e[2] if e[0] == b[0] else b[1]
        n.kind = d['kind'] if 'kind' in d else '?'
        n.name = d.get('name')
        n.id = d.get('id')
        t = d.get('type') or {}
        n.qtype = t.get('qualType')
        n.type = t.get('desugaredQualType', n.qtype)
        n.op = d.get('opcode')
        n.value = d.get('value')
        n.cast = d.get('castKind')
        n.arrow = d.get('isArrow')
        n.postfix = d.get('isPostfix')
        n.lv = d.get('valueCategory')
        rd = d.get('referencedDecl')
        n.ref = (rd.get('kind'), rd.get('name'), rd.get('id'),
                 (rd.get('type') or {}).get('qualType')) if rd else None
        n.mref = d.get('referencedMemberDecl')
        ex = {}
        for k in ('init', 'storageClass', 'virtual', 'bases', 'completeDefinition', 'hasElse', 'hasInit',
                  'anyInit', 'baseInit', 'pure', 'mangledName', 'explicitlyDefaulted', 'listInitialization',
                  'hadMultipleCandidates', 'path', 'hasVar', 'parentDeclContextId', 'previousDecl',
                  'isImplicit', 'explicitlyDeleted', 'tagUsed'):
            if k in d:
                ex[k] = d[k]
        n.extra = ex or None
        n.inner = [self.conv(c) for c in d.get('inner', ())]
        return n


def load_docs(s):
    dec = json.JSONDecoder()
    i = 0
    n = len(s)
    out = []
    while i < n:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        if s.startswith('Dumping', i):
            i = s.index('\n', i) + 1
            continue
        o, i = dec.raw_decode(s, i)
        out.append(o)
    return out


def dump_tu(path):
    cmd = ['clang++-18'] + flags() + ['-w', '-fsyntax-only', '-Xclang', '-ast-dump=json',
                                      '-Xclang', '-ast-dump-filter=mim_solvers', path]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if p.returncode != 0:
        raise FrontError('clang failed on %s: %s' % (path, p.stderr[-2000:]))
    sys.setrecursionlimit(20000)
    c = _Conv()
    docs = [c.conv(d) for d in load_docs(p.stdout)]
    return docs


class Func:
    def __init__(self, cls, name, node, tu):
        self.cls = cls
        self.name = name
        self.node = node
        self.tu = tu
        self.params = [c for c in node.inner if c and c.kind == 'ParmVarDecl']
        self.body = next((c for c in node.inner if c and c.kind == 'CompoundStmt'), None)
        if self.body is None:
            self.body = next((c for c in node.inner if c and c.kind == 'CXXTryStmt'), None)
        self.inits = [c for c in node.inner if c and c.kind == 'CXXCtorInitializer']

    def __repr__(self):
        return '%s::%s' % (self.cls, self.name)


class Program:
    def __init__(self):
        self.bases = {}          # class -> [base class names]
        self.fields = {}         # class -> {name: (type, initializer node)}
        self.methods = {}        # class -> {name: [Func]}
        self.free = {}           # name -> [Func]
        self.decls = {}          # (tu, decl id) -> (class, name)

    def mro(self, cls):
        out = [cls]
        for b in self.bases.get(cls, []):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def find_method(self, cls, name, nargs=None):
        """most derived definition of a method as seen from dynamic class cls"""
        for c in self.mro(cls):
            fs = [f for f in self.methods.get(c, {}).get(name, []) if f.body is not None]
            if nargs is not None and len(fs) > 1:
                g = [f for f in fs if len(f.params) == nargs]
                fs = g or fs
            if fs:
                return fs[0]
        return None

    def field_owner(self, cls, name):
        for c in self.mro(cls):
            if name in self.fields.get(c, {}):
                return c
        return None


def _scls(q):
    """last component of a class name"""
    q = re.sub(r'\bconst\b|\bclass\b|\bstruct\b', '', q or '').strip()
    q = re.sub(r'<.*', '', q)
    return q.split('::')[-1].strip(' *&')


def build(srcs=None):
    repo = REPO
    if srcs is None:
        srcs = sorted(os.path.join(repo, 'src', f) for f in os.listdir(repo + '/src')
                      if f.endswith('.cpp') and f != 'main.cpp')
    P = Program()
    with concurrent.futures.ProcessPoolExecutor(max_workers=min(8, len(srcs))) as ex:
        res = list(ex.map(dump_tu, srcs))
    for src, docs in zip(srcs, res):
        byid = {}
        pend = []

        def walk(n, cls, ns):
            if n is None:
                return
            if n.kind == 'NamespaceDecl':
                for c in n.inner:
                    walk(c, None, ns)
            elif n.kind == 'LinkageSpecDecl':
                for c in n.inner:
                    walk(c, None, ns)
            elif n.kind == 'CXXRecordDecl':
                if n.extra and n.extra.get('completeDefinition'):
                    P.bases[n.name] = [_scls(b['type']['qualType']) for b in n.extra.get('bases', [])]
                    P.fields.setdefault(n.name, {})
                    P.methods.setdefault(n.name, {})
                    byid[n.id] = n.name
                    for c in n.inner:
                        walk(c, n.name, ns)
            elif n.kind == 'FieldDecl' and cls:
                init = next((c for c in n.inner if c), None)
                P.fields[cls][n.name] = (n.type, init, n.qtype)
                P.decls[(src, n.id)] = (cls, n.name)
            elif n.kind in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                pend.append((cls, n))
            elif n.kind == 'FunctionDecl':
                f = Func(None, n.name, n, src)
                P.decls[(src, n.id)] = (None, n.name)
                if f.body is not None:
                    P.free.setdefault(n.name, []).append(f)
            elif n.kind == 'FunctionTemplateDecl':
                for c in n.inner:
                    if c and c.kind == 'FunctionDecl':
                        f = Func(None, c.name, c, src)
                        P.decls[(src, c.id)] = (None, c.name)
                        if f.body is not None:
                            P.free.setdefault(c.name, []).append(f)
        for d in docs:
            walk(d, None, None)
        ids = {}
        for cls, n in pend:
            c = cls
            if c is None and n.extra:
                c = byid.get(n.extra.get('parentDeclContextId'))
                if c is None:
                    c = ids.get(n.extra.get('previousDecl'))
            if c is None:
                continue
            ids[n.id] = c
            f = Func(c, n.name, n, src)
            P.decls[(src, n.id)] = (c, n.name)
            lst = P.methods.setdefault(c, {}).setdefault(n.name, [])
            if f.body is not None:
                key = n.qtype
                if not any(g.body is not None and g.node.qtype == key for g in lst):
                    lst[:] = [g for g in lst if not (g.body is None and g.node.qtype == key)]
                    lst.append(f)
            else:
                if not any(g.node.qtype == n.qtype for g in lst):
                    lst.append(f)
    return P


if __name__ == '__main__':
    import time
    t = time.time()
    P = build()
    print('time', time.time() - t)
    for c in P.methods:
        print(c, P.bases.get(c), len(P.fields.get(c, {})),
              sum(1 for m in P.methods[c].values() for f in m if f.body is not None))
    print(list(P.free))
