"""C28: the Python tracing wrappers emit matched events and restore the thread switch."""
import ast
import builtins
import os
import re
import symtable
from ..facts import AnalysisBroken, REPO

PKG = 'scalopus_python/scalopus'
R_MATCH = 'entering and leaving emit one begin and one end event with the same identifier through the same backend selector, on every exit'
R_PASS = 'results and exceptions of the traced code are passed on'
R_NAME = 'the name of a traced context is registered under the identifier it uses'
R_MARK = 'marks and counts carry the identifier, level and value they were given'
R_SAVE = 'suppression restores the state the calling thread had, also nested, recursive and from several threads'
R_DEF = 'every name the package uses is defined'
R_ARGS = 'calls inside the package supply the arguments that are needed'
KINDS = ('scope_entry', 'scope_exit', 'mark_event', 'count_event')
LIMIT = 400
OBJ = ('func', 'inst', 'bound', 'uid', 'class', 'new')
NATIVE = 'scalopus_python_lib'      # replaced by the compiled module when it is imported


class Unknown(Exception):
    pass


class Path:
    """One path through the code: what it did, what it stored, what it decided."""

    def __init__(self, eff=(), heap=None, dec=None, n=0):
        self.eff, self.heap, self.dec, self.n = tuple(eff), dict(heap or {}), dict(dec or {}), n

    def copy(self):
        return Path(self.eff, self.heap, self.dec, self.n)

    def do(self, *e):
        p = self.copy()
        p.eff += (e,)
        return p

    def new(self):
        p = self.copy()
        p.n += 1
        return p, p.n


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.defs, self.aliases = {}, {}

    def where(self, n):
        return '%s/%s:%d' % (PKG, os.path.basename(self.path), getattr(n, 'lineno', 1))


class Py:
    """Follows every path of the package's small functions; values are terms, calls to unknown code may return or raise."""

    def __init__(self, R):
        self.R = R
        self.mods = {}
        d = os.path.join(REPO, PKG)
        if not os.path.isdir(d):
            raise AnalysisBroken('%s not found' % PKG)
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                try:
                    self.mods[f[:-3]] = Module(f[:-3], os.path.join(d, f))
                except SyntaxError as e:
                    R.bad(R_DEF, '%s/%s:%s' % (PKG, f, e.lineno), 'the file is not valid Python: %s' % e.msg)
        for m in self.mods.values():
            self.collect(m, m.tree.body)

    def collect(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                m.defs[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            m.aliases.setdefault(x.id, []).append(s.value)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    m.aliases.setdefault((a.asname or a.name).split('.')[0], []).append((s, a))
            else:
                for b in ('body', 'orelse', 'finalbody'):
                    self.collect(m, getattr(s, b, []) or [])
                for h in getattr(s, 'handlers', []) or []:
                    self.collect(m, h.body)

    # ------------------------------------------------------------------------------------------------------------ values
    def globl(self, m, name):
        if name in m.defs:
            d = m.defs[name]
            return ('class', m.name, name) if isinstance(d, ast.ClassDef) else ('func', m.name, self.reg(d), ())
        if name in m.aliases:
            vs = m.aliases[name]
            if len(vs) == 1 and isinstance(vs[0], tuple):
                s, a = vs[0]
                if isinstance(s, ast.ImportFrom):
                    if s.level and s.module is None and a.name in self.mods and a.name != NATIVE:
                        return ('module', a.name)
                    if s.level and s.module in self.mods:
                        return self.globl(self.mods[s.module], a.name)
                    return ('ext', '%s.%s' % (s.module or '', a.name))
                return ('ext', a.name)
            if len(vs) == 1 and isinstance(vs[0], ast.Attribute):
                return self.static(m, vs[0])
            if self.reassigned(m, name) or len(vs) != 1:
                return ('global', m.name, name)
            if isinstance(vs[0], ast.Name):
                return self.globl(m, vs[0].id)
            return ('global', m.name, name)
        if hasattr(builtins, name):
            return ('builtin', name)
        return ('undefined', name)

    def static(self, m, e):
        if isinstance(e, ast.Attribute):
            b = self.static(m, e.value)
            if b[0] == 'module':
                return self.globl(self.mods[b[1]], e.attr)
            return ('ext', '%s.%s' % (b[1], e.attr)) if b[0] == 'ext' else ('attr', b, e.attr)
        if isinstance(e, ast.Name):
            return self.globl(m, e.id)
        return ('expr', m.name, e.lineno)

    def reassigned(self, m, name):
        return any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(m.tree))

    def reg(self, d):
        self.nodes = getattr(self, 'nodes', {})
        self.nodes[id(d)] = d
        return id(d)

    def cls(self, v):
        return self.mods[v[1]].defs[v[2]]

    def find(self, v, name, seen=0):
        """A method or class attribute, looked up along the bases."""
        c = self.cls(v)
        for s in c.body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return v[1], s
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                return v[1], s.value
        for b in c.bases:
            x = self.static(self.mods[v[1]], b)
            if x[0] == 'class' and seen < 6:
                r = self.find(x, name, seen + 1)
                if r is not None:
                    return r
        return None

    def foreign(self, v):
        return any(self.static(self.mods[v[1]], b)[0] not in ('class',) and self.static(self.mods[v[1]], b) != ('builtin', 'object')
                   or self.static(self.mods[v[1]], b)[0] == 'class' and self.foreign(self.static(self.mods[v[1]], b)) for b in self.cls(v).bases)

    # -------------------------------------------------------------------------------------------------------- statements
    def body(self, m, stmts, env, p):
        """[(kind, value, path)] with kind in fall, ret, raise, break, continue."""
        cur = [('fall', None, p)]
        for s in stmts:
            nxt = []
            for k, v, q in cur:
                if k != 'fall':
                    nxt.append((k, v, q))
                else:
                    nxt += self.stmt(m, s, env, q)
            cur = nxt
            if len(cur) > LIMIT:
                raise Unknown('too many paths')
        return cur

    def stmt(self, m, s, env, p):
        self.R.stats['statements'] += 1
        if isinstance(s, ast.Expr):
            return [('fall', None, q) if k == 'v' else (k, v, q) for k, v, q in self.ev(m, s.value, env, p)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [('ret', ('const', None), p)]
            return [('ret', v, q) if k == 'v' else (k, v, q) for k, v, q in self.ev(m, s.value, env, p)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [('fall', None, p)]
            res = []
            for k, v, q in self.ev(m, s.value, env, p):
                if k != 'v':
                    res.append((k, v, q))
                    continue
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    q = self.assign(m, t, v, env, q)
                res.append(('fall', None, q))
            return res
        if isinstance(s, ast.AugAssign):
            res = []
            for k, v, q in self.ev(m, s.value, env, p):
                res.append(('fall', None, self.assign(m, s.target, ('op', v), env, q)) if k == 'v' else (k, v, q))
            return res
        if isinstance(s, ast.If):
            res = []
            for k, v, q in self.ev(m, s.test, env, p):
                if k != 'v':
                    res.append((k, v, q))
                    continue
                for t, r in self.branch(v, q):
                    res += self.body(m, s.body if t else s.orelse, env, r)
            return res
        if isinstance(s, ast.With):
            return self.with_(m, s, 0, env, p)
        if isinstance(s, ast.Try):
            return self.try_(m, s, env, p)
        if isinstance(s, ast.Raise):
            return [('raise', ('raised',), p)]
        if isinstance(s, ast.FunctionDef):
            v = self.closure(m, s, env)
            return [('fall', None, p if not self.setlocal(env, s.name, v) else p)]
        if isinstance(s, (ast.Global, ast.Nonlocal)):
            env.setdefault('#global', set()).update(s.names) if isinstance(s, ast.Global) else None
            return [('fall', None, p)]
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert, ast.Delete, ast.ClassDef)):
            return [('fall', None, p)]
        if isinstance(s, (ast.For, ast.While)):
            res = [('fall', None, p)]
            for k, v, q in self.body(m, s.body, env, p):
                res.append(('fall', None, q) if k in ('break', 'continue', 'fall') else (k, v, q))
            return res
        if isinstance(s, ast.Break):
            return [('break', None, p)]
        if isinstance(s, ast.Continue):
            return [('continue', None, p)]
        raise Unknown(type(s).__name__)

    def setlocal(self, env, name, v):
        env['#names'] = env.get('#names', {})
        env['#names'][name] = v
        return False

    def closure(self, m, s, env):
        v = ('func', m.name, self.reg(s), self.freeze(env))
        for d in s.decorator_list:
            n = self.static(m, d.func if isinstance(d, ast.Call) else d)
            if n[-1] in ('functools.wraps', 'functools.lru_cache', 'functools.cache'):
                continue
            if n == ('ext', 'contextlib.contextmanager'):
                v = ('cmfunc',) + v[1:]
        return v

    def freeze(self, env):
        self.envs = getattr(self, 'envs', [])
        self.envs.append(env)
        return len(self.envs) - 1

    def branch(self, v, p):
        v, neg = (v[1], True) if v[0] == 'not' else (v, False)
        if v[0] == 'const':
            t = bool(v[1])
            return [(t != neg, p)]
        if v[0] in ('func', 'inst', 'class', 'bound'):
            return [(True != neg, p)]
        if v in p.dec:
            return [(p.dec[v] != neg, p)]
        res = []
        for t in (True, False):
            q = p.copy()
            q.dec[v] = t
            res.append((t != neg, q))
        return res

    def assign(self, m, t, v, env, p):
        if isinstance(t, ast.Name):
            if t.id in env.get('#global', ()):
                q = p.do('setglobal', m.name, t.id, v)
                q.heap[(('module', m.name), t.id)] = v
                return q
            self.setlocal(env, t.id, ('slot', self.slot(env, t.id)))
            q = p.copy()
            q.heap[self.slot(env, t.id)] = v
            return q
        if isinstance(t, ast.Attribute):
            for k, b, q in self.ev(m, t.value, env, p):
                if k == 'v':
                    q = q.do('store', b, t.attr, v, m.where(t))
                    q.heap[(b, t.attr)] = v
                    return q
            return p
        if isinstance(t, ast.Subscript):
            for k, b, q in self.ev(m, t.value, env, p):
                if k == 'v':
                    for k2, i, q in self.ev(m, t.slice, env, q):
                        q = q.do('store', ('item', b, i), '[]', v, m.where(t))
                        q.heap[(b, ('item', i))] = v
                        return q
            return p
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                p = self.assign(m, x, ('part', v, i), env, p)
            return p
        return p

    def slot(self, env, name):
        env['#id'] = env.get('#id') or self.freeze(env) + 1000000
        return ('local', env['#id'], name)

    def with_(self, m, s, i, env, p):
        if i == len(s.items):
            return self.body(m, s.body, env, p)
        res = []
        for k, c, q in self.ev(m, s.items[i].context_expr, env, p):
            if k != 'v':
                res.append((k, c, q))
                continue
            for k2, v, q2 in self.method(m, s, c, '__enter__', [], q):
                if k2 != 'v':
                    res.append((k2, v, q2))
                    continue
                if s.items[i].optional_vars is not None:
                    q2 = self.assign(m, s.items[i].optional_vars, v, env, q2)
                for k3, v3, q3 in self.with_(m, s, i + 1, env, q2):
                    a = [('const', None)] * 3 if k3 != 'raise' else [('exctype',), ('exc',), ('tb',)]
                    for k4, v4, q4 in self.method(m, s, c, '__exit__', a, q3):
                        if k4 != 'v':
                            res.append((k4, v4, q4))
                        elif k3 == 'raise':
                            for t, q5 in self.branch(v4 if v4[0] != 'call' else ('const', None), q4):
                                res.append(('fall', None, q5.do('swallowed', m.where(s))) if t else (k3, v3, q5))
                        else:
                            res.append((k3, v3, q4))
        return res

    def try_(self, m, s, env, p):
        mid = []
        for k, v, q in self.body(m, s.body, env, p):
            if k == 'raise' and s.handlers:
                all_ = False
                for h in s.handlers:
                    r = self.body(m, h.body, dict(env, **{'#names': dict(env.get('#names', {}), **({h.name: ('exc',)} if h.name else {}))}), q)
                    mid += r
                    all_ |= h.type is None or isinstance(h.type, ast.Name) and h.type.id == 'BaseException'
                if not all_:
                    mid.append((k, v, q))
            elif k == 'fall' and s.orelse:
                mid += self.body(m, s.orelse, env, q)
            else:
                mid.append((k, v, q))
        if not s.finalbody:
            return mid
        res = []
        for k, v, q in mid:
            for k2, v2, q2 in self.body(m, s.finalbody, env, q):
                if k2 == 'fall':
                    res.append((k, v, q2))
                else:
                    res.append((k2, v2, q2.do('swallowed', m.where(s)) if k == 'raise' and k2 == 'ret' else q2))
        return res

    # ------------------------------------------------------------------------------------------------------- expressions
    def evs(self, m, es, env, p):
        cur = [('v', [], p)]
        for e in es:
            nxt = []
            for k, vs, q in cur:
                if k != 'v':
                    nxt.append((k, vs, q))
                    continue
                for k2, v, q2 in self.ev(m, e, env, q):
                    nxt.append(('v', vs + [v], q2) if k2 == 'v' else (k2, v, q2))
            cur = nxt
        return cur

    def lookup(self, m, name, env, p):
        e = env
        while e is not None:
            v = e.get('#names', {}).get(name)
            if v is not None:
                if v[0] == 'slot':
                    return p.heap.get(v[1], ('unbound', name))
                return v
            e = e.get('#up')
        h = p.heap.get((('module', m.name), name))
        return h if h is not None else self.globl(m, name)

    def ev(self, m, e, env, p):
        if isinstance(e, ast.Constant):
            return [('v', ('const', e.value), p)]
        if isinstance(e, ast.Name):
            return [('v', self.lookup(m, e.id, env, p), p)]
        if isinstance(e, ast.Attribute):
            return [(k, self.getattr(m, e, v, e.attr, q) if k == 'v' else v, q) for k, v, q in self.ev(m, e.value, env, p)]
        if isinstance(e, ast.Starred):
            return [(k, ('star', v) if k == 'v' else v, q) for k, v, q in self.ev(m, e.value, env, p)]
        if isinstance(e, ast.Call):
            res = []
            for k, f, q in self.ev(m, e.func, env, p):
                if k != 'v':
                    res.append((k, f, q))
                    continue
                for k2, vs, q2 in self.evs(m, [*e.args, *[x.value for x in e.keywords]], env, q):
                    if k2 != 'v':
                        res.append((k2, vs, q2))
                        continue
                    a, kw = vs[:len(e.args)], {x.arg: v for x, v in zip(e.keywords, vs[len(e.args):])}
                    res += self.call(m, e, f, a, kw, q2)
            return res
        if isinstance(e, ast.IfExp):
            res = []
            for k, v, q in self.ev(m, e.test, env, p):
                if k != 'v':
                    res.append((k, v, q))
                    continue
                for t, r in self.branch(v, q):
                    res += self.ev(m, e.body if t else e.orelse, env, r)
            return res
        if isinstance(e, ast.BoolOp):
            cur = [('v', None, p)]
            last = []
            for i, x in enumerate(e.values):
                nxt = []
                for k, _, q in cur:
                    for k2, v, q2 in self.ev(m, x, env, q):
                        if k2 != 'v' or i == len(e.values) - 1:
                            last.append((k2, v, q2))
                            continue
                        for t, q3 in self.branch(v, q2):
                            if t == isinstance(e.op, ast.Or):
                                last.append(('v', v, q3))
                            else:
                                nxt.append(('v', None, q3))
                cur = nxt
            return last
        if isinstance(e, ast.UnaryOp):
            return [(k, (('const', not v[1]) if v[0] == 'const' else ('not', v)) if k == 'v' and isinstance(e.op, ast.Not) else v, q) for k, v, q in self.ev(m, e.operand, env, p)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            res = []
            for k, vs, q in self.evs(m, [e.left, e.comparators[0]], env, p):
                if k != 'v':
                    res.append((k, vs, q))
                    continue
                a, b = vs
                o = e.ops[0]
                t = ('cmp', 'is' if isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) else type(o).__name__, a, b)
                if t[1] == 'is':
                    if a[0] == b[0] == 'const':
                        t = ('const', a[1] == b[1])
                    elif ('const', None) in (a, b) and (a[0] in OBJ or b[0] in OBJ):
                        t = ('const', False)
                res.append(('v', (('const', not t[1]) if t[0] == 'const' else ('not', t)) if isinstance(o, (ast.IsNot, ast.NotEq, ast.NotIn)) else t, q))
            return res
        if isinstance(e, (ast.BinOp, ast.Tuple, ast.List, ast.Dict, ast.JoinedStr, ast.Subscript, ast.Set, ast.FormattedValue)):
            subs = [x for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)]
            res = []
            for k, vs, q in self.evs(m, subs, env, p):
                if k == 'v' and isinstance(e, ast.Subscript):
                    h = q.heap.get((vs[0], ('item', vs[1])))
                    if h is None and vs[1] == ('neg1',):
                        h = None
                    res.append(('v', h if h is not None else ('item', vs[0], vs[1]), q))
                elif k == 'v' and isinstance(e, (ast.List, ast.Dict, ast.Set)):
                    q, n = q.new()
                    v = ('new', type(e).__name__.lower(), n)
                    q.heap[(v, '#items')] = tuple(vs)
                    res.append(('v', v, q))
                else:
                    res.append((k, ('op', type(e).__name__, *vs) if k == 'v' else vs, q))
            return res
        if isinstance(e, ast.Lambda):
            return [('v', ('func', m.name, self.reg(e), self.freeze(env)), p)]
        if isinstance(e, ast.NamedExpr):
            return [(k, v, self.assign(m, e.target, v, env, q) if k == 'v' else q) for k, v, q in self.ev(m, e.value, env, p)]
        return [('v', ('expr', m.name, e.lineno, e.col_offset), p)]

    def getattr(self, m, e, b, name, p):
        h = p.heap.get((b, name))
        if h is not None:
            return h
        if b[0] == 'module' and b[1] in self.mods:
            h = p.heap.get((b, name))
            return h if h is not None else self.globl(self.mods[b[1]], name)
        if b[0] == 'ext':
            return ('ext', b[1] + '.' + name)
        if b[0] in ('inst', 'self'):
            r = self.find(b[1], name)
            if r is not None:
                if isinstance(r[1], ast.FunctionDef):
                    if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in r[1].decorator_list):
                        return ('func', r[0], self.reg(r[1]), ())
                    return ('bound', b, r[0], self.reg(r[1]))
                x = self.static(self.mods[r[0]], r[1]) if isinstance(r[1], (ast.Name, ast.Attribute)) else ('classattr', b[1], name)
                return ('const', r[1].value) if isinstance(r[1], ast.Constant) else x
        return ('attr', b, name)

    # ------------------------------------------------------------------------------------------------------------- calls
    def method(self, m, n, c, name, args, p):
        f = self.getattr(m, n, c, name, p)
        if f[0] == 'attr' and c[0] == 'gencm':
            return self.gencm(m, n, c, name, args, p)
        return self.call(m, n, f, args, {}, p)

    def call(self, m, n, f, a, kw, p, depth=0):
        R = self.R
        R.stats['calls'] += 1
        w = m.where(n)
        if f[0] == 'ext':
            last = f[1].split('.')
            if last[-1] == 'setThreadState' and a:
                q, k = p.new()
                old = ('old', k)
                return [('v', old, q.do('set', a[0], old, w))]
            if last[-1] == 'getThreadState':
                # the state last written on this path, or the one found
                q, k = p.new()
                return [('v', ('state', k), q.do('get', ('state', k), w))]
            if last[-1] == 'uniqueTraceId':
                q, k = p.new()
                return [('v', ('uid', k), q)]
            if last[-1] == 'setTraceName':
                return [('v', ('const', None), p.do('name', a[0] if a else None, a[1] if len(a) > 1 else None, w))]
            if last[-1] in KINDS:
                return [('v', ('const', None), p.do('emit', last[-1], ('ext', '.'.join(last[:-1])), tuple(a), w))]
            if f[1] in ('threading.local', 'weakref.WeakKeyDictionary', 'threading.Lock', 'threading.RLock'):
                q, k = p.new()
                return [('v', ('new', f[1], k), q)]
            if f[1] in ('threading.get_ident', 'threading.current_thread', 'thread.get_ident', 'threading.get_native_id'):
                return [('v', ('thread',), p)]
            if f[1] in ('functools.wraps',):
                return [('v', ('wraps',), p)]
            if f[1] in ('collections.deque', 'collections.defaultdict'):
                q, k = p.new()
                return [('v', ('new', 'list' if 'deque' in f[1] else 'dict', k), q)]
            return [('v', ('call', f[1], tuple(a)), p)]
        if f == ('wraps',):
            return [('v', a[0] if a else ('unknown',), p)]
        if f[0] == 'attr':
            b, name = f[1], f[2]
            if name in KINDS:
                return [('v', ('const', None), p.do('emit', name, b, tuple(a), w))]
            if name in ('append', 'appendleft', 'push') and a:
                q = p.do('push', b, a[0], name, w)
                q.heap[(b, '#stack')] = p.heap.get((b, '#stack'), ()) + ((name, a[0]),)
                return [('v', ('const', None), q)]
            if name in ('pop', 'popleft', 'get', 'popitem', 'setdefault'):
                st = p.heap.get((b, '#stack'), ())
                q, k = p.new()
                idx = a[0] if a else None
                q = q.do('pop', b, name, idx, ('popped', k), w)
                if st and name == 'pop' and not a and st[-1][0] != 'appendleft':
                    q.heap[(b, '#stack')] = st[:-1]
                    return [('v', st[-1][1], q)]
                h = p.heap.get((b, ('item', idx))) if idx is not None else None
                if h is None and name == 'setdefault' and len(a) > 1:
                    h = ('item', b, idx)
                    q.heap[(b, ('item', idx))] = h
                return [('v', h if h is not None else ('popped', k), q)]
            if name in ('__enter__', '__exit__', 'acquire', 'release', 'insert', 'clear', 'extend', 'remove'):
                return [('v', ('const', None), p.do('other', name, b, tuple(a), w))]
        if f[0] == 'builtin':
            name = f[1]
            if name == 'callable' and a:
                return [('v', ('const', True) if a[0][0] in ('func', 'bound', 'class') else ('const', False) if a[0][0] == 'const' else ('callable', a[0]), p)]
            if name == 'hasattr' and len(a) == 2 and a[1][0] == 'const':
                if (a[0], a[1][1]) in p.heap:
                    return [('v', ('const', True), p)]
                return [('v', ('hasattr', a[0], a[1][1]), p)]
            if name == 'getattr' and len(a) >= 2 and a[1][0] == 'const':
                v = self.getattr(m, n, a[0], a[1][1], p)
                return [('v', v, p)]
            if name == 'setattr' and len(a) == 3:
                key = a[1][1] if a[1][0] == 'const' else a[1]
                q = p.do('store', a[0], key, a[2], w)
                q.heap[(a[0], key)] = a[2]
                return [('v', ('const', None), q)]
            if name in ('list', 'dict', 'set'):
                q, k = p.new()
                return [('v', ('new', name, k), q)]
            return [('v', ('call', name, tuple(a)), p)]
        if f[0] == 'class':
            q, k = p.new()
            v = ('inst', f, k)
            r = self.find(f, '__init__')
            R.functions.add('%s.%s' % (f[1], f[2]))
            if r is None:
                return [('v', v, q)]
            return [('v', v, q2) if k2 in ('v',) else (k2, v2, q2) for k2, v2, q2 in self.apply(m, n, r[0], r[1], [v] + a, kw, q, {})]
        if f[0] == 'bound':
            return self.apply(m, n, f[2], self.nodes[f[3]], [f[1]] + a, kw, p, {})
        if f[0] == 'func':
            d = self.nodes[f[2]]
            up = self.envs[f[3]] if f[3] != () else {}
            return self.apply(m, n, f[1], d, a, kw, p, up)
        if f[0] == 'cmfunc':
            q, k = p.new()
            return [('v', ('gencm', f, tuple(a), k), q)]
        if f[0] == 'undefined':
            R.bad(R_DEF, w, 'the name %s is not defined' % f[1])
            return [('raise', ('raised',), p)]
        # code of the user
        q, k = p.new()
        v = ('call', f, tuple(a) + tuple(('kw', x, y) for x, y in kw.items()), k)
        q = q.do('user', f, v, w)
        return [('v', v, q), ('raise', ('userexc', k), q)]

    def gencm(self, m, n, c, name, args, p):
        raise Unknown('generator based context manager')

    def apply(self, m, n, mod, d, a, kw, p, up):
        if getattr(self, 'depth', 0) > 12:
            raise Unknown('recursion')
        mm = self.mods[mod]
        if isinstance(d, ast.FunctionDef):
            self.R.functions.add('%s.%s' % (mod, d.name))
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(d)):
                raise Unknown('generator')
        env = {'#names': {}, '#up': up}
        A = d.args
        ps = [x.arg for x in A.posonlyargs + A.args]
        stars = [x for x in a if x[0] == 'star']
        pos = [x for x in a if x[0] != 'star']
        nd = len(A.defaults)
        w = m.where(n)
        self.R.ok(R_ARGS, w)
        q = p.copy()
        for i, x in enumerate(ps):
            if i < len(pos):
                v = pos[i]
            elif x in kw:
                v = kw[x]
            elif i >= len(ps) - nd:
                dv = A.defaults[i - (len(ps) - nd)]
                v = ('const', dv.value) if isinstance(dv, ast.Constant) else ('default', mod, dv.lineno, dv.col_offset)
            elif stars or None in kw:
                v = ('starred', x)
            else:
                self.R.bad(R_ARGS, w, 'the call does not supply the argument %s of %s' % (x, getattr(d, 'name', 'the function')))
                v = ('missing', x)
            self.setlocal(env, x, ('slot', self.slot(env, x)))
            q.heap[self.slot(env, x)] = v
        if len(pos) > len(ps) and A.vararg is None:
            self.R.bad(R_ARGS, w, 'the call supplies more arguments than %s takes' % getattr(d, 'name', 'the function'))
        for x, de in zip(A.kwonlyargs, A.kw_defaults):
            self.setlocal(env, x.arg, kw.get(x.arg, ('const', de.value) if isinstance(de, ast.Constant) else ('default', mod, x.arg)))
        if A.vararg is not None:
            self.setlocal(env, A.vararg.arg, ('args',))
        if A.kwarg is not None:
            self.setlocal(env, A.kwarg.arg, ('kwargs',))
        self.depth = getattr(self, 'depth', 0) + 1
        try:
            if isinstance(d, ast.Lambda):
                return self.ev(mm, d.body, env, q)
            res = []
            for k, v, r in self.body(mm, d.body, env, q):
                res.append(('v', v if k == 'ret' else ('const', None), r) if k in ('ret', 'fall') else ('raise' if k == 'raise' else 'v', v, r))
            return res
        finally:
            self.depth -= 1


# ------------------------------------------------------------------------------------------------------------------ rules
def emits(p):
    return [e for e in p.eff if e[0] == 'emit' and e[1] in ('scope_entry', 'scope_exit')]


def judge(R, w, p, ident=None):
    """The events of one path through traced code: one begin, then the code, then one end."""
    es = [e for e in p.eff if e[0] in ('emit', 'user') and (e[0] == 'user' or e[1] in ('scope_entry', 'scope_exit'))]
    R.ok(R_MATCH, w)
    begin = [e for e in es if e[0] == 'emit' and e[1] == 'scope_entry']
    end = [e for e in es if e[0] == 'emit' and e[1] == 'scope_exit']
    if len(begin) != 1 or len(end) != 1:
        R.bad(R_MATCH, w, '%d begin and %d end events are emitted on a path%s' % (len(begin), len(end), ' that ends with an exception' if p.raised else ''))
        return
    b, e = begin[0], end[0]
    if b[2] != e[2]:
        R.bad(R_MATCH, e[4], 'begin and end events go through different backend selectors')
    if b[3][:1] != e[3][:1]:
        R.bad(R_MATCH, e[4], 'begin and end events carry different identifiers')
    if b[2][0] == 'default' or b[2][0] == 'ext':
        R.bad(R_MATCH, b[4], 'events do not go through the backend that was selected')
    order = [x for x in es]
    if order.index(b) > order.index(e) or any(x[0] == 'user' and not order.index(b) < order.index(x) < order.index(e) for x in order if x[0] == 'user' and x[1][0] in ('param', 'attr')):
        R.bad(R_MATCH, w, 'the traced code does not run between its begin and end events')
    names = [x for x in p.eff if x[0] == 'name']
    R.ok(R_NAME, w)
    if b[3] and not any(x[1] == b[3][0] for x in names):
        R.bad(R_NAME, w, 'no name is registered for the identifier the events carry')


def with_probe(Y, m, n, v, p):
    """with v: <code of the user>"""
    s = ast.parse('with C:\n    BODY()\n').body[0]
    for x in ast.walk(s):
        if hasattr(x, 'lineno'):
            x.lineno = n.lineno
    env = {'#names': {'C': v, 'BODY': ('param', 'BODY')}, '#up': {}}
    return Y.with_(m, s, 0, env, p)


def finish(res):
    for k, v, q in res:
        q.raised = k == 'raise'
    return res


def c28(P, R):
    """Every path of the package's wrappers is followed over its syntax tree (returns, exceptions, with and finally); the events
    and state changes of each path must pair up; names are resolved by scope against the package and the native bindings."""
    Y = Py(R)
    m = Y.mods.get('tracing')
    if m is None:
        raise AnalysisBroken('the tracing module of the Python package is gone')
    R.stats['entries'] += 1
    names(Y, R)
    for what, f in (('contexts', contexts), ('decorators', decorators), ('switch', switch)):
        try:
            f(Y, R, m)
        except Unknown as e:
            R.notes.append('%s: not followed (%s)' % (what, e))
        except (KeyError, IndexError, AttributeError, TypeError, RecursionError) as e:
            if os.environ.get('VERIF_STRICT'):
                raise
            R.notes.append('%s: not followed (%r)' % (what, e))


def classes(Y, m):
    return [(n, d) for n, d in sorted(m.defs.items()) if isinstance(d, ast.ClassDef)]


def contexts(Y, R, m):
    found = False
    for name, d in classes(Y, m):
        c = ('class', m.name, name)
        if Y.find(c, '__enter__') is None or not touches(Y, c, ('scope_entry', 'scope_exit')):
            continue
        found = True
        w = m.where(d)
        for given in (('const', None), ('param', 'trace_id')):
            init = Y.find(c, '__init__')
            args = [('param', 'name')]
            if given[0] == 'param':
                if init is None or len(init[1].args.args) < 3:
                    continue
                args.append(given)
            for k, v, p in Y.call(m, d, c, args, {}, Path()):
                if k != 'v':
                    continue
                if given[0] == 'param':
                    p = p.copy()
                for how in ('with', 'calls'):
                    if how == 'with':
                        res = finish(with_probe(Y, m, d, v, p))
                    else:
                        if Y.find(c, 'enter') is None or Y.find(c, 'exit') is None:
                            continue
                        res = []
                        for k1, v1, q1 in Y.method(m, d, v, 'enter', [], p):
                            for k2, v2, q2 in Y.method(m, d, v, 'exit', [], q1):
                                res.append((k2, v2, q2))
                        finish(res)
                    for k2, v2, q in res:
                        judge(R, w, q)
                        R.ok(R_PASS, w)
                        if any(e[0] == 'swallowed' for e in q.eff):
                            R.bad(R_PASS, w, 'leaving the context swallows the exception of the traced code')
                        b = [e for e in q.eff if e[0] == 'emit' and e[1] == 'scope_entry']
                        if given[0] == 'param' and b and b[0][3] and b[0][3][0] != given and not dropped(q, given):
                            R.bad(R_MATCH, w, 'the identifier that was given is not the one the events carry')
        marks(Y, R, m, d, c)
    if not found:
        raise AnalysisBroken('no context manager emits scope events any more')


def dropped(p, g):
    """Did the path decide that no identifier was given?"""
    return any((k[0] == 'cmp' and g in k[2:] and t is True or k == g and t is False) for k, t in p.dec.items())


def touches(Y, c, names_):
    d = Y.cls(c)
    if any(isinstance(x, ast.Attribute) and x.attr in names_ for x in ast.walk(d)):
        return True
    return any(Y.static(Y.mods[c[1]], b)[0] == 'class' and touches(Y, Y.static(Y.mods[c[1]], b), names_) for b in d.bases)


def marks(Y, R, m, d, c):
    for s in d.body:
        if not isinstance(s, ast.FunctionDef) or not any(isinstance(x, ast.Attribute) and x.attr in ('mark_event', 'count_event') for x in ast.walk(s)):
            continue
        w = m.where(s)
        for k, v, p in Y.call(m, d, c, [('param', 'name')], {}, Path()):
            if k != 'v':
                continue
            ps = [('param', a.arg) for a in s.args.args[1:]]
            for k2, v2, q in Y.call(m, s, ('bound', v, m.name, Y.reg(s)), ps, {}, p):
                es = [e for e in q.eff if e[0] == 'emit']
                R.ok(R_MARK, w)
                if len(es) != 1:
                    R.bad(R_MARK, w, '%d events are emitted on a path through %s' % (len(es), s.name))
                    continue
                e = es[0]
                if e[2][0] in ('ext', 'default'):
                    R.bad(R_MARK, e[4], 'the event does not go through the backend that was selected')
                if not any(x[0] == 'name' and x[1] == e[3][0] for x in q.eff):
                    R.bad(R_MARK, e[4], 'the event carries an identifier without a name')
                if len(e[3]) < 2:
                    R.bad(R_MARK, e[4], 'the event lacks its %s' % ('level' if e[1] == 'mark_event' else 'value'))
                elif ps and e[3][1] != ps[0] and e[3][1][0] in ('param', 'const', 'uid', 'inst'):
                    R.bad(R_MARK, e[4], 'the event does not carry the value given')
                elif not ps and e[1] == 'mark_event' and e[3][1][0] == 'ext':
                    lv = e[3][1][1].rsplit('.', 1)[-1].lower()
                    if lv in ('global', 'process', 'thread') and s.name.strip('_').lower() in ('global', 'process', 'thread') and lv != s.name.strip('_').lower():
                        R.bad(R_MARK, e[4], '%s marks at level %s' % (s.name, lv))


def wrappers(Y, m, d, args):
    """Calls a decorator (factory) and returns the wrapped functions with the path that made them."""
    res = []
    f = ('func', m.name, Y.reg(d), ())
    for k, v, p in Y.call(m, d, f, args, {}, Path()):
        if k == 'v':
            res.append((v, p))
    return res


def decorators(Y, R, m):
    n = 0
    for name, d in sorted(m.defs.items()):
        if not isinstance(d, ast.FunctionDef) or not d.args.args or not any(isinstance(x, ast.FunctionDef) for x in ast.walk(d) if x is not d):
            continue
        f = ('param', 'f')
        w = m.where(d)
        made = []
        for v, p in wrappers(Y, m, d, [f]):
            if p.dec.get(('callable', f)) is not False:
                made.append((v, p))
            elif v[0] == 'func':
                for k, v2, p2 in Y.call(m, d, v, [('param', 'f2')], {}, p):
                    if k == 'v':
                        made.append((v2, p2))
        for v, p in made:
            if v[0] != 'func':
                continue
            p = Path(p.eff, p.heap, p.dec, p.n)
            start = len(p.eff)
            res = finish(Y.call(m, d, v, [('param', 'x')], {}, p))
            if any(e[0] == 'emit' for k, r, q in res for e in q.eff):
                n += 1
                for k, r, q in res:
                    judge(R, w, q)
            elif any(e[0] == 'set' for k, r, q in res for e in q.eff):
                for k, r, q in res:
                    balanced(R, w, q)
                    ss = [e for e in q.eff if e[0] == 'set']
                    if 'suppress' in name and ss and ss[0][1] == ('const', True):
                        R.bad(R_SAVE, ss[0][3], 'suppressing switches tracing on')
            else:
                continue
            for k, r, q in res:
                R.ok(R_PASS, w)
                us = [e for e in q.eff[start:] if e[0] == 'user' and e[1][0] == 'param']
                if any(e[0] == 'swallowed' for e in q.eff):
                    R.bad(R_PASS, w, 'an exception of the decorated function is swallowed')
                elif len(us) != 1:
                    R.bad(R_PASS, w, 'the decorated function is called %d times' % len(us))
                elif k == 'v' and r != us[0][2] and not q.dec_raised(us) :
                    R.bad(R_PASS, w, 'the result of the decorated function is not passed on')
                elif us:
                    A = Y.nodes[v[2]].args
                    for what, given in ((A.vararg, ('args',)), (A.kwarg, ('kwargs',))):
                        if what is not None and given not in [x[-1] for x in us[0][2][2]]:
                            R.bad(R_PASS, w, 'the %sarguments are not passed on to the decorated function' % ('keyword ' if given == ('kwargs',) else ''))
    if not n:
        raise AnalysisBroken('no decorator emits scope events any more')


def dec_raised(self, us):
    return False


Path.dec_raised = dec_raised
Path.raised = False


def sets(p):
    return [e for e in p.eff if e[0] in ('set', 'get')]


def state_after(p):
    """Follows the switch of one thread along the path: what it holds at the end, starting from 'initial'."""
    cur = ('initial',)
    val = {}

    def norm(v):
        return val.get(v, v)
    for e in p.eff:
        if e[0] == 'set':
            val[e[2]] = cur
            cur = norm(e[1])
        elif e[0] == 'get':
            val[e[1]] = cur
    return cur


def balanced(R, w, p):
    R.ok(R_SAVE, w)
    ss = [e for e in p.eff if e[0] == 'set']
    if not ss:
        R.bad(R_SAVE, w, 'the switch is not changed on some path')
        return
    end = state_after(p)
    if end != ('initial',):
        R.bad(R_SAVE, w, 'the state the thread had before is not restored%s' % (' when an exception is thrown' if p.raised else ''))


def shared_slot(p, made):
    """Where the state is kept between entering and leaving: (location, discipline)."""
    res = []
    olds = {e[2] for e in p.eff if e[0] == 'set'} | {e[1] for e in p.eff if e[0] == 'get'}
    for e in p.eff:
        if e[0] == 'store' and e[3] in olds:
            res.append(('slot', e[1], e[2], e[4]))
        if e[0] == 'push' and e[2] in olds:
            res.append(('stack', e[1], e[3], e[4]))
    return res


def perthread(p, loc, seen=0):
    """Is this location the calling thread's own?"""
    if loc[0] == 'new':
        if loc[1] == 'threading.local':
            return True
        for (b, k), v in [(x, y) for x, y in p.heap.items() if len(x) == 2]:
            if v == loc and isinstance(b, tuple) and b != loc and seen < 4 and b and b[0] in ('new', 'item', 'attr', 'inst'):
                if isinstance(k, tuple) and k and k[0] == 'item':
                    if k[1] == ('thread',):
                        return True
                elif b[0] == 'new' and perthread(p, b, seen + 1):
                    return True
        return False
    if loc[0] in ('attr', 'item', 'popped'):
        if loc[0] == 'item' and (loc[2] == ('thread',) or 'thread' in str(loc[2])):
            return True
        return perthread(p, loc[1], seen + 1) if isinstance(loc[1], tuple) else False
    return False


def switch(Y, R, m):
    found = False
    for name, d in classes(Y, m):
        c = ('class', m.name, name)
        if Y.find(c, '__enter__') is None or not touches(Y, c, ('setThreadState',)) and not any(isinstance(x, ast.Name) and x.id == 'setThreadState' for x in ast.walk(d)):
            continue
        found = True
        w = m.where(d)
        init = Y.find(c, '__init__')
        n = len(init[1].args.args) - 1 if init else 0
        for k, v, p in Y.call(m, d, c, [('param', 'state')] * min(n, 1), {}, Path()):
            if k != 'v':
                continue
            base = len(p.eff)
            for k2, v2, q in finish(with_probe(Y, m, d, v, p)):
                balanced(R, w, q)
                ss = [e for e in q.eff if e[0] == 'set']
                if ss and ss[0][1] != ('param', 'state') and ss[0][1][0] in ('const',):
                    R.bad(R_SAVE, ss[0][3], 'the switch is not set to the state that was asked for')
                if any(e[0] == 'swallowed' for e in q.eff):
                    R.bad(R_PASS, w, 'leaving the context swallows the exception of the code inside')
                for s in shared_slot(q, v):
                    R.ok(R_SAVE, s[3])
                    mine = perthread(q, s[1])
                    if not mine and owned(s[1], v):
                        R.bad(R_SAVE, s[3], 'the saved state is kept in one place for all threads that use the switcher')
                    elif s[0] == 'slot' and (owned(s[1], v) or mine):
                        R.bad(R_SAVE, s[3], 'the saved state is overwritten when the switcher is entered again before it is left')
                    if s[0] == 'stack':
                        for e in q.eff:
                            if e[0] == 'pop' and e[1] == s[1] and (e[2] == 'popleft') == (s[2] != 'appendleft') or \
                                    e[0] == 'pop' and e[1] == s[1] and e[2] == 'pop' and e[3] == ('const', 0):
                                R.bad(R_SAVE, e[5], 'leaving takes the state that was saved first instead of the last one')
            # entered twice by one thread
            for k1, v1, q1 in Y.method(m, d, v, '__enter__', [], p):
                for k2, v2, q2 in Y.method(m, d, v, '__enter__', [], q1) if k1 == 'v' else ():
                    for k3, v3, q3 in Y.method(m, d, v, '__exit__', [('const', None)] * 3, q2) if k2 == 'v' else ():
                        for k4, v4, q4 in Y.method(m, d, v, '__exit__', [('const', None)] * 3, q3) if k3 == 'v' else ():
                            if k4 == 'v':
                                q4.raised = False
                                balanced(R, w, q4)
    if not found:
        raise AnalysisBroken('no context manager switches the thread state any more')


def owned(loc, inst):
    """Is the location reached from the instance itself (shared by everything that uses it)?"""
    if loc == inst:
        return True
    if loc[0] == 'new':
        return True
    return loc[0] in ('attr', 'item', 'popped') and isinstance(loc[1], tuple) and owned(loc[1], inst)


# ------------------------------------------------------------------------------------------------------------------ names
def native_names():
    d = os.path.join(REPO, 'scalopus_python/lib')
    res = set()
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        if f.endswith(('.cpp', '.h')):
            res |= set(re.findall(r'"((?:[^"\\\n]|\\.)*)"', open(os.path.join(d, f), errors='replace').read()))
    return res


def names(Y, R):
    known = native_names()
    special = {'__name__', '__file__', '__doc__', '__loader__', '__package__', '__spec__', '__path__', '__builtins__', '__bootstrap__'}
    for m in Y.mods.values():
        top = symtable.symtable(m.src, m.path, 'exec')
        bound = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Global):
                bound |= set(x.names)
            if isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names):
                bound = None
                break
        if bound is None:
            continue

        def tables(t):
            yield t
            for c in t.get_children():
                yield from tables(c)
        undefined = set()
        for t in tables(top):
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t is top) and s.get_name() not in bound and not hasattr(builtins, s.get_name()) and s.get_name() not in special:
                    undefined.add(s.get_name())
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                R.ok(R_DEF, m.where(x))
                if x.id in undefined:
                    R.bad(R_DEF, m.where(x), 'the name %s is not defined' % x.id)
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                b = chain(x.value)
                if b is None or b.split('.')[0] not in m.aliases:
                    continue
                if local(m, x, b.split('.')[0]):
                    continue
                v = Y.static(m, x.value)
                if v[0] == 'module':
                    R.ok(R_DEF, m.where(x))
                    k = Y.mods[v[1]]
                    if x.attr not in k.defs and x.attr not in k.aliases and x.attr not in special:
                        R.bad(R_DEF, m.where(x), '%s.%s is not defined' % (b, x.attr))
                elif v[0] == 'ext' and v[1].split('.')[0] in ('lib', 'scalopus_python_lib', '') or v[0] == 'ext' and 'scalopus_python_lib' in v[1]:
                    if guarded(m, x):
                        continue
                    R.ok(R_DEF, m.where(x))
                    if known and x.attr not in known and not x.attr.startswith('__'):
                        R.bad(R_DEF, m.where(x), 'the native library does not define %s.%s' % (b, x.attr))
        for name, d in classes(Y, m):
            selfs(Y, R, m, name, d)


def chain(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = chain(e.value)
        return b and b + '.' + e.attr
    return None


def local(m, x, name):
    """Is the name rebound in a function around this use?"""
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)) and any(y is x for y in ast.walk(f)):
            if any(a.arg == name for a in f.args.args + f.args.kwonlyargs):
                return True
            if any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for y in ast.walk(f)):
                return True
    return False


def guarded(m, x):
    return any(isinstance(t, ast.Try) and t.handlers and any(y is x for s in t.body for y in ast.walk(s)) for t in ast.walk(m.tree))


def selfs(Y, R, m, name, d):
    """Attributes read through self exist somewhere in the class."""
    c = ('class', m.name, name)
    if Y.foreign(c) or Y.find(c, '__getattr__') is not None or Y.find(c, '__getattribute__') is not None:
        return
    have = set()

    def add(v):
        k = Y.cls(v)
        for x in ast.walk(k):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and isinstance(x.ctx, ast.Store):
                have.add(x.attr)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr':
                have.add('*')
        for s in k.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                have.add(s.name)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in getattr(s, 'targets', [getattr(s, 'target', None)]):
                    have.update(x.id for x in ast.walk(t) if isinstance(x, ast.Name))
        for b in k.bases:
            x = Y.static(Y.mods[v[1]], b)
            if x[0] == 'class':
                add(x)
    add(c)
    subs = [n for k in Y.mods.values() for n, e in classes(Y, k) if any(Y.static(k, b) == c for b in e.bases)]
    if '*' in have:
        return
    for f in d.body:
        if isinstance(f, ast.FunctionDef) and f.args.args and not any(isinstance(x, ast.Name) and x.id in ('staticmethod', 'classmethod') for x in f.decorator_list):
            me = f.args.args[0].arg
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                    R.ok(R_DEF, m.where(x))
                    if x.attr not in have and not hasattr(object, x.attr) and not subs:
                        R.bad(R_DEF, m.where(x), 'self.%s is not defined' % x.attr)


CHECKS = {'C28': c28}
