"""Helpers shared by the rules."""
import os
from .terms import *
from .facts import walk, rel, AnalysisBroken
from .engine import Engine, Monitor, St

NS = 'scalopus::'


def library(fn):
    """Is this function part of the library (not tests, examples or analysis stubs)?"""
    r = rel(fn['file'] or '')
    return fn['file'].startswith(rel_root()) and '/test' not in '/' + r and '/example' not in '/' + r


def rel_root():
    from .facts import REPO
    return REPO


def library_functions(P):
    return [f for l in P.defs.values() for f in l if f.get('body') is not None and library(f) and f['kind'] != 'lambda']


def thread_lambdas(P):
    """(owner function, closure node, body) of every std::thread the library starts."""
    res = []
    for l in list(P.defs.values()):
        for f in l:
            if f.get('body') is None or not library(f):
                continue
            for n in walk(f):
                if n.get('k') == 'ctor' and n.get('rq') == 'std::thread' and n.get('cm') in ('', None) and n.get('a'):
                    lams = [x for x in walk(n['a'][0]) if x.get('k') == 'lambda']
                    if lams:
                        d = P.definition(lams[0]['fn'])
                        if d is not None:
                            res.append((f, lams[0], d))
                    else:
                        # member function pointer: std::thread(&C::f, this)
                        for x in walk(n['a'][0]):
                            u = x.get('usr') or (x.get('c') or {}).get('usr') if isinstance(x.get('c'), dict) or x.get('usr') else None
                            if x.get('k') == 'fn' and u:
                                d = P.definition(u)
                                if d is not None:
                                    res.append((f, x, d))
    return res


def owner_class(P, f):
    """Class whose method (transitively, through lambdas) f is."""
    if f.get('cls') and f['kind'] != 'lambda':
        return f['cls']
    return None


def lambda_owner(P):
    """lambda usr -> enclosing function."""
    if not hasattr(P, '_lam_owner'):
        m = {}
        for l in P.defs.values():
            for f in l:
                if f.get('body') is None:
                    continue
                for n in walk(f):
                    if n.get('k') == 'lambda':
                        m.setdefault(n['fn'], f)
        P._lam_owner = m
    return P._lam_owner


def enclosing_class(P, f):
    seen = 0
    lo = lambda_owner(P)
    while f is not None and f['kind'] == 'lambda' and seen < 8:
        f = lo.get(f['usr'])
        seen += 1
    return f.get('cls') if f is not None else None


def run(P, R, mon, fn, this=None, cls=None, st=None, args=None):
    E = Engine(P, mon)
    if fn['kind'] == 'lambda' and this is None:
        c = cls or enclosing_class(P, fn)
        if c:
            this = ('O', 'this', c)
    try:
        outs, thr = E.run(fn, this=this, cls=cls, st=st, args=args)
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, AssertionError) as e:
        # a construct the interpreter cannot digest: this entry point stays unexamined, and says so
        if os.environ.get('VERIF_STRICT'):
            raise
        R.notes.append('not examined: %s (%s: %s)' % (fn['q'], type(e).__name__, str(e)[:120]))
        outs, thr = [], []
    R.absorb(E)
    return E, outs, thr


def public_methods(P, cls):
    """Public non-special methods a user can call on an object of class cls, including inherited ones."""
    res, names = [], set()
    todo, seen = [cls], set()
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        for f in P.methods(c):
            if f['kind'] == 'method' and f.get('access') == 'public' and not f.get('implicit'):
                k = (f['n'], tuple(p['t'] for p in f['p']), bool(f.get('const')))
                if k not in names:
                    names.add(k)
                    res.append(f)
        r = P.records.get(c)
        for b in (r or {}).get('bases') or []:
            b = b if isinstance(b, str) else b.get('q')
            if b in P.records:
                todo.append(b)
    return res


def tagof(v):
    """Tag head of an unknown value, looking through ageing."""
    while v and v[0] in ('old', 'older'):
        v = v[1]
    if v and v[0] == 's':
        t = v[3]
        return t[0] if isinstance(t, tuple) else t
    return None


def tag(v):
    while v and v[0] in ('old', 'older'):
        v = v[1]
    if v and v[0] == 's' and isinstance(v[3], tuple):
        return v[3]
    return ()


def fieldstep(loc):
    """Innermost member field of a location."""
    while loc[0] in PARTS:
        if loc[0] == 'F':
            return loc
        loc = loc[1]
    return None


def has_field(loc, f):
    while loc[0] in PARTS:
        if loc[0] == 'F' and loc[2] == f:
            return True
        loc = loc[1]
    return False


def where_chain(E, node, fr):
    return E.where(node, fr), [f.fn['q'] if f.fn['kind'] != 'lambda' else 'lambda at %s:%s' % (rel(f.fn['file']), f.fn['line'])
                               for f in fr.stack()]


def callees(P, f):
    """f and the functions it calls that belong to the library (transitively, statically resolved)."""
    res, todo = [], [f]
    while todo:
        g = todo.pop()
        if any(g is x for x in res):
            continue
        res.append(g)
        for n in walk(g):
            u = None
            if n.get('k') in ('call', 'ctor') and isinstance(n.get('c'), dict):
                u = n['c'].get('usr')
            elif n.get('k') == 'lambda':
                u = n.get('fn')
            if u:
                d = P.definition(u)
                if d is not None and library(d):
                    todo.append(d)
    return res


def construct(P, R, cls, mon=None):
    """States of an object of class cls right after each of its constructors."""
    res = []
    this = ('O', 'this', cls)
    m = mon or Monitor(P, R)
    for c in ctors(P, cls):
        if True:
            E, outs, thr = run(P, R, m, c, this=this, cls=cls)
            res += [clean(s, this) for s, v in outs]
    return res


def clean(st, this):
    """Only what the object holds."""
    mem = {k: v for k, v in st.mem.items() if root(k) == this}
    return St(mem=mem, facts=dict(st.facts))


def decide_method(P, R, st, fn, this, want=None):
    """Possible truth values of a const query method in this state."""
    class M(Monitor):
        throws = False
        fresh_atomics = False
    E = Engine(P, M(P, R))
    outs, thr = E.run(fn, this=this, cls=this[2], st=st.copy(ts={}, locks=(), cl=()))
    return {E.decide(s, v) for s, v in outs}


def ctors(P, cls):
    """Constructors of a class that make a new object; the implicit one if none is written."""
    res = [c for c in P.methods(cls) if c['kind'] == 'ctor' and not c.get('copymove') and (c.get('body') is not None or c.get('inits'))]
    if res:
        return res
    r = P.records.get(cls) or {}
    n = cls.rsplit('::', 1)[-1]
    return [{'kind': 'ctor', 'q': cls + '::' + n, 'n': n, 'cls': cls, 'p': [], 'inits': [], 'body': None, 'file': r.get('file') or '',
             'line': r.get('line') or 0, 'usr': 'implicit:' + cls, '#': 0, '@': r.get('file') or '', 'implicit': True}]


def touches(P, usr, fields, nodes=(), calls=(), memo=None):
    """Does this function, or one it calls, mention one of these member fields, contain one of these nodes or call these?"""
    k = usr
    if memo is not None and k in memo:
        return memo[k]
    d = P.definition(usr)
    res = d is None
    if d is not None:
        for g in callees(P, d):
            for n in walk(g):
                if n.get('k') == 'mem' and n.get('f') in fields or n.get('#') in nodes \
                        or n.get('k') == 'call' and isinstance(n.get('c'), dict) and n['c'].get('q') in calls:
                    res = True
                    break
            if res:
                break
    if memo is not None:
        memo[k] = res
    return res


def skip(E, mon, node, st, fr, fields, nodes=(), calls=()):
    """Treat a call into the library as unknown when nothing it does concerns the rule."""
    c = node.get('c') or {}
    if not isinstance(c, dict) or not (c.get('repo') or c.get('repodecl')) or not c.get('usr'):
        return None
    if not hasattr(mon, '_skip'):
        mon._skip = {}
    if touches(mon.p, c['usr'], fields, nodes, calls, mon._skip):
        return None
    return E.opaque_repo(node, c, None, [], st, fr)
