"""Lockset analysis: who touches which member of a shared object, holding which locks."""
from .lib import *

EXEMPT_TYPES = ('std::atomic', 'std::mutex', 'std::shared_timed_mutex', 'std::shared_mutex', 'std::recursive_mutex',
                'std::timed_mutex', 'std::condition_variable', 'std::once_flag', 'std::thread')
LOCK_TYPES = ('std::mutex', 'std::shared_timed_mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::timed_mutex')


def is_mutex_type(t):
    return t.replace('mutable ', '').replace('const ', '').startswith(LOCK_TYPES)


def shared_classes(P):
    """Library classes that own a lock, an atomic or a thread (or inherit one): the objects threads share."""
    own = set()
    for r in P.records.values():
        if not (r.get('file') or '').startswith(rel_root()):
            continue
        rr = '/' + rel(r['file'])
        if '/test' in rr or '/example' in rr:
            continue
        for f in r['fields']:
            t = f['t'].replace('mutable ', '')
            if is_mutex_type(t) or t.startswith(('std::atomic', 'std::thread')):
                own.add(r['q'])
    own |= {c for c in THREAD_SAFE if c in P.records}
    res = set(own)
    for r in P.records.values():
        if any(b in own for b in (r.get('allbases') or [])):
            res.add(r['q'])
    return res


class Access(Monitor):
    wants_access = True
    throws = False
    exit_limit = 1
    head_limit = 4

    def __init__(self, prog, report, shared, ctx, sink):
        super().__init__(prog, report)
        self.shared, self.ctx, self.out = shared, ctx, sink

    def owner(self, loc):
        """The member of a shared object this location belongs to (innermost)."""
        l = loc
        while l[0] in PARTS:
            if l[0] == 'F':
                cls = l[2].rsplit('::', 1)[0]
                if cls in self.shared:
                    return l
            l = l[1]
        if l[0] == 'S' and len(l) > 3 and l[3] == 'static' or l[0] == 'G':
            return l
        return None

    def access(self, E, st, fr, node, loc, rw):
        o = self.owner(loc)
        if o is None:
            return st
        r = root(o)
        if r[0] in ('L', 'T'):
            return st
        if r[0] == 'O' and isinstance(r[1], tuple):
            return st           # created by this very function
        if o[0] == 'F':
            fd = self.p.fields.get(o[2])
            if fd is None:
                return st
            t = fd['t'].replace('mutable ', '')
            if t.startswith(EXEMPT_TYPES) or fd.get('const') or t.startswith('const '):
                return st
            base = o[1]
            name = o[2]
        else:
            base, name = None, str(o[1:])
        locks = set()
        for l, mode, _ in st.locks:
            if l[0] == 'F' and l[1] == base:
                locks.add((l[2], mode, 'self'))
            elif l[0] == 'F':
                locks.add((l[2], mode, 'other'))
            else:
                locks.add((str(l), mode, 'self'))
        joined = base is not None and base in (st.get('joined') or frozenset())
        started = bool(st.get('started'))
        me = 'this' if base == fr_top(fr).this or base is None else 'peer'
        w, chain = where_chain(E, node, fr)
        self.out.append((name, rw, frozenset(locks), self.ctx, joined, started, me, w, tuple(chain)))
        return st

    def mark_joined(self, st, recv):
        if recv is not None and recv[0] == '&' and recv[1][0] == 'F':
            return st.set('joined', (st.get('joined') or frozenset()) | {recv[1][1]})
        return st

    def call(self, E, st, fr, node, q, recv, args):
        if q == 'std::thread::joinable' and recv is not None and recv[0] == '&':
            v = st.read(recv[1])
            if v[0] not in ('thread', 'nothread'):
                return [(self.mark_joined(st, recv).write(recv[1], ('nothread',)), C0), (st.write(recv[1], ('thread', ('c', 0))), C1)]
        if q == 'std::thread::join':
            return [(self.mark_joined(st.write(recv[1], ('nothread',)) if recv[0] == '&' else st, recv), ('void',))]
        return None

    def write(self, E, st, fr, node, loc, v):
        if v[0] == 'thread':
            st = st.set('started', True)
            if loc[0] == 'F':
                st = st.set('joined', (st.get('joined') or frozenset()) - {loc[1]} or None)
        return st


# documented: "The caller is responsible for ensuring the mutex for this objects' state is locked"
PRECONDITION = {'scalopus::EndpointManagerPoll::connect'}

# documented as configuration that happens before the object is put to use
CONFIG = {'setLogger', 'setSeasocksLogger', 'setSeasocksWarningLogger', 'setMaxBuffersize', 'setExecutor', 'addProvider',
          'setupDumpFile', 'main'}

# objects that several threads use at the same time, whatever members they have
THREAD_SAFE = {'scalopus::' + x for x in (
    'Transport', 'TransportUnix', 'TransportLoopback', 'EndpointManagerPoll', 'GeneralProvider', 'ScopeTracingProvider',
    'MapTracker', 'ThreadNameTracker', 'StaticStringTracker', 'TraceConfigurator', 'TracePointCollectorNative',
    'NativeTraceProvider', 'NativeTraceSource', 'BabeltraceParser', 'BabeltraceParser::EventCallback', 'CatapultRecorder',
    'TraceSession', 'CatapultBackend', 'EndpointProcessInfo', 'EndpointNativeTraceSender')}


def fr_top(fr):
    while fr.parent:
        fr = fr.parent
    return fr


def starts_thread(P, f):
    return any(n.get('k') == 'ctor' and n.get('rq') == 'std::thread' and n.get('a') and n.get('cm') in ('', None)
               for g in callees_nolam(P, f) for n in walk(g))


def callees_nolam(P, f):
    res, todo = [], [f]
    while todo:
        g = todo.pop()
        if any(g is x for x in res):
            continue
        res.append(g)
        for n in walk(g):
            if n.get('k') == 'call' and isinstance(n.get('c'), dict) and n['c'].get('usr'):
                d = P.definition(n['c']['usr'])
                if d is not None and library(d):
                    todo.append(d)
    return res


def stored_lambdas(P):
    """Closures kept for later (bound to a std::function or passed to a repository constructor), run by some thread."""
    res = []
    for l in list(P.defs.values()):
        for f in l:
            if f.get('body') is None or not library(f):
                continue
            for n in walk(f):
                if n.get('k') == 'lambda':
                    pass
                tgt = None
                if n.get('k') == 'ctor' and n.get('a') and n.get('cm') in ('', None):
                    rq = n.get('rq') or ''
                    if rq == 'std::function' or rq in P.records and rq.startswith('scalopus::'):
                        tgt = n['a']
                for a in tgt or []:
                    x = a
                    while x is not None and x.get('k') in ('cast', 'ctor') and x.get('k') != 'lambda':
                        x = x.get('e') or (x.get('a') or [None])[0]
                    if x is not None and x.get('k') == 'lambda':
                        d = P.definition(x['fn'])
                        if d is not None:
                            res.append((f, x, d))
    return res


def collect(P, R):
    shared = shared_classes(P)
    out, handed = [], []
    for f in library_functions(P):
        if f.get('implicit') or f['kind'] == 'ctor' or f.get('inst') == 'pattern' or f['q'].startswith('subprocess::'):
            continue
        if f.get('cls') and f['kind'] == 'method' and f.get('access') != 'public':
            continue
        if f['q'] in PRECONDITION:
            continue
        kind = 'dtor' if f['kind'] == 'dtor' else ('starter' if starts_thread(P, f) else 'public')
        E, outs, thr = run(P, R, Access(P, R, shared, (kind, f['q']), out), f)
        if kind != 'dtor' and f.get('rt', '').rstrip().endswith('&') and not f['n'].startswith('operator'):
            for st, v in outs:
                if v is not None and v[0] == '&':
                    handed.append((f, v[1]))
    for f, lam, d in thread_lambdas(P):
        run(P, R, Access(P, R, shared, ('worker', enclosing_class(P, d) or f['q']), out), d)
    seen = set()
    for f, lam, d in stored_lambdas(P):
        if d['usr'] in seen:
            continue
        seen.add(d['usr'])
        run(P, R, Access(P, R, shared, ('callback', f['q']), out), d)
    return shared, out, handed


def owns_mutex(P, cls):
    r = P.records.get(cls)
    return bool(r) and any(is_mutex_type(f['t']) for f in r['fields'])


def concurrent(a, b, safe):
    """Can these two accesses to the same member of the same object happen at the same time?"""
    (_, _, _, ca, ja, sa, ma, _, _), (_, _, _, cb, jb, sb, mb, _, _) = a, b
    ka, kb = ca[0], cb[0]
    for x, j, s in ((ka, ja, sa), (kb, jb, sb)):
        if x == 'starter' and not s:
            return False            # before the thread exists / the object is in use
    for c in (ca, cb):
        if c[1].rsplit('::', 1)[-1] in CONFIG and c[0] != 'worker':
            return False
    if 'dtor' in (ka, kb):
        k, j = (kb, ja) if ka == 'dtor' else (ka, jb)
        own = (ca if ka == 'dtor' else cb)[1].rsplit('::', 1)[0]
        if k != 'worker':
            # members of the object being destroyed are not used by others any more; other objects still are
            m = ma if ka == 'dtor' else mb
            return safe and m == 'peer' and k != 'dtor'
        return not j
    if ka == 'worker' and kb == 'worker':
        return ca != cb or (ma == 'peer') != (mb == 'peer') or ma == 'peer'
    if 'worker' in (ka, kb):
        j = jb if ka == 'worker' else ja
        return not j
    return safe


def common_lock(a, b):
    for (la, ma, oa) in a[2]:
        for (lb, mb, ob) in b[2]:
            if la == lb and oa == ob:
                if (a[1] == 'w' and ma != 'x') or (b[1] == 'w' and mb != 'x'):
                    continue
                return True
    return False


def check(P, R, pick, rule='shared state is accessed under one lock'):
    shared, out, handed = collect(P, R)
    by = {}
    for a in out:
        if a[0].startswith('scalopus::SPSCRingBuffer::'):
            continue                # decided by the ring buffer's own property
        if pick(a):
            by.setdefault(a[0], []).append(a)
    guarded = set()
    n = 0
    for name, l in sorted(by.items()):
        l = list({(x[1], x[2], x[3], x[4], x[5], x[6], x[7]): x for x in l}.values())
        cls = name.rsplit('::', 1)[0]
        if any(x[2] for x in l):
            guarded.add(name)
        ws = [x for x in l if x[1] == 'w']
        if not ws:
            R.ok(rule, name, 'never modified after construction')
            continue
        R.ok(rule, name)
        safe = owns_mutex(P, cls) or cls in THREAD_SAFE
        for a in ws:
            for b in l:
                if concurrent(a, b, safe) and not common_lock(a, b):
                    x, y = (a, b) if len(a[2]) <= len(b[2]) else (b, a)
                    R.bad(rule, '%s at %s' % (name, x[7]),
                          '%s of %s in %s (holding %s) can run at the same time as the %s at %s in %s (holding %s)'
                          % ('write' if x[1] == 'w' else 'read', name, ctx_name(x), lock_names(x),
                             'write' if y[1] == 'w' else 'read', y[7], ctx_name(y), lock_names(y)), list(x[8]))
    for f, loc in handed:
        l = loc
        while l[0] in PARTS:
            if l[0] == 'F' and l[2] in guarded and any(x[1] == 'w' for x in by.get(l[2], ())):
                R.bad('accessors hand out copies', '%s (%s:%s)' % (f['q'], rel(f['file']), f['line']),
                      'returns a reference to %s, which is guarded by a lock that is released on return' % l[2])
                break
            l = l[1]


def ctx_name(a):
    k, n = a[3]
    return {'worker': 'the thread of ' + n}.get(k, n)


def lock_names(a):
    return ', '.join(sorted(l[0].rsplit('::', 1)[-1] + ('' if l[2] == 'self' else ' of another object') for l in a[2])) or 'no lock'
