"""C13: lock order, re-acquisition, joining under locks, handlers under locks."""
from ..lib import *
from .. import races

DROPS = ('erase', 'clear', 'pop_back', 'pop_front', 'operator=', 'reset', 'assign', 'resize')
HANDLERS = ('scalopus::Endpoint::handle', 'scalopus::Endpoint::unsolicited')


class Order(Monitor):
    throws = False
    exit_limit = 2
    head_limit = 4
    rule = 'locks are acquired in one order'

    def __init__(self, prog, report, fn, G):
        super().__init__(prog, report)
        self.fn, self.G = fn, G

    @staticmethod
    def name(loc):
        return loc[2] if loc[0] == 'F' else str(loc)

    def acquire(self, E, st, fr, node, loc, mode):
        w, chain = where_chain(E, node, fr)
        self.G.acq.setdefault(self.fn['usr'], set()).add(self.name(loc))
        # the hook may run before or after the lock is entered into the list
        held = [l for l in st.locks if not (l[2] == node['#'] and l[0] == loc)]
        self.report_to.ok('no lock is acquired twice', w)
        for l, m, _ in held:
            if l == loc:
                fd = self.p.fields.get(self.name(loc)) or {}
                if 'recursive' not in fd.get('t', ''):
                    self.report_to.bad('no lock is acquired twice', w, '%s is acquired while this thread already holds it'
                                       % self.name(loc), chain)
            elif _ != node['#']:      # one scoped_lock takes its mutexes together
                self.G.edge(self.name(l), self.name(loc), w, chain)
        return st

    def opaque_under(self, E, st, fr, node, q, usr):
        w, chain = where_chain(E, node, fr)
        self.G.opq.setdefault(self.fn['usr'], set()).add(usr)
        if q in HANDLERS:
            self.report_to.ok('handlers run without transport locks', w)
            for l, m, _ in st.locks:
                self.report_to.bad('handlers run without transport locks', w, '%s is called while holding %s: a handler that '
                                   'uses the transport would deadlock' % (q, self.name(l)), chain)
        for l, m, _ in st.locks:
            self.G.under.append((self.name(l), usr, w, chain))

    def call(self, E, st, fr, node, q, recv, args):
        if q == 'std::thread::join' and st.locks:
            w, chain = where_chain(E, node, fr)
            cls = None
            if recv is not None and recv[0] == '&' and recv[1][0] == 'F':
                cls = recv[1][2].rsplit('::', 1)[0]
            self.G.joins.append((cls, tuple(self.name(l) for l, m, _ in st.locks), w, chain))
        if q in ('std::future::get', 'std::future::wait') and st.locks:
            pass
        return None

    def after(self, E, st, fr, node, q, recv, args, res):
        c = node.get('c') or {}
        if st.locks and q.startswith('std::') and q.rsplit('::', 1)[-1] in DROPS and recv is not None and recv[0] == '&':
            # the element may be the last owner of an object whose destructor waits for its thread
            x = recv[1]
            while x[0] in PARTS and x[0] != 'F':
                x = x[1]
            t = (self.p.fields.get(x[2]) or {}).get('t', '') if x[0] == 'F' else ''
            w, chain = where_chain(E, node, fr)
            for cls in self.p.records:
                if cls + '>' in t or cls + ',' in t:
                    self.G.joins.append((cls, tuple(self.name(l) for l, m, _ in st.locks), w, chain))
        if q == 'callback' and recv is not None and recv[0] == '&' and recv[1][0] == 'F':
            t = (self.p.fields.get(recv[1][2]) or {}).get('t', '')
            if t.startswith('std::function<') and 'ogger' not in recv[1][2].rsplit('::', 1)[-1]:
                w, chain = where_chain(E, node, fr)
                g = signature(t[t.index('(') + 1:t.rindex(')')])
                self.G.cb.setdefault(self.fn['usr'], set()).add(g)
                for l, m, _ in st.locks:
                    self.G.cbunder.append((self.name(l), g, w, chain))
        if c.get('repo') or c.get('repodecl'):
            if c.get('virt'):
                self.opaque_under(E, st, fr, node, q, c['usr'])
        return st


class Graph:
    def __init__(self):
        self.acq, self.opq, self.under, self.joins = {}, {}, [], []
        self.cb, self.cbunder = {}, []
        self.e = {}

    def edge(self, a, b, w, chain):
        self.e.setdefault((a, b), (w, chain))


def signature(t):
    return ''.join(t.replace('const ', '').replace('&', '').split())


def closures(P):
    """Closures written in library functions, by the parameters they take."""
    res = {}
    for l in list(P.defs.values()):
        for f in l:
            if f.get('body') is None or not library(f) or f.get('inst') == 'pattern':
                continue
            for n in walk(f):
                if n.get('k') == 'lambda':
                    d = P.definition(n['fn'])
                    if d is not None and d.get('body') is not None:
                        res.setdefault(signature(','.join(p.get('t') or '' for p in d['p'])), {})[d['usr']] = d
    return res


def c13(P, R):
    """Every acquisition on every path of every function and thread body is recorded with the locks held.  The acquisition
    graph over all mutexes (including what overriders of virtual calls acquire) must be acyclic, no mutex is acquired
    while held, no thread is joined while holding a mutex that thread acquires, and Endpoint handlers are called with no
    lock held."""
    G = Graph()
    entries = [(f, f) for f in library_functions(P) if not f.get('implicit') and not f['q'].startswith('subprocess::')]
    threads = {}
    for f, lam, d in thread_lambdas(P):
        entries.append((d, d))
        threads.setdefault(enclosing_class(P, d) or f['q'], set()).add(d['usr'])
    seen = set()
    for f, lam, d in races.stored_lambdas(P):
        if d['usr'] not in seen:
            seen.add(d['usr'])
            entries.append((d, d))
    for d, k in entries:
        run(P, R, Order(P, R, k, G), d)
    # closures another function may call through a std::function
    known = closures(P)
    done = {d['usr'] for d, k in entries}
    todo = True
    while todo:
        todo = [d for g in sorted(set().union(*G.cb.values())) for u, d in sorted(known.get(g, {}).items()) if u not in done] if G.cb else []
        for d in todo:
            done.add(d['usr'])
            run(P, R, Order(P, R, d, G), d)
    memo = {}

    def acquires(usrs, busy):
        res = set()
        for u in usrs:
            if u in memo:
                res |= memo[u]
                continue
            if u in busy:
                continue
            r = set(G.acq.get(u, ()))
            for v in G.opq.get(u, ()):
                r |= acquires(targets(v), busy | {u})
            for g in G.cb.get(u, ()):
                r |= acquires(set(known.get(g, {})), busy | {u})
            memo[u] = r
            res |= r
        return res

    def targets(usr):
        """What a virtual call may run; handlers are checked on their own (no lock is held around them)."""
        res, todo = set(), [usr]
        while todo:
            u = todo.pop()
            if u in res:
                continue
            res.add(u)
            todo += [f['usr'] for f in P.overriders.get(u, ())]
        return {u for u in res if not any(d['n'] in ('handle', 'unsolicited') for d in P.defs.get(u, ()))}

    for l, u, w, chain in G.under:
        for a in acquires(targets(u), frozenset()):
            if a != l:
                G.edge(l, a, w, chain)
    for l, g, w, chain in G.cbunder:
        for a in acquires(set(known.get(g, {})), frozenset()):
            if a != l:
                G.edge(l, a, w, chain)
    for cls, held, w, chain in G.joins:
        need = acquires(threads.get(cls, set()), frozenset())
        R.ok('no thread is joined while holding a lock it needs', w)
        for h in held:
            if h in need:
                R.bad('no thread is joined while holding a lock it needs', w, 'the thread is waited for while holding %s, which '
                      'the thread acquires' % h, chain)
    # cycles
    succ = {}
    for (a, b) in G.e:
        R.ok('locks are acquired in one order', '%s before %s' % (short(a), short(b)))
        succ.setdefault(a, set()).add(b)

    def reach(a, b):
        todo, s = [a], set()
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in s:
                continue
            s.add(x)
            todo += succ.get(x, ())
        return False
    for (a, b), (w, chain) in sorted(G.e.items()):
        if a == b:
            R.bad('locks are acquired in one order', w, 'two objects\' %s are held together with no order between them' % short(a), chain)
        elif reach(b, a):
            R.bad('locks are acquired in one order', w, '%s is acquired while holding %s, elsewhere they are acquired in the opposite '
                  'order (%s)' % (short(b), short(a), '; '.join(v[0] for k, v in G.e.items() if k[0] == b)), chain)
    R.notes.append('lock order edges: ' + ', '.join('%s -> %s' % (short(a), short(b)) for a, b in sorted(G.e)))


def short(n):
    return n.replace('scalopus::', '')


CHECKS = {'C13': c13}
