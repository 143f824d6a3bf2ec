"""C03: every message is written to a connection under one uninterrupted hold of the connection's write lock."""
from ..wire import *


def lock_key(loc):
    """A lock, forgetting which element of a table it belongs to."""
    if loc[0] in ('K', 'E', 'I'):
        return ('*', lock_key(loc[1]))
    if loc[0] == 'F':
        return ('F', lock_key(loc[1]), loc[2])
    if loc[0] == 'D':
        return ('D', str(loc[1])[:80])
    return loc


def takes_locks(P, f):
    for g in callees(P, f):
        for n in walk(g):
            if n.get('k') == 'ctor' and str(n.get('rq', '')).rsplit('::', 1)[-1] in ('lock_guard', 'unique_lock', 'scoped_lock', 'shared_lock'):
                return True
            if n.get('k') == 'call' and isinstance(n.get('c'), dict) and n['c'].get('n') in ('lock', 'unlock', 'try_lock') \
                    and 'mutex' in str(n['c'].get('cls', '')):
                return True
    return False


class Hold(Wired):
    throws = False
    head_limit = 8

    def __init__(self, P, R, W, cls, sites, inline):
        super().__init__(P, R, W)
        self.cls, self.sites, self.inl = cls, sites, inline
        self.rule = 'message bytes are only written while holding the write lock'
        self.seen_w = set()

    def call(self, E, st, fr, node, q, recv, args):
        u = (node.get('c') or {}).get('usr')
        if u in self.W.sq and self.inl[u]:
            # the sender locks by itself: its writes are looked at one by one
            return None
        if u not in self.W.sq and u not in self.W.rq and q in W_CALLS:
            st2 = self.one(E, st, fr, node, st.get('inmsg') is not None)
            if st2 is None:
                return []
            r = []
            s, v = E.fresh(st2, fr, node, ('ret', q))
            return [(s, v), (s, ('c', -1))]
        return super().call(E, st, fr, node, q, recv, args)

    def enter(self, E, st, fr):
        if fr.fn['usr'] in self.W.sq and self.inl[fr.fn['usr']]:
            return st.set('inmsg', C1).set('ep', None)
        return st

    def leave(self, E, st, fr, val):
        if fr.fn['usr'] in self.W.sq and self.inl[fr.fn['usr']]:
            return st.set('inmsg', None).set('ep', None)
        return st

    def held(self, st):
        return tuple(sorted({l[0] for l in st.locks if l[1] == 'x'}, key=str))

    def one(self, E, st, fr, node, inmsg):
        w, chain = where_chain(E, node, fr)
        held = self.held(st)
        self.report_to.ok(self.rule, w)
        self.sites.setdefault((w, tuple(chain)), []).append(frozenset(lock_key(l) for l in held))
        if not held:
            self.report_to.bad(self.rule, w, 'message bytes are written to a connection without holding a lock', chain)
        if inmsg:
            ep = st.get('ep')
            now = tuple(held)
            if ep is None:
                st = st.set('ep', ('ls',) + now)
            else:
                keep = tuple(l for l in ep[1:] if l in now)
                if not keep and held:
                    self.report_to.bad('a message is written under one uninterrupted hold of its lock', w,
                                       'the lock is released and taken again between parts of one message', chain)
        return st

    def release(self, E, st, fr, node, loc):
        ep = st.get('ep')
        if ep is not None and loc in ep[1:]:
            st = st.set('ep', ('ls',) + tuple(l for l in ep[1:] if l != loc))
        return st

    def sent(self, E, st, fr, node, fd, parts, ok):
        if ok:
            self.one(E, st, fr, node, False)
        return st




def c03(P, R):
    """From every public method, destructor and worker of a socket transport, every write of message bytes (sendto/send/write in
    the message functions, or directly) happens with an exclusively held mutex; the intersection of the locks held over all
    write sites of the class is not empty (one common lock of the transport, the same for requests, replies and broadcasts);
    between the first and the last write of one message that lock is not released."""
    W = Wire(P)
    inl = {}
    for u, f in W.sq.items():
        inl[u] = takes_locks(P, f)
    for cls in W.classes:
        sites = {}
        entries = [(f, ('O', 'this', cls)) for f in P.methods(cls)
                   if f['kind'] in ('method', 'dtor') and f.get('body') is not None and f.get('access') == 'public']
        entries += [(d, ('O', 'this', cls)) for lam, d in W.workers(cls)]
        for f, this in entries:
            run(P, R, Hold(P, R, W, cls, sites, inl), f, this=this, cls=cls)
        if not sites:
            raise AnalysisBroken('%s writes no messages' % cls)
        rule = 'all writers to a connection use the same lock'
        # a lock held on every path to a site
        per = {k: frozenset.intersection(*v) for k, v in sites.items()}
        count = {}
        for k, ls in per.items():
            for l in ls:
                count[l] = count.get(l, 0) + 1
        R.ok(rule, cls, 'write sites: %d' % len(per))
        for k in per:
            R.ok(rule, k[0])
        locked = {k: v for k, v in per.items() if v}
        if locked and not frozenset.intersection(*locked.values()):
            best = max(sorted(count, key=str), key=lambda l: count[l])
            for (w, chain), ls in sorted(locked.items()):
                if best not in ls:
                    R.bad(rule, w, 'this message is written under %s while other messages are written under %s'
                          % (', '.join(show(l) for l in ls), show(best)), list(chain))
        for l in count:
            if not any(root_of(l, x) for x in (cls,)):
                pass
        # a lock that is a local object protects nothing
        for (w, chain), ls in per.items():
            if ls and all(base_kind(l) in ('L', 'T') for l in ls):
                R.bad(rule, w, 'the lock held here is a local object, it excludes nobody', list(chain))


def base_kind(l):
    while l[0] in ('F', '*'):
        l = l[1]
    return l[0]


def root_of(l, cls):
    while l[0] in ('F', '*'):
        l = l[1]
    return l == ('O', 'this', cls)


CHECKS = {'C03': c03}
