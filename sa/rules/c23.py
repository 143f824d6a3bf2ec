"""C23: thread exit removes the thread's registrations and keeps its unsent events."""
from ..lib import *
from ..terms import *
from ..models import SECOND, FIRST
from .. import models
from ..facts import walk
from .c18 import strip_cast

OWNERS = ('scalopus::TraceConfigurator', 'scalopus::TracePointCollectorNative', 'scalopus::ThreadNameTracker')
COLL = 'scalopus::TracePointCollectorNative'
SENDER = 'scalopus::EndpointNativeTraceSender'
RING = 'scalopus::SPSCRingBuffer'
R_HOOK = 'a thread that registers itself has installed a thread-exit hook for that registry'
R_ERASE = 'the thread-exit hook removes exactly the registration of the exiting thread'
R_ORPHAN = 'the buffer of an exiting thread is handed over before it is unregistered'
R_TAKE = 'handed-over buffers are taken exactly once'
R_SEND = 'every round looks at all handed-over and active buffers, takes their events and sends them'

MAPS = ('std::map', 'std::unordered_map', 'std::multimap')
INSERTS = ('operator[]', 'insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint')


def own(k):
    """Is this the identifier of the running thread?"""
    return mentions(k, lambda t: t in (('ret', 'pthread_self'), ('ret', 'std::this_thread::get_id')))


def local(r):
    return r[0] in ('L', 'T')


def lastfield(loc):
    f = fieldstep(loc)
    return f[2] if f is not None else None


def mapcall(q):
    return q.rsplit('::', 1)[0] in MAPS


def found(facts, pred):
    """True if a key satisfying pred is known to be registered, False if known not to be, None if that was not looked at."""
    res = None
    for f, t in facts.items():
        if len(f) > 3 and f[1] == '==' and mentions(f, pred):
            if mentions(f, lambda x: x[0] == 'isend'):
                res = not (t if f[3] != C0 else not t)
            elif mentions(f, lambda x: x[0] in ('count', 'contains', 'has')):
                res = t if f[3] != C0 else not t
    return res


class Register(Monitor):
    throws = False
    fresh_atomics = False
    exit_limit = 12

    def call(self, E, st, fr, node, q, recv, args):
        n = q.rsplit('::', 1)[-1]
        if mapcall(q) and n in INSERTS and recv is not None and recv[0] == '&' and args:
            s2, k = E.val(st, args[0], node, fr)
            f = lastfield(recv[1])
            if f and own(k):
                if not (n == 'operator[]' and found(st.facts, own)):
                    st = st.set('reg', (st.get('reg') or frozenset()) | {(f, E.where(node, fr))})
                    return models.std_call(E, node, node['c'], recv, args, st, fr)
        return None


class Hook(Monitor):
    """The thread-exit hook."""
    throws = False
    fresh_atomics = False
    exit_limit = 12

    def __init__(self, P, R, field, where):
        super().__init__(P, R)
        self.field, self.w = field, where
        self.vectors = set()

    def call(self, E, st, fr, node, q, recv, args):
        n = q.rsplit('::', 1)[-1]
        if recv is None or recv[0] != '&':
            return None
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        f = lastfield(recv[1])
        if mapcall(q) and f == self.field:
            if n == 'erase' and args:
                st, k = E.val(st, args[0], node, fr)
                R.ok(R_ERASE, w)
                if not own(k):
                    R.bad(R_ERASE, w, 'the hook removes the registration of another thread', chain)
                self.erased = True
                if self.collector and not st.get('orphan') and st.get('found') != C0:
                    R.bad(R_ORPHAN, w, 'the buffer of the exiting thread can be unregistered without having been handed over', chain)
                return models.std_call(E, node, node['c'], recv, args, st.set('erased', C1), fr)
            if n in ('clear', 'swap', 'operator='):
                R.bad(R_ERASE, w, 'the hook removes the registrations of all threads', chain)
        if q.startswith('std::vector::') or q.startswith('std::deque::') or q.startswith('std::list::'):
            if n in ('push_back', 'emplace_back', 'insert', 'push_front', 'emplace_front', 'emplace') and f and not local(root(recv[1])):
                self.vectors.add(f)
                return models.std_call(E, node, node['c'], recv, args, st.set('orphan', C1), fr)
        return None

    def assumed(self, E, st, fr, node, f, t):
        if f[1] == '==' and len(f) > 3:
            if mentions(f, own):
                r = found({f: t}, own)
                if r is not None and st.get('found') != C0:
                    # only the running thread registers itself: once missing, it stays missing
                    st = st.set('found', C1 if r else C0)
            elif t and C0 in f[2:] and 'lock' in str(tagof(f[2] if f[3] == C0 else f[3])):
                st = st.set('gone', C1)
        return st


def tlsdecl(P, loc):
    d = P.definition(loc[1])
    if d is None:
        return None
    for n in walk(d):
        if n.get('k') == 'decl':
            for v in n['v']:
                if v.get('id') == loc[2]:
                    return v
    return None


def destructor(P, v):
    """Destructor of the class of this variable; of the very instantiation if there are several."""
    c = [f for l in P.defs.values() for f in l if f['kind'] == 'dtor' and f.get('cls') == v.get('rq') and f.get('body') is not None]
    t = (v.get('t') or '').replace('const ', '')
    for f in c:
        if f.get('clst') and f['clst'].replace(' ', '') == t.replace(' ', ''):
            return f
    return c[0] if c else None


def dangling(v):
    """Names of locals this hook object refers to."""
    res = []

    def go(t):
        if isinstance(t, tuple) and t:
            if t[0] == 'lam':
                for i, x in t[2]:
                    if x[0] == 'ref' and root(x[1])[0] in ('L', 'T'):
                        res.append(i.split('@')[0])
                    go(x)
            elif t[0] == 'rec':
                go(t[1])
                for p, x in t[2]:
                    go(x)
    go(v)
    return res


def hooks(P, R):
    any_reg, vectors = set(), set()
    for cls in OWNERS:
        if cls not in P.records:
            raise AnalysisBroken('%s not found' % cls)
        for f in public_methods(P, cls):
            if f.get('body') is None:
                continue
            E, outs, thr = run(P, R, Register(P, R), f, this=('O', 'this', cls), cls=cls)
            for st, v in outs:
                for field, w in sorted(st.get('reg') or ()):
                    any_reg.add(cls)
                    R.ok(R_HOOK, w)
                    good = False
                    for l, x in sorted(st.mem.items(), key=str):
                        if l[0] == 'S' and l[3] in ('tls', 'static'):
                            vd = tlsdecl(P, l)
                            if vd is None:
                                continue
                            d = destructor(P, vd)
                            if d is None:
                                continue
                            m = Hook(P, R, field, w)
                            m.collector = cls == COLL
                            m.erased = False
                            E2, o2, t2 = run(P, R, m, d, this=l, cls=d['cls'], st=st.copy(ts={}, locks=(), cl=()))
                            if not m.erased:
                                continue
                            if l[3] == 'static':
                                R.bad(R_HOOK, w, 'the hook that removes the registration belongs to the process, not to the thread')
                            good = True
                            vectors |= m.vectors
                            for nm in dangling(x):
                                R.bad(R_HOOK, w, 'the thread-exit hook refers to the local variable %s, which is gone when the thread exits' % nm)
                            for s, _ in o2:
                                R.ok(R_ERASE, w)
                                if not s.get('erased') and s.get('found') != C0 and not s.get('gone'):
                                    R.bad(R_ERASE, w, 'the thread-exit hook can leave the registration in place')
                    if not good:
                        R.bad(R_HOOK, w, '%s registers the calling thread, but no thread-exit hook removes that registration' % f['q'])
    if len(any_reg) < len(OWNERS):
        R.notes.append('no self-registration found in ' + ', '.join(sorted(set(OWNERS) - any_reg)))
        if not any_reg:
            raise AnalysisBroken('no function registers the calling thread')
    return vectors


class Take(Monitor):
    throws = False
    wants_access = True
    exit_limit = 12

    def __init__(self, P, R, vectors):
        super().__init__(P, R)
        self.vectors = vectors

    def access(self, E, st, fr, node, loc, rw):
        if lastfield(loc) in self.vectors:
            if st.get('left'):
                w, chain = where_chain(E, node, fr)
                self.report_to.bad(R_TAKE, w, 'the handed-over buffers are accessed again after the lock was given up: buffers handed over in between are lost or taken twice', chain)
            st = st.set('acc', C1)
        return st

    def release(self, E, st, fr, node, loc):
        return st.set('left', C1) if st.get('acc') else st


def taking(P, R, vectors):
    n = 0
    for f in P.methods(COLL):
        if f['kind'] != 'method' or f.get('body') is None or f.get('const'):
            continue
        if not any(x.get('k') == 'mem' and x.get('f') in vectors for g in callees(P, f) if g['kind'] != 'lambda' for x in walk(g)):
            continue
        if not f['rt'] or f['rt'] == 'void':
            continue
        this = ('O', 'this', COLL)
        for v in vectors:
            loc = ('F', this, v)
            E, outs, thr = run(P, R, Take(P, R, vectors), f, this=this, cls=COLL)
            w = '%s:%s' % (rel(f['file']), f['line'])
            for st, val in outs:
                now = st.read(loc)
                held = mentions(val, lambda t: t == loc or t == ('init', loc)) if val is not None else False
                if not st.get('acc'):
                    continue
                n += 1
                R.ok(R_TAKE, w)
                if now == ('init', loc) or mentions(now, lambda t: t == ('init', loc)):
                    R.bad(R_TAKE, w, 'handed-over buffers stay in the list after they were taken: they are taken again')
                if val is not None and val[0] in ('empty', 'rec', 'default') and not held:
                    R.bad(R_TAKE, w, 'handed-over buffers are removed from the list but not returned')
    return n


def tagged(t, names):
    return mentions(t, lambda x: x[0] == 's' and len(x) > 3 and isinstance(x[3], tuple) and x[3][:1] and x[3][0] in names)


def entry(loc):
    """An entry of a local map."""
    return loc[0] == 'F' and loc[2] == SECOND and loc[1][0] == 'K' and local(root(loc))


class Work(Monitor):
    """One round after the other of the thread that sends the events."""
    throws = False
    fresh_atomics = True
    exit_limit = 12

    def __init__(self, P, R):
        super().__init__(P, R)
        self.sent = self.popped = self.active = False
        self.halves = []
        self._rounds = {}

    def head(self, E, st, fr, node):
        """The loop whose iterations are the rounds: a round that looks at some buffers looks at all of them."""
        k = (node.get('@'), node.get('#'))
        if k not in self._rounds:
            self._rounds[k] = any(isinstance(x.get('c'), dict) and x['c'].get('cls') == COLL and x['c'].get('q') != COLL + '::getInstance'
                                  for x in walk(node.get('b') or node) if x.get('k') == 'call') or \
                any(isinstance(x.get('c'), dict) and any(y.get('k') == 'call' and isinstance(y.get('c'), dict) and y['c'].get('cls') == COLL
                                                         for y in walk(d)) for x in walk(node.get('b') or node) if x.get('k') == 'call'
                    for d in [self.p.definition(x['c'].get('usr') or '')] if d is not None)
        if not self._rounds[k]:
            return st
        o, a = st.get('gotO'), st.get('gotA')
        if (o is None) != (a is None):
            self.halves.append((where_chain(E, node, fr), 'handed-over' if o is None else 'active'))
        return st.set('gotO', None).set('gotA', None)

    def call(self, E, st, fr, node, q, recv, args):
        n = q.rsplit('::', 1)[-1]
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        c = node.get('c') if isinstance(node.get('c'), dict) else {}
        if c.get('cls') == COLL and n != 'getInstance':
            rt = c.get('rt') or ''
            if not c.get('const') and ('vector' in rt or 'BufferVector' in rt or 'list' in rt or 'deque' in rt):
                st = self.round(E, st, node, fr)
                st, f = E.fresh(st, fr, node, ('orphans',))
                return [(st.set('orph', C1).set('pend', C1).set('gotO', C1), f)]
            if 'map' in rt.lower():
                st, f = E.fresh(st, fr, node, ('active',))
                self.active = True
                return [(st.set('gotA', C1), f)]
        if q.startswith(RING + '::'):
            if n == 'size':
                st, f = E.fresh(st, fr, node, ('bufsize',))
                return [(st, f)]
            if n == 'empty':
                st, f = E.fresh(st, fr, node, ('bufempty',))
                return [(st, f)]
            if n == 'pop_into':
                self.popped = True
                st, k = E.val(st, args[1], node, fr)
                R.ok(R_SEND, w)
                if st.get('holding') and (k[0] == 'c' and k[1] < 1 << 20 or tagged(k, ('limited',))):
                    R.bad(R_SEND, w, 'only part of the events of a handed-over buffer is taken, the rest is lost', chain)
                st, d = E.val(st, args[0], node, fr)
                if d[0] == 'backins':
                    st = self.into(E, st, d[1])
                st, f = E.fresh(st, fr, node, ('count',))
                return [(st.set('cur', None), C0), (st.set('cur', None).set('unsent', C1).set('zero', None), f)]
            if n == 'pop':
                self.popped = True
                st, f = E.fresh(st, fr, node, ('event',))
                s2 = st.write(args[0][1], f) if args and args[0][0] == '&' else st
                return [(st.set('cur', None), C0), (s2.set('unsent', C1).set('zero', None), C1)]
        if q == 'std::min' and len(args) == 2:
            v = [E.val(st, a, node, fr)[1] for a in args]
            if any(tagged(x, ('bufsize',)) for x in v) and any(x[0] == 'c' and x[1] < 1 << 20 for x in v):
                st, f = E.fresh(st, fr, node, ('limited',))
                return [(st, f)]
        if q.rsplit('::', 1)[0] in ('scalopus::Transport', 'scalopus::TransportUnix') and n == 'broadcast':
            self.sent = True
            st, f = E.fresh(st, fr, node, ('ret', q))
            return [(st.set('unsent', None), f)]
        if recv is not None and recv[0] == '&':
            if st.get('holder') and recv[1] == st.get('holder')[1] and st.get('pend') and n in ('clear', 'operator=', 'swap', 'resize', 'assign', 'pop_back', 'erase'):
                if not (n in ('operator=', 'assign') and args and tagged(E.val(st, args[0], node, fr)[1], ('orphans',))):
                    R.bad(R_SEND, w, 'handed-over buffers are thrown away before their events were taken', chain)
            if mapcall(q) and local(root(recv[1])) and st.get('tgt') and n in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
                R.bad(R_SEND, w, 'if there are two buffers with the identifier of one thread, the events of one of them are lost', chain)
            if n in ('operator=', 'swap') and entry(recv[1]) and st.get('tgt') and st.get('holding'):
                R.bad(R_SEND, w, 'if there are two buffers with the identifier of one thread, the events of one of them are lost', chain)
            if n in ('clear', 'resize', 'assign') and entry(recv[1]) and st.get('holding'):
                R.bad(R_SEND, w, 'if there are two buffers with the identifier of one thread, the events of one of them are lost', chain)
            if st.get('pend') and not st.get('holder') and c and not (c.get('repo') or c.get('repodecl')) and local(root(recv[1])):
                s2 = self.hold(st)
                if s2.get('holder'):
                    return models.std_call(E, node, c, recv, args, s2, fr)
        return None

    def into(self, E, st, loc):
        return st.set('tgt', ('to', loc)) if loc[0] == 'L' else st

    def write(self, E, st, fr, node, loc, v):
        if tagged(v, ('orphans',)) and loc[0] == 'L':
            st = st.set('holder', ('at', loc))
        elif st.get('tgt') and entry(loc) and mentions(v, lambda t: t == st.get('tgt')[1]):
            w, chain = where_chain(E, node, fr)
            self.report_to.bad(R_SEND, w, 'if there are two buffers with the identifier of one thread, the events of one of them are lost', chain)
        return st

    def hold(self, st):
        """Remember which local variable the handed-over buffers were put into."""
        if st.get('pend') and not st.get('holder'):
            for l, v in sorted(st.mem.items(), key=str):
                if l[0] == 'L' and v[0] != 'ref' and tagged(v, ('orphans',)):
                    return st.set('holder', ('at', l))
        return st

    def visit(self, E, st, fr, node, cont, elem):
        st = self.check(E, st, fr, node)
        st = self.hold(st)
        v = st.read(cont)
        h = st.get('holder')
        if h and cont == h[1] or tagged(v, ('orphans',)):
            return st.set('pend', None).set('holding', C1).set('cur', C1).set('tgt', None)
        return st

    def check(self, E, st, fr, node):
        if st.get('cur'):
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(R_SEND, w)
            self.report_to.bad(R_SEND, w, 'the events of a handed-over buffer can be left in it, where nobody takes them any more', chain)
            st = st.set('cur', None)
        return st

    def done(self, E, st, fr, node, cont):
        st = self.hold(st)
        h = st.get('holder')
        if h and cont == h[1] or tagged(st.read(cont), ('orphans',)):
            st = self.check(E, st, fr, node)
            st = st.set('pend', None).set('holding', None).set('tgt', None)
        return st

    def broke(self, E, st, fr, node, cont):
        h = st.get('holder')
        if h and cont == h[1]:
            w, chain = where_chain(E, node, fr)
            self.report_to.bad(R_SEND, w, 'the remaining handed-over buffers are not looked at', chain)
            st = st.set('pend', None).set('holding', None).set('cur', None)
        return st

    def assumed(self, E, st, fr, node, f, t):
        if len(f) > 3 and f[1] == '==':
            x = f[2] if f[3] == C0 else f[3]
            z = t if C0 in f[2:] else None
            if tagged(x, ('bufsize',)) and z is True or tagged(x, ('bufempty',)) and (z is False or f[3] == C1 and t):
                st = st.set('cur', None)
            elif z is True and not mentions(x, lambda y: y[0] == 'load' and (lastfield(y[1]) or '').startswith(SENDER)):
                st = st.set('zero', C1)
        elif len(f) > 3 and f[1] in ('<', '<=', '>', '>='):
            a, b = (f[2], f[3]) if f[1][0] == '<' else (f[3], f[2])
            strict = len(f[1]) == 1
            if not t:
                a, b, strict = b, a, not strict
            # a < b or a <= b holds; the counts are not negative
            if strict and b == C1 or not strict and b == C0:
                if tagged(a, ('bufsize',)):
                    st = st.set('cur', None)
                else:
                    st = st.set('zero', C1)
        return st

    def round(self, E, st, node, fr):
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        if st.get('orph'):
            R.ok(R_SEND, w)
            if st.get('pend'):
                R.bad(R_SEND, w, 'handed-over buffers can be dropped without looking at them', chain)
            if st.get('unsent') and not st.get('zero'):
                R.bad(R_SEND, w, 'events taken from the buffers in one round can be dropped without being sent', chain)
        return st.set('unsent', None).set('pend', None).set('zero', None).set('holder', None).set('cur', None).set('tgt', None)


def sending(P, R):
    if SENDER not in P.records:
        return
    n = 0
    for o, l, x in thread_lambdas(P):
        if (enclosing_class(P, x) or owner_class(P, o)) != SENDER:
            continue
        m = Work(P, R)
        E, outs, thr = run(P, R, m, x)
        w = '%s:%s' % (rel(x['file']), x['line'])
        for st, v in outs:
            if st.get('orph'):
                n += 1
                R.ok(R_SEND, w)
                if st.get('pend'):
                    R.bad(R_SEND, w, 'handed-over buffers can be dropped without looking at them')
                if st.get('unsent') and not st.get('zero'):
                    R.bad(R_SEND, w, 'events taken from the buffers in the last round can be dropped without being sent')
        if m.active:
            for (w2, chain), what in m.halves:
                R.bad(R_SEND, w2, 'a round can go by that does not look at the %s buffers' % what, chain)
        if n and not m.popped:
            R.bad(R_SEND, w, 'no event is ever taken from a buffer')
        if n and not m.sent:
            R.bad(R_SEND, w, 'nothing is ever sent')
    if not n:
        raise AnalysisBroken('the thread that sends the events was not found')


def c23(P, R):
    """Every public function of the three registries is followed; on each path that registers the calling thread the
    thread-local object left behind is destroyed in the state of that path and what its destructor does is compared with the
    registration.  The function that hands over buffers and the rounds of the sending thread are followed likewise."""
    v = hooks(P, R)
    taking(P, R, v)
    sending(P, R)


CHECKS = {'C23': c23}
