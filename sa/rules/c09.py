"""C09: threads are told to stop, waited for once, and before what they use goes away."""
from ..lib import *
from ..terms import *

BLOCK = {'select', 'pselect', 'poll', 'ppoll', 'epoll_wait', 'sleep', 'usleep', 'nanosleep',
         'std::this_thread::sleep_for', 'std::this_thread::sleep_until', 'std::condition_variable::wait',
         'std::condition_variable::wait_for', 'std::condition_variable::wait_until', 'std::this_thread::yield'}
R_LOOP = 'the worker re-checks its stop request in every iteration'
R_STOP = 'a thread is told to stop before it is waited for'
R_ONCE = 'a thread is waited for only if it was started, and is not left running'
R_STATE = 'what a thread uses is not taken away while it runs'
R_THROW = 'the destructor of a thread owner lets no exception escape'
R_START = 'a thread is not started with its stop request already made'


def blocking(P, n, seen=None):
    """Does this piece of code wait (sleep, select, ...), directly or in a library function it calls?"""
    seen = seen if seen is not None else set()
    for x in walk(n):
        if x.get('k') == 'call' and isinstance(x.get('c'), dict):
            q = x['c'].get('q') or ''
            if q in BLOCK or q.rsplit('::', 1)[-1] in ('sleep_for', 'sleep_until'):
                return True
            u = x['c'].get('usr')
            if u and u not in seen:
                seen.add(u)
                d = P.definition(u)
                if d is not None and d.get('body') is not None and library(d) and blocking(P, d['body'], seen):
                    return True
        elif x.get('k') == 'lambda' and x['fn'] not in seen:
            seen.add(x['fn'])
            d = P.definition(x['fn'])
            if d is not None and blocking(P, d['body'], seen):
                return True
    return False


def reads(P, f):
    """Member fields mentioned in f and what it calls."""
    return {x['f'] for g in callees(P, f) for x in walk(g) if x.get('k') == 'mem' and x.get('f')}


def boolish(P, f):
    c = f.rsplit('::', 1)[0]
    for x in (P.records.get(c) or {}).get('fields') or []:
        if x['f'] == f:
            t = x['t'].replace('const ', '')
            return t in ('bool', 'std::atomic_bool', 'std::atomic_flag') or t.replace(' ', '') in ('std::atomic<bool>', 'atomic<bool>')
    return False


class Worker(Monitor):
    """One thread body, with one candidate stop request (flag, value)."""
    throws = False
    fresh_atomics = False
    head_limit = 12
    exit_limit = 4

    def __init__(self, P, R, flag, val, polls):
        super().__init__(P, R)
        self.flag, self.val, self.polls = flag, val, polls
        self.fail = None
        self.left = False
        self.heads = set()

    def call(self, E, st, fr, node, q, recv, args):
        return skip(E, self, node, st, fr, {self.flag}, self.polls)

    def is_flag(self, loc):
        f = fieldstep(loc)
        return f is not None and f[2] == self.flag

    def atomic(self, E, st, fr, node, loc, op):
        if op == 'load' and self.is_flag(loc):
            st = st.set('ck', C1)
            s1 = st.set('stopped', C1)
            if st.get('stopped') is not None:
                return [(s1, ('c', self.val))]
            return [(s1, ('c', self.val)), (st, ('c', 1 - self.val))]
        return None

    def acquire(self, E, st, fr, node, loc, mode):
        # a plain flag guarded by a lock
        if loc[0] == 'F':
            l = ('F', loc[1], self.flag)
            if any(x['f'] == self.flag and 'atomic' not in x['t'] for x in (self.p.records.get(self.flag.rsplit('::', 1)[0]) or {}).get('fields') or []):
                st, v = E.fresh(st, fr, node, ('load', l))
                st = st.write(l, v if st.get('stopped') is None else ('c', self.val))
        return st

    def assumed(self, E, st, fr, node, atom, truth):
        if mentions(atom, lambda t: t[0] == 'load' and len(t) == 2 and t[1][0] == 'F' and t[1][2] == self.flag):
            st = st.set('ck', C1)
            v = atom if atom[0] == 's' else None
            if v is None and atom[0] == 'op' and len(atom) == 4 and atom[3] == C0:
                truth = truth == (atom[1] == '!=')
            if int(truth) == self.val:
                st = st.set('stopped', C1)
        return st

    def write(self, E, st, fr, node, loc, v):
        if self.is_flag(loc):
            if E.decide(st, ('op', '==', v, ('c', self.val))) is not True:
                self.fail = self.fail or (E.where(node, fr), 'the thread itself withdraws the stop request')
            else:
                st = st.set('stopped', C1)
        return st

    def head(self, E, st, fr, node):
        if node['#'] in self.polls:
            k = ('h', node['#'])
            self.heads.add(node['#'])
            if st.get(k) is not None:
                if st.get('ck') is None:
                    self.fail = self.fail or (E.where(node, fr), 'an iteration of the loop does not look at it')
                if st.get(k) == C1:
                    self.fail = self.fail or (E.where(node, fr), 'the loop goes on after it was seen')
            st = st.set(k, C1 if st.get('stopped') is not None else C0).set('ck', None)
        return st


class Ctl(Monitor):
    """The owner's side: public operations and the destructor."""
    fresh_atomics = False
    exit_limit = 4

    def __init__(self, P, R, cls, tf, used, mine, flags, objs, restart, throws):
        super().__init__(P, R)
        self.cls, self.tf, self.used, self.mine, self.flags, self.objs = cls, tf, used, mine, flags, objs
        self.restart, self.throws = restart, throws
        own = {x['f'] for x in (P.records.get(cls) or {}).get('fields') or [] if self.is_owner(x['f'])}
        self.concern = {tf} | set(flags or ()) | mine | objs | (used & own)
        self.this = ('O', 'this', cls)
        self.tl = ('F', self.this, tf)

    def running(self, st):
        v = st.read(self.tl)
        return True if v[0] == 'thread' else False if v[0] == 'nothread' else None

    def atomic(self, E, st, fr, node, loc, op):
        f = fieldstep(loc)
        if op == 'load' and f is not None and f[2] in self.mine and self.running(st) is not False:
            st, v = E.fresh(st, fr, node, ('load', loc))
            return [(st, v)]
        return None

    def call(self, E, st, fr, node, q, recv, args):
        R = self.report_to
        if q.startswith('std::thread::') and recv is not None and recv[0] == '&' and recv[1] == self.tl:
            n = q.rsplit('::', 1)[-1]
            w, chain = where_chain(E, node, fr)
            r = self.running(st)
            if n == 'join':
                R.ok(R_ONCE, w)
                R.ok(R_STOP, w)
                if r is False:
                    R.bad(R_ONCE, w, 'a thread that is not running is waited for', chain)
                if r is True and st.get('stop') is None and self.flags is not None:
                    R.bad(R_STOP, w, 'the thread is waited for without having been told to stop', chain)
            elif n == 'detach':
                R.ok(R_ONCE, w)
                if r is not False:
                    R.bad(R_ONCE, w, 'the thread is left running on its own', chain)
            elif n == 'operator=':
                R.ok(R_ONCE, w)
                if r is True and self.restart:
                    R.bad(R_ONCE, w, 'a thread is started while the previous one is still running', chain)
        elif self.objs and recv is not None and q and not q.startswith('std::'):
            n = q.rsplit('::', 1)[-1].lower()
            if self.running(st) is not False and any(k in n for k in ('terminate', 'stop', 'halt', 'shutdown', 'close', 'kill', 'cancel', 'interrupt')):
                for f in self.objs:
                    v = st.read(('F', self.this, f))
                    if recv == v or mentions(recv, lambda t: t == ('F', self.this, f)) or v[0] in ('shared', 'ptr') and recv[1:2] == v[1:2]:
                        return [(s.set('stop', C1), x) for s, x in self.opaque_call(E, st, fr, node, recv, args)]
        return None if self.throws else skip(E, self, node, st, fr, self.concern, (), ('std::thread::join',))

    def opaque_call(self, E, st, fr, node, recv, args):
        st, v = E.fresh(st, fr, node, ('ret', node['c'].get('q')))
        return [(st, v)]

    def after(self, E, st, fr, node, q, recv, args, res):
        if q == 'std::thread::operator=' and recv is not None and recv[0] == '&' and recv[1] == self.tl and self.running(st) is True:
            for l, v in list(st.mem.items()):
                f = fieldstep(l)
                if f is not None and f[2] in (self.flags or {}) and f[2].rsplit('::', 1)[0] == self.cls:
                    w, chain = where_chain(E, node, fr)
                    self.report_to.ok(R_START, w)
                    if E.decide(st, ('op', '==', v, ('c', self.flags[f[2]]))) is True and len(self.flags) == 1:
                        self.report_to.bad(R_START, w, 'the thread is started while %s still tells it to stop' % f[2].replace(NS, ''), chain)
            st = st.set('stop', None)
        return st

    def write(self, E, st, fr, node, loc, v):
        f = fieldstep(loc)
        if f is None:
            return st
        if self.flags and f[2] in self.flags:
            d = E.decide(st, ('op', '==', v, ('c', self.flags[f[2]])))
            if d is not False:
                st = st.set('stop', C1)
            elif self.running(st) is True:
                st = st.set('stop', None)
        if loc == ('F', self.this, f[2]) and f[2] in self.used and v is not None and v[0] in ('null', 'ptr', 'shared', 'c') \
                and self.running(st) is True and self.is_owner(f[2]):
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(R_STATE, w)
            if v == C0 or v[0] == 'null':
                self.report_to.bad(R_STATE, w, '%s, which the thread uses, is taken away while it runs' % f[2].replace(NS, ''), chain)
        return st

    def is_owner(self, f):
        for x in (self.p.records.get(self.cls) or {}).get('fields') or []:
            if x['f'] == f:
                return 'shared_ptr' in x['t'] or 'unique_ptr' in x['t'] or x['t'].endswith('Ptr')
        return False


def thread_fields(P):
    res = []
    for q, r in sorted(P.records.items()):
        if not r.get('file') or not library({'file': r['file']}):
            continue
        for x in r.get('fields') or []:
            if x['t'].replace('const ', '') == 'std::thread':
                res.append((q, x['f']))
    return res


def worker_bodies(P, cls):
    from ..wire import shape
    res, seen = [], set()
    for f, lam, d in thread_lambdas(P):
        if enclosing_class(P, d) == cls or f.get('cls') == cls:
            k = repr(shape(d['body'])) if not any(x.get('k') == 'var' for x in walk(d)) else d['usr']
            if k not in seen:
                seen.add(k)
                res.append(d)
    return res


def polls_of(P, d):
    """Loops of the thread that may go on for ever: those that wait inside, and are not over a finite range."""
    from ..engine import Engine
    res = {}
    for g in callees(P, d):
        for x in walk(g):
            if x.get('k') in ('while', 'do', 'for') and blocking(P, x):
                c = x.get('c')
                if c is not None and any(isinstance(y.get('c'), dict) and (y['c'].get('q') or '').rsplit('::', 1)[-1] in ('end', 'size', 'cend', 'empty')
                                         for y in walk(c)):
                    continue
                if x['k'] == 'for' and c is not None and c.get('k') == 'bin' and c.get('op') in ('<', '!=', '<=', '>'):
                    continue
                res[x['#']] = (g, x)
    return res


def worker_writes(P, ds):
    res = set()
    for d in ds:
        for g in callees(P, d):
            for x in walk(g):
                if x.get('k') == 'assign' and x['x'].get('k') == 'mem':
                    res.add(x['x']['f'])
                if x.get('k') == 'call' and isinstance(x.get('c'), dict) and (x['c'].get('q') or '').startswith('std::atomic') \
                        and not x['c'].get('const') and (x.get('o') or {}).get('k') == 'mem':
                    res.add(x['o']['f'])
    return res


def c09(P, R):
    """For every class with a std::thread member.  Worker side: for each flag the thread reads, each loop that waits is followed
    with the flag changing at any read; the flag is a stop request if every iteration reads it and the loop is left once it
    was seen, and the thread never withdraws it.  Owner side: from every constructor, all sequences of public operations and
    then the destructor are followed to a fixpoint with the state of the thread: it is joined only while running and only
    after a stop request, never detached or overwritten, not running when the destructor ends; owning pointers the thread
    uses are not reset while it runs; no exception leaves the destructor."""
    tfs = [(c, f) for c, f in thread_fields(P) if worker_bodies(P, c)]
    if len(tfs) < 3:
        raise AnalysisBroken('thread owners not found')
    for cls, tf in tfs:
        ds = worker_bodies(P, cls)
        flags, objs = {}, set()
        used = set()
        for d in ds:
            used |= reads(P, d)
            polls = polls_of(P, d)
            w = '%s:%s' % (rel(d['file']), d['line'])
            if not polls:
                # the loop is inside a library object
                for x in walk(d):
                    if x.get('k') == 'call' and isinstance(x.get('c'), dict) and not P.definition(x['c'].get('usr') or ''):
                        for y in walk(x.get('o') or {}):
                            if y.get('k') == 'mem' and y['f'].rsplit('::', 1)[0] == cls:
                                objs.add(y['f'])
                R.ok(R_LOOP, w, 'the loop is inside %s' % ', '.join(sorted(objs)))
                continue
            cand = [f for f in sorted(reads(P, d)) if boolish(P, f)]
            why = None
            good = {}
            for f in cand:
                for v in (0, 1):
                    m = Worker(P, R, f, v, polls)
                    run(P, R, m, d, this=('O', 'this', cls), cls=cls)
                    if m.fail is None and m.heads:
                        good[f] = v
                    elif m.fail and (why is None or why[1].startswith('an iteration')):
                        why = m.fail
            for g, x in polls.values():
                R.ok(R_LOOP, '%s:%s' % (rel(g['file']), x['l']))
            if not good:
                g, x = list(polls.values())[0]
                R.bad(R_LOOP, '%s:%s' % (rel(g['file']), x['l']), 'no stop request ends this loop of the thread%s'
                      % (': %s (%s)' % (why[1], why[0]) if why else ''))
                flags = None
            elif flags is not None:
                flags.update(good)
        mine = worker_writes(P, ds)
        owner(P, R, cls, tf, used, mine, flags, objs)


def owner(P, R, cls, tf, used, mine, flags, objs):
    this = ('O', 'this', cls)
    joins = set()
    meths = []
    for f in public_methods(P, cls):
        if f.get('body') is None or f.get('static'):
            continue
        fs = set()
        jn = False
        for g in callees(P, f):
            for x in walk(g):
                if x.get('k') == 'mem' and x.get('f'):
                    fs.add(x['f'])
                if x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('q') == 'std::thread::join':
                    jn = True
        if tf in fs:
            meths.append(f)
            if jn:
                joins.add(f['n'])
        elif fs & set(flags or ()):
            meths.append(f)
    mk = lambda thr=False: Ctl(P, R, cls, tf, used, mine, flags, objs, bool(joins), thr)
    M = mk()
    todo = []
    for c in ctors(P, cls):
        E, outs, thr = run(P, R, M, c, this=this, cls=cls)
        todo += [keep(s, this) for s, v in outs]
    seen, states = set(), []
    while todo and len(states) < 40:
        s = todo.pop(0)
        k = s.core()
        if k in seen:
            continue
        seen.add(k)
        states.append(s)
        for f in meths:
            E, outs, thr = run(P, R, M, f, this=this, cls=cls, st=s.copy())
            todo += [keep(o, this) for o, v in outs]
    ds = [f for f in P.methods(cls) if f['kind'] == 'dtor' and f.get('body') is not None]
    rec = P.records.get(cls) or {}
    w = '%s:%s' % (rel(ds[0]['file']), ds[0]['line']) if ds else '%s:%s' % (rel(rec.get('file') or cls), rec.get('line') or 0)
    R.ok(R_ONCE, w)
    R.ok(R_THROW, w)
    if not ds and any(M.running(s) is True for s in states):
        R.bad(R_ONCE, w, '%s is destroyed while its thread is running' % cls)
    for s in states:
        for d in ds:
            E, outs, thr = run(P, R, M, d, this=this, cls=cls, st=s.copy())
            for o, v in outs:
                if M.running(o) is True:
                    R.bad(R_ONCE, w, 'a path of the destructor of %s ends while the thread is still running' % cls)
    for d in ds:
        E, outs, thr = run(P, R, mk(True), d, this=this, cls=cls)
        for x in thr:
            R.bad(R_THROW, w, 'an exception escapes the destructor of %s' % cls)
    R.notes.append('%s: %d states of the owner, stop request %s' % (cls, len(states), sorted(flags or {}) + sorted(objs)))


def keep(st, this):
    """The next operation has arguments of its own."""
    r = clean(st, this)
    arg = lambda x: x[0] == 'O' and str(x[1]).startswith('arg:')
    for l, v in list(r.mem.items()):
        if v[0] not in ('thread', 'nothread') and mentions(v, arg):
            r = r.write(l, ('init', ('G', 'earlier', l)))
    return r.set('stop', None)


CHECKS = {'C09': c09}
