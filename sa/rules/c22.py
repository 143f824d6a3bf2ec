"""C22: remote trace configuration changes exactly what was asked and reports the result."""
from ..lib import *
from ..terms import *
from ..models import SECOND, FIRST
from .c18 import strip_cast

CFG = 'scalopus::TraceConfigurator'
EP = 'scalopus::EndpointTraceConfigurator'
TC = EP + '::TraceConfiguration::'
PROC = ('O', 'process switch', 'std::atomic<bool>')
THREADS = ('O', 'threads', 'std::map')
RESP = ('O', 'resp', 'Data')
R_PROC = 'the process switch changes exactly when a set request says so, to the value it gives'
R_THR = 'the switches of the listed threads that exist change, and no others, each to its listed value'
R_ALL = 'every listed thread is looked at, also if others do not exist'
R_REPLY = 'the reply reports the switches as they are after the change'


def is_elem(v):
    return v[0] == 's' and tagof(v) == 'elem'


def elem_of(v, pred):
    """v is an element (reference) of something satisfying pred."""
    return v[0] == 's' and isinstance(v[3], tuple) and v[3][0] == 'elem' and mentions(v[3], pred)


def in_threads(t):
    return t == THREADS


def in_request(t):
    return t == ('F', TC + 'thread_state') or len(t) == 3 and t[0] == 'F' and t[2] == TC + 'thread_state' or t == ('K', ('str', 't'))


def fld(t, n):
    return t == ('F', TC + n) or len(t) == 3 and t[0] == 'F' and t[2] == TC + n


class Handle(Monitor):
    throws = True
    fresh_atomics = True
    exit_limit = 16

    def __init__(self, P, R):
        super().__init__(P, R)
        self.replied = False

    def call(self, E, st, fr, node, q, recv, args):
        n = q.rsplit('::', 1)[-1]
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        if q.startswith(CFG + '::'):
            if n == 'getProcessStatePtr':
                return [(st, ('ptr', PROC))]
            if n == 'getThreadMap':
                return [(st, ('init', THREADS))]
            if n == 'getProcessState':
                return self.load(E, st, fr, node, PROC)
            if n == 'setProcessState':
                st, v = E.val(st, args[0], node, fr)
                st = self.store(E, st, fr, node, PROC, v)
                st, f = E.fresh(st, fr, node, ('previous',))
                return [(st, f)]
            if n == 'setThreadState':
                R.bad(R_THR, w, 'changes the switch of the thread that answers the request', chain)
                return None
            if n in ('getThreadState', 'getThreadStatePtr'):
                return None
            if n == 'getInstance':
                st, f = E.fresh(st, fr, node, ('inst',))
                return [(E.assume(st, ('op', '==', f, C0), False) or st, f)]
        if 'atomic' in q and recv is not None and recv[0] in ('&', 'ptr') and (recv[1] == PROC or self.is_switch(recv[1])):
            loc = recv[1]
            if n in ('store', 'operator=', 'exchange'):
                st, v = E.val(st, args[0], node, fr)
                st = self.store(E, st, fr, node, loc, v)
                st, f = E.fresh(st, fr, node, ('previous',))
                return [(st, f)]
            if n in ('load', 'operator bool') or n.startswith('operator'):
                return self.load(E, st, fr, node, loc)
        return None

    def is_switch(self, loc):
        return loc[0] == 'D' and mentions(loc, in_threads)

    def key_of(self, loc):
        v = loc[1]
        if v[0] == 'init' and v[1][0] == 'F' and v[1][1][0] == 'K':
            return v[1][1][2]
        if v[0] == 'p' and v[2][0] == 'K':
            return v[2][1]
        if v[0] == 'p' and v[1][0] == 'p' and v[1][2][0] == 'K':
            return v[1][2][1]
        if v[0] == 'p' and is_elem(v[1]):
            return ('p', v[1], ('F', FIRST))
        return None

    def val_key(self, v):
        v = strip_cast(v)
        if v[0] == 'p' and v[2] == ('F', SECOND):
            x = v[1]
            if x[0] == 'p' and x[2][0] == 'K':
                return x[2][1]
            if is_elem(x):
                return ('p', x, ('F', FIRST))
        if v[0] == 'init' and v[1][0] == 'F' and v[1][2] == SECOND and v[1][1][0] == 'K':
            return v[1][1][2]
        return None

    def load(self, E, st, fr, node, loc):
        k = 'P' if loc == PROC else 'T'
        key = C0 if loc == PROC else self.key_of(loc) or C1
        st, f = E.fresh(st, fr, node, ('now', k, C1 if st.get('s' + k) else C0, key))
        return [(st, f)]

    def assumed(self, E, st, fr, node, f, t):
        if mentions(f, lambda x: x == ('K', ('str', 'cmd'))):
            y = [x for x in f[2:] if x[0] == 'str']
            r = True
            if f[1] == '==' and y:
                r = t if y[0] == ('str', 'set') else False if t else None
            if r is not None:
                st = st.set('cmd', C1 if r else C0)
        if mentions(f, lambda x: fld(x, 'set_process_state') or x == ('K', ('str', 'sp'))):
            st = st.set('sp', C1 if (not t if f[1] == '==' and f[3] == C0 else t if f[1] == '==' and f[3] == C1 else True) else C0)
        if st.get('pending'):
            k = st.get('pending')[1]
            if self.found({f: t}, k) is False or self.already({f: t}, k):
                st = st.set('pending', None)
        return st

    def cmd(self, st):
        """True if the request is known to be a set request, False if known not to be, None if that was never looked at."""
        return {C1: True, C0: False}.get(st.get('cmd'))

    def sp(self, st):
        return {C1: True, C0: False}.get(st.get('sp'))

    def store(self, E, st, fr, node, loc, v):
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        v = strip_cast(v)
        rule = R_PROC if loc == PROC else R_THR
        R.ok(rule, w)
        if self.cmd(st) is not True:
            R.bad(rule, w, 'a switch is changed by a request that is not a set request', chain)
        if loc == PROC:
            if self.sp(st) is not True:
                R.bad(rule, w, 'the process switch is changed although the request does not ask for it', chain)
            if v[0] == 'c' or v[0] in ('p', 'init') and not mentions(v, lambda t: fld(t, 'process_state') or t == ('K', ('str', 'p'))) or v[0] == 'op' and v[1] in ('not', '!'):
                R.bad(rule, w, 'the process switch is set to something else than the request says', chain)
            return st.set('sP', C1).set('vP', ('v', v))
        k, kv = self.key_of(loc), self.val_key(v)
        if v[0] == 'c' or v[0] in ('p', 'init') and not mentions(v, in_request) or v[0] == 'op' and v[1] in ('not', '!'):
            R.bad(rule, w, "a thread's switch is set to something else than the value listed for it", chain)
        elif k is not None and kv is not None and k != kv and not self.same(E, st, k, kv):
            R.bad(rule, w, "a thread's switch is set to the value listed for another thread", chain)
        near = []
        mentions(loc, lambda x: x[0] == 's' and len(x) == 4 and tag(x)[:1] in (('lower_bound',), ('upper_bound',)) and near.append(x))
        if near and not any(t and f[1] == '==' and mentions(f, lambda x: x == near[0]) and mentions(f, lambda x: x == 'std::pair::first' or x[-1:] == (FIRST,))
                            and not mentions(f, lambda x: x[0] == 'isend') for f, t in st.facts.items()):
            R.bad(rule, w, "the switch of the next thread in the table is changed when the listed one does not exist", chain)
        if k is not None and elem_of(k[1] if k[0] == 'p' else k, in_request) and not self.exists(st, k):
            R.bad(rule, w, "a thread's switch is used without knowing whether the thread exists", chain)
        if st.get('wT'):
            R.bad(R_REPLY, w, "a thread's switch is changed after its state was put into the reply", chain)
        return st.set('sT', C1).set('pending', None)

    def same(self, E, st, a, b):
        return E.decide(st, ('op', '==', a, b)) is True

    def exists(self, st, k):
        for f, t in st.facts.items():
            if mentions(f, lambda x: x == k) and mentions(f, lambda x: x[0] in ('find', 'count', 'contains', 'isend', 'has', 'K')):
                return True
        return False

    def found(self, facts, k):
        """True if the thread is known to exist on this path, False if known not to, None if that was never looked at."""
        res = None
        for f, t in facts.items():
            if mentions(f, lambda x: x == k):
                if mentions(f, lambda x: x[0] == 'isend') and f[1] == '==':
                    e = t if f[3] != C0 else not t
                    res = not e
                elif mentions(f, lambda x: x[0] in ('count', 'contains', 'has')) and f[1] == '==':
                    res = t if f[3] != C0 else not t
        return res

    def visit(self, E, st, fr, node, cont, elem):
        v = self.content(E, st, cont)
        if mentions(v, in_request) and not mentions(v, in_threads):
            x = st.read(elem)
            st = st.set('inloop', C1).set('pending', ('key', ('p', x, ('F', FIRST))))
        return st

    def content(self, E, st, cont):
        try:
            return ('x', st.read(cont), cont)
        except Exception:
            return ('x', cont)

    def done(self, E, st, fr, node, cont):
        if st.get('pending') and mentions(self.content(E, st, cont), in_request):
            self.missed(E, st, fr, node)
        if st.get('inloop') and mentions(self.content(E, st, cont), in_request):
            st = st.set('inloop', None).set('pending', None)
        return st

    def missed(self, E, st, fr, node):
        w, chain = where_chain(E, node, fr)
        k = st.get('pending')[1]
        self.report_to.ok(R_ALL, w)
        if self.found(st.facts, k) is not False:
            self.report_to.bad(R_ALL, w, 'a listed thread that exists can be passed over', chain)

    def already(self, facts, k):
        """The switch of this thread is known to have the listed value."""
        return any(t and f[1] == '==' and mentions(f, lambda x: x[0] == 'now') and mentions(f, lambda x: x == ('p', k[1], ('F', SECOND)))
                   for f, t in facts.items() if len(f) > 3)

    def broke(self, E, st, fr, node, cont):
        if mentions(self.content(E, st, cont), in_request):
            w, chain = where_chain(E, node, fr)
            self.report_to.bad(R_ALL, w, 'the threads listed after this one are not looked at', chain)
            st = st.set('inloop', None).set('pending', None)
        return st

    def write(self, E, st, fr, node, loc, v):
        # the reply's list of threads
        if loc[0] == 'F' and loc[2] == SECOND and loc[1][0] == 'K' and has_field(loc, TC + 'thread_state') and not mentions(loc, lambda t: tagof(t) == 'parsed' if t and t[0] == 's' else False):
            w, chain = where_chain(E, node, fr)
            R = self.report_to
            k = loc[1][2]
            x = strip_cast(v)
            R.ok(R_REPLY, w)
            t = tag(x)
            if t[:1] == ('now',):
                self.replied = True
                if t[1] == 'P':
                    R.bad(R_REPLY, w, "the reply reports the process switch as a thread's", chain)
                elif t[3] not in (C1,) and t[3] != k:
                    R.bad(R_REPLY, w, "the reply reports another thread's switch", chain)
                st = st.set('wT', C1)
            elif x[0] == 'c' and x != C0 or x[0] in ('p', 'init') and mentions(x, in_request):
                R.bad(R_REPLY, w, 'the reply does not report the state of the switch', chain)
        return st


def c22(P, R):
    """The handler of the trace configuration endpoint is followed on all paths, normal and exceptional, for an arbitrary
    request and arbitrary registered threads; every change of a switch, every listed thread and every value put into the reply
    is compared with what the request says on that path."""
    f = [f for f in P.methods(EP) if f['n'] == 'handle' and f.get('body') is not None]
    if not f:
        raise AnalysisBroken('%s::handle not found' % EP)
    f = f[0]
    m = Handle(P, R)
    E, outs, thr = run(P, R, m, f, this=('O', 'this', EP), cls=EP,
                       args=[('ref', ('O', 'srv', 'scalopus::Transport')), ('ref', ('O', 'req', 'Data')), ('ref', RESP)])
    w = '%s:%s' % (rel(f['file']), f['line'])
    for t in thr:
        st = t[0]
        R.ok(R_ALL, w)
        if st.get('inloop') or st.get('sP') or st.get('sT'):
            R.bad(R_ALL, w, 'the request can be abandoned by an exception after it was partly carried out or before all listed threads were looked at')
    parsed = False
    for st, v in outs:
        if v is not None and strip_cast(v) == C0:
            if st.get('inloop') or st.get('sP') or st.get('sT'):
                R.bad(R_ALL, w, 'the handler can give up after the request was partly carried out or before all listed threads were looked at')
            continue
        R.ok(R_PROC, w)
        R.ok(R_ALL, w)
        R.ok(R_REPLY, w)
        if st.get('inloop'):
            R.bad(R_ALL, w, 'the handler can return before all listed threads were looked at')
        if m.cmd(st) and m.sp(st) and not st.get('sP'):
            R.bad(R_PROC, w, 'a set request that asks for it does not change the process switch')
        if m.cmd(st) and m.sp(st) is None and not st.get('sP'):
            R.bad(R_PROC, w, 'a set request is carried out without looking at whether the process switch is to be changed')
        r = st.read(RESP)
        if r == ('init', RESP):
            R.bad(R_REPLY, w, 'the handler can report success without a reply')
            continue
        p = reply(r)
        if p is None:
            continue
        parsed = True
        x = strip_cast(p)
        t = tag(x)
        if t[:1] == ('now',):
            if t[1] != 'P':
                R.bad(R_REPLY, w, "the reply reports a thread's switch as that of the process")
            elif t[2] == C0 and st.get('sP'):
                R.bad(R_REPLY, w, 'the reply reports the process switch as it was before the change')
        elif x[0] == 'c':
            R.bad(R_REPLY, w, 'the reply does not report the process switch')
        elif x[0] in ('p', 'init') and mentions(x, lambda t: fld(t, 'process_state')) and not (st.get('sP') and st.get('vP') == ('v', x)):
            R.bad(R_REPLY, w, 'the reply repeats the request instead of reporting the process switch')
        elif tagof(x) == 'previous':
            R.bad(R_REPLY, w, 'the reply reports the process switch as it was before the change')
    if parsed and not m.replied:
        R.bad(R_REPLY, w, 'the reply does not report the switches of the threads')


def reply(r):
    """The process state in the encoded reply; None if the reply cannot be taken apart."""
    if not (r[0] == 'op' and str(r[1]).startswith('to_') and len(r) > 2 and r[2][0] == 'rec'):
        return None
    for p, x in r[2][2]:
        if p == (('K', ('str', 'state')),):
            if x[0] != 'rec':
                return None
            for p2, y in x[2]:
                if p2 == (('F', TC + 'process_state'),) or p2 == (('K', ('str', 'p')),):
                    return y
        if p in ((('K', ('str', 'state')), ('K', ('str', 'p'))), (('K', ('str', 'state')), ('F', TC + 'process_state'))):
            return x
    return None


CHECKS = {'C22': c22}
