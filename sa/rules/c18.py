"""C18: exactly one event when enabled, none when disabled."""
from ..lib import *
from ..terms import *

CFG = 'scalopus::TraceConfigurator::'
KINDS = ('scope_entry', 'scope_exit', 'mark_event', 'count_event')
R_GATE = 'an event is only emitted when both switches are on'
R_ONE = 'when both switches are on exactly one event is emitted'
R_ARG = 'the event carries the identifier and value given'
R_OWN = "the switch consulted is the calling thread's own"
R_BUF = "the buffer written is the calling thread's own"
NODE = {'#': 0, 'l': 0, 't': '', 'k': 'none'}
PROC, THR = ('O', 'process switch', 'std::atomic'), ('O', 'thread switch', 'std::atomic')
LTTNG = 'lttng_ust_tracepoint_cb_'


def emitters(P):
    """(backend, function name, definition) of every backend's tracepoint functions."""
    res = []
    for f in library_functions(P):
        p = f['q'].split('::')
        if f['n'] in KINDS and len(p) == 3 and p[0] == 'scalopus' and f['kind'] == 'func':
            res.append((p[1], f['n'], f))
    return sorted(res, key=lambda t: (t[0], t[1]))


def mark_levels(P):
    for e in P.enums.values() if isinstance(P.enums, dict) else P.enums:
        if e['q'] == 'scalopus::MarkLevel':
            return [(x['n'], x['v']) for x in e['e']]
    return []


class Emit(Monitor):
    """Follows one tracepoint function; an emission is a push into the thread's buffer or an lttng tracepoint."""
    throws = False
    fresh_atomics = False
    exit_limit = 12

    def __init__(self, P, R, quiet=False):
        super().__init__(P, R)
        self.quiet = quiet
        self.emitted = []       # (kind term or name, id, extra, where)

    def call(self, E, st, fr, node, q, recv, args):
        n = q.rsplit('::', 1)[-1]
        if q.startswith(CFG):
            if n == 'getProcessStatePtr':
                return [(st, ('ptr', PROC))]
            if n == 'getThreadStatePtr':
                return [(st, ('ptr', THR))]
            if n == 'getInstance':
                st, f = E.fresh(st, fr, node, ('configurator',))
                return [(E.assume(st, ('op', '==', f, C0), False) or st, f)]
            if n in ('getProcessState', 'getThreadState'):
                return self.gate(st, 'P' if n == 'getProcessState' else 'T')
            return [(st, ('ret', q))]
        if q.endswith('::getBuffer') or q.endswith('::getInstance'):
            st, f = E.fresh(st, fr, node, ('buffer',) if q.endswith('getBuffer') else ('instance',))
            return [(E.assume(st, ('op', '==', f, C0), False) or st, f)]
        if q == '__builtin_expect' and args:
            st, v = E.val(st, args[0], node, fr)
            if any(x.get('k') == 'var' and str(x.get('n') or x.get('q')).startswith('lttng_ust_tracepoint_') for x in walk(node)):
                return [(st, C1)] if v != C0 else []      # the session collects this event
        if q == 'cbor::cbor_object::serialized' and recv is not None:
            st, v = E.val(st, recv, node.get('o') or NODE, fr)
            return [(st, ('op', 'serialized', v))]
        if q == 'scalopus::SPSCRingBuffer::push':
            st, v = E.val(st, args[0], node, fr)
            k, i, d = event_parts(self.p, v)
            if d is not None and d[0] == 'ptr':
                d = st.read(d[1])
            st = self.emission(E, st, fr, node, (k, i, d))
            st, f = E.fresh(st, fr, node, ('pushed',))
            return [(st, f)]
        if q.startswith(LTTNG):
            vs = []
            for a in args:
                st, v = E.val(st, a, node, fr)
                vs.append(v)
            st = self.emission(E, st, fr, node, (('str', q.rsplit('___', 1)[-1]), vs[0] if vs else None, vs[1] if len(vs) > 1 else None))
            return [(st, ('void',))]
        return None

    def gate(self, st, g):
        v = st.get(g)
        if v is not None:
            return [(st, v)]
        return [(st.set(g, C1), C1), (st.set(g, C0), C0)]

    def atomic(self, E, st, fr, node, loc, op):
        if loc == PROC and op in ('load', 'operator bool', 'conv') or loc == PROC and op.startswith('operator'):
            return self.gate(st, 'P')
        if loc == THR and op in ('load', 'operator bool', 'conv') or loc == THR and op.startswith('operator'):
            return self.gate(st, 'T')
        return None

    def write(self, E, st, fr, node, loc, v):
        if self.quiet:
            return st
        shared = loc[0] == 'S' and loc[-1] == 'static' or loc[0] == 'G'
        if v == ('ptr', THR):
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(R_OWN, w)
            if shared:
                self.report_to.bad(R_OWN, w, 'the switch of the first thread that gets here is kept for all threads', chain)
        if v == ('ptr', PROC):
            pass
        if tag(v) == ('buffer',) and shared:
            w, chain = where_chain(E, node, fr)
            self.report_to.bad(R_OWN, w, 'the buffer of the first thread that gets here is used by all threads', chain)
        return st

    def emission(self, E, st, fr, node, parts):
        w, chain = where_chain(E, node, fr)
        self.emitted.append(parts + (w,))
        n = st.get('n')
        n = C1 if n is None else ('c', min(n[1] + 1, 2))
        if not self.quiet:
            R = self.report_to
            R.ok(R_GATE, w)
            for g, what in (('P', 'the process switch'), ('T', "the thread's switch")):
                if st.get(g) == C0:
                    R.bad(R_GATE, w, 'an event is emitted although %s is off' % what, chain)
                elif st.get(g) is None:
                    R.bad(R_GATE, w, 'an event is emitted without consulting %s' % what, chain)
            if n[1] > 1:
                R.bad(R_ONE, w, 'a second event is emitted', chain)
            R.ok(R_ARG, w)
            if parts[1] is not None and not arg_is(parts[1], 0, self.params):
                R.bad(R_ARG, w, 'the event does not carry the identifier of the tracepoint', chain)
            if len(self.params) > 1 and self.params[1] is not None and (parts[2] is None or not contains_arg(parts[2], 1, self.params)):
                R.bad(R_ARG, w, 'the event does not carry the value of the tracepoint', chain)
        return st.set('n', n)

    params = ()


def event_parts(P, v):
    """(kind, id, dynamic data) of a StaticTraceEvent value."""
    k = i = d = None
    if v[0] == 'rec':
        for p, x in v[2]:
            if len(p) == 1 and p[0][0] == 'F':
                n = p[0][1].rsplit('::', 1)[-1]
                if n == 'trace_type':
                    k = x
                elif n == 'trace_id':
                    i = x
                elif n == 'dynamic_data':
                    d = x
    return k, i, d


def strip_cast(v):
    while v is not None and v[0] == 'cast':
        v = v[2]
    return v


def arg_is(v, i, params):
    """The parameter itself, converted to a type that holds all of its values at most."""
    while v[0] == 'cast':
        if str(v[1]).replace('const ', '') not in ('unsigned int', 'uint32_t', 'std::uint32_t', 'int', 'long', 'unsigned long', 'uint64_t',
                                                  'std::uint64_t', 'long long', 'unsigned long long', 'int64_t', 'std::int64_t', 'scalopus::tracepoint_collector_types::TraceId',
                                                  'TraceId', 'TraceId&'):
            return False
        v = v[2]
    return v == params[i]


def contains_arg(v, i, params):
    """Built from the value, without passing a type that cannot hold it."""
    NARROW = ('int', 'unsigned int', 'short', 'unsigned short', 'char', 'unsigned char', 'signed char', 'bool', 'float', 'uint32_t', 'int32_t')
    if v[0] == 'init' and v[1][0] in PARTS or v[0] in ('ptr', '&', 's'):
        return mentions(v, lambda t: t == params[i]) or v[0] == 's'
    return mentions(v, lambda t: t == params[i]) and not mentions(
        v, lambda t: len(t) == 3 and t[0] == 'cast' and str(t[1]).replace('const ', '') in NARROW and mentions(t[2], lambda x: x == params[i]))


def variants(P, f):
    """Argument vectors to analyse a tracepoint function with: one per mark level."""
    ps = [('init', ('O', 'arg:' + p['n'], p['t'])) for p in f['p']]
    if f['n'] == 'mark_event' and len(ps) > 1:
        for n, v in mark_levels(P):
            yield n, [ps[0], ('c', int(v))]
    else:
        yield None, ps


def c18(P, R):
    """Every tracepoint function of every backend is followed on all paths for the four combinations of the two switches
    (modelled as the atomics handed out by TraceConfigurator): with both on every exit has emitted exactly one event, whose
    identifier and value are the parameters; with one off none; a switch obtained for the calling thread is never kept in
    storage that threads share.  Mark levels are taken one by one."""
    em = emitters(P)
    if len({b for b, n, f in em}) < 2 or not any(b != 'nop' for b, n, f in em):
        raise AnalysisBroken('tracepoint functions of the backends not found')
    total = 0
    for b, n, f in em:
        w = '%s:%s' % (rel(f['file']), f['line'])
        emits = 0
        for lvl, ps in variants(P, f):
            m = Emit(P, R)
            m.params = [ps[0]] + ([ps[1]] if n == 'count_event' else [None] if len(ps) > 1 else [])
            E, outs, thr = run(P, R, m, f, args=ps)
            R.ok(R_ONE, w + (' %s' % lvl if lvl else ''))
            emits += len(m.emitted)
            if b == 'nop':
                if m.emitted:
                    R.bad(R_ONE, w, 'the backend that does nothing emits an event')
                continue
            for st, v in outs:
                k = st.get('n')
                if k is None and st.get('P') != C0 and st.get('T') != C0:
                    R.bad(R_ONE, w, '%s%s can return without an event although no switch is off' % (f['q'], ' for level %s' % lvl if lvl else ''))
        total += emits
    if not total:
        raise AnalysisBroken('no backend emits anything')


CHECKS = {'C18': c18}
