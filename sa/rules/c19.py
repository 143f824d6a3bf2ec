"""C19: event kinds keep their meaning from tracepoint to Trace Event Format."""
from ..lib import *
from ..terms import *
from .c18 import emitters, variants, Emit, strip_cast, LTTNG

R_KIND = 'every emitted kind is turned into the phase (and scope) that stands for it'
R_PH = 'no event is returned without a phase'
R_TS = 'timestamps are given in microseconds'
R_SORT = 'events are returned in time order, equal times in the order they were recorded'
R_CLOCK = 'native timestamps are nanoseconds'
NODE = {'#': 0, 'l': 0, 't': '', 'k': 'none'}
WANT = {('scope_entry', None): ('B', None), ('scope_exit', None): ('E', None), ('mark_event', 'GLOBAL'): ('i', 'g'),
        ('mark_event', 'PROCESS'): ('i', 'p'), ('mark_event', 'THREAD'): ('i', 't'), ('count_event', None): ('C', None)}


def field(v, k):
    """Value of a key of a json object built on this path; None if not set, ('?',) if the object is not known."""
    if v[0] != 'rec':
        return ('?',)
    res = None
    for p, x in v[2]:
        if p == (('K', ('str', k)),):
            res = x
        elif len(p) >= 1 and p[0][0] == 'K' and p[0][1][0] != 'str':
            return ('?',)
    if res is None and v[1] not in (('empty',), ('null',), C0):
        return ('?',)
    return res


def is_event(v):
    return v[0] == 'rec' and any(p == (('K', ('str', k)),) for p, x in v[2] for k in ('ts', 'ph', 'cat'))


class Finish(Monitor):
    """Follows the conversion of one source's recorded events; looks at every event that is added to the result."""
    throws = False
    fresh_atomics = False
    exit_limit = 12

    def __init__(self, P, R, kindfields, domfields):
        super().__init__(P, R)
        self.kindfields, self.domfields = kindfields, domfields
        self.pushes = []        # (kind constant or None, ph, s, ts, where, chain, other kinds excluded)
        self.sorts = []

    def tested(self, f):
        """(what, constant) if this fact compares the kind or the domain of an event with a constant."""
        if len(f) == 4 and f[0] == 'op' and f[1] == '==':
            x, y = strip_cast(f[2]), strip_cast(f[3])
            if y[0] not in ('c', 'str'):
                x, y = y, x
            if y[0] in ('c', 'str') and x[0] in ('p', 'init'):
                n = last_field(x)
                if n in self.kindfields:
                    return 'kind', y
                if n in self.domfields:
                    return 'dom', y
        return None, None

    def assumed(self, E, st, fr, node, atom, truth):
        what, y = self.tested(atom)
        if what == 'kind' and truth:
            st = st.set('kind', y).set('no', None)
        elif what == 'kind':
            st = st.set('no', tuple(sorted(set(st.get('no') or ()) | {y}))).set('kind', None)
        elif what == 'dom' and truth:
            st = st.set('dom', y)
        return st

    def kind_of(self, st):
        return st.get('kind'), st.get('dom'), set(st.get('no') or ())

    def call(self, E, st, fr, node, q, recv, args):
        n = q.rsplit('::', 1)[-1]
        if n in ('push_back', 'emplace_back', 'insert', 'push_front') and q.startswith('std::') and args:
            for a in args:
                if a is None:
                    continue
                s2, v = E.val(st, a, node, fr)
                if is_event(v):
                    k, dom, no = self.kind_of(st)
                    w, chain = where_chain(E, node, fr)
                    self.pushes.append((k, dom, no, field(v, 'ph'), field(v, 's'), field(v, 'ts'), w, chain))
                    return [(s3.set('pushed', C1).set('sorted', C0).set('kind', None).set('no', None), r) for s3, r in self.default(E, st, fr, node, q, recv, args)]
        if q in ('std::stable_sort', 'std::sort', 'std::partial_sort', 'std::qsort', 'std::reverse', 'std::sort_heap', 'std::make_heap'):
            self.sorted_by(E, st, fr, node, q, args)
            s2, f = E.fresh(st.set('sorted', C1 if q == 'std::stable_sort' else C0), fr, node, ('sorted',))
            return [(s2, f)]
        return None

    def default(self, E, st, fr, node, q, recv, args):
        # the result vector itself is of no interest, only that something was added to it
        s2, f = E.fresh(st, fr, node, ('added',))
        return [(s2, f)]

    def sorted_by(self, E, st, fr, node, q, args):
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        R.ok(R_SORT, w)
        self.sorts.append((q, w))
        if q in ('std::sort', 'std::partial_sort', 'std::qsort', 'std::make_heap', 'std::sort_heap'):
            R.bad(R_SORT, w, '%s does not keep the order of events with equal times' % q, chain)
        if q == 'std::reverse':
            R.bad(R_SORT, w, 'the order of the events is reversed', chain)
        if q != 'std::stable_sort' or len(args) < 3:
            return
        st, lam = E.val(st, args[2], node, fr)
        if lam[0] not in ('lam', 'lambda', 'fnref', 'fnptr', 'closure'):
            return
        L, Rr = ('O', 'lhs', 'json'), ('O', 'rhs', 'json')
        for s2, v in E.call_value(lam, node, [], [('&', L), ('&', Rr)], st, fr):
            v = strip_cast(E.val(s2, v, node, fr)[1])
            neg = False
            while v[0] == 'op' and v[1] == 'not':
                v, neg = v[2], not neg
            if v[0] == 'c':
                R.bad(R_SORT, w, 'the comparison always gives the same answer', chain)
            elif v[0] == 'op' and v[1] in ('<', '<=', '==', '>', '>=') and len(v) == 4:
                l, r = (mentions(v[2], lambda t: t == L), mentions(v[2], lambda t: t == Rr)), (mentions(v[3], lambda t: t == L), mentions(v[3], lambda t: t == Rr))
                op = v[1]
                if l == (True, False) and r == (False, True):
                    pass
                elif l == (False, True) and r == (True, False):
                    op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
                else:
                    if not (l[0] and r[1] or l[1] and r[0]):
                        R.bad(R_SORT, w, 'the comparison does not compare the two events', chain)
                    continue
                if neg:
                    op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!='}[op]
                if op != '<':
                    R.bad(R_SORT, w, 'events are ordered by "%s" instead of "<" on their times' % op, chain)
                for x in v[2:]:
                    ks = set()
                    mentions(x, lambda t: len(t) == 3 and t[0] == 'K' and t[2][0] == 'str' and ks.add(t[2][1]) or len(t) == 2 and t[0] == 'K' and t[1][0] == 'str' and ks.add(t[1][1]))
                    if ks and 'ts' not in ks:
                        R.bad(R_SORT, w, 'events are ordered by "%s" instead of their time' % sorted(ks)[0], chain)


def last_field(x):
    if x[0] == 'p':
        return x[2][1] if x[2][0] == 'F' else ''
    fs = fieldstep(x[1])
    return fs[2] if fs else ''


def factor(v):
    """(constant factor, the rest) of a product; factor None if the scale is not a constant."""
    v = strip_cast(v)
    if v[0] == 'op' and v[1] in ('*', '/') and len(v) == 4:
        a, b = strip_cast(v[2]), strip_cast(v[3])
        for x, y, op in ((a, b, v[1]), (b, a, v[1] if v[1] == '*' else None)):
            c = number(y)
            if c is not None and op:
                f, r = factor(x)
                if f is None:
                    return None, v
                return (f * c if op == '*' else f / c), r
        return None, v
    if v[0] == 'op' and v[1] == 'todouble':
        return factor(v[2])
    if v[0] == 'op' and v[1] == '+':
        return None, v
    return 1.0, v


def number(v):
    if v[0] == 'op' and v[1] == 'todouble':
        return number(v[2])
    if v[0] in ('c', 'f', 'float', 'double') and isinstance(v[1], (int, float)):
        return float(v[1])
    if v[0] in ('c', 'f', 'float', 'double'):
        try:
            return float(v[1])
        except (TypeError, ValueError):
            return None
    return None


def names(P, rec, pred):
    return {f['q'] if 'q' in f else rec + '::' + f['n'] for f in (P.records.get(rec) or {}).get('fields') or [] if pred(f)}


def c19(P, R):
    """Producer and consumer are composed: every backend's tracepoint functions are followed to collect the kind constants they
    emit per event kind; every source's finishInterval is followed to collect, per kind constant tested on the path, the phase
    and scope of the event added to the result, its time scale, and the sort applied before returning."""
    # what the backends emit
    emitted = {}
    for b, n, f in emitters(P):
        for lvl, ps in variants(P, f):
            m = Emit(P, R, quiet=True)
            m.params = ps
            run(P, R, m, f, args=ps)
            for k, i, d, w in m.emitted:
                emitted.setdefault(b, []).append(((n, lvl), strip_cast(k) if k is not None else None, w))
    emitted = {b: l for b, l in emitted.items() if l}
    if not emitted:
        raise AnalysisBroken('no backend emits anything')
    # distinct kinds stay distinct
    for b, l in emitted.items():
        by = {}
        for kind, k, w in l:
            R.ok(R_KIND, w)
            if k is not None and k[0] in ('c', 'str'):
                for k2, w2 in by.get(k, []):
                    if k2 != kind:
                        R.bad(R_KIND, w, '%s and %s are emitted with the same type' % (' '.join(x for x in kind if x), ' '.join(x for x in k2 if x)))
                by.setdefault(k, []).append((kind, w))
    native_clock(P, R)
    # what the sources make of it
    srcs = [c for c in P.records if 'scalopus::TraceEventSource' in [x if isinstance(x, str) else x.get('q') for x in (P.records[c].get('allbases') or [])]]
    sources = 0
    for c in sorted(srcs):
        fs = [f for f in P.methods(c) if f['n'] == 'finishInterval' and f.get('body') is not None and library(f)]
        if not fs:
            continue
        recs = [x for x in P.records if x.endswith('::CTFEvent') or x.endswith('::StaticTraceEvent')]
        kf = {r + '::' + f['n'] for r in recs for f in P.records[r]['fields'] if f['n'] in ('trace_type',)}
        # CTFEvent: the member returned by name() and domain()
        df = set()
        for r in recs:
            for meth, s in (('name', kf), ('domain', df)):
                for g in P.methods(r):
                    if g['n'] == meth and g.get('body') is not None:
                        s.update(n['f'] for n in walk(g) if n.get('k') == 'mem' and n.get('f'))
        m = Finish(P, R, kf, df)
        E, outs, thr = run(P, R, m, fs[0], this=('O', 'this', c), cls=c)
        if not m.pushes:
            continue                # converts no tracepoints (the general source only adds metadata) or builds events another way
        b = backend(m, emitted)
        if b is None:
            continue
        sources += 1
        w0 = '%s:%s' % (rel(fs[0]['file']), fs[0]['line'])
        consume(R, m, emitted[b], b, w0, domains(P, b))
        # order
        R.ok(R_SORT, w0)
        for st, v in outs:
            if st.get('pushed') == C1 and st.get('sorted') != C1 and not m.sorts:
                if not other_order(P, fs[0]):
                    R.bad(R_SORT, w0, 'events are returned without being sorted by time')
                break
            if st.get('pushed') == C1 and st.get('sorted') != C1 and m.sorts and all(q == 'std::stable_sort' for q, w in m.sorts):
                R.bad(R_SORT, w0, 'events are returned without being sorted by time on some path')
                break
    if not sources and not any(b for b in emitted):
        raise AnalysisBroken('no source converts events')


def domains(P, b):
    """The tracepoint providers the functions of a backend emit into (lttng)."""
    res = set()
    for e, n, f in emitters(P):
        if e == b:
            for g in callees(P, f):
                for x in walk(g):
                    q = (x.get('c') or {}).get('q', '') if isinstance(x.get('c'), dict) else ''
                    if q.startswith(LTTNG) and '___' in q:
                        res.add(q[len(LTTNG):].rsplit('___', 1)[0])
    return res


def other_order(P, f):
    for g in callees(P, f):
        for n in walk(g):
            q = (n.get('c') or {}).get('q', '') if isinstance(n.get('c'), dict) else ''
            if q.startswith('std::') and q.rsplit('::', 1)[-1] in ('sort', 'merge', 'inplace_merge', 'upper_bound', 'lower_bound', 'push_heap') or 'multimap' in q or 'multiset' in q or 'priority_queue' in q:
                return True
    return False


def backend(m, emitted):
    """Which backend's kinds does this source look at: the one with constants of the same sort."""
    sorts = {k[0] for k, *_ in m.pushes if k is not None} | {x[0] for p in m.pushes for x in p[2]}
    c = [b for b, l in emitted.items() if {k[0] for kind, k, w in l if k is not None} & sorts]
    return c[0] if len(c) == 1 else None


def consume(R, m, l, b, w0, doms):
    unit = {'c': 1e-3, 'str': 1e6}
    got = {}
    unknown = False
    for k, dom, no, ph, s, ts, w, chain in m.pushes:
        R.ok(R_PH, w)
        R.ok(R_TS, w)
        if ph is None:
            R.bad(R_PH, w, 'an event without a phase is added to the result%s' % (' for kind %s' % show(k) if k is not None else ' for kinds that are not known'), chain)
        if k is None and ph is not None and (ph[0] == 'str') and no:
            # some kind other than those excluded ends up with this phase
            got.setdefault(('else', frozenset(no)), []).append((ph, s, w, chain, dom))
        elif k is None or ph is not None and ph[0] not in ('str',):
            unknown = True
        if dom is not None and doms and dom[0] == 'str' and dom[1] not in doms:
            R.bad(R_KIND, w, 'only events of the domain "%s" are looked at, the backend emits into "%s"' % (dom[1], sorted(doms)[0]), chain)
        if k is not None:
            got.setdefault(k, []).append((ph, s, w, chain, dom))
        if ts is None:
            R.bad(R_TS, w, 'an event without a time is added to the result', chain)
        elif ts[0] not in ('?', 'old'):
            f, r = factor(ts)
            kk = 'c' if any(x[1] is not None and x[1][0] == 'c' for x in l) else 'str'
            direct = r[0] in ('p', 'init')
            if f is not None and direct and abs(f / unit[kk] - 1) > 1e-9:
                R.bad(R_TS, w, 'times recorded in %s are multiplied by %g' % ('nanoseconds' if kk == 'c' else 'seconds', f), chain)
    for kind, k, w in l:
        if k is None or k[0] not in ('c', 'str'):
            continue
        kind_name = ' '.join(x for x in kind if x)
        want = WANT.get(kind)
        R.ok(R_KIND, '%s -> %s' % (w, w0))
        cand = list(got.get(k, []))
        for g, v in got.items():
            if g[0] == 'else' and k not in g[1]:
                cand += v
        if not cand:
            if not unknown:
                R.bad(R_KIND, w0, 'no event is returned for what is emitted for %s (type %s, %s)' % (kind_name, show(k), w))
            continue
        for ph, s, w1, chain, dom in cand:
            if want is None or ph is None or ph[0] != 'str':
                continue
            if ph[1] != want[0]:
                R.bad(R_KIND, w1, '%s (type %s, emitted at %s) is returned with phase "%s" instead of "%s"' % (kind_name, show(k), w, ph[1], want[0]), chain)
            elif want[1] is not None and (s is None or s[0] == 'str' and s[1] != want[1]):
                R.bad(R_KIND, w1, '%s (type %s, emitted at %s) is returned with scope %s instead of "%s"' % (kind_name, show(k), w, 'unset' if s is None else '"%s"' % s[1], want[1]), chain)


def native_clock(P, R):
    """The time a native event carries comes from a duration_cast to nanoseconds."""
    seen = set()
    for b, n, f in emitters(P):
        if b == 'nop':
            continue
        for g in callees(P, f):
            if g['usr'] in seen:
                continue
            seen.add(g['usr'])
            for x in walk(g):
                c = x.get('c')
                if x.get('k') == 'call' and isinstance(c, dict) and c.get('q') in ('std::chrono::duration_cast', 'std::chrono::floor', 'std::chrono::time_point_cast'):
                    t = str(c.get('rt') or x.get('t') or '')
                    w = '%s:%s' % (rel(g['file']), x.get('l'))
                    R.ok(R_CLOCK, w)
                    if any(u in t for u in ('microseconds', 'milliseconds', 'ratio<1, 1000000>', 'ratio<1, 1000>', 'ratio<1L, 1000000L>', 'ratio<1L, 1000L>', 'chrono::seconds')):
                        R.bad(R_CLOCK, w, 'the time of a native event is recorded in %s' % t)


CHECKS = {'C19': c19}
