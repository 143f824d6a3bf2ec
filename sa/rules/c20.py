"""C20: every traced scope emits a matched begin and end with the same identifier."""
import os
import re
from ..lib import *
from ..terms import *
from .c18 import emitters, KINDS, mark_levels, strip_cast, contains_arg

R_FWD = "the generic tracepoint functions forward to the selected backend's function of the same kind with unchanged arguments"
R_PAIR = 'a traced scope emits one begin and, however it is left, one end with the same identifier'
R_MACRO = 'each macro emits its event once, with the identifier of its name'
R_NAME = 'each macro registers the name under the identifier it emits'
NODE = {'#': 0, 'l': 0, 't': '', 'k': 'none'}
USER = 'verif_tu::user_code'
MACROS = {      # function of tu/instantiate.cpp: macro, name it is given, events
    'macro_scope_raii': ('TRACE_SCOPE_RAII', 'raii_name', ('scope_entry', 'scope_exit')),
    'macro_scope_raii_other': ('TRACE_SCOPE_RAII', 'other_raii_name', ('scope_entry', 'scope_exit')),
    'macro_pretty_function': ('TRACE_PRETTY_FUNCTION', None, ('scope_entry', 'scope_exit')),
    'macro_scope_start': ('TRACE_SCOPE_START', 'pair_name', ('scope_entry',)),
    'macro_scope_start_other': ('TRACE_SCOPE_START', 'other_pair_name', ('scope_entry',)),
    'macro_scope_end': ('TRACE_SCOPE_END', None, ('scope_exit',)),
    'macro_mark_global': ('TRACE_MARK_EVENT_GLOBAL', 'mark_name', ('mark_event',)),
    'macro_mark_process': ('TRACE_MARK_EVENT_PROCESS', 'mark_name', ('mark_event',)),
    'macro_mark_thread': ('TRACE_MARK_EVENT_THREAD', 'mark_name', ('mark_event',)),
    'macro_count': ('TRACE_COUNT', 'count_name/', ('count_event',)),
    'macro_count_series': ('TRACE_COUNT_SERIES', 'count_name/series_name', ('count_event',)),
}


class Events(Monitor):
    """Records the tracepoint functions called and the names registered, in order, per path."""
    fresh_atomics = False
    exit_limit = 12

    def __init__(self, P, R, depth, throws=False):
        super().__init__(P, R)
        self.depth, self.throws = depth, throws

    def call(self, E, st, fr, node, q, recv, args):
        p = q.split('::')
        if p[0] == 'scalopus' and p[-1] in KINDS and len(p) == self.depth:
            vs = []
            for a in args:
                st, v = E.val(st, a, node, fr)
                vs.append(v)
            w, chain = where_chain(E, node, fr)
            ev = st.get('ev') or ()
            if len(ev) < 4:
                st = st.set('ev', ev + (('ev', p[-1] if self.depth == 2 else '::'.join(p[1:]), tuple(vs), w),))
            return [(st, ('void',))]
        if q == 'scalopus::StaticStringTracker::getInstance':
            return [(st, ('&', ('O', 'tracker', 'scalopus::StaticStringTracker')))]
        if q.endswith('::insert') and recv is not None and recv == ('&', ('O', 'tracker', 'scalopus::StaticStringTracker')) or q == 'scalopus::MapTracker::insert':
            vs = []
            for a in args:
                st, v = E.val(st, a, node, fr)
                vs.append(v)
            st = st.set('reg', (st.get('reg') or ()) + (('reg',) + tuple(vs),))
            return [(st, ('void',))]
        if q == USER:
            return self.user(E, st.set('user', C1).set('ev', (st.get('ev') or ()) + (('ev', 'user code', (), ''),)), node, fr)
        return None

    def user(self, E, st, node, fr):
        E.maythrow(st, node, fr, 'std::exception', 'int')
        return [(st, ('void',))]


def forwarders(P, R, ems):
    """The generic functions, one set per backend library."""
    kinds = {}
    fs = [f for f in library_functions(P) if f['kind'] == 'func' and f['n'] in KINDS and f['q'] == 'scalopus::' + f['n']]
    if not fs:
        raise AnalysisBroken('generic tracepoint functions not found')
    per_file, silent = {}, {}
    for f in fs:
        w = '%s:%s' % (rel(f['file']), f['line'])
        m = Events(P, R, 3)
        ps = [('init', ('O', 'arg:' + p['n'], p['t'])) for p in f['p']]
        E, outs, thr = run(P, R, m, f, args=ps)
        R.ok(R_FWD, w)
        kinds.setdefault(f['file'], set()).add(f['n'])
        for st, v in outs:
            ev = st.get('ev') or ()
            if not ev:
                silent.setdefault(f['file'], []).append((f, w))
                continue
            if len(ev) != 1:
                R.bad(R_FWD, w, '%s emits more than one event' % f['q'])
                continue
            _, name, vs, w1 = ev[0]
            b, n = name.rsplit('::', 1)
            per_file.setdefault(f['file'], {}).setdefault(b, []).append(w1)
            if n != f['n']:
                R.bad(R_FWD, w1, '%s forwards to %s' % (f['q'], name))
            for i, p in enumerate(ps):
                x = vs[i] if i < len(vs) else None
                if x is None or not passes(x, p, f['p'][i]['t']):
                    R.bad(R_FWD, w1, '%s does not pass on its argument "%s" unchanged' % (f['q'], f['p'][i]['n']))
    for fl, l in silent.items():
        if fl in per_file:          # a file in which no function emits anything is the backend that does nothing
            for f, w in l:
                R.bad(R_FWD, w, '%s emits nothing on some path' % f['q'])
    for fl, bs in per_file.items():
        if len(bs) > 1:
            o = sorted(bs, key=lambda b: len(bs[b]))[0]
            R.bad(R_FWD, bs[o][0], 'forwards to the backend %s, the other functions of the file to %s' % (o, sorted(b for b in bs if b != o)[0]))


def passes(x, p, t):
    if x == p:
        return True
    if x[0] == 'cast':
        return contains_arg(x, 0, [p]) and 'char' not in str(x[1]) and 'short' not in str(x[1]) and (
            passes(x[2], p, t) if not ('int64' in t or t.strip() in ('const long', 'long')) or 'long' in str(x[1]) or '64' in str(x[1]) else False)
    # compared with constants on this path (a switch over the mark level)
    return x[0] == 'c' and False


def macro_lines():
    from ..facts import REPO
    res = {}
    d = os.path.join(REPO, 'scalopus_tracing', 'include', 'scalopus_tracing')
    for f in ('trace_macro.h', 'internal/trace_macro.h'):
        try:
            for i, l in enumerate(open(os.path.join(d, f))):
                m = re.match(r'\s*#\s*define\s+(\w+)', l)
                if m:
                    res.setdefault(m.group(1), '%s:%d' % (rel(os.path.join(d, f)), i + 1))
        except OSError:
            pass
    return res


def const(v):
    v = strip_cast(v)
    return v[1] if v[0] == 'c' else None


def c20(P, R):
    """The forwarding functions of every backend library are followed for arbitrary arguments.  Every public tracing macro is
    expanded in an analysis-only unit around unknown user code that may also throw, and the expansion is followed through
    constructors and destructors on all normal and exceptional paths, recording emitted events and registered names."""
    ems = emitters(P)
    forwarders(P, R, ems)
    raii(P, R)
    lines = macro_lines()
    ids = {}
    for fn, (macro, name, want) in MACROS.items():
        f = next((f for l in P.defs.values() for f in l if f['q'] == 'verif_tu::' + fn), None)
        if f is None:
            raise AnalysisBroken('expansion of %s not found' % macro)
        w = '%s (%s)' % (lines.get(macro, 'trace_macro.h'), macro)
        m = Events(P, R, 2, throws=True)
        ps = [('init', ('O', 'arg:' + p['n'], p['t'])) for p in f['p']]
        E, outs, thr = run(P, R, m, f, args=ps)
        pair = 'scope_exit' in want and 'scope_entry' in want
        ends = [(st, False) for st, *_ in outs] + [(t[0], True) for t in thr if t[0].get('user') == C1]
        R.ok(R_PAIR if pair else R_MACRO, w)
        if name is not None:
            R.ok(R_NAME, w)
        regs = noreg = 0
        for st, threw in ends:
            ev = st.get('ev') or ()
            kinds = tuple(e[1] for e in ev)
            if tuple(k for k in kinds if k != 'user code') == want and pair and kinds != (want[0], 'user code', want[1]):
                R.bad(R_PAIR, w, '%s emits %s' % (macro, ', '.join(kinds)))
                continue
            kinds = tuple(k for k in kinds if k != 'user code')
            ev = [e for e in ev if e[1] != 'user code']
            if kinds != want:
                R.bad(R_PAIR if pair else R_MACRO, w, '%s emits %s%s instead of %s' % (
                    macro, ', '.join(kinds) or 'nothing', ' when the scope is left by an exception' if threw else '', ', '.join(want)))
                continue
            eids = [strip_cast(e[2][0]) for e in ev if e[2]]
            if len(set(eids)) > 1 and all(x[0] == 'c' for x in eids):
                R.bad(R_PAIR, w, 'the end carries another identifier than the begin')
            elif len(set(eids)) > 1:
                R.bad(R_PAIR, w, 'the end carries %s, the begin %s' % (show(eids[1]), show(eids[0])))
            for e in ev:
                ids.setdefault(fn, set()).add(const(e[2][0]))
                if e[1] == 'mark_event' and len(e[2]) > 1:
                    lv = {str(v): n for n, v in mark_levels(P)}.get(str(const(e[2][1])))
                    if const(e[2][1]) is not None and lv != macro.rsplit('_', 1)[1]:
                        R.bad(R_MACRO, w, '%s emits a mark of level %s' % (macro, lv))
                if e[1] == 'count_event' and len(e[2]) > 1 and not contains_arg(e[2][1], 0, ps):
                    R.bad(R_MACRO, w, '%s does not emit the value it is given' % macro)
            for r in st.get('reg') or ():
                regs += 1
                x = strip_cast(r[1])
                if x[0] == 'c' and eids and eids[0][0] == 'c' and x != eids[0]:
                    R.bad(R_NAME, w, '%s registers its name under another identifier than it emits' % macro)
                s = text(r[2]) if len(r) > 2 else None
                if s is not None and name is not None and s != name:
                    R.bad(R_NAME, w, '%s registers the name "%s" instead of "%s"' % (macro, s, name))
            if not st.get('reg') and once(E, st) is False:
                noreg += 1
        if name is not None and not regs:
            R.bad(R_NAME, w, '%s does not register its name' % macro)
        if name is not None and noreg:
            R.bad(R_NAME, w, '%s does not register its name the first time it is executed' % macro)
    a, b = ids.get('macro_scope_start', set()), ids.get('macro_scope_end', set())
    if a and b and None not in a | b and a != b:
        R.bad(R_PAIR, lines.get('TRACE_SCOPE_END', 'trace_macro.h'), 'TRACE_SCOPE_START and TRACE_SCOPE_END use different identifiers for the same name')
    for x, y, what in (('macro_scope_start', 'macro_scope_start_other', 'names'), ('macro_scope_raii', 'macro_scope_raii_other', 'lines')):
        a, b = ids.get(x, set()), ids.get(y, set())
        R.ok(R_NAME, '%s and %s' % (x, y))
        if a and b and None not in a | b and a & b:
            R.bad(R_NAME, lines.get('SCALOPUS_TRACKED_TRACE_ID_STRING', 'trace_macro.h'), 'tracepoints with different %s in one file get the same identifier' % what)


def text(v):
    v = strip_cast(v)
    while v[0] == 'op' and v[1] in ('text', 'string') and len(v) == 3:
        v = v[2]
    return v[1] if v[0] == 'str' else None


def once(E, st):
    """False if a static flag tested on this path was still unset (the first execution); None if nothing is known."""
    res = None
    for f, t in st.facts.items():
        if mentions(f, lambda x: len(x) == 4 and x[0] == 'S' and x[3] == 'static'):
            if len(f) == 4 and f[1] == '==' and f[3] == C0:
                t = not t
            elif len(f) == 4 and f[1] == '==':
                continue
            res = t if res is None else res or t
    return res


def raii(P, R):
    """The class behind the scope macros, for an arbitrary identifier: destroyed after construction it has emitted the pair."""
    f = next((f for l in P.defs.values() for f in l if f['q'] == 'verif_tu::macro_scope_raii'), None)
    cls = set()
    for n in walk(f) if f else ():
        if n.get('k') == 'ctor' and str(n.get('rq', '')).startswith(NS):
            cls.add(n['rq'])
    for c in sorted(cls):
        if any(f['kind'] == 'dtor' for f in P.methods(c)):
            for ct in ctors(P, c):
                if not ct['p']:
                    continue
                this = ('O', 'this', c)
                m = Events(P, R, 2)
                ps = [('init', ('O', 'arg:' + p['n'], p['t'])) for p in ct['p']]
                E, outs, thr = run(P, R, m, ct, this=this, cls=c, args=ps)
                w = '%s:%s' % (rel(ct['file']), ct['line'])
                for st, v in outs:
                    for d in [f for f in P.methods(c) if f['kind'] == 'dtor']:
                        E2, outs2, thr2 = run(P, R, m, d, this=this, cls=c, st=st)
                        for s2, v2 in outs2:
                            R.ok(R_PAIR, w)
                            ev = s2.get('ev') or ()
                            if tuple(e[1] for e in ev) != ('scope_entry', 'scope_exit'):
                                R.bad(R_PAIR, w, 'an object of %s emits %s in its life' % (c, ', '.join(e[1] for e in ev) or 'nothing'))
                            elif any(strip_cast(e[2][0]) != ps[0] or 'char' in str(e[2][0]) or 'short' in str(e[2][0]) for e in ev):
                                R.bad(R_PAIR, w, '%s does not emit the identifier it is given' % c)


CHECKS = {'C20': c20}
