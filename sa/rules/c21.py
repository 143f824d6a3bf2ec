"""C21: temporarily switching tracing always restores the previous state."""
from ..lib import *
from ..terms import *
from ..models import SECOND
from .c18 import strip_cast
from .c20 import macro_lines, USER

CFG = 'scalopus::TraceConfigurator'
THR = ('O', 'thread switch', 'std::atomic<bool>')
R_SET = 'setting a switch sets that switch and returns its previous value in one step'
R_GET = 'the state reported is that of the switch'
R_DEF = 'switches start enabled'
R_OWN = "a thread gets its own switch"
R_IN = 'inside the scope the switch has the value asked for'
R_OUT = 'when the scope is left the switch has the value it had before'
R_OTHER = 'a scoped change leaves the other switch alone'
TIDS = ('pthread_self', 'gettid', 'get_id', 'syscall')


class Switch(Monitor):
    """Both switches are atomics; loads of the process switch may see a change made by somebody else meanwhile."""
    fresh_atomics = False
    exit_limit = 12

    def __init__(self, P, R, procfield, throws=False, own=True):
        super().__init__(P, R)
        self.procfield, self.throws, self.own = procfield, throws, own
        self.users = []

    def isproc(self, loc):
        return self.procfield is not None and mentions(loc, lambda t: t[0] == 'F' and t[-1] == self.procfield)

    def which(self, loc):
        return 'T' if loc == THR else 'P' if self.isproc(loc) else None

    def call(self, E, st, fr, node, q, recv, args):
        n = q.rsplit('::', 1)[-1]
        if n == 'getThreadStatePtr' and q.startswith(CFG) and self.own:
            return [(st, ('ptr', THR))]
        if q == USER:
            i = sum(1 for k in (st.get('u') or ()))
            st = st.set('u', (st.get('u') or ()) + (('c', node.get('#', 0)),))
            proc = self.proc(st)
            w, chain = where_chain(E, node, fr)
            self.users.append((i, st.read(THR), st.read(proc) if proc else None, proc))
            # the code of the user, or anybody else, changes the switches meanwhile
            st, a = E.fresh(st, fr, node, ('changed', 'T'))
            st = st.write(THR, a)
            if proc:
                st, b = E.fresh(st, fr, node, ('changed', 'P'))
                st = st.write(proc, b)
            E.maythrow(st, node, fr, 'std::exception', 'int')
            return [(st, ('void',))]
        if 'atomic' in q and recv is not None and recv[0] in ('&', 'ptr'):
            k = self.which(recv[1])
            op = 'rmw' if n in ('exchange', 'compare_exchange_strong', 'compare_exchange_weak', 'fetch_and', 'fetch_or', 'fetch_xor', 'test_and_set') \
                else 'store' if n in ('store', 'operator=', 'clear') else 'load' if n in ('load', 'operator bool') or n.startswith('operator') else None
            if k and op:
                st = st.set('ops', tuple(sorted(set(st.get('ops') or ()) | {('op', k, op)})))
                if op == 'load' and self.users is not None and k == 'P' and self.own == 'scoped':
                    st, v = E.fresh(st, fr, node, ('seen',))
                    return [(st, v)]
                if op == 'rmw' or op == 'store':
                    res = self.default(E, st, fr, node, q, recv, args, n)
                    return res
        return None

    def default(self, E, st, fr, node, q, recv, args, n):
        if n in ('exchange', 'store', 'operator='):
            st, v = E.val(st, args[0], node, fr)
            old = st.read(recv[1])
            return [(st.write(recv[1], v), old if n == 'exchange' else v if n == 'operator=' else ('void',))]
        if n.startswith('compare_exchange') and len(args) > 1 and args[0] is not None and args[0][0] in ('&', 'ptr'):
            st, v = E.val(st, args[1], node, fr)
            s2, f = E.fresh(st, fr, node, ('seen',))
            return [(st.write(args[0][1], st.read(recv[1])).write(recv[1], v), C1), (s2.write(args[0][1], f), C0)]
        return None

    def write(self, E, st, fr, node, loc, v):
        if self.own is False and (loc[0] == 'S' and loc[-1] == 'static' or loc[0] == 'G') and (
                mentions(v, lambda t: t[0] == 'ret' and len(t) == 2 and any(str(t[1]).endswith(x) for x in TIDS))
                or v[0] == 'ptr' and v[1][0] == 'O' and 'atomic' in str(v[1][-1])):
            w, chain = where_chain(E, node, fr)
            self.report_to.bad(R_OWN, w, 'all threads get the switch of the first one', chain)
        return st

    def proc(self, st):
        l = [k for k in st.mem if k != THR and self.isproc(k) and k[0] == 'D']
        return sorted(l, key=str)[0] if l else None


def method(P, n):
    f = [f for f in P.methods(CFG) if f['n'] == n and f.get('body') is not None]
    if not f:
        raise AnalysisBroken('%s::%s not found' % (CFG, n))
    return f[0]


def unknown(v):
    v = strip_cast(v)
    return v[0] in ('s', 'old', 'older') and tagof(v) not in ('changed', 'seen')


def c21(P, R):
    """TraceConfigurator's methods are followed on all paths with the switches as atomics; the public configuration macros
    (also nested) are expanded around unknown user code which changes both switches arbitrarily and may throw, and followed
    through constructors and destructors; the values of both switches are compared inside and after the scope."""
    this = ('O', 'this', CFG)
    # the process switch: what getProcessStatePtr hands out
    m = Switch(P, R, None)
    E, outs, thr = run(P, R, m, method(P, 'getProcessStatePtr'), this=this, cls=CFG)
    fld = None
    for st, v in outs:
        if v is not None and v[0] == 'init':
            fs = fieldstep(v[1])
            fld = fs[2] if fs else None
    # set and get
    for n, k in (('setThreadState', 'T'), ('setProcessState', 'P')):
        f = method(P, n)
        w = '%s:%s' % (rel(f['file']), f['line'])
        m = Switch(P, R, fld)
        p = ('init', ('O', 'arg:' + f['p'][0]['n'], f['p'][0]['t']))
        E, outs, thr = run(P, R, m, f, this=this, cls=CFG, args=[p])
        R.ok(R_SET, w)
        for st, v in outs:
            loc = THR if k == 'T' else m.proc(st)
            ops = [o[2] for o in st.get('ops') or () if o[1] == k]
            other = [o for o in st.get('ops') or () if o[1] != k and o[2] != 'load']
            if other:
                R.bad(R_SET, w, '%s changes the other switch' % f['q'])
            if loc is None or st.read(loc) == ('init', loc):
                if fld is not None or k == 'T':
                    R.bad(R_SET, w, '%s does not change its switch' % f['q'])
                continue
            x = strip_cast(st.read(loc))
            if x != p and not unknown(x):
                R.bad(R_SET, w, '%s sets its switch to something else than asked' % f['q'])
            r = strip_cast(v) if v is not None else ('void',)
            if r == p or r[0] == 'c':
                R.bad(R_SET, w, '%s does not return the previous state' % f['q'])
            if 'rmw' not in ops and 'store' in ops:
                R.bad(R_SET, w, '%s reads and writes its switch in separate steps: a change made in between is lost or reported twice' % f['q'])
            elif r != ('init', loc) and not unknown(r) and r != p and r[0] != 'c':
                R.bad(R_SET, w, '%s does not return the previous state of its switch' % f['q'])
    for n, k in (('getThreadState', 'T'), ('getProcessState', 'P')):
        f = method(P, n)
        w = '%s:%s' % (rel(f['file']), f['line'])
        m = Switch(P, R, fld)
        E, outs, thr = run(P, R, m, f, this=this, cls=CFG)
        R.ok(R_GET, w)
        for st, v in outs:
            r = strip_cast(v)
            ops = {o[1] for o in st.get('ops') or ()}
            if r[0] == 'c' or r[0] == 'op' or r[0] == 'init' and (r[1] == THR) != (k == 'T') or ops and k not in ops:
                R.bad(R_GET, w, '%s does not return the state of its switch' % f['q'])
            if any(o[2] != 'load' for o in st.get('ops') or ()):
                R.bad(R_GET, w, '%s changes a switch' % f['q'])
    defaults(P, R, this, fld)
    scopes(P, R, fld)


def defaults(P, R, this, fld):
    for c in ctors(P, CFG):
        w = '%s:%s' % (rel(c['file']), c['line'])
        m = Switch(P, R, fld)
        E, outs, thr = run(P, R, m, c, this=this, cls=CFG)
        R.ok(R_DEF, w)
        for st, v in outs:
            if fld is None:
                continue
            x = st.read(('F', this, fld))
            b = st.read(x[1]) if x[0] == 'ptr' else x
            b = strip_cast(b)
            if b[0] == 'c' and b != C1:
                R.bad(R_DEF, w, 'the process switch starts disabled')
            elif b[0] in ('empty', 'nullptr') or x == C0 or x == ('empty',):
                R.bad(R_DEF, w, 'there is no process switch after construction')
    f = method(P, 'getThreadStatePtr')
    w = '%s:%s' % (rel(f['file']), f['line'])
    m = Switch(P, R, fld, own=False)
    E, outs, thr = run(P, R, m, f, this=this, cls=CFG)
    R.ok(R_DEF, w)
    R.ok(R_OWN, w)
    for st, v in outs:
        if v is None:
            continue
        if v == C0 or v == ('empty',):
            R.bad(R_OWN, w, '%s returns no switch on some path' % f['q'])
            continue
        if mentions(v, lambda t: len(t) == 4 and t[0] == 'S' and t[3] == 'static'):
            R.bad(R_OWN, w, 'all threads get the switch of the first one')
            continue
        if v[0] == 'ptr' and v[1][0] == 'O' and tagof(v[1][1]) == 'new':
            b = strip_cast(st.read(v[1]))
            if b[0] == 'c' and b != C1:
                R.bad(R_DEF, w, "a new thread's switch starts disabled")
            elif fld is not None and mentions(b, lambda t: isinstance(t, tuple) and t == ('F', this, fld) or len(t) == 2 and t[0] == 'init' and t[1] == THR):
                R.bad(R_DEF, w, "a new thread's switch starts as another switch happens to be")
            held = [k for k, x in st.mem.items() if x == v and (k[0] == 'F' and k[2] == SECOND or root(k) == this or k[0] == 'S')]
            if not held:
                R.bad(R_OWN, w, 'the new switch is not kept for the thread')
            for k in held:
                key(R, f, w, k)
        elif v[0] == 'init':
            key(R, f, w, v[1])


def key(R, f, w, loc):
    """The map entry a switch is kept in is that of the calling thread."""
    while loc[0] in PARTS:
        if loc[0] == 'K':
            if loc[2][0] in ('c', 'str') or not mentions(loc[2], lambda t: len(t) == 2 and t[0] == 'ret' and any(str(t[1]).endswith(x) for x in TIDS)) and loc[2][0] == 'init' and root(loc[2][1])[1] == 'this':
                R.bad(R_OWN, w, '%s looks up the switch under %s instead of the calling thread' % (f['q'], show(loc[2])))
            elif mentions(loc[2], lambda t: t[0] == 'ret' and len(t) == 2 and str(t[1]).endswith('getpid')):
                R.bad(R_OWN, w, '%s looks up the switch under the process id' % f['q'])
            return
        loc = loc[1]


def scopes(P, R, fld):
    lines = macro_lines()
    for fn, macro in (('macro_config_thread', 'TRACING_CONFIG_THREAD_STATE_RAII'), ('macro_config_process', 'TRACING_CONFIG_PROCESS_STATE_RAII'),
                      ('macro_config_nested', None)):
        f = next((f for l in P.defs.values() for f in l if f['q'] == 'verif_tu::' + fn), None)
        if f is None:
            raise AnalysisBroken('expansion of %s not found' % macro)
        w = '%s (%s)' % (lines.get(macro, 'scalopus_tracing/include/scalopus_tracing/trace_macro.h'), macro or 'nested scopes')
        m = Switch(P, R, fld, throws=True, own='scoped')
        ps = [('init', ('O', 'arg:' + p['n'], p['t'])) for p in f['p']]
        E, outs, thr = run(P, R, m, f, args=ps)
        T0 = ('init', THR)
        R.ok(R_IN, w)
        R.ok(R_OUT, w)
        R.ok(R_OTHER, w)
        for i, t, p, proc in m.users:
            wt, wp = {'macro_config_thread': (ps[0], None), 'macro_config_process': (T0, ps[0]),
                      'macro_config_nested': [(ps[-1], ps[0]), (ps[0], None)][min(i, 1)]}[fn]
            compare(R, R_IN if wt != T0 else R_OTHER, w, "the thread's switch", t, wt)
            if wp is not None:
                if p is None:
                    R.bad(R_IN, w, 'the process switch is not changed')
                else:
                    compare(R, R_IN, w, 'the process switch', p, wp)
            elif fn == 'macro_config_thread' and p is not None:
                compare(R, R_OTHER, w, 'the process switch', p, ('init', proc))
            elif fn == 'macro_config_nested' and p is not None:
                compare(R, R_OUT, w, 'the process switch', p, ('init', proc))
        for st, threw in [(s[0], False) for s in outs] + [(t[0], True) for t in thr if t[0].get('u')]:
            how = ' when left by an exception' if threw else ''
            proc = m.proc(st)
            if not threw and not st.get('u'):
                continue
            if fn == 'macro_config_process':
                if proc:
                    compare(R, R_OUT, w, 'after the scope' + how + ' the process switch', st.read(proc), ('init', proc))
                if tagof(strip_cast(st.read(THR))) != 'changed':
                    R.bad(R_OTHER, w, "after the scope%s the thread's switch has been changed" % how)
            else:
                compare(R, R_OUT, w, 'after the scope' + how + " the thread's switch", st.read(THR), T0)
                if fn == 'macro_config_thread' and proc and tagof(strip_cast(st.read(proc))) != 'changed' and st.read(proc) != ('init', proc):
                    R.bad(R_OTHER, w, 'after the scope%s the process switch has been changed' % how)


def compare(R, rule, w, what, v, want):
    v = strip_cast(v)
    if v == want or unknown(v):
        return
    if v[0] == 'op' and mentions(v, lambda t: t == want) and v[1] not in ('not', '!'):
        return
    R.bad(rule, w, '%s is %s instead of %s' % (what, name(v), name(want)))


def name(v):
    if v[0] == 'init' and v[1][0] == 'O' and str(v[1][1]).startswith('arg:'):
        return 'the value asked for'
    if v[0] == 'init':
        return 'the value it had before'
    if tagof(v) == 'changed':
        return 'left as it was changed inside'
    if tagof(v) == 'seen':
        return 'a value read earlier, which may have changed meanwhile,'
    return show(v)


CHECKS = {'C21': c21}
