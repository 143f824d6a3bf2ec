"""C10-C12: lockset race freedom."""
from ..lib import *
from .. import races


def in_dirs(P, *dirs, extra=()):
    def pick(a):
        cls = a[0].rsplit('::', 1)[0]
        if cls in extra:
            return True
        r = P.records.get(cls)
        if r is None:
            return a[0].startswith('(') and any(d in a[7] for d in dirs)
        return any(rel(r['file']).startswith(d) for d in dirs)
    return pick


def c10(P, R):
    """Every access to a member of a transport in every public method, thread body and stored callback is recorded with
    the locks held on that path and the thread phase (before start, running, joined).  Two accesses that can run at the
    same time, one of them a write, need a common lock of the same object, held exclusively by the writer."""
    races.check(P, R, in_dirs(P, 'scalopus_transport/', 'scalopus_interface/'))


def c11(P, R):
    """As C10, for the connection manager, the providers and the name registries; in addition accessors must not return
    references into state that is guarded by a lock."""
    races.check(P, R, in_dirs(P, 'scalopus_general/', extra={'scalopus::StaticStringTracker', 'scalopus::ScopeTracingProvider'}))


class Disabled(Monitor):
    """Calls through EventCallback::callback happen under its lock, after `active` was tested under that lock."""
    rule = 'a disabled callback is never invoked'
    throws = False
    seen = 0

    def after(self, E, st, fr, node, q, recv, args, res):
        if q in ('callback', 'indirect') and st is not None:
            f = res
            cand = [recv[1]] if recv is not None and recv[0] == '&' else []
            if f is not None and f[0] == 'init':
                cand.append(f[1])
            for l in cand:
                if l[0] == 'F' and l[2].endswith('EventCallback::callback'):
                    w, chain = where_chain(E, node, fr)
                    held = any(k[0] == 'F' and k[1] == l[1] for k, m, _ in st.locks)
                    self.report_to.ok(self.rule, w)
                    Disabled.seen += 1
                    if not held:
                        self.report_to.bad(self.rule, w, 'the callback is invoked without holding its own lock, so it can run '
                                           'after disable() returned', chain)
                    else:
                        act = [x['f'] for x in self.p.record(l[2].rsplit('::', 1)[0])['fields'] if x['t'] == 'bool']
                        cb = st.read(l)
                        ok = E.decide(st, ('op', '==', cb, C0)) is False
                        for a in act:
                            ok = ok or E.decide(st, st.read(('F', l[1], a))) is True
                        if not ok:
                            self.report_to.bad(self.rule, w, 'the callback is invoked without testing under its lock that it is '
                                               'still active', chain)
                    break
        return st


class Recorded(Monitor):
    """What the parser thread appends to through a callback is only touched while that callback is disabled."""
    rule = 'recorded events are only touched while the callback is off'
    wants_access = True
    throws = False

    def start(self, E, st, fr):
        self.this = fr.this
        return st

    def access(self, E, st, fr, node, loc, rw):
        l = loc
        while l[0] in PARTS and l[1] != self.this:
            l = l[1]
        if l[0] == 'F' and l[2] in self.fields:
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(self.rule, w)
            if not st.get('off'):
                s, v = st, None
                off = False
                for c in self.holders:
                    v = st.read(('F', self.this, c))
                    off = off or E.decide(st, ('op', '==', v, C0)) is True
                if not off:
                    self.report_to.bad(self.rule, w, '%s is used while the parser thread may still be adding events through the '
                                       'callback' % field_name(l[2]), chain)
        return st

    def enter(self, E, st, fr):
        if fr.fn['q'].endswith('EventCallback::disable'):
            return st.set('off', True)
        return st

    def after(self, E, st, fr, node, q, recv, args, res):
        return st

    def leave(self, E, st, fr, val):
        if fr.fn['q'].endswith('BabeltraceTool::addCallback'):
            return st.set('off', None)
        return st


def recorded(P, R):
    for f in library_functions(P):
        if f.get('cls') and f['kind'] in ('method', 'dtor') and f.get('access') == 'public':
            r = P.records.get(f['cls']) or {'fields': []}
            holders = [x['f'] for x in r['fields'] if x['t'].startswith('std::shared_ptr<scalopus::BabeltraceParser::EventCallback')]
            if not holders:
                continue
            fields = set()
            for o, lam, d in races.stored_lambdas(P):
                if enclosing_class(P, d) == f['cls']:
                    fields |= {n['f'] for n in walk(d) if n.get('k') == 'mem' and n.get('f')}
            if not fields:
                raise AnalysisBroken('the callback of %s records nothing' % f['cls'])
            mon = Recorded(P, R)
            mon.fields, mon.holders = fields, holders
            run(P, R, mon, f)


def c12(P, R):
    """As C10, for trace configuration, collectors, sources, parser and sessions.  The callback of a parser session is
    only invoked while holding that session's lock and after testing under it that the session is active.  The trace
    switches handed out are atomic."""
    races.check(P, R, in_dirs(P, 'scalopus_tracing/', 'scalopus_catapult/', extra={'scalopus::MapTracker'}))
    recorded(P, R)
    Disabled.seen = 0
    for f in P.fns('scalopus::BabeltraceParser::process'):
        run(P, R, Disabled(P, R), f)
    if not Disabled.seen:
        raise AnalysisBroken('the parser never invokes a callback')
    n = 0
    for f in P.methods('scalopus::TraceConfigurator'):
        if f['n'] in ('getProcessStatePtr', 'getThreadStatePtr'):
            n += 1
            t = f['rt']
            R.ok('trace switches are atomic', f['q'])
            if 'atomic' not in t and 'AtomicBool' not in t:
                R.bad('trace switches are atomic', f['q'], 'hands out a switch of type %s, which is not atomic' % t)
    if n < 2:
        raise AnalysisBroken('trace switch accessors not found')


CHECKS = {'C10': c10, 'C11': c11, 'C12': c12}
