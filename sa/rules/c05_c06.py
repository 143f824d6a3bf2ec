"""C05: no exception escapes a worker; request bytes are bounds-checked.  C06: nullable results are tested."""
from ..lib import *
from ..models import size_of, content, CONTAINERS


class Throw(Monitor):
    throws = True
    prove = True


class Bytes(Monitor):
    """Reads of the received bytes in endpoint handlers stay inside them."""
    throws = False
    prove = True
    rule = 'request bytes are only read where they exist'

    def start(self, E, st, fr):
        self.data = set()
        for p in fr.fn['p']:
            if 'vector<unsigned char>' in p['t'] and p['t'].startswith('const '):
                self.data.add(('O', 'arg:' + p['n'], p['t'].replace('const ', '').rstrip(' &')))
        return st

    def check(self, E, st, fr, node, C, idx, extra=0):
        sz = size_of(content(st, C), C)
        w, chain = where_chain(E, node, fr)
        if E.prove_le(st, idx, sz, -1 + extra) or (E.decide_atom(st, ('op', '==', sz, C0)) is False and idx == C0 and extra == 0):
            self.report_to.ok(self.rule, w)
        else:
            self.report_to.bad(self.rule, w, 'byte %s of a received message is read without checking that the message is '
                               'that long' % show(idx), chain)

    def call(self, E, st, fr, node, q, recv, args):
        if q.startswith('std::vector::') and recv is not None and recv[0] == '&' and recv[1] in self.data:
            nm = q.rsplit('::', 1)[1]
            if nm == 'operator[]':
                s, i = E.val(st, args[0], node, fr)
                self.check(E, st, fr, node, recv[1], i)
            elif nm in ('front', 'back'):
                self.check(E, st, fr, node, recv[1], C0)
        if q in ('memcpy', 'std::memcpy', 'memmove', 'std::copy_n') and len(args) >= 3:
            s, src = E.val(st, args[1], node, fr)
            s, n = E.val(s, args[2], node, fr)
            if src[0] == 'ptr' and src[1][0] == 'I' and src[1][1] in self.data:
                end = E.arith('+', src[1][2], n)
                self.check(E, st, fr, node, src[1][1], end, extra=1)
        return None

    def deref(self, E, st, fr, node, v):
        if v[0] == 'it' and v[1] in self.data and v[2][0] in ('begin', 'nth'):
            d = E.decide(st, ('isend', v))
            if d is None and v[2][0] == 'begin':
                self.check(E, st, fr, node, v[1], C0)
            elif d is True:
                self.check(E, st, fr, node, v[1], C0)
        if v[0] == 'ptr' and v[1][0] == 'I' and v[1][1] in self.data:
            self.check(E, st, fr, node, v[1][1], v[1][2])
        return st


def c05(P, R):
    """Every body of a thread and every web server callback: each call that can throw (endpoint handlers, factories,
    JSON/CBOR decoding, string and container accesses not proven in range, future::get) lies inside handlers that stop the
    exception before the body ends.  In endpoint handlers each index into the received bytes is below their size by the
    branch conditions taken."""
    entries = []
    for f, lam, d in thread_lambdas(P):
        entries.append((d, 'thread started in ' + f['q']))
    # callbacks that the web server runs on its own thread
    for r in P.records.values():
        bs = r.get('allbases') or []
        for base in ('seasocks::WebSocket::Handler', 'seasocks::PageHandler'):
            if any(str(b).startswith(base) for b in bs) or any(base in str(b) for b in r.get('bases') or []):
                for f in P.methods(r['q']):
                    if f['kind'] == 'method' and library(f) and (f.get('virt') or f.get('over')):
                        entries.append((f, 'web server callback ' + f['q']))
    if len(entries) < 6:
        raise AnalysisBroken('only %d worker entry points found' % len(entries))
    for d, what in entries:
        mon = Throw(P, R)
        E, outs, thr = run(P, R, mon, d)
        R.ok('no exception leaves a worker thread', '%s (%s:%s)' % (what, rel(d['file']), d['line']))
        for st, types in thr:
            org = [t[1] for t in types if isinstance(t, tuple)]
            R.bad('no exception leaves a worker thread', org[0] if org else '?',
                  'an exception (%s) raised here escapes the %s' % (types[0] if types[0] != '?' else 'of any type', what))
    for f in library_functions(P):
        if f['n'] in ('handle', 'unsolicited') and f.get('cls') and P.is_a(f['cls'], 'scalopus::Endpoint'):
            run(P, R, Bytes(P, R), f)


NULLABLE_RET = {
    'scalopus::TransportFactory::connect', 'scalopus::TransportFactory::serve', 'scalopus::Endpoint::getTransport',
}


class Null(Monitor):
    fresh_atomics = False
    throws = True
    rule = 'a result that can be empty is tested before use'
    setup = ()      # members assigned by the function that starts the thread under analysis

    def nullable(self, v):
        t = tag(v)
        if t:
            if t[0] in ('weaklock', 'dyncast'):
                return 'the result of %s' % ('locking a weak pointer' if t[0] == 'weaklock' else 'a downcast')
            if t[0] == 'ret' and len(t) > 1:
                if t[1] in NULLABLE_RET:
                    return 'the result of %s' % t[1]
                if t[1] == 'std::function::operator()':
                    return 'the result of a factory function'
        if v[0] == 'init' and v[1][0] == 'F' and v[1][1][0] in ('O', 'D') and v[1][2] in self.maybe_null() \
                and v[1][2] not in self.setup:
            return 'member ' + field_name(v[1][2])
        return None

    def maybe_null(self):
        P = self.p
        if not hasattr(P, '_maybe_null'):
            s = set()
            for r in P.records.values():
                for f in r['fields']:
                    t = f['t'].replace('const ', '')
                    if not ('_ptr<' in t or t.endswith('*')) or t.startswith('std::weak_ptr') and False:
                        continue
                    if t.startswith(('std::vector', 'std::map', 'std::set', 'std::list', 'std::unordered', 'std::function',
                                     'std::pair', 'std::tuple', 'std::weak_ptr')):
                        continue
                    ctors = [m for m in P.methods(r['q']) if m['kind'] == 'ctor' and not m.get('copymove')]
                    given = False
                    for c in ctors:
                        for i in c.get('inits') or []:
                            if i.get('f') == f['f'] and i.get('written') and i.get('e') is not None and i['e'].get('k') != 'null':
                                e = i['e']
                                given = given or not (e.get('k') == 'ctor' and not e.get('a'))
                        for n in walk(c.get('body') or {}):
                            if n.get('k') == 'mem' and n.get('f') == f['f']:
                                given = True
                    ie = f.get('inite')
                    if ie is not None and any(x.get('k') in ('call', 'new') for x in walk(ie)):
                        given = True
                    if r['q'].startswith('subprocess::') or r.get('file') and not r['file'].startswith(rel_root()):
                        continue
                    if not given and ctors:
                        s.add(f['f'])
            P._maybe_null = s
        return P._maybe_null

    def deref(self, E, st, fr, node, v):
        w, chain = where_chain(E, node, fr)
        if v == C0 or (v[0] == 'default' and ('_ptr<' in v[1] or v[1].endswith('*'))):
            self.report_to.bad(self.rule, w, 'an empty pointer is dereferenced on a path that reaches this use', chain)
            return None
        if v[0] == 'it':
            if v[2][0] in ('find',):
                d = E.decide(st, ('isend', v))
                if d is not False:
                    self.report_to.bad(self.rule, w, 'the result of searching %s is used without comparing it to end()'
                                       % show(v[1]), chain)
                    return None
                self.report_to.ok(self.rule, w)
            elif v[2] == ('end',):
                self.report_to.bad(self.rule, w, 'end() of %s is dereferenced on a path that reaches this use' % show(v[1]), chain)
                return None
            elif E.decide(st, ('isend', v)) is True:
                self.report_to.bad(self.rule, w, 'an iterator equal to end() of %s is dereferenced' % show(v[1]), chain)
                return None
            return st
        why = self.nullable(v)
        if why:
            if E.decide(st, ('op', '==', v, C0)) is not False:
                self.report_to.bad(self.rule, w, '%s is used without testing that it is not empty' % why, chain)
                return None
            self.report_to.ok(self.rule, w)
        elif E.decide(st, ('op', '==', v, C0)) is True:
            self.report_to.bad(self.rule, w, 'a pointer known to be empty is dereferenced', chain)
            return None
        return st


def c06(P, R):
    """Every dereference in every library function and thread body: a value that stems from a lookup that can come back
    empty (weak_ptr::lock, dynamic_pointer_cast, a map search, a factory, a member never given a value by the
    constructors) must be known non-empty from the branches taken on every path that reaches the use."""
    for f in library_functions(P):
        if f.get('implicit') or f['q'].startswith('subprocess::'):
            continue
        run(P, R, Null(P, R), f)
    for f, lam, d in thread_lambdas(P):
        mon = Null(P, R)
        mon.setup = {n['f'] for g in callees(P, f) for n in walk(g) if n.get('k') == 'mem' and n.get('f')}
        run(P, R, mon, d)


CHECKS = {'C05': c05, 'C06': c06}
