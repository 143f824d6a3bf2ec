"""C17: the connection manager keeps one live transport per destination, or none."""
from ..lib import *
from ..terms import *
from ..models import content, SECOND, FIRST, proj

CONNECT = 'scalopus::TransportFactory::connect'
USED = (CONNECT, 'scalopus::Transport::isConnected', 'scalopus::Transport::addEndpoint', 'scalopus::Destination::hash_code')
R_ONCE = 'a destination that already has a transport is not connected to again'
R_LIVE = 'only transports that exist and are connected are kept'
R_SYNC = 'a transport and its endpoints are recorded and forgotten together'
R_DEAD = 'a disconnected transport is forgotten'
R_LIST = 'exactly the endpoints that were created are listed and attached'
R_REST = 'a destination that fails does not affect the others'
NODE = {'#': 0, 'l': 0, 't': '', 'k': 'none'}


def calls(n):
    return n['c'].get('q') if n.get('k') == 'call' and isinstance(n.get('c'), dict) else None


def managers(P):
    res = []
    for c, r in sorted(P.records.items()):
        if any(calls(n) == CONNECT for f in P.methods(c) for n in walk(f)) and library({'file': r.get('file') or ''}):
            tt = [(x['f'], x['t']) for x in r.get('fields') or []]
            # the destination table: a map with transports as values; the endpoint table: a map with transports as keys
            A = [f for f, t in tt if 'map<' in t and 'Transport' in t and not keyed_by_transport(t) and 'Endpoint' not in t]
            B = [f for f, t in tt if 'map<' in t and (keyed_by_transport(t) or 'TransportEndpoints' in t)]
            if A and B:
                res.append((c, A[0], B[0]))
    return res


def keyed_by_transport(t):
    i = t.find('map<')
    return 'Transport' in t[i + 4:].split(',')[0]


class Tables(Monitor):
    throws = True
    fresh_atomics = False
    exit_limit = 12
    head_limit = 24

    def __init__(self, P, R, cls, A, B):
        super().__init__(P, R)
        self.cls, self.A, self.B = cls, A, B
        self.seen = set()
        self._own = {}
        self._sk = {}

    # -- what is touched
    def table(self, st, recv):
        if recv is None or recv[0] != '&':
            return None
        l = recv[1]
        v = st.mem.get(l)
        if v is not None and v[0] == 'ref':
            l = v[1]
        if l[0] == 'F' and l[2] in (self.A, self.B):
            return 'A' if l[2] == self.A else 'B'
        return None

    def owns(self, node):
        k = (node.get('@'), node.get('#'))
        if k not in self._own:
            res = False
            for n in walk(node):
                if n.get('k') == 'mem' and n.get('f') == self.A or calls(n) == CONNECT:
                    res = True
                u = n['c'].get('usr') if n.get('k') == 'call' and isinstance(n.get('c'), dict) else None
                if u and self.p.definition(u) and touches(self.p, u, (self.A,), (), (CONNECT,)):
                    res = True
            self._own[k] = res
        return self._own[k]

    def check(self, E, st, fr, node, what):
        R = self.report_to
        w, chain = where_chain(E, node, fr) if fr is not None else (what, [])
        R.ok(R_SYNC, w)
        a, b = st.get('A'), st.get('B')
        if a == ('c', 2) and b is None and st.get('srchB') is not None:
            pass        # every transport has an entry; a search that finds none does not happen
        elif a != b:
            R.bad(R_SYNC, w, 'the table of transports was %s but the table of their endpoints was %s' % (
                {None: 'left unchanged', C1: 'extended', ('c', 2): 'reduced'}[a],
                {None: 'left unchanged', C1: 'extended', ('c', 2): 'reduced'}[b]), chain)
        if st.get('dead') is not None:
            R.ok(R_DEAD, w)
            if a != ('c', 2):
                R.bad(R_DEAD, w, 'a transport found disconnected stays in the table', chain)
        self.attached(E, st, fr, node, w, chain)

    def attached(self, E, st, fr, node, w, chain):
        if (st.get('att') is None) != (st.get('lst') is None):
            self.report_to.bad(R_LIST, w, 'an endpoint is %s' % ('attached to the transport but not listed' if st.get('lst') is None
                               else 'listed but not attached to its transport'), chain)

    def head(self, E, st, fr, node):
        if node.get('k') != 'rfor' and self.owns(node):
            self.check(E, st, fr, node, '')
            return st.set('A', None).set('B', None).set('dead', None).set('new', None).set('look', None).set('srchB', None).set('att', None).set('lst', None)
        return st

    def visit(self, E, st, fr, node, cont, elem):
        if node.get('k') == 'call':
            return st
        if self.owns(node):
            self.check(E, st, fr, node, '')
            return st.set('A', None).set('B', None).set('dead', None).set('new', None).set('look', None).set('srchB', None).set('att', None).set('lst', None)
        w, chain = where_chain(E, node, fr)
        self.attached(E, st, fr, node, w, chain)
        return st.set('att', None).set('lst', None)

    def done(self, E, st, fr, node, cont):
        if node.get('k') == 'call':
            return st
        w, chain = where_chain(E, node, fr)
        if self.owns(node):
            self.check(E, st, fr, node, '')
            return st.set('A', None).set('B', None).set('dead', None).set('new', None).set('look', None).set('srchB', None).set('att', None).set('lst', None)
        self.attached(E, st, fr, node, w, chain)
        return st.set('att', None).set('lst', None)

    def thrown(self, E, st, fr, node, types):
        return st.set('att', None).set('lst', None).set('exc', C1)

    # -- calls
    def call(self, E, st, fr, node, q, recv, args):
        R = self.report_to
        n = q.rsplit('::', 1)[-1]
        c = node.get('c') or {}
        if n == 'hash_code' and q.startswith(NS) and recv is not None:
            st, v = self.obj(E, st, recv, node, fr)
            return [(st, ('op', 'hash', v))]
        if q == CONNECT:
            w, chain = where_chain(E, node, fr)
            R.ok(R_ONCE, w)
            self.seen.add('connect')
            st, d = E.val(st, args[0], node, fr)
            d = ('D', d) if d[0] != 'ptr' else d[1]
            loc = ('F', ('O', 'this', self.cls), self.A)
            absent = None
            for key in self.keys(st, d):
                absent = E.decide(st, ('isend', ('it', loc, ('find', key), content(st, loc))))
                if absent is True:
                    break
            if absent is not True and (absent is False or st.get('look') is None):
                R.bad(R_ONCE, w, 'a connection is made although %s' % ('the destination has a transport already' if absent is False else
                      'nothing has shown that the destination has no transport yet'), chain)
            E.maythrow(st, node, fr, '?')
            st, f = E.fresh(st, fr, node, ('newt',))
            return [(st, f)]
        if n == 'isConnected' and q.startswith(NS) and recv is not None:
            st, v = self.obj(E, st, recv, node, fr)
            if tag(self.strip(v)) == ('newt',):
                return [(st.set('conn', C1), C1), (st.set('conn', None), C0)]
            self.seen.add('alive')
            return [(st, C1), (st.set('dead', (self.strip(v),)), C0)]
        if n == 'addEndpoint' and q.startswith(NS) and args:
            st, v = E.val(st, args[0], node, fr)
            w, chain = where_chain(E, node, fr)
            if tag(v) == ('newep',):
                R.ok(R_LIST, w)
                if E.decide(st, ('op', '==', v, C0)) is not False:
                    R.bad(R_LIST, w, 'an endpoint that may not exist is attached', chain)
                st2, t = self.obj(E, st, recv, node, fr)
                t = self.strip(t)
                if st.get('lst') is not None and tag(t) == ('newt',) and st.get('owner') is not None and st.get('owner') != t:
                    pass
                st = st.set('att', C1)
            return [(st, ('void',))]
        if q.startswith('std::function') and n == 'operator()' and 'Endpoint' in c.get('rt', ''):
            self.seen.add('factory')
            E.maythrow(st, node, fr, '?')
            st, f = E.fresh(st, fr, node, ('newep',))
            return [(st.set('att', None).set('lst', None), f)]
        if c.get('usr') and (c.get('repo') or c.get('repodecl')) and not node.get('fnexpr'):
            u = c['usr']
            if u not in self._sk:
                d = self.p.definition(u)
                self._sk[u] = (touches(self.p, u, (self.A, self.B), (), USED) if d is not None else False,
                               d is not None and any(calls(x) == 'scalopus::Transport::request' for g in callees(self.p, d) for x in walk(g)) or q.endswith('::discover'))
            t, req = self._sk[u]
            if not t:
                if req:
                    E.maythrow(st, node, fr, '?')
                return E.opaque_repo(node, c, recv, args, st, fr)
        if q == 'std::find_if' and st.get('dead') is not None and len(args) > 2:
            self.search(E, st, fr, node, args)
        t = self.table(st, recv)
        if t == 'A' and n == 'erase' and args and st.get('dead') is not None:
            self.right_one(E, st, fr, node, args)
        if t == 'A' and n in ('begin', 'cbegin', 'lower_bound', 'equal_range'):
            return None
        return None

    def search(self, E, st, fr, node, args):
        """Does the predicate find the entry of the dead transport, and only that?"""
        st, it = E.val(st, args[0], node, fr)
        st, lam = E.val(st, args[2], node, fr)
        if it[0] != 'it' or not has_field(it[1], self.B) or lam[0] != 'lam':
            return
        el = ('E', it[1], ('chk', fr.id, node['#']))
        got = []
        for s, v in E.call_value(lam, node, [], [('&', el)], st, fr):
            s, v = E.val(s, v, node, fr)
            s, k = E.val(s, ('&', ('F', el, 'std::pair::first')), node, fr)
            for tv in (True, False):
                t = E.assume(s, v, tv)
                if t is not None:
                    got.append((tv, max([E.decide(t, ('op', '==', a, b)) for a in {k, self.strip(k)} for b in (st.get('dead')[0], ('D', st.get('dead')[0]))],
                                        key=lambda x: x is not None)))
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        R.ok(R_SYNC, w)
        if (any(e == tv for tv, e in got) and any(e != tv for tv, e in got)) or any(e is not None and e != tv for tv, e in got):
            R.bad(R_SYNC, w, 'the endpoints of a dead transport are searched for with a condition that can miss them or find others', chain)

    def right_one(self, E, st, fr, node, args):
        st, a = E.val(st, args[0], node, fr)
        d = st.get('dead')[0]
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        R.ok(R_DEAD, w)
        mine = set(syms(d))
        if a[0] == 'it':
            wrong = a[2] == ('begin',) and not mentions(d, lambda x: x == ('begin',))
            if a[2][0] == 'find':
                wrong = bool(syms(a[2][1])) and not mine & set(syms(a[2][1]))
        else:
            wrong = bool(syms(a)) and not mine & set(syms(a))
        if wrong and mine:
            R.bad(R_DEAD, w, 'another transport is forgotten than the one that was found disconnected', chain)

    def broke(self, E, st, fr, node, cont):
        if st.get('dead') is not None and any(calls(x) == 'scalopus::Transport::isConnected' for x in walk(node)) \
                and not any(calls(x) == CONNECT for x in walk(node)):
            w, chain = where_chain(E, node, fr)
            self.report_to.bad(R_DEAD, w, 'after one disconnected transport was found the others are not looked at', chain)
        return st

    def obj(self, E, st, recv, node, fr):
        if recv[0] == '&':
            l = recv[1]
            if l[0] == 'D':
                return st, l
            v = st.read(l)
            return st, v if v[0] != 'ref' else v[1]
        return st, ('D', recv) if recv[0] != 'ptr' else recv[1]

    def strip(self, v):
        return v[1] if v[0] == 'D' else v

    def keys(self, st, d):
        yield ('op', 'hash', d)

    def after(self, E, st, fr, node, q, recv, args, res):
        n = q.rsplit('::', 1)[-1]
        t = self.table(st, recv)
        if t is None and n in ('insert', 'emplace', 'try_emplace') and recv is not None and recv[0] == '&' and has_field(recv[1], self.B):
            # an entry that is already there is kept: the peer named the endpoint twice
            for a in args:
                _, v = E.val(st, a, node, fr)
                if v[0] == 'rec':
                    v = proj(v, ('F', SECOND))
                if tag(v) == ('newep',):
                    st = st.set('lst', C1)
        if t is not None:
            if n in ('operator[]', 'insert', 'emplace', 'try_emplace', 'insert_or_assign'):
                if n != 'operator[]' or not (st.get('has' + t) is not None):
                    pass
                st = self.note(st, t, C1)
            elif n in ('erase', 'extract'):
                st = self.note(st, t, ('c', 2))
            elif n == 'clear':
                st = self.note(st, t, ('c', 2))
            elif t == 'A' and n in ('begin', 'cbegin'):
                st = st.set('look', C1)
            elif t == 'B' and n in ('begin', 'cbegin', 'find'):
                st = st.set('srchB', C1)
        return st

    def note(self, st, t, what):
        o = 'B' if t == 'A' else 'A'
        cur = st.get(t)
        if what == C1:
            return st.set(t, C1).set('new', C1)
        if cur == C1:
            return st.set(t, None)
        if st.get('new') is not None:
            return st          # the transport is new and this table did not have it
        return st.set(t, ('c', 2))

    def write(self, E, st, fr, node, loc, v):
        while loc[0] == 'F' and loc[2] == SECOND:
            loc = loc[1]
        if loc[0] != 'K':
            return st
        R = self.report_to
        w, chain = where_chain(E, node, fr)
        c = loc[1]
        if c[0] == 'F' and c[2] == self.A:
            if tag(v) == ('newt',):
                R.ok(R_LIVE, w)
                if E.decide(st, ('op', '==', v, C0)) is not False:
                    R.bad(R_LIVE, w, 'a transport that may not exist is recorded', chain)
                elif st.get('conn') is None:
                    R.bad(R_LIVE, w, 'a transport is recorded without having checked that it is connected', chain)
            st = self.note(st, 'A', C1)
        elif c[0] == 'F' and c[2] == self.B:
            st = self.note(st, 'B', C1)
        elif c[0] in ('K', 'E', 'F', 'I') and has_field(c, self.B) and tag(v) == ('newep',):
            R.ok(R_LIST, w)
            if E.decide(st, ('op', '==', v, C0)) is not False:
                R.bad(R_LIST, w, 'an endpoint that may not exist is listed', chain)
            if c[0] == 'K' and tag(c[2]) and tag(c[2]) != ('newt',):
                R.bad(R_LIST, w, 'an endpoint is listed under another transport than it was made for', chain)
            st = st.set('lst', C1)
        return st


def c17(P, R):
    """Every public operation of the connection manager is followed on all paths, including those on which a factory, a query
    or discovery raises: before connecting, the destination's code was looked up and absent; a transport is recorded only
    if not null and connected; after each destination, each cleaned-up transport and at each exit the two tables changed
    alike; a transport seen disconnected is gone afterwards; created endpoints are listed and attached, null ones neither;
    no exception from one destination leaves the loop over the destinations."""
    ms = managers(P)
    if not ms:
        raise AnalysisBroken('no class that connects to destinations and keeps tables of transports')
    seen = set()
    for cls, A, B in ms:
        for f in public_methods(P, cls):
            if f.get('body') is None or not any(n.get('k') == 'mem' and n.get('f') in (A, B) for g in callees(P, f) for n in walk(g)):
                continue
            m = Tables(P, R, cls, A, B)
            E, outs, thr = run(P, R, m, f, this=('O', 'this', cls), cls=cls)
            w = '%s:%s' % (rel(f['file']), f['line'])
            for st, v in outs:
                m.check(E, st, None, None, w)
            loop = any(calls(x) == 'scalopus::TransportFactory::discover' for x in walk(f))
            if loop:
                R.ok(R_REST, w)
            for st, t in thr:
                m.check(E, st, None, None, w)
                if loop and 'connect' in m.seen and st.get('new') is not None:
                    org = [x[1] for x in t if isinstance(x, tuple)]
                    R.bad(R_REST, org[0] if org else w, 'an exception raised while setting up one destination leaves %s: the other destinations '
                          'are not handled' % f['q'])
            seen |= m.seen
    if 'connect' not in seen or 'alive' not in seen or 'factory' not in seen:
        raise AnalysisBroken('connecting, checking for life or creating endpoints was not found')


CHECKS = {'C17': c17}
