"""C07: broadcasts are queued in order, taken once and handed to every connected client."""
from ..wire import *
from ..models import size_of, content

BASE = 'scalopus::Transport'
HAVE = 'scalopus::Transport::haveBroadcast'
GETEP = 'scalopus::Transport::getEndpoint'


class Queue(Monitor):
    """broadcast() and popBroadcast(): which end of which member is used."""
    throws = False
    prove = True

    def __init__(self, P, R):
        super().__init__(P, R)
        self.this = ('O', 'this', BASE)

    def mine(self, recv):
        return recv is not None and recv[0] == '&' and recv[1][0] in PARTS and root(recv[1])[:2] == ('O', 'this')

    def after(self, E, st, fr, node, q, recv, args, res):
        if not self.mine(recv):
            return st
        nm = q.rsplit('::', 1)[-1]
        end = None
        if nm in ('push_back', 'emplace_back', 'push'):
            end = 'back'
        elif nm in ('push_front', 'emplace_front'):
            end = 'front'
        elif nm in ('insert', 'emplace') and args:
            a = E.val(st, args[0], node, fr)[1]
            if a[0] == 'it':
                end = {'begin': 'front', 'end': 'back'}.get(a[2][0])
        if end:
            return st.set('add', st.get('add', ()) + ((end, ('loc', recv[1])),))
        if nm in ('front', 'back'):
            return st.set('read', (nm, ('loc', recv[1])))
        if nm in ('pop_back', 'pop_front', 'pop'):
            return st.set('del', st.get('del', ()) + (({'pop_back': 'back'}.get(nm, 'front'), ('loc', recv[1])),))
        if nm == 'erase' and args:
            a = E.val(st, args[0], node, fr)[1]
            e = {'begin': 'front'}.get(a[2][0]) if a[0] == 'it' else None
            if a[0] == 'it' and a[2][0] == 'rf' or a[0] == 'op':
                e = 'back'
            return st.set('del', st.get('del', ()) + ((e or '?', ('loc', recv[1])),))
        if nm == 'clear':
            return st.set('cleared', C1)
        return st

    def deref(self, E, st, fr, node, v):
        if v[0] == 'it' and v[1][0] in PARTS and root(v[1])[:2] == ('O', 'this'):
            if v[2][0] == 'begin':
                return st.set('read', ('front', ('loc', v[1])))
            if v[2][0] in ('rbegin',):
                return st.set('read', ('back', ('loc', v[1])))
        return st


def method(P, cls, name):
    l = [f for f in P.methods(cls) if f['n'] == name and f.get('body') is not None]
    if not l:
        raise AnalysisBroken('%s::%s no longer exists' % (cls, name))
    return l[0]


def queue_rules(P, R):
    f = method(P, BASE, 'broadcast')
    where = '%s:%s' % (rel(f['file']), f['line'])
    mon = Queue(P, R)
    E, outs, thr = run(P, R, mon, f, this=mon.this, cls=BASE)
    rule = 'every broadcast is queued once'
    adds = set()
    params = [('init', ('O', 'arg:' + p['n'], p['t'].replace('const ', '').rstrip(' &'))) for p in f['p']]
    for st, v in outs:
        R.ok(rule, where)
        a = st.get('add', ())
        if len(a) != 1:
            R.bad(rule, where, 'a broadcast is %s on some path' % ('not queued' if not a else 'queued more than once'))
            continue
        adds.add((a[0][0], a[0][1][1]))
        if any(d[1] == a[0][1] for d in st.get('del', ())) or st.get('cleared') is not None:
            R.bad(rule, where, 'queueing a broadcast can throw away another one that was not delivered yet')
        C = a[0][1][1]
        e = None
        for k, x in st.mem.items():
            if k[0] == 'E' and k[1] == C and k[2] == ('back',):
                e = x
        if e is not None and e[0] == 'rec':
            parts = [x for s, x in e[2]]
            if all(x[0] in ('init', 'str', 'c', 'empty', 'default') for x in parts):
                for p, x in zip(params, parts):
                    if x != p:
                        R.bad(rule, where, 'the queue gets %s instead of %s' % (show(x), show(p)))
    f = method(P, BASE, 'popBroadcast')
    wp = '%s:%s' % (rel(f['file']), f['line'])
    mon = Queue(P, R)
    E, outs, thr = run(P, R, mon, f, this=mon.this, cls=BASE)
    rule = 'a broadcast is taken from the queue exactly once, oldest first'
    for st, v in outs:
        R.ok(rule, wp)
        d = st.get('del', ())
        r = st.get('read')
        if st.get('cleared') is not None:
            R.bad(rule, wp, 'taking one broadcast empties the queue')
            continue
        if len(d) != 1:
            if r is not None or d:
                R.bad(rule, wp, 'a broadcast that is taken is %s the queue' % ('not removed from' if not d else 'removed together with others from'))
            continue
        if r is not None and d[0][0] != '?' and r[0] != d[0][0]:
            R.bad(rule, wp, 'the %s broadcast is returned but the one at the %s is removed' % (r[0], d[0][0]))
        for end, loc in adds:
            if loc == d[0][1][1] and d[0][0] == end:
                R.bad(rule, wp, 'broadcasts are taken from the end they are added to: later ones overtake earlier ones')
            elif loc != d[0][1][1]:
                R.bad(rule, wp, 'broadcasts are taken from %s but queued in %s' % (show(d[0][1][1]), show(loc)))
    g = method(P, BASE, 'haveBroadcast')
    wg = '%s:%s' % (rel(g['file']), g['line'])
    rule = 'a queued broadcast is noticed'
    for end, loc in adds:
        class M(Monitor):
            throws = False
            prove = True
        E, outs, thr = run(P, R, M(P, R), g, this=mon.this, cls=BASE)
        for st, v in outs:
            R.ok(rule, wg)
            z = size_of(content(st, loc), loc)
            for tv in (True, False):
                s = E.assume(st, v, tv)
                if s is None:
                    continue
                e = E.decide(s, ('op', '==', z, C0))
                if tv and e is not False:
                    R.bad(rule, wg, 'the queue can be reported as having broadcasts while it is empty')
                if not tv and e is not True:
                    R.bad(rule, wg, 'the queue can be reported as empty while it holds broadcasts')
    return adds


class Deliver(Wired):
    """The worker of a transport: from taking a broadcast to the next round."""
    head_limit = 12

    def __init__(self, P, R, W, cls, listen_in, lfields, ccont=()):
        super().__init__(P, R, W)
        self.cls, self.listen_in, self.lfields = cls, listen_in, lfields
        self.npop = self.nsend = 0
        self.throws = cls not in W.classes

    R1 = 'each broadcast is handed to every connected client once'
    R2 = 'broadcasts are passed on unchanged'
    R3 = 'broadcasts are never written to the listening socket'
    R4 = 'a broadcast is only taken when there is one'
    R5 = 'broadcasts cannot resolve requests'

    def clear(self, st):
        for k in ('bc', 'el', 'sentel', 'skip', 'all', 'dlv', 'left', 'ep', 'cl'):
            st = st.set(k, None)
        return st

    def close(self, E, st, fr, node):
        """The broadcast taken last is done."""
        bc = st.get('bc')
        if bc is None:
            return st
        st = self.element_done(E, st)
        w = bc[2][1]
        self.report_to.ok(self.R1, w)
        if st.get('all') is None and not (st.get('dlv') is not None and st.get('left') is None and st.get('looped') is None):
            self.report_to.bad(self.R1, w, 'a path takes a broadcast from the queue and leaves without going through all clients')
        return self.clear(st).set('looped', None)

    def element_done(self, E, st):
        if st.get('el') is None or st.get('bc') is None:
            return st
        if st.get('sentel') is None and st.get('skip') is None:
            self.report_to.bad(self.R1, st.get('bc')[2][1], 'a connected client is passed over for no reason that excuses it')
        return st.set('el', None).set('sentel', None).set('skip', None).set('ep', None).set('cl', None)

    def other(self, E, st, fr, node, q, recv, args):
        if q == POP:
            st = self.close(E, st, fr, node)
            self.npop += 1
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(self.R4, w)
            if st.get('have') is None:
                self.report_to.bad(self.R4, w, 'a broadcast is taken from the queue without knowing that there is one', chain)
            st, a = E.fresh(st, fr, dict(node, **{'#': (node['#'], 'n')}), ('bc', 'name'))
            st, b = E.fresh(st, fr, dict(node, **{'#': (node['#'], 'd')}), ('bc', 'data'))
            v = ('rec', ('default', 'std::pair'), (((('F', 'std::pair::first'),), a), ((('F', 'std::pair::second'),), b)))
            return [(st.set('bc', (a, b, ('w', w))).set('have', None), v)]
        if q == HAVE:
            # asking again ends the previous broadcast
            st = self.close(E, st, fr, node)
            return [(st.set('have', C1), C1), (st.set('have', None), C0)]
        if q == UNSOL and st.get('bc') is not None:
            w, chain = where_chain(E, node, fr)
            self.nsend += 1
            self.report_to.ok(self.R2, w)
            d = st.read(args[1][1]) if args[1] is not None and args[1][0] == '&' else None
            if d is not None and d != st.get('bc')[1]:
                self.report_to.bad(self.R2, w, 'the client gets %s instead of the payload of the broadcast' % show(d), chain)
            if st.get('sentel') is not None:
                self.report_to.bad(self.R1, w, 'one client gets the same broadcast twice', chain)
            st = st.set('sentel', C1).set('dlv', C1)
            return E.opaque_repo(node, node['c'], recv, args, st, fr)
        if q == HANDLE:
            return E.opaque_repo(node, node['c'], recv, args, st, fr)
        if q == GETEP and st.get('bc') is not None:
            k = E.val(st, args[0], node, fr)[1] if args else None
            if args and args[0] is not None and args[0][0] == '&':
                k = st.read(args[0][1])
            w, chain = where_chain(E, node, fr)
            if st.get('el') is not None and st.get('sentel') is None:
                self.report_to.ok(self.R2, w)
                if k is not None and k != st.get('bc')[0]:
                    self.report_to.bad(self.R2, w, 'the endpoint is looked up by %s instead of the name of the broadcast' % show(k), chain)
            st, r = E.fresh(st, fr, node, ('epget', q))
            if st.get('sentel') is None:
                st = st.set('ep', r)
            return [(st, r)]
        return None

    def after(self, E, st, fr, node, q, recv, args, res):
        if q in ('std::weak_ptr::lock', 'std::__weak_ptr::lock') and st.get('el') is not None and st.get('cl') is None:
            return st.set('cl', res)
        if q in ('std::this_thread::sleep_for', 'std::condition_variable::wait_for', 'std::condition_variable::wait'):
            return self.close(E, st, fr, node)
        return st

    def assumed(self, E, st, fr, node, atom, truth):
        if st.get('bc') is None or st.get('el') is None:
            return st
        if atom[1] == '==' and atom[3] == C0 and truth and (atom[2] == st.get('cl') or atom[2] == st.get('ep')
                                                            or tag(atom[2])[:1] == ('weaklock',)):
            return st.set('skip', C1)
        if atom[1] == '==' and truth and self.is_listen(st, atom[2], atom[3]):
            return st.set('skip', C1)
        if tag(atom[2])[:1] == ('expired',) and atom[1] == '==' and not truth:
            return st.set('skip', C1)
        return st

    def is_listen(self, st, a, b):
        for f in self.lfields:
            v = st.read(('F', ('O', 'this', self.cls), f))
            if a == v or b == v:
                return True
        return False

    def relevant(self, st, cont):
        return st.get('bc') is not None

    def visit(self, E, st, fr, node, cont, elem):
        if not self.relevant(st, cont) or st.get('el') is not None and st.get('elc') not in (None, ('loc', cont)):
            return st
        v = st.read(elem)
        if not self.client_like(cont, v, elem):
            return st
        if st.get('all') is not None and st.get('el') is None:
            return st                          # the broadcast has been to everyone
        st = self.element_done(E, st)
        return st.set('el', C1).set('elc', ('loc', cont)).set('looped', C1)

    def client_like(self, cont, v, elem):
        """Strings and bytes are not clients."""
        t = str(cont)
        return not (('bc', 'data') in self.tags(cont) or ('bc', 'name') in self.tags(cont))

    def tags(self, t):
        return [tag(s) for s in syms(t)]

    def done(self, E, st, fr, node, cont):
        if st.get('bc') is None:
            return st
        if st.get('elc') is not None and st.get('elc') != ('loc', cont) and st.get('el') is not None:
            return st
        if not self.client_like(cont, None, None):
            return st
        st = self.element_done(E, st)
        return st.set('all', C1).set('elc', None).set('looped', C1)

    def broke(self, E, st, fr, node, cont):
        if st.get('bc') is not None and st.get('elc') == ('loc', cont):
            return st.set('left', C1)
        return st

    def sent(self, E, st, fr, node, fd, parts, ok):
        bc = st.get('bc')
        if bc is None or parts is None:
            return st
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        self.nsend += 1
        mid, name, data = parts
        for r in (self.R2, self.R3, self.R5):
            R.ok(r, w)
        if name != bc[0]:
            R.bad(self.R2, w, 'the broadcast is sent to %s instead of the endpoint it was queued for' % show(name), chain)
        if data != bc[1]:
            R.bad(self.R2, w, 'the broadcast is sent with %s instead of its payload' % show(data), chain)
        if mid != C0:
            R.bad(self.R5, w, 'a broadcast is sent with the number %s, which a client can mistake for a reply' % show(mid), chain)
        if st.get('elc') is not None and any(mentions(st.get('elc'), lambda x: x[0] == 'F' and len(x) == 3 and x[2] == c)
                                            or self.copied_from(st, st.get('elc')[1], c) for c in self.listen_in):
            for f in self.lfields:
                lf = st.read(('F', ('O', 'this', self.cls), f))
                if E.decide(st, ('op', '==', fd, lf)) is not False and E.decide(st, ('op', '==', lf, fd)) is not False:
                    R.bad(self.R3, w, 'a broadcast can be written to the listening socket', chain)
        if st.get('sentel') is not None or st.get('all') is not None and name == bc[0]:
            R.bad(self.R1, w, 'one client gets the same broadcast twice', chain)
        return st.set('sentel', C1).set('dlv', C1)

    def copied_from(self, st, cont, field):
        v = st.base(cont)
        return mentions(v, lambda x: x[0] == 'F' and len(x) == 3 and x[2] == field)

    def turn(self, E, st, fr, node):
        return self.close(E, st, fr, node)


class Listening(Monitor):
    """Which members hold the descriptor that is listened on, and which containers it is put into."""
    throws = False

    def __init__(self, P, R):
        super().__init__(P, R)
        self.fds, self.conts = set(), set()

    def after(self, E, st, fr, node, q, recv, args, res):
        nm = q.rsplit('::', 1)[-1]
        if q == 'listen':
            st, v = E.val(st, args[0], node, fr)
            return st.set('lfd', v)
        if nm in ('insert', 'emplace', 'push_back', 'emplace_back') and recv is not None and recv[0] == '&' and recv[1][0] == 'F':
            st, v = E.val(st, args[-1], node, fr)
            return st.set(('ins', recv[1][2]), v)
        return st


def listening(P, R, cls):
    fds, conts = set(), set()
    for f in P.methods(cls):
        if f['kind'] == 'method' and f.get('body') is not None and f.get('access') == 'public':
            if not any('listen' in posix_calls(g) for g in callees(P, f)):
                continue
            mon = Listening(P, R)
            this = ('O', 'this', cls)
            E, outs, thr = run(P, R, mon, f, this=this, cls=cls)
            for st, v in outs:
                l = st.get('lfd')
                if l is None or E.decide(st, v) is False:
                    continue
                for k, x in st.mem.items():
                    if k[0] == 'F' and k[1] == this and x == l:
                        fds.add(k[2])
                for k, x in st.ts.items():
                    if isinstance(k, tuple) and k[0] == 'ins' and x == l:
                        conts.add(k[1])
    return fds, conts


def c07(P, R):
    """Queue functions of the base class: every path of broadcast() adds once at one end, popBroadcast() returns and removes
    the element of the other end once, haveBroadcast() is equivalent to the queue not being empty.  Workers of both transports:
    on every path from popBroadcast() to the next round every element of the client container is visited (including after
    failing sends and throwing endpoints), each gets one message with the broadcast's name, payload and number 0, and elements
    are only passed over when they are the listening socket, expired, or lack the endpoint."""
    W = Wire(P)
    adds = queue_rules(P, R)
    n = 0
    for r in sorted(P.records):
        if BASE not in (P.records[r].get('allbases') or []):
            continue
        ws = W.workers(r)
        if not ws:
            continue
        fds, conts = listening(P, R, r)
        for lam, d in ws:
            mon = Deliver(P, R, W, r, conts, fds)
            E, outs, thr = run(P, R, mon, d, this=('O', 'this', r), cls=r)
            for st, v in outs:
                mon.close(E, st, E.frame(d, None, {}, None, 0), None)
            if not mon.npop or not mon.nsend:
                R.bad(mon.R1, '%s:%s' % (rel(d['file']), d['line']), 'the worker of %s never %s broadcasts'
                      % (r, 'takes' if not mon.npop else 'delivers'))
            n += 1
    if n < 2:
        raise AnalysisBroken('only %d transports with a worker found' % n)


CHECKS = {'C07': c07}
