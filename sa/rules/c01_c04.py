"""C01: replies resolve their request.  C04: losing the peer fails what is outstanding."""
import re
from ..wire import *
from .c02 import blocks
from ..models import empty_like


def entry_key(t, tables):
    """The key (or element) of a pending-table entry that a location or value belongs to."""
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] in ('K', 'E', 'I') and len(x) == 3 and isinstance(x[1], tuple) and x[1][:1] == ('F',) and x[1][2] in tables:
            return x
        if x[0] == 'p' and len(x) == 3 and isinstance(x[2], tuple) and x[2][0] in ('K', 'E', 'I') \
                and mentions(x[1], lambda y: y[0] == 'F' and len(y) == 3 and y[2] in tables):
            return ('K', None, x[2][1]) if x[2][0] == 'K' else x[2]
        stack.extend(x)
    return None


def promise_of(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple) and x:
            if x[0] == 'promise':
                return x
            stack.extend(x)
    return None


def requester(P, cls):
    for f in P.methods(cls):
        if f['n'] == 'request' and f['kind'] == 'method' and f.get('body') is not None:
            return f
    raise AnalysisBroken('%s has no request method' % cls)


def narrow(t):
    """A cast to 16 bits or fewer inside a term."""
    return mentions(t, lambda x: x[0] == 'cast' and len(x) == 3 and str(x[1]).replace('const ', '') in
                    ('unsigned short', 'short', 'unsigned char', 'signed char', 'char', 'uint16_t', 'uint8_t', 'std::uint16_t', 'std::uint8_t'))


class Request(Wired):
    """The calling side: number, register, send, hand out the future."""

    def __init__(self, P, R, W, cls):
        super().__init__(P, R, W)
        self.cls = cls
        self.tables = {}
        self.counters = {}
        self.nsent = 0

    def register(self, E, st, fr, node, loc, v):
        p = promise_of(v)
        if p is None:
            return st
        l = loc
        field = None
        while l[0] in PARTS:
            if l[0] == 'F' and l[1] == ('O', 'this', self.cls):
                field = l[2]
                break
            l = l[1]
        if field is None:
            return st
        self.tables[field] = node
        key = None
        x = loc
        while x[0] in PARTS:
            if x[0] == 'K':
                key = x[2]
            x = x[1]
        return st.set('reg', (p, key if key is not None else v))

    def write(self, E, st, fr, node, loc, v):
        if loc[0] in PARTS and root(loc) == ('O', 'this', self.cls):
            return self.register(E, st, fr, node, loc, v)
        return st

    def after(self, E, st, fr, node, q, recv, args, res):
        if recv is not None and recv[0] == '&' and recv[1][0] in PARTS and root(recv[1]) == ('O', 'this', self.cls):
            nm = q.rsplit('::', 1)[-1]
            if nm in ('operator=', 'emplace', 'insert', 'emplace_back', 'push_back', 'emplace_hint', 'try_emplace', 'insert_or_assign',
                      'emplace_front', 'push_front'):
                vs = []
                for a in args:
                    vs.append(st.read(a[1]) if a is not None and a[0] == '&' else a)
                loc = recv[1]
                if nm in ('emplace', 'try_emplace', 'insert_or_assign') and len(vs) >= 2:
                    loc = ('F', ('K', loc, vs[0]), 'std::pair::second')
                    vs = vs[1:]
                elif nm == 'insert' and len(vs) == 1 and vs[0] is not None:
                    loc = ('F', ('K', loc, proj(vs[0], ('F', 'std::pair::first'))), 'std::pair::second')
                return self.register(E, st, fr, node, loc, ('tuple',) + tuple(v for v in vs if v is not None))
        if q in ('std::promise::set_exception', 'std::promise::set_value'):
            st = st.set('failed', C1)
            if recv is not None and recv[0] == '&':
                st = st.set('failed', promise_of(st.read(recv[1])) or C1)
        if q.rsplit('::', 1)[-1] in ('erase', 'clear', 'extract') and recv is not None and recv[0] == '&' \
                and has_any(recv[1], self.tables):
            st = st.set('erased', C1)
        if q.endswith('::find') and recv is not None and recv[0] == '&' and has_any(recv[1], self.tables) and st.get('sent') is not None:
            st = st.set('lookup', res)
        return st

    def sent(self, E, st, fr, node, fd, parts, ok):
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        self.nsent += 1
        r1 = 'a request is registered before it is sent'
        R.ok(r1, w)
        reg = st.get('reg')
        if parts is None:
            return st.set('sent', C1 if ok else C0)
        mid, name, data = parts
        if reg is None:
            R.bad(r1, w, 'the request is written to the socket before its promise is stored: a reply that arrives at once finds '
                  'no request', chain)
        elif not mentions(reg[1], lambda x: x == mid):
            R.bad(r1, w, 'the pending entry is stored under a key that does not contain the number the request is sent with (%s)'
                  % show(mid), chain)
        elif not mentions(reg[1], lambda x: x == name):
            # the reply is looked up by name as well
            st = st.set('nameless', C1)
        r2 = 'requests are numbered uniquely'
        R.ok(r2, w)
        if mid[0] == 'c':
            R.bad(r2, w, 'every request is sent with the number %s' % show(mid), chain)
        else:
            rmw = [x for x in syms(mid) if tag(x)[:1] == ('rmw',)]
            inc = [x for x in rmw if 'operator++' in str(tag(x)) or 'fetch_add' in str(tag(x)) or 'operator+=' in str(tag(x))]
            for x in inc:
                self.counters[tag(x)[1]] = (mid, w)
            ini = [x for x in subterms(mid) if x[0] == 'init' and x[1][0] == 'F' and root(x[1]) == ('O', 'this', self.cls)]
            if rmw and not inc:
                R.bad(r2, w, 'the number of a request does not come from incrementing a counter: %s' % show(mid), chain)
            elif not rmw and any(tag(x)[:1] == ('load',) for x in syms(mid)):
                R.bad(r2, w, 'the number is read from a shared counter without incrementing it in the same step, two requests can '
                      'get the same number', chain)
            elif not rmw and ini:
                for x in ini:
                    if st.read(x[1]) == x:
                        R.bad(r2, w, 'the number of the request (%s) does not change from one request to the next' % show(x), chain)
                    else:
                        self.counters[x[1]] = (mid, w)
            if narrow(mid):
                R.bad(r2, w, 'the request number is narrowed to a few bits, numbers repeat while requests are pending', chain)
        r3 = 'the request carries the given endpoint name and data'
        R.ok(r3, w)
        for v, what, t in ((name, 'endpoint name', 'basic_string'), (data, 'data', 'vector')):
            want = [('init', ('O', 'arg:' + p['n'], p['t'].replace('const ', '').rstrip(' &'))) for p in self.fn['p'] if t in p['t']]
            if want and v not in want and v[0] in ('str', 'c', 'empty', 'default', 'init'):
                R.bad(r3, w, 'the %s of the sent message is %s, not the one given by the caller' % (what, show(v)), chain)
        return st.set('sent', C1 if ok else C0)


def subterms(t):
    res, stack = [], [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                res.append(x)
            stack.extend(x)
    return res


def has_any(loc, fields):
    return any(has_field(loc, f) for f in fields)


def run_request(P, R, W, cls, rules=True):
    f = requester(P, cls)
    mon = Request(P, R if rules else type(R)(R.property if hasattr(R, 'property') else 'x'), W, cls)
    mon.fn = f
    E, outs, thr = run(P, R, mon, f, cls=cls)
    if not mon.nsent:
        raise AnalysisBroken('%s sends nothing' % f['q'])
    return f, mon, E, outs


class Worker(Wired):
    """The worker: what happens with each message that was received completely."""
    throws = True

    def __init__(self, P, R, W, cls, tables):
        super().__init__(P, R, W)
        self.cls, self.tables = cls, tables
        self.broadcast_ids = {}
        self.seen = set()

    CLEAR = ('rx', 'it', 'taken', 'resolved', 'erased', 'h', 'ret', 'out', 'replied', 'look', 'gone', 'hit', 'unserved', 'ep')

    def assumed(self, E, st, fr, node, atom, truth):
        if atom[1] == '==' and atom[3] == C0:
            x = atom[2]
            t = tag(x)
            if st.get('it') is not None and st.get('rx') is not None and (t[:1] == ('weaklock',) and truth or t[:1] == ('expired',) and not truth):
                # nobody waits for the request this message answers
                if mentions(t[1], lambda y: y[0] == 'K' and len(y) > 1 and y[-1] == st.get('it')[2][1]):
                    st = st.set('gone', C1)
            it, look, ep = st.get('it'), st.get('look'), st.get('ep')
            if it is not None and x == ('isend', it):
                st = st.set('hit', C1 if truth else C0)
            elif look is not None and x == ('isend', look) and not truth:
                st = st.set('unserved', C1)
            elif look is not None and truth and (x == look_val(st, look) or x == ep):
                st = st.set('unserved', C1)
        return st

    def moved(self, E, st, fr, node, loc, rq):
        if rq == 'std::promise' and st.get('rx') is not None and st.get('it') is not None and \
                entry_key((loc, st.read(loc)), self.tables) is not None:
            st = st.set('taken', C1)
        return st

    def forget(self, st):
        for k in self.CLEAR:
            st = st.set(k, None)
        return st

    def finish(self, E, st, fr, node):
        """The message received last has been dealt with."""
        rx = st.get('rx')
        if rx is None:
            return st
        R = self.report_to
        fd, mid, name, data, w = rx
        w, chain = w[1], [w[2]]
        rule = 'every received message is used as what it is'
        R.ok(rule, w)
        found = {C1: True, C0: False}.get(st.get('hit'))
        if found and st.get('taken') is not None and st.get('resolved') is None and st.get('excepted') is None and st.get('gone') is None:
            R.bad(rule, w, 'the promise of a pending request is taken from the table but not resolved', chain)
        elif found and st.get('resolved') is None and st.get('gone') is None and st.get('erased') is None:
            R.bad(rule, w, 'a reply whose request is pending is read but neither resolves the request nor drops it', chain)
        elif found and st.get('resolved') is not None and st.get('erased') is None:
            R.bad('a resolved request no longer counts as pending', w, 'the entry of a request stays in the table after its '
                  'future was resolved', chain)
        if st.get('resolved') is not None:
            R.ok('a resolved request no longer counts as pending', w)
        if st.get('h') is None and not found and st.get('resolved') is None:
            if st.get('unserved') is None:
                R.bad(rule, w, 'a path drops a received message although nothing shows that it has no request and no endpoint', chain)
        r = 'a handled request is answered exactly when the handler says so'
        if st.get('h') is not None:
            R.ok(r, w)
            ret = st.get('ret')
            if ret is not None and E.decide(st, ret) is True and st.get('replied') is None:
                R.bad(r, w, 'the handler produced a reply but no reply is sent', chain)
        return self.forget(st)

    def turn(self, E, st, fr, node):
        return self.finish(E, st, fr, node)

    def visit(self, E, st, fr, node, cont, elem):
        # going on to the next connection
        if st.get('rx') is not None and mentions((cont, st.base(cont)), lambda x: x[0] == 'F' and len(x) == 3 and self.holds_fds(x[2])):
            return self.finish(E, st, fr, node)
        return st

    def holds_fds(self, f):
        return '<int' in (self.p.fields.get(f) or {}).get('t', '')

    def received(self, E, st, fr, node, fd, parts):
        st = self.finish(E, st, fr, node)
        w, chain = where_chain(E, node, fr)
        self.seen.add(w)
        return st.set('rx', (fd,) + tuple(parts) + (('w', w, chain[-1]),))

    def failed(self, E, st, fr, node, fd):
        return self.finish(E, st, fr, node)

    def other(self, E, st, fr, node, q, recv, args):
        if q in (HANDLE, UNSOL):
            w, chain = where_chain(E, node, fr)
            rx = st.get('rx')
            rule = 'endpoints get the bytes of a message that was received completely'
            if rx is None:
                self.report_to.bad(rule, w, 'an endpoint is called although no message was received', chain)
                return None
            self.report_to.ok(rule, w)
            d = st.read(args[1][1]) if args[1] is not None and args[1][0] == '&' else None
            if d is not None and d != rx[3]:
                self.report_to.bad(rule, w, 'an endpoint is given %s instead of the received bytes' % show(d), chain)
            o = st.read(args[2][1]) if args[2] is not None and args[2][0] == '&' else None
            if o is not None:
                rule2 = 'an endpoint fills an empty reply'
                self.report_to.ok(rule2, w)
                if not empty_like(o):
                    self.report_to.bad(rule2, w, 'an endpoint is given a reply buffer that may still hold the reply to another message', chain)
            it = st.get('it')
            if q == UNSOL or it is not None:
                e = {C1: False, C0: True}.get(st.get('hit'))
                z = E.decide(st, ('op', '==', rx[1], C0))
                if e is not True and z is not True:
                    self.report_to.bad('a message is only unsolicited if it answers no pending request', w,
                                       'an endpoint gets a message as unsolicited although it may answer a pending request', chain)
                else:
                    self.report_to.ok('a message is only unsolicited if it answers no pending request', w)
            st2 = st.set('h', C1).set('out', ('loc', args[2][1]) if args[2] is not None and args[2][0] == '&' else None)
            return self.opaque_handler(E, st2, fr, node, q, recv, args)
        return None

    def opaque_handler(self, E, st, fr, node, q, recv, args):
        return E.opaque_repo(node, node['c'], recv, args, st, fr)

    def after(self, E, st, fr, node, q, recv, args, res):
        R = self.report_to
        if q in (HANDLE, UNSOL):
            return st.set('ret', res)
        if q.rsplit('::', 1)[-1] in ('count', 'contains') and res and res[0] == 'op' and res[2][0] == 'isend':
            q, res = q.rsplit('::', 1)[0] + '::find', res[2][1]
        if q.endswith('::find') and recv is not None and recv[0] == '&':
            if has_any(recv[1], self.tables):
                rx = st.get('rx')
                if rx is not None:
                    w, chain = where_chain(E, node, fr)
                    rule = 'a reply is looked up by the number it carries'
                    R.ok(rule, w)
                    k = E.val(st, args[0], node, fr)[1] if args else None
                    if k is not None and not mentions(k, lambda x: x == rx[1]):
                        R.bad(rule, w, 'the pending request is looked up by %s, not by the number of the received message' % show(k), chain)
                    return st.set('it', res)
            elif has_field(recv[1], 'scalopus::Transport::endpoints_') or 'Endpoint' in str((node.get('o') or {}).get('t', '')):
                if st.get('rx') is not None:
                    w, chain = where_chain(E, node, fr)
                    rule = 'the addressed endpoint is looked up by the name in the message'
                    R.ok(rule, w)
                    k = E.val(st, args[0], node, fr)[1] if args else None
                    if k is not None and k != st.get('rx')[2]:
                        R.bad(rule, w, 'the endpoint is looked up by %s instead of the name in the message' % show(k), chain)
                    return st.set('look', res)
        if q in ('std::promise::set_value', 'std::promise::set_exception') and recv is not None:
            loc = recv[1] if recv[0] == '&' else None
            v = st.read(loc) if loc is not None else recv
            ek = entry_key((loc, v), self.tables)
            w, chain = where_chain(E, node, fr)
            if q.endswith('set_value'):
                rx = st.get('rx')
                rule = 'a future is resolved with exactly the bytes of its reply'
                R.ok(rule, w)
                if rx is None:
                    R.bad(rule, w, 'a request is resolved although no message was received completely', chain)
                    return st
                a = E.val(st, args[0], node, fr)[1] if args else None
                if a is not None and a != rx[3]:
                    R.bad(rule, w, 'a request is resolved with %s instead of the received bytes' % show(a), chain)
                if ek is not None and ek[0] == 'K':
                    k = ek[2]
                    if not mentions(k, lambda x: x == rx[1]):
                        R.bad(rule, w, 'the request that is resolved is not the one with the number in the message', chain)
                elif ek is not None and ek[0] == 'E' and not any(mentions(f, lambda x: x == rx[1]) and tv for f, tv in st.facts.items()):
                    R.bad(rule, w, 'a request is resolved without comparing its number with the one in the message', chain)
                if st.get('resolved') is not None:
                    R.bad(rule, w, 'one message resolves more than one request', chain)
                return st.set('resolved', ek or C1)
            return st.set('excepted', ek or C1)
        nm = q.rsplit('::', 1)[-1]
        if nm in ('erase', 'extract') and recv is not None and recv[0] == '&' and has_any(recv[1], self.tables):
            w, chain = where_chain(E, node, fr)
            rule = 'a request is only dropped from the table when it was resolved or nobody waits for it'
            R.ok(rule, w)
            a = E.val(st, args[0], node, fr)[1] if args else None
            if st.get('rx') is not None and st.get('it') is not None and a is not None and \
                    (a[:3] == st.get('it')[:3] or (a[0] != 'it' and a == st.get('it')[2][1])):
                st = st.set('erased', C1)
                if st.get('resolved') is None and st.get('gone') is None and st.get('taken') is not None:
                    pass                       # the promise is elsewhere, settled by the end of the round
                elif st.get('resolved') is None and st.get('gone') is None and not self.expired(E, st, a):
                    R.bad(rule, w, 'the request is erased on a path on which its future was not resolved and is still waited for', chain)
                return st
            if a is not None and a[0] == 'it':
                if not self.expired(E, st, a) and st.get('resolved') is None and st.get('excepted') is None:
                    R.bad(rule, w, 'a request whose future may still be waited for is erased', chain)
                else:
                    self.pruned = True
        if nm == 'lock' and res is not None and tag(res)[:1] == ('weaklock',):
            pass
        return st

    pruned = False

    def expired(self, E, st, a):
        """Is it known that the weak reference of this entry is gone?"""
        for f, tv in st.facts.items():
            for s in syms(f):
                t = tag(s)
                if t[:1] == ('expired',) and f == ('op', '==', s, C0) and tv is False:
                    return True
                if t[:1] == ('expired',) and f == s and tv:
                    return True
                if t[:1] == ('weaklock',) and E.decide(st, ('op', '==', s, C0)) is True:
                    return True
        return False

    def sent(self, E, st, fr, node, fd, parts, ok):
        R = self.report_to
        w, chain = where_chain(E, node, fr)
        if parts is None:
            return st
        mid, name, data = parts
        rule = 'a reply carries the number and name of its request'
        rx = st.get('rx')
        if mid[0] == 'c':
            self.broadcast_ids.setdefault(mid[1], (w, chain))
            if rx is not None and st.get('h') is not None and st.get('replied') is None and any(x == name for x in (rx[2],)):
                R.bad(rule, w, 'a reply is sent with the constant number %s' % mid[1], chain)
                return st.set('replied', C1)
            return st
        R.ok(rule, w)
        if rx is None or st.get('h') is None:
            R.bad(rule, w, 'a message numbered %s is sent although no request with that number was handled' % show(mid), chain)
            return st
        if mid != rx[1]:
            R.bad(rule, w, 'the reply is numbered %s, not with the number of the request' % show(mid), chain)
        if name != rx[2]:
            R.bad(rule, w, 'the reply is addressed to %s, not to the endpoint that asked' % show(name), chain)
        if same_fd(fd, rx[0]) is False:
            R.bad(rule, w, 'the reply is written to %s, not to the connection the request came from' % show(fd), chain)
        if not (tag(data)[:1] == ('out',) and tag(data)[2] in (HANDLE, UNSOL)):
            R.bad(rule, w, 'the reply contains %s instead of what the endpoint returned' % show(data), chain)
        r = 'a handled request is answered exactly when the handler says so'
        R.ok(r, w)
        ret = st.get('ret')
        if ret is None or E.decide(st, ret) is not True:
            R.bad(r, w, 'a reply is sent although the handler did not return one', chain)
        if st.get('replied') is not None:
            R.bad(r, w, 'a request is answered twice', chain)
        return st.set('replied', C1)


def look_val(st, it):
    return st.read(('F', ('K', it[1], it[2][1]), 'std::pair::second'))


def same_fd(a, b):
    """None if unknown."""
    if a == b:
        return True
    ta, tb = tag(a), tag(b)
    if ta[:1] == ('load',) and tb[:1] == ('load',):
        return ta[1] == tb[1]
    if a[0] == 's' and b[0] == 's' and ta[:1] and tb[:1] and {ta[0], tb[0]} <= {'load', 'elem', 'ret'}:
        return False
    return None


def const_value(e):
    for n in walk(e):
        if n.get('cv') is not None:
            try:
                return int(n['cv'])
            except (TypeError, ValueError):
                pass
        if n.get('k') == 'int':
            return int(n['v'])
    return None


def c01(P, R):
    """Request path: on every path the promise is stored in a member table under a key containing the number and the name
    the message is sent with, before the message is sent; the number comes from one atomic (or locked) increment of a counter
    that starts above every broadcast number; the returned future is that of the stored promise.  Worker: on every path from
    a completely received message to the next round, a pending entry found by the received number is resolved with the
    received data and erased, otherwise the endpoint of that name is called with the data; a reply is sent exactly if the
    handler returned true, on the same connection, with the received number and name and the handler's output; entries are
    erased only when resolved or dropped."""
    W = Wire(P)
    for cls in W.classes:
        f, req, E, outs = run_request(P, R, W, cls)
        where = '%s:%s' % (rel(f['file']), f['line'])
        rule = 'the returned future belongs to the registered promise'
        for st, v in outs:
            R.ok(rule, where)
            reg = st.get('reg')
            if v == C0:
                R.bad(rule, where, 'a request can return no future at all')
            elif v[0] == 'ptr' and reg is not None:
                c = st.read(v[1])
                p = promise_of(c)
                if p is not None and p != reg[0]:
                    R.bad(rule, where, 'the future handed out does not belong to the promise that is stored for the reply')
        if not req.tables:
            R.bad('a request is registered before it is sent', where, 'the promise of a request is never stored for the worker')
            continue
        ws = W.workers(cls)
        if not ws:
            raise AnalysisBroken('no worker thread found for %s' % cls)
        ids = {}
        pruned = False
        for lam, d in ws:
            mon = Worker(P, R, W, cls, req.tables)
            E, outs, thr = run(P, R, mon, d, this=('O', 'this', cls), cls=cls)
            for st, v in outs:
                mon.finish(E, st, E.frame(d, None, {}, None, 0), None)
            if not mon.seen:
                raise AnalysisBroken('the worker of %s receives nothing' % cls)
            ids.update(mon.broadcast_ids)
            pruned = pruned or mon.pruned
            rule = 'dropped requests are removed'
            R.ok(rule, '%s:%s' % (rel(d['file']), d['line']))
            if not mon.pruned:
                R.bad(rule, '%s:%s' % (rel(d['file']), d['line']), 'nothing in the worker removes requests whose future was dropped')
        rule = 'no request has the number of broadcasts'
        for loc, (mid, w) in req.counters.items():
            fd = P.fields.get(loc[2]) if loc[0] == 'F' else None
            R.ok(rule, w)
            if fd is None:
                continue
            if re.search(r'\b(char|short|bool|u?int(8|16)_t)\b', fd['t']):
                R.bad('requests are numbered uniquely', w, 'the counter has type %s, numbers repeat while requests are pending' % fd['t'])
            init = const_value(fd['inite']) if fd.get('inite') else None
            for c in P.methods(cls):
                if c['kind'] == 'ctor':
                    for i in c.get('inits') or []:
                        if i.get('f') == loc[2] and i.get('e') is not None:
                            iv = const_value(i['e'])
                            init = iv if iv is not None else init
            if init is None:
                continue
            first = init + (1 if mid[0] == 'op' and mid[1] == '+' else 0)
            for b, (bw, chain) in ids.items():
                if b >= first:
                    R.bad(rule, bw, 'the number %d used for broadcasts is also given to requests (the counter starts at %d)' % (b, first), chain)


# ------------------------------------------------------------------------------------------------------------------ C04
class Lost(Wired):
    """A client whose connection breaks."""
    throws = False
    fresh_atomics = False

    def __init__(self, P, R, W, cls, tables, isconn, fdfields, conts):
        super().__init__(P, R, W)
        self.cls, self.tables, self.isconn, self.fdfields, self.conts = cls, tables, isconn, fdfields, conts
        self.this = ('O', 'this', cls)
        self.nlost = 0

    def is_client(self, st, fd):
        return any(fd == st.get(('own', f)) for f in self.fdfields)

    def start(self, E, st, fr):
        for f in self.fdfields:
            v = st.read(('F', self.this, f))
            if v[0] != 'c':
                st = st.set(('own', f), v)
        return st

    def failed(self, E, st, fr, node, fd):
        w, chain = where_chain(E, node, fr)
        if self.is_client(st, fd):
            self.nlost += 1
            return st.set('lost', (fd, ('w', w)))
        return st.set('drop', (fd, ('w', w)))

    def use(self, E, st, fr, node, what):
        if st.get('lost') is not None:
            w, chain = where_chain(E, node, fr)
            self.report_to.bad('nothing from an incomplete message is used', w, '%s after reading a message failed' % what, chain)
        return st

    def received(self, E, st, fr, node, fd, parts):
        st = self.use(E, st, fr, node, 'another message is read')
        d = st.get('drop')
        if d is not None and d[0] == fd:
            w, chain = where_chain(E, node, fr)
            self.report_to.bad('a client whose message cannot be read is dropped', w, 'another message is read from it', chain)
        return st

    def other(self, E, st, fr, node, q, recv, args):
        if q in (HANDLE, UNSOL):
            self.use(E, st, fr, node, 'an endpoint is called')
            d = st.get('drop')
            if d is not None:
                w, chain = where_chain(E, node, fr)
                self.report_to.bad('nothing from an incomplete message is used', w, 'an endpoint is called on a path on which '
                                   'reading the message failed', chain)
        return None

    def sent(self, E, st, fr, node, fd, parts, ok):
        return st

    def turn(self, E, st, fr, node):
        return self.settle(E, st, fr, node, True)

    def visit(self, E, st, fr, node, cont, elem):
        st = self.settle_drop(E, st, fr, node)
        if has_any(cont, self.tables) and st.get('lost') is not None:
            return self.after_visit(E, st, fr, node).set('at', C1)
        return st

    def after_visit(self, E, st, fr, node):
        if st.get('at') is not None:
            st = st.set('skipped', C1).set('at', None)
        return st

    def done(self, E, st, fr, node, cont):
        st = self.settle_drop(E, st, fr, node)
        if has_any(cont, self.tables) and st.get('lost') is not None:
            st = self.after_visit(E, st, fr, node)
            if st.get('skipped') is None:
                st = st.set('failedall', st.get('connected', C1))
        return st

    def assumed(self, E, st, fr, node, atom, truth):
        # The table is seen to be empty: every entry was erased, which destroys its promise.
        x = atom[2]

        if truth and st.get('lost') is not None and st.get('failedall') is None and atom[1] == '==' and atom[3] == C0:
            if (x[0] == 'size' and len(x) == 3 and has_any(x[2], self.tables)) or \
                    (x[0] == 'isend' and x[1][0] == 'it' and x[1][2] == ('begin',) and has_any(x[1][1], self.tables)):
                st = st.set('failedall', st.get('connected', C1))
        return st

    def acquire(self, E, st, fr, node, loc, mode):
        if st.get('lost') is not None:
            c = decide_method(self.p, self.report_to, st, self.isconn, self.this)
            st = st.set('connected', C0 if c == {False} else C1)
        return st

    def after(self, E, st, fr, node, q, recv, args, res):
        nm = q.rsplit('::', 1)[-1]
        if q in ('std::promise::set_value',):
            self.use(E, st, fr, node, 'a request is resolved with data')
        if q in ('std::promise::set_exception',):
            st = st.set('at', None)
        if nm in ('clear', 'swap', 'moved-from') and st.get('lost') is not None and st.get('failedall') is None:
            # The promises are destroyed at once, or with the local they end up in: both are errors for who waits.
            ops = [x for x in [recv] + (list(args) if nm == 'swap' else []) if x is not None and x[0] == '&']
            mem = [x for x in ops if x[1][0] in PARTS and root(x[1]) == self.this]
            if any(has_any(x[1], self.tables) for x in ops) and (nm != 'swap' or len(mem) < 2):
                st = st.set('failedall', st.get('connected', C1))
        if nm == 'empty' and res == C1 and recv is not None and recv[0] == '&' and has_any(recv[1], self.tables) and \
                st.get('lost') is not None and st.get('failedall') is None:
            st = st.set('failedall', st.get('connected', C1))
        d = st.get('drop')
        if d is not None and args:
            a = E.val(st, args[0], node, fr)[1]
            if q == 'close' and a == d[0]:
                st = st.set('closed', C1)
            if nm == 'erase' and recv is not None and recv[0] == '&' and recv[1][0] in PARTS and root(recv[1]) == self.this:
                if a == d[0] or a[0] == 'it':
                    st = st.set('removed', C1)
            elif nm == 'erase' and a[0] == 'it':
                st = st.set('removed', C1)
        return st

    def settle_drop(self, E, st, fr, node):
        d = st.get('drop')
        if d is not None:
            w = d[1][1]
            rule = 'a client whose message cannot be read is dropped'
            self.report_to.ok(rule, w)
            if st.get('closed') is None:
                self.report_to.bad(rule, w, 'the connection of a client is kept open after reading from it failed')
            elif st.get('removed') is None:
                self.report_to.bad(rule, w, 'a client whose connection failed stays in the list of connections and is read again')
        return st.set('drop', None).set('closed', None).set('removed', None)

    def settle(self, E, st, fr, node, again):
        st = self.settle_drop(E, st, fr, node)
        l = st.get('lost')
        if l is None:
            return st
        w = l[1][1]
        R = self.report_to
        r1 = 'a lost connection is reported as such'
        R.ok(r1, w)
        if decide_method(self.p, R, st, self.isconn, self.this) != {False}:
            R.bad(r1, w, 'after the connection is lost the transport still reports itself as connected')
        r2 = 'losing the connection fails every outstanding request'
        R.ok(r2, w)
        fa = st.get('failedall')
        if fa is None:
            R.bad(r2, w, 'requests that are outstanding when the connection is lost are not all resolved with an error')
        elif fa == C1:
            R.bad(r2, w, 'the outstanding requests are failed while the transport still counts as connected: a request made '
                  'in between is never resolved')
        r3 = 'nothing more is read from a lost connection'
        R.ok(r3, w)
        if again:
            R.bad(r3, w, 'the worker goes on waiting for messages of the connection it lost')
        return st


class Signal(Monitor):
    throws = False

    def after(self, E, st, fr, node, q, recv, args, res):
        if q in W_CALLS:
            w, chain = where_chain(E, node, fr)
            rule = 'writing to a closed connection is an error, not a signal'
            self.report_to.ok(rule, w)
            flag = E.val(st, args[3], node, fr)[1] if q in ('send', 'sendto') and len(args) > 3 else C0
            if q == 'sendmsg' and len(args) > 2:
                flag = E.val(st, args[2], node, fr)[1]
            if flag[0] == 'c' and not (flag[1] & 0x4000):
                self.report_to.bad(rule, w, 'a write to a connection the peer closed raises SIGPIPE, which ends the process', chain)
        return st


class Ends(Monitor):
    """Once a connection ended or is broken, its block is given up instead of trying again."""
    throws = False
    prove = True

    def call(self, E, st, fr, node, q, recv, args):
        if q not in R_CALLS and q not in W_CALLS or len(args) < 3:
            return None
        reading = q in R_CALLS
        w, chain = where_chain(E, node, fr)
        rule = 'a connection that ended is given up'
        self.report_to.ok(rule, w)
        st, fd = E.val(st, args[0], node, fr)
        d = st.get('dead')
        if d is not None and d[0] == fd:
            self.report_to.bad(rule, w, 'after the connection %s the same block is tried again, the loss is never noticed'
                               % ('ended' if d[1] == C0 else 'failed'), chain)
            return []
        st, n = E.val(st, args[2], node, fr)
        s, r = E.fresh(st, fr, node, ('ret', q))
        s2 = E.assume(s, ('op', '<', C0, r), True)
        res = [(st.set('dead', (fd, C1)), ('c', -1))]
        if s2 is not None:
            res.append((s2, r))
        if reading:
            z = E.assume(st, ('op', '==', n, C0), True)
            if z is not None:
                res.append((z, C0))
            z = E.assume(st, ('op', '<', C0, n), True)
            if z is not None:
                res.append((z.set('dead', (fd, C0)), C0))
        return res

    def assumed(self, E, st, fr, node, atom, truth):
        d = st.get('dead')
        if d is not None and d[1] == C1 and truth and atom[1] == '==' and atom[3] in (('c', 4), ('c', 11)):
            return st.set('dead', None)         # errno says that trying again makes sense
        return st


def c04(P, R):
    """Request path: when sending fails (both results of the send are explored) the stored entry is resolved with an error or
    removed before the future is returned.  Worker of a connected client: on every path on which receiving fails, the query
    isConnected() evaluates to false in that state before the lock of the pending table is taken, every entry of the table is
    resolved or the table destroyed, no endpoint or future gets data, and the loop ends.  Serving side: after a failing read
    the descriptor is closed and removed before the next message.  Socket writes do not raise SIGPIPE.  In the block
    functions no path reads or writes again on a descriptor whose last call reported end of stream, or an error other than an
    interruption."""
    W = Wire(P)
    for cls in W.classes:
        f, req, E, outs = run_request(P, R, W, cls, rules=False)
        rule = 'a request that cannot be sent yields an error'
        where = '%s:%s' % (rel(f['file']), f['line'])
        for st, v in outs:
            R.ok(rule, where)
            if st.get('sent') == C1 or st.get('reg') is None:
                continue
            gone = st.get('erased') is not None or st.get('failed') is not None
            lk = st.get('lookup')
            if not gone and lk is not None and E.decide(st, ('isend', lk)) is True:
                gone = True
            if not gone:
                R.bad(rule, where, 'when sending fails the future of the request is never resolved')
        # a connected client
        this = ('O', 'this', cls)
        isconn = [g for g in P.methods(cls) if g['n'] == 'isConnected']
        conn = [g for g in P.methods(cls) if g['n'] == 'connect' and g.get('body') is not None]
        if not isconn or not conn:
            raise AnalysisBroken('%s has no connect or isConnected' % cls)

        class Plain(Monitor):
            throws = False
            fresh_atomics = False
        # states in which a client is connected
        starts = []
        for st0 in construct(P, R, cls, Plain(P, R)):
            E2, outs2, thr2 = run(P, R, Plain(P, R), conn[0], this=this, cls=cls, st=st0)
            for st, v in outs2:
                if E2.decide(st, v) is not False:
                    starts.append(clean(st, this))
        if not starts:
            raise AnalysisBroken('%s::connect never succeeds' % cls)
        fdf, conts = set(), set()
        for s in starts:
            for k, v in s.mem.items():
                if k[0] == 'F' and k[1] == this and tag(v)[:2] == ('ret', 'socket'):
                    fdf.add(k[2])
        if not fdf:
            raise AnalysisBroken('no member holds the socket after %s::connect' % cls)
        n = 0
        for lam, d in W.workers(cls):
            for s in starts:
                mon = Lost(P, R, W, cls, req.tables, isconn[0], fdf, conts)
                E3, outs3, thr3 = run(P, R, mon, d, this=this, cls=cls, st=s)
                n += mon.nlost
                fr = E3.frame(d, None, {}, None, 0)
                for st, v in outs3:
                    mon.settle(E3, st, fr, None, False)
        if not n:
            raise AnalysisBroken('the worker of a connected %s never fails to receive' % cls)
    for f in W.senders:
        run(P, R, Signal(P, R), f)
    for tops, calls in ((W.senders, W_CALLS), (W.receivers, R_CALLS)):
        for f in tops:
            bl, direct = blocks(P, f, calls)
            for g in [b[0] for b in bl] + ([f] if direct or not bl else []):
                run(P, R, Ends(P, R), g)


CHECKS = {'C01': c01, 'C04': c04}
