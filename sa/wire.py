"""Roles of the socket protocol: who sends, who receives, the message record and its parts, and a monitor base class that
summarises sending and receiving one message at the transport level."""
from .lib import *

MSG = 'scalopus::protocol::Msg'
W_CALLS = {'send', 'write', 'sendmsg', 'sendto', 'writev'}
R_CALLS = {'read', 'recv', 'recvmsg', 'recvfrom', 'readv'}
HANDLE = 'scalopus::Endpoint::handle'
UNSOL = 'scalopus::Endpoint::unsolicited'
POP = 'scalopus::Transport::popBroadcast'
SELECT = {'select', 'poll', 'ppoll', 'pselect', 'epoll_wait'}


def posix_calls(f):
    return {n['c']['q'] for n in walk(f) if n.get('k') == 'call' and isinstance(n.get('c'), dict)
            and not n['c'].get('cls') and not n['c'].get('repo')}


class Wire:
    """Finds the message type, its fields and the functions that move a message over a descriptor."""

    def __init__(self, P):
        self.P = P
        r = P.records.get(MSG)
        if r is None:
            raise AnalysisBroken('the wire message type %s no longer exists' % MSG)
        self.id = self.name = self.data = None
        for f in r['fields']:
            t = f['t']
            if 'basic_string' in t or t.endswith('string'):
                self.name = f['f']
            elif 'vector' in t or 'Data' in t:
                self.data = f['f']
            else:
                self.id = f['f']
                self.id_t = t
        if not (self.id and self.name and self.data):
            raise AnalysisBroken('the parts of %s were not recognised' % MSG)
        self.fields = r['fields']
        cand_s, cand_r = [], []
        reach = {}
        for f in library_functions(P):
            m = [p for p in f['p'] if 'Msg' in p['t'] and (p['t'].endswith('&') or p['t'].endswith('*'))]
            if not m or not any(p['t'] in ('int', 'const int') for p in f['p']):
                continue
            calls = set()
            cs = callees(P, f)
            for g in cs:
                calls |= posix_calls(g)
            reach[f['usr']] = {g['usr'] for g in cs} - {f['usr']}
            if 'const' in m[0]['t'] and calls & W_CALLS:
                cand_s.append(f)
            elif 'const' not in m[0]['t'] and calls & R_CALLS:
                cand_r.append(f)

        def minimal(c):
            us = {f['usr'] for f in c}
            return [f for f in c if not (reach[f['usr']] & us)]
        self.senders, self.receivers = minimal(cand_s), minimal(cand_r)
        if not self.senders or not self.receivers:
            raise AnalysisBroken('no function that sends or receives a message was found')
        self.sq = {f['usr']: f for f in self.senders}
        self.rq = {f['usr']: f for f in self.receivers}
        # transports that use them, directly or through helpers
        self.classes = []
        for f in library_functions(P):
            c = f.get('cls')
            if c and c not in self.classes and 'scalopus::Transport' in (P.records.get(c, {}).get('allbases') or []):
                if any(x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('usr') in (set(self.sq) | set(self.rq))
                       for g in P.methods(c) for x in walk_all(P, g)):
                    self.classes.append(c)
        if not self.classes:
            raise AnalysisBroken('no transport uses the message functions')

    def workers(self, cls):
        """Bodies of the threads a class starts; bodies that are the same and use no variable count once."""
        res, seen = [], set()
        for f, lam, d in thread_lambdas(self.P):
            if enclosing_class(self.P, d) == cls or f.get('cls') == cls:
                k = d['usr']
                if not any(x.get('k') == 'var' for x in walk(d)):
                    k = repr(shape(d['body']))
                if k not in seen:
                    seen.add(k)
                    res.append((lam, d))
        return res


def shape(n):
    """A piece of syntax without positions."""
    if isinstance(n, dict):
        return tuple((k, shape(v)) for k, v in sorted(n.items()) if k not in ('#', '@', 'l', 'le', 'file', 'line', 'endline'))
    if isinstance(n, (list, tuple)):
        return tuple(shape(x) for x in n)
    return n


def walk_all(P, f):
    for x in walk(f):
        yield x
        if x.get('k') == 'lambda':
            d = P.definition(x['fn'])
            if d is not None and d is not f:
                for y in walk(d):
                    yield y


class Wired(Monitor):
    """Sending and receiving a message are single events; handlers are opaque."""
    throws = False
    head_limit = 16
    exit_limit = 6

    def __init__(self, P, R, W):
        super().__init__(P, R)
        self.W = W

    def split(self, E, st, fr, node, args, f):
        fd = msg = None
        for i, p in enumerate(f['p']):
            if i >= len(args) or args[i] is None:
                continue
            if 'Msg' in p['t']:
                a = args[i]
                if a[0] == '&':
                    msg = a[1]
                else:
                    st, v = E.val(st, a, node, fr)
                    if v[0] == 'ptr':
                        msg = v[1]
            elif p['t'] in ('int', 'const int') and fd is None:
                st, fd = E.val(st, args[i], node, fr)
        return st, fd, msg

    def parts(self, E, st, msg, fr, node):
        W = self.W
        if msg is None:
            return None
        res = []
        for f in (W.id, W.name, W.data):
            res.append(st.read(('F', msg, f)))
        return tuple(res)

    def call(self, E, st, fr, node, q, recv, args):
        u = (node.get('c') or {}).get('usr')
        W = self.W
        if u in W.sq:
            st, fd, msg = self.split(E, st, fr, node, args, W.sq[u])
            p = self.parts(E, st, msg, fr, node)
            out = []
            for ok in (1, 0):
                s = self.sent(E, st, fr, node, fd, p, bool(ok))
                if s is not None:
                    out.append((s, ('c', ok)))
            return out
        if u in W.rq:
            st, fd, msg = self.split(E, st, fr, node, args, W.rq[u])
            out = []
            s = st
            vs = []
            for n, f in (('id', W.id), ('name', W.name), ('data', W.data)):
                s, v = E.fresh(s, fr, dict(node, **{'#': (node['#'], n)}), ('rx', n))
                vs.append(v)
                if msg is not None:
                    s = s.write(('F', msg, f), v)
            s = self.received(E, s, fr, node, fd, tuple(vs))
            if s is not None:
                out.append((s, C1))
            s = st
            for n, f in (('id', W.id), ('name', W.name), ('data', W.data)):
                # what was received before it failed
                s, v = E.fresh(s, fr, dict(node, **{'#': (node['#'], 'part', n)}), ('part', n))
                if msg is not None:
                    s = s.write(('F', msg, f), v)
            s = self.failed(E, s, fr, node, fd)
            if s is not None:
                out.append((s, C0))
            return out
        if q in SELECT:
            st = self.turn(E, st, fr, node)
            from . import models
            return models.std_call(E, node, node['c'], recv, args, st, fr) if st is not None else []
        return self.other(E, st, fr, node, q, recv, args)

    def other(self, E, st, fr, node, q, recv, args):
        return None

    def sent(self, E, st, fr, node, fd, parts, ok):
        return st

    def received(self, E, st, fr, node, fd, parts):
        return st

    def failed(self, E, st, fr, node, fd):
        return st

    def turn(self, E, st, fr, node):
        """The worker starts its next round."""
        return st
