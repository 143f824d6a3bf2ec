"""C08: every descriptor is closed exactly once and not used afterwards."""
from ..wire import *
from ..terms import *

OPEN = {'socket', 'accept', 'accept4'}
USE = {'read', 'recv', 'recvmsg', 'recvfrom', 'readv', 'send', 'write', 'sendmsg', 'sendto', 'writev', 'shutdown', 'listen', 'bind',
       'connect', 'accept', 'accept4', 'setsockopt', 'getsockopt', 'fcntl', 'ioctl'}
NEG1 = ('c', -1)


def aged(t):
    return t[0] in ('old', 'older')


class Fds(Wired):
    """Descriptors obtained and closed on every path of one function; `own` is what the destructor closes."""
    fresh_atomics = False
    head_limit = 3
    exit_limit = 2
    block_limit = 3

    R1 = 'every descriptor obtained is closed or kept for the destructor'
    R2 = 'a descriptor is closed once and not used afterwards'
    R3 = 'only valid descriptors are kept'

    def __init__(self, P, R, W, cls, conts, fields, alias):
        super().__init__(P, R, W)
        self.cls, self.conts, self.fields, self.alias = cls, conts, fields, alias
        self.ngot = self.nclose = 0
        self.memo = {}
        self.touch = set(conts) | set(fields) | set(alias) | set(self.int_fields())

    # ---- lists of values in the rule state
    def has(self, st, k, v):
        return any(x == v for x, w in st.get(k, ()))

    def add(self, st, k, v, w=None):
        l = tuple(x for x in st.get(k, ()) if not mentions(x[0], aged))
        return st if any(x == v for x, _ in l) else st.set(k, (l + ((v, ('w', w)),))[-3:])

    def rem(self, st, k, v):
        return st.set(k, tuple(x for x in st.get(k, ()) if x[0] != v) or None)

    def known_bad(self, E, st, v):
        return E.decide(st, ('op', '==', v, NEG1)) is True or E.decide(st, ('op', '<', v, C0)) is True

    def known_good(self, E, st, v):
        return E.decide(st, ('op', '==', v, NEG1)) is False or E.decide(st, ('op', '<', v, C0)) is False

    # ---- events
    def other(self, E, st, fr, node, q, recv, args):
        if q == 'close' and args:
            self.nclose += 1
            st, v = E.val(st, args[0], node, fr)
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(self.R2, w)
            if self.has(st, 'closed', v):
                self.report_to.bad(self.R2, w, 'a descriptor is closed that was closed before on this path', chain)
            if v[0] != 'c':
                st = self.add(st, 'closed', v, w)
            return [(st, C0)]
        if q in USE and args:
            st, v = E.val(st, args[0], node, fr)
            st = self.used(E, st, fr, node, v, q)
        c = node.get('c') or {}
        if (c.get('repo') or c.get('repodecl')) and c.get('usr') and self.unrelated(c['usr']):
            return E.opaque_repo(node, c, None, [], st, fr)
        return None

    def unrelated(self, usr):
        """A library function that neither calls anything taking a descriptor nor touches what holds them."""
        if usr not in self.memo:
            d = self.p.definition(usr)
            ok = d is not None
            if ok:
                for g in callees(self.p, d):
                    for n in walk(g):
                        if n.get('k') == 'mem' and n.get('f') in self.touch or n.get('k') == 'call' and isinstance(n.get('c'), dict) \
                                and (n['c'].get('q') in OPEN | USE | {'close'} | SELECT or n['c'].get('usr') in set(self.W.sq) | set(self.W.rq)):
                            ok = False
            self.memo[usr] = ok
        return self.memo[usr]

    def used(self, E, st, fr, node, v, what):
        if v is not None and v[0] != 'c':
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(self.R2, w)
            if self.has(st, 'closed', v):
                self.report_to.bad(self.R2, w, '%s uses a descriptor that was closed before on this path' % what, chain)
        return st

    def sent(self, E, st, fr, node, fd, parts, ok):
        return self.used(E, st, fr, node, fd, 'sending')

    def received(self, E, st, fr, node, fd, parts):
        return self.used(E, st, fr, node, fd, 'receiving')

    def failed(self, E, st, fr, node, fd):
        return self.used(E, st, fr, node, fd, 'receiving')

    def after(self, E, st, fr, node, q, recv, args, res):
        nm = q.rsplit('::', 1)[-1]
        if q in OPEN and res is not None:
            self.ngot += 1
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(self.R1, w)
            if self.has(st, 'closed', res):
                st = self.rem(self.rem(st, 'closed', res), 'erased', res)
            return self.add(st, 'got', res, w)
        if recv is None or recv[0] != '&' or not args and nm != 'clear':
            return st
        mine = recv[1][0] == 'F' and recv[1][2] in self.conts
        if nm in ('insert', 'emplace', 'push_back', 'emplace_back', 'emplace_hint', 'push_front'):
            st, v = E.val(st, args[-1], node, fr)
            if mine:
                if self.has(st, 'got', v):
                    st = self.add(self.rem(st, 'got', v), 'ins', v)
                    w, chain = where_chain(E, node, fr)
                    self.report_to.ok(self.R3, w)
                    if not self.known_good(E, st, v):
                        self.report_to.bad(self.R3, w, 'the result of a failed call is kept as if it were a descriptor', chain)
                elif self.known_bad(E, st, v):
                    w, chain = where_chain(E, node, fr)
                    self.report_to.bad(self.R3, w, 'the result of a failed call is kept as if it were a descriptor', chain)
                if self.has(st, 'closed', v):
                    w, chain = where_chain(E, node, fr)
                    self.report_to.bad(self.R2, w, 'a closed descriptor is kept', chain)
            elif not self.has(st, 'closed', v):
                return st
            # a list of what is taken out later
            return st if mine else self.add(st, 'erased', v)
        if mine and nm == 'erase':
            st, v = E.val(st, args[0], node, fr)
            if v[0] == 'it':
                if v[2][0] == 'find':
                    v = v[2][1]
                elif len(args) == 1 and v[2][0] in ('begin', 'nth'):
                    st2, l = E.it_loc(st, v, node, fr)
                    v = st2.read(l)
                    st = st2
                    if st.get('cur') is not None:
                        st = self.add(st, 'erased', st.get('cur'))
                else:
                    v = None
            if len(args) > 1 or v is None:
                v = None
            if v is not None and v[0] != 'it' and not any(self.has(st, k, v) for k in ('closed', 'ins')) and v != st.get('cur') \
                    and node.get('a') and 'terator' in (node['a'][0].get('t') or ''):
                v = None                # some element, perhaps the closed one
            if v is None:
                for x, _ in st.get('closed', ()):
                    st = self.add(st, 'erased', x)
                return st
            w, chain = where_chain(E, node, fr)
            if v != st.get('cur') and not self.has(st, 'closed', v) and not self.has(st, 'ins', v) \
                    and not any(self.was(st, v, ('F', ('O', 'this', self.cls), f)) for f in self.alias):
                return st
            return self.add(st, 'erased', v, w)
        if mine and nm == 'clear':
            for x, _ in st.get('closed', ()):
                st = self.add(st, 'erased', x)
        return st

    def assumed(self, E, st, fr, node, atom, truth):
        for v, _ in st.get('got', ()):
            if v == atom[2] and truth and (atom[1] == '==' and atom[3] == NEG1 or atom[1] == '<' and atom[3] == C0):
                st = self.rem(st, 'got', v)
        return st

    def ours(self, st, cont):
        """Is this the container of descriptors, or a copy of it?"""
        if cont[0] == 'F' and cont[2] in self.conts:
            return True
        stack = [st.base(cont)]
        while stack:
            x = stack.pop()
            if isinstance(x, tuple) and x:
                if x[0] == 'F' and len(x) == 3 and x[2] in self.conts:
                    return True
                if x[0] not in ('elem', 'at', 'I', 'K'):
                    stack.extend(x)
        return False

    def visit(self, E, st, fr, node, cont, elem):
        if not self.ours(st, cont):
            return st
        st = self.settle(E, st)
        return st.set('cur', st.read(elem)).set('curc', ('loc', cont)).set('ins', None)

    def done(self, E, st, fr, node, cont):
        if st.get('curc') != ('loc', cont):
            return st
        return self.settle(E, st)

    def broke(self, E, st, fr, node, cont):
        return self.done(E, st, fr, node, cont)

    def settle(self, E, st):
        """The element visited last: closed if and only if taken out."""
        R = self.report_to
        v = st.get('cur')
        if v is not None and not mentions(v, aged):
            c = dict(st.get('closed', ())).get(v)
            e = dict(st.get('erased', ())).get(v)
            if c is not None and e is None:
                R.bad(self.R2, c[1], 'the descriptor is closed but stays in the list of connections, where it is used and closed again')
            if e is not None and c is None:
                R.bad(self.R1, e[1], 'a connection is dropped without its descriptor being closed')
        keep = tuple(x for x in st.get('closed', ()) if x[0] != v and not mentions(x[0], aged) and not (self.has(st, 'erased', x[0]) and x[0][0] == 'p'))
        return st.set('cur', None).set('curc', None).set('closed', keep or None).set('erased', None)

    def check(self, E, st):
        """Between two rounds, or when the function is left."""
        R = self.report_to
        this = ('O', 'this', self.cls)
        st0 = st
        st = self.settle(E, st)
        for v, (_, w) in st.get('closed', ()):
            if self.has(st, 'ins', v) and not self.has(st0, 'erased', v):
                R.bad(self.R2, w, 'the descriptor is closed but stays in the list of connections, where it is used and closed again')
            for f in sorted(self.int_fields()):
                if st.read(('F', this, f)) == v:
                    R.bad(self.R2, w, 'the descriptor is closed but %s still holds it' % f.replace(NS, ''))
                if self.was(st, v, ('F', this, f)) and f in self.alias and not self.has(st0, 'erased', v):
                    R.bad(self.R2, w, 'the descriptor is closed but stays in the list of connections, where it is closed again')
        for v, (_, w) in st0.get('erased', ()):
            if not self.has(st0, 'closed', v) and any(self.was(st, v, ('F', this, f)) for f in self.alias):
                R.bad(self.R1, w, 'a connection is dropped without its descriptor being closed')
        for v, (_, w) in st.get('got', ()):
            if self.known_bad(E, st, v) or self.has(st, 'closed', v) or self.has(st, 'ins', v):
                continue
            if any(st.read(('F', this, f)) == v for f in self.fields):
                continue
            R.bad(self.R1, w, 'a path neither closes the descriptor obtained here nor keeps it where the destructor closes it')
        for k in ('closed', 'erased', 'got', 'ins', 'cur', 'curc'):
            st = st.set(k, None)
        return st

    def was(self, st, v, loc):
        return v == ('init', loc) or mentions(v, lambda x: x == loc)

    def int_fields(self):
        r = self.p.records.get(self.cls) or {}
        return [f['f'] for f in r.get('fields') or [] if 'int' in f['t'] and ('atomic' in f['t'] or f.get('scalar'))
                or f['t'] in ('int', 'std::atomic_int')]

    def turn(self, E, st, fr, node):
        return self.check(E, st)


class Dtor(Wired):
    """What the destructor closes, once, and after the worker has ended."""
    R1 = 'the destructor closes every kept descriptor once'
    R2 = 'the destructor waits for the worker before closing what it uses'

    def __init__(self, P, R, W, cls):
        super().__init__(P, R, W)
        self.cls = cls
        self.conts, self.fields, self.unjoined, self.twice, self.missed = set(), set(), {}, {}, set()

    def other(self, E, st, fr, node, q, recv, args):
        if q == 'std::thread::joinable':
            return [(st, C1), (st.set('joined', C1), C0)]
        if q == 'std::thread::join':
            return [(st.set('joined', C1), C0)]
        if q == 'close' and args:
            w, chain = where_chain(E, node, fr)
            x = args[0]
            st, v = E.val(st, x, node, fr)
            self.report_to.ok(self.R2, w)
            if st.get('joined') is None:
                self.report_to.bad(self.R2, w, 'a descriptor is closed while the worker may still use it', chain)
            this = ('O', 'this', self.cls)
            if st.get('el') is not None and v == st.get('el'):
                self.conts.add(st.get('elc')[1][2])
                self.report_to.ok(self.R1, w)
                if st.get('elclosed') is not None:
                    self.report_to.bad(self.R1, w, 'a descriptor is closed twice', chain)
                return [(st.set('elclosed', C1), C0)]
            for f in (self.p.records.get(self.cls) or {}).get('fields') or []:
                l = ('F', this, f['f'])
                if st.read(l) == v or mentions(v, lambda y: y == l):
                    self.fields.add(f['f'])
            return [(st, C0)]
        return None

    def visit(self, E, st, fr, node, cont, elem):
        if cont[0] != 'F' or root(cont)[:2] != ('O', 'this'):
            return st
        st = self.elem_done(st)
        return st.set('el', st.read(elem)).set('elc', ('loc', cont)).set('elclosed', None).set(('at', cont[2]), ('w', E.where(node, fr)))

    def elem_done(self, st):
        if st.get('el') is not None and st.get('elclosed') is None:
            self.missed.add((st.get('elc')[1][2], st.get(('at', st.get('elc')[1][2]))[1]))
        return st.set('el', None).set('elclosed', None)

    def done(self, E, st, fr, node, cont):
        if cont[0] != 'F' or root(cont)[:2] != ('O', 'this'):
            return st
        return self.elem_done(st).set('elc', None).set(('all', cont[2]), C1)

    def broke(self, E, st, fr, node, cont):
        return self.elem_done(st)


class Alias(Monitor):
    """Members whose descriptor is also put into a container."""
    throws = False
    fresh_atomics = False

    def __init__(self, P, R, conts):
        super().__init__(P, R)
        self.conts = conts

    def after(self, E, st, fr, node, q, recv, args, res):
        if q.rsplit('::', 1)[-1] in ('insert', 'emplace', 'push_back', 'emplace_back') and args and recv is not None \
                and recv[0] == '&' and recv[1][0] == 'F' and recv[1][2] in self.conts:
            st, v = E.val(st, args[-1], node, fr)
            return st.set('ins', st.get('ins', ()) + (v,))
        return st


def c08(P, R):
    """For every class that opens sockets: what its destructor closes is derived from the destructor itself; on every path of
    every public function and of the worker each result of socket/accept is known to be an error, closed once, or put where
    the destructor closes it (and only if valid); a closed descriptor is taken out of the list of connections and out of
    members, and not passed to any call, before the next element, round or return; an element taken out of the list is
    closed; the destructor closes each element exactly once, after joining the worker."""
    W = Wire(P)
    classes = []
    for f in library_functions(P):
        c = f.get('cls')
        if c and c not in classes and not f['q'].startswith('subprocess::') and any('socket' in posix_calls(g) for g in callees(P, f)) \
                and 'scalopus::Transport' in ((P.records.get(c) or {}).get('allbases') or []):
            classes.append(c)
    if not classes:
        raise AnalysisBroken('no class opens a socket')
    n = 0
    for c in classes:
        this = ('O', 'this', c)
        d = [f for f in P.methods(c) if f['kind'] == 'dtor' and f.get('body') is not None]
        D = Dtor(P, R, W, c)
        ends = []
        for f in d:
            E, outs, thr = run(P, R, D, f, this=this, cls=c)
            ends += outs
        w = '%s:%s' % (rel(d[0]['file']), d[0]['line']) if d else c
        R.ok(D.R1, w)
        if not D.conts and not D.fields:
            R.bad(D.R1, w, 'the destructor of %s closes nothing' % c)
        for f, at in sorted(D.missed):
            if f in D.conts:
                R.bad(D.R1, at, 'a path of the destructor does not close an element of %s' % f.replace(NS, ''))
        for st, v in ends:
            for f in D.conts:
                if st.get(('all', f)) is None:
                    R.bad(D.R1, w, 'a path of the destructor leaves without closing all of %s' % f.replace(NS, ''))
        # members that are also in a container
        alias = set()
        fns = [f for f in P.methods(c) if f['kind'] == 'method' and f.get('body') is not None and f.get('access') == 'public']
        A = Alias(P, R, D.conts)
        for f in fns:
            if any('socket' in posix_calls(g) for g in callees(P, f)):
                E, outs, thr = run(P, R, A, f, this=this, cls=c)
                for st, v in outs:
                    for x in st.get('ins', ()):
                        for fd in (P.records.get(c) or {}).get('fields') or []:
                            if st.read(('F', this, fd['f'])) == x:
                                alias.add(fd['f'])
        for f in alias & D.fields:
            R.bad(D.R1, w, 'the destructor closes %s itself and again as an element of the list' % f.replace(NS, ''))
        mon = Fds(P, R, W, c, D.conts, D.fields, alias)
        for f in fns:
            E, outs, thr = run(P, R, mon, f, this=this, cls=c)
            for st, v in outs:
                mon.check(E, st)
        for lam, g in W.workers(c):
            E, outs, thr = run(P, R, mon, g, this=this, cls=c)
            for st, v in outs:
                mon.check(E, st)
            n += 1
        if not mon.ngot:
            raise AnalysisBroken('no descriptor is obtained in %s' % c)
    if not n:
        raise AnalysisBroken('no worker of a class with sockets found')


CHECKS = {'C08': c08}
