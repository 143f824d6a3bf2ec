"""C26: a recording interval delivers each source's events once, then completes."""
from ..lib import *
from ..terms import *
from ..facts import walk
from .. import models
from ..models import content
from .c18 import strip_cast

SRC = 'scalopus::TraceEventSource'
PROV = 'scalopus::TraceEventProvider'
PHASES = {'startInterval': 'start', 'stopInterval': 'stop', 'finishInterval': 'finish', 'work': 'work'}
R_START = 'starting an interval reaches every source'
R_STOP = 'every source is stopped before any source is asked for its results'
R_INC = 'the results of every source are included exactly once'
R_OUT = 'every collected event is written to the output once'
R_ANS = 'each known command is answered once, with the identifier of that command'
R_DONE = 'completion is announced once per end command, after all data'
R_CHUNK = 'the chunks sent cover all collected events, each once'
R_NEW = 'an interval starts without the data of an earlier one'
R_KEPT = 'data that is handed to a source is kept'
R_SRC = 'every provider contributes its source to a recording'
R_ALLSRC = 'what is done to one source in a loop over all of them is done to each'
ADDERS = ('insert', 'push_back', 'emplace_back', 'splice', 'assign', 'push_front', 'emplace', 'push', 'merge', 'append_range')
HARMLESS = ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'reserve', 'capacity', 'clear', 'rbegin', 'rend', 'front', 'back', 'operator[]', 'at',
            'next', 'prev', 'distance', 'operator+', 'operator!=', 'operator==', 'operator++', 'operator*', 'operator->', 'min', 'max', 'data')


LOOKS = ('size', 'empty', 'find', 'contains', 'count', 'is_null', 'is_object', 'is_array', 'is_string', 'type', 'end', 'begin', 'cbegin', 'cend')


def pack(s):
    return '|'.join(sorted(s))


def unpack(v):
    return frozenset(x for x in v.split('|') if x)


class Loops(Monitor):
    """Which steps every completed loop over a collection performed for each of its elements."""
    throws = True
    ALL = frozenset(('start', 'stop', 'finish', 'work', 'include', 'emit', 'source', 'taken'))

    def kind(self, E, st, cont):
        return None

    def close(self, E, st, fr, node, k):
        cur = st.get(k + 'cur')
        if cur is None:
            return st
        c = unpack(cur[1])
        self.iteration(E, st, fr, node, k, c)
        if 'null' in c:
            c = self.ALL
        a = st.get(k + 'all')
        seen = unpack(st.get(k + 'any')[1]) if st.get(k + 'any') else frozenset()
        st = st.set(k + 'all', ('t', pack(c if a is None else c & unpack(a[1]))))
        return st.set(k + 'any', ('t', pack(seen | c))).set(k + 'cur', None)

    def iteration(self, E, st, fr, node, k, c):
        pass

    def add(self, st, k, what):
        cur = st.get(k + 'cur')
        if cur is None:
            return st
        return st.set(k + 'cur', ('t', pack(unpack(cur[1]) | {what})))

    def inloop(self, st, k):
        return st.get(k + 'cur') is not None

    def visit(self, E, st, fr, node, cont, elem):
        k = self.kind(E, st, cont)
        if k is None:
            return st
        first = st.get(k + 'cur') is None and st.get(k + 'all') is None
        st = self.close(E, st, fr, node, k)
        if first and self.later(elem):
            st = st.set(k + 'all', ('t', ''))       # the loop does not start at the first element
        return st.set(k + 'cur', ('t', '')).set(k + 'elem', ('loc', elem))

    @staticmethod
    def later(elem):
        if elem[0] == 'I' and elem[2][0] == 'c':
            return elem[2] != C0
        if elem[0] == 'E' and elem[2][0] == 'nth':
            t = tag(elem[2][1])
            return len(t) == 2 and t[0] == 'step' and t[1][0] == 'c' and t[1] != C0
        return False

    def done(self, E, st, fr, node, cont):
        k = self.kind(E, st, cont)
        if k is None:
            return st
        st = self.close(E, st, fr, node, k)
        a = st.get(k + 'all')
        any_ = unpack(st.get(k + 'any')[1]) if st.get(k + 'any') else frozenset()
        c = self.ALL if a is None else unpack(a[1])
        st = self.finished(E, st, fr, node, k, c, any_, a is None)
        st = st.set(k + 'all', None).set(k + 'any', None).set(k + 'elem', None)
        return self.cover(st, k, c)

    def cover(self, st, k, c):
        o = st.get(k + 'cov')
        return st.set(k + 'cov', ('t', pack(c | (unpack(o[1]) if o else frozenset()))))

    def finished(self, E, st, fr, node, k, c, any_, empty):
        return st

    def broke(self, E, st, fr, node, cont):
        k = self.kind(E, st, cont)
        return st if k is None else st.set(k + 'cur', None).set(k + 'all', None).set(k + 'any', None).set(k + 'elem', None)

    def covered(self, st, k, what):
        o = st.get(k + 'cov')
        return o is not None and what in unpack(o[1])


def about(loc, fields, cont=None):
    return loc[0] == 'F' and loc[2] in fields or cont is not None and mentions(cont, lambda x: x[0] == 'F' and len(x) == 3 and x[2] in fields)


class Interval(Loops):
    prove = True
    exit_limit = 24
    head_limit = 24

    def __init__(self, P, R, fields, response=None, logger=None):
        super().__init__(P, R)
        self.fields, self.response = fields, response
        self.chunks = []
        self.acc = set()

    def kind(self, E, st, cont):
        c = st.base(cont) if cont[0] != 'D' or True else None
        if tag(c)[:1] == ('results',) or c[0] == 's' and tag(c)[:1] == ('results',):
            return 'r'
        if about(cont, self.fields) or c[0] == 'init' and about(c[1], self.fields):
            return 's'
        a = st.get('acc')
        if a is not None and cont == a[1]:
            return 'e'
        if a is not None and mentions(c, lambda x: x[0] == 'it' and x[1] == a[1]):
            return 'x'
        return None

    # -- the collection may be returned by the function that makes it
    def leave(self, E, st, fr, v):
        a = st.get('acc')
        if a is not None and a[0] == 'loc' and a[1][0] == 'L' and a[1][1] == fr.id and v is not None and fr.parent is not None:
            if any(x.get('k') == 'ret' and any(y.get('k') == 'var' and y.get('id') == a[1][2] for y in walk(x)) for x in walk(fr.fn.get('body') or {})):
                st = self.rebind(st.set('acc', ('val', v)))
        return st

    def enter(self, E, st, fr):
        return self.rebind(st)

    def visit(self, E, st, fr, node, cont, elem):
        return super().visit(E, self.rebind(st), fr, node, cont, elem)

    def rebind(self, st):
        a = st.get('acc')
        if a is not None and a[0] == 'val':
            for l, v in st.mem.items():
                if v == a[1] and l[0] in ('L', 'T'):
                    return st.set('acc', ('loc', l))
        return st

    def known_token(self, v):
        return mentions(v, lambda x: x[0] == 's' and tag(x)[:1] == ('results',))

    def call(self, E, st, fr, node, q, recv, args):
        st0, st = st, self.rebind(st)
        r = self.follow(E, st, fr, node, q, recv, args)
        return self.go(E, st, fr, node, q, recv, args) if r is None and st is not st0 else r

    def follow(self, E, st, fr, node, q, recv, args):
        n = q.rsplit('::', 1)[-1]
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        if q.rsplit('::', 1)[0] == SRC or self.p.records.get(q.rsplit('::', 1)[0], {}).get('allbases') and SRC in self.p.records[q.rsplit('::', 1)[0]]['allbases']:
            p = PHASES.get(n)
            if p is None:
                return None
            return self.source(E, st, fr, node, p, w, chain)
        if q == 'std::function::operator()' and recv is not None and self.response and recv[0] in ('&', 'ptr') and recv[1][0] == 'F' and recv[1][2] == self.response:
            st, v = E.val(st, args[0], node, fr)
            return [(self.respond(E, st, fr, node, v, w, chain), ('void',))]
        if q.endswith('basic_json::dump') and (st.get('eelem') is not None or st.get('xelem') is not None):
            strict = True
            if len(args) > 3 and args[3] is not None:
                h = strip_cast(E.val(st, args[3], node, fr)[1])
                strict = h == C0
            if strict and recv is not None and recv[0] == '&' and (self.is_elem(st, recv[1], 'e') or self.is_elem(st, recv[1], 'x')):
                R.ok(R_OUT, w)
                R.bad(R_OUT, w, 'one event with text that is not UTF-8 prevents every event from being written (the text is refused with an exception)', chain)
        # elements of the collected events
        for k in ('x', 'e'):
            el = st.get(k + 'elem')
            if el is not None and self.inloop(st, k) and n not in ('operator->', 'operator*') + LOOKS:
                vs = [recv] + list(args)
                if any(a is not None and (a[0] in ('&', 'ptr') and self.is_elem(st, a[1], k) or a[0] not in ('&',) and mentions(a, lambda x: x == el[1])) for a in vs):
                    R.ok(R_OUT, w)
                    if n in ('dump', 'operator<<', 'to_string'):
                        if 'dumped' in unpack(st.get(k + 'cur')[1]):
                            R.bad(R_OUT, w, 'an event is written twice', chain)
                        st = self.add(st, k, 'dumped')
                    return self.go(E, self.add(st, k, 'emit'), fr, node, q, recv, args)
        # the collection of results
        tok = [i for i, a in enumerate(args) if a is not None and (self.known_token(a) or a[0] == '&' and self.known_token(st.base(a[1])))]
        if tok and n in ADDERS + ('copy', 'move', 'copy_if', 'transform', 'operator='):
            dst = None
            if n in ADDERS and recv is not None and recv[0] == '&':
                dst = recv[1]
            if n in ('copy', 'move', 'copy_if', 'transform') and len(args) > 2:
                for a in args:
                    b = E.val(st, a, node, fr)[1] if a is not None else ('void',)
                    if b[0] == 'backins':
                        dst = b[1]
            if dst is not None:
                R.ok(R_INC, w)
                if self.inloop(st, 'r'):
                    st = self.add(st, 'r', 'include').set('acc', ('loc', dst))
                else:
                    if st.get('inc') == C1:
                        R.bad(R_INC, w, 'the results of a source are included twice', chain)
                    its = [E.val(st, args[i], node, fr)[1] for i in tok]
                    its = [i for i in its if i[0] == 'it']
                    if n != 'copy_if' and (len(its) != 2 or its[0][2] == ('begin',) and its[1][2] == ('end',)):
                        st = st.set('inc', C1)
                    elif n == 'copy_if':
                        st = st.set('inc', C1)
                    else:
                        R.bad(R_INC, w, 'only part of the results of a source is included', chain)
                        st = st.set('inc', C1)
                    st = st.set('acc', ('loc', dst))
                return self.go(E, st, fr, node, q, recv, args)
        # the collection handed on as a whole
        a = st.get('acc')
        if a is not None and n not in HARMLESS and not E.p.definition((node.get('c') or {}).get('usr', '')):
            if any(x is not None and (x[0] in ('&', 'ptr') and x[1] == a[1]) for x in args) and not (recv is not None and recv[0] == '&' and recv[1] == a[1]):
                st = self.cover(st, 'e', frozenset(('emit',)))
                return self.go(E, st, fr, node, q, recv, args)
        if a is not None and recv is not None and recv[0] == '&' and recv[1] == a[1] and n in ('clear', 'pop_back', 'erase', 'resize') and not self.covered(st, 'e', 'emit'):
            R.ok(R_OUT, w)
            R.bad(R_OUT, w, 'collected events are removed before they are written', chain)
        return None

    def go(self, E, st, fr, node, q, recv, args):
        """Continue the call with the changed type state."""
        c = node.get('c')
        if isinstance(c, dict) and not E.p.definition(c.get('usr', '')):
            r = models.std_call(E, node, c, recv, args, st, fr)
            if r is not None:
                return r
            st, f = E.fresh(st, fr, node, ('ret', ('str', q)))
            return [(st, f)]
        return None

    def is_elem(self, st, loc, k):
        el = st.get(k + 'elem')
        return el is not None and (loc == el[1] or mentions(loc, lambda x: x == el[1]) or st.mem.get(loc) == ('ref', el[1]))

    def source(self, E, st, fr, node, p, w, chain):
        R = self.report_to
        if p == 'finish':
            R.ok(R_STOP, w)
            if not self.covered(st, 's', 'stop'):
                R.bad(R_STOP, w, 'a source is asked for its results before every source is known to be stopped', chain)
            E.maythrow(self.add(st, 's', 'finish'), node, fr, 'std::exception')
            if not self.inloop(st, 's'):
                st = self.cover(st, 's', frozenset(('single-finish',)))
            st = self.add(st, 's', 'finish').set('got', C1).set('inc', C0)
            st, f = E.fresh(st, fr, node, ('results',))
            return [(st, f)]
        if p == 'start':
            # results of an earlier interval do not matter any more
            o = st.get('scov')
            if o is not None:
                st = st.set('scov', ('t', pack(unpack(o[1]) - {'stop', 'finish'})))
        st = self.add(st, 's', p)
        st = st.set('did', ('t', pack({p} | (unpack(st.get('did')[1]) if st.get('did') else frozenset()))))
        return [(st, ('void',))]

    def iteration(self, E, st, fr, node, k, c):
        if k == 's' and 'finish' in c and st.get('got') == C1 and st.get('inc') == C0:
            w, chain = where_chain(E, node, fr)
            self.report_to.bad(R_INC, w, 'the results of a source are dropped', chain)

    def close(self, E, st, fr, node, k):
        st = super().close(E, st, fr, node, k)
        if k == 's':
            st = st.set('got', None).set('inc', None)
        return st

    def finished(self, E, st, fr, node, k, c, any_, empty):
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        if k == 'r' and st.get('got') == C1:
            R.ok(R_INC, w)
            if 'include' in c:
                if st.get('inc') == C1:
                    R.bad(R_INC, w, 'the results of a source are included twice', chain)
                st = st.set('inc', C1)
            elif 'include' in any_:
                R.bad(R_INC, w, 'some results of a source are left out', chain)
                st = st.set('inc', C1)
        if k == 's' and not empty:
            R.ok(R_ALLSRC, w)
            for p in sorted(any_ - c):
                if p in ('start', 'stop', 'finish'):
                    R.bad({'start': R_START, 'stop': R_STOP, 'finish': R_INC}[p], w, 'the loop over the sources leaves some of them out (%s)' % p, chain)
        if k == 'x':
            st = self.cover(self.add(st, 'e', 'emit') if 'emit' in c else st, 'e', c)
        if k in ('e', 'x') and not empty:
            R.ok(R_OUT, w)
            if 'emit' in any_ and 'emit' not in c:
                R.bad(R_OUT, w, 'some collected events are never written', chain)
        return st

    def nothing(self, E, st):
        """Is it known that no events were collected?"""
        a = st.get('acc')
        if a is None:
            return False
        if a[0] == 'loc' and E.decide(st, ('op', '==', models.size_of(content(st, a[1]), a[1]), C0)) is True:
            return True
        # a number of chunks that is zero
        L = Poly(self.p)
        for f, tv in st.facts.items():
            if len(f) == 4 and (f[1] == '<' and f[2] == C0 and not tv or f[1] == '==' and f[3] == C0 and tv):
                y = L.of(f[3] if f[1] == '<' else f[2])
                r = L.quotient(y)
                if r is not None and r[1] * (1 - r[2]) - 1 - r[0] <= 0:
                    return True
        return False

    def done(self, E, st, fr, node, cont):
        if self.kind(E, st, cont) == 'x':
            c = st.base(cont)
            if c[0] == 'op' and c[1] == 'range' and c[2][0] == 'it' and c[3][0] == 'it':
                self.chunk(E, st, fr, node, models.position(c[2]), models.position(c[3]))
        return super().done(E, st, fr, node, cont)

    def chunk(self, E, st, fr, node, a, b):
        if a is None or b is None:
            return
        w, chain = where_chain(E, node, fr)
        facts = [(f, tv) for f, tv in st.facts.items() if len(f) == 4 and f[1] in ('<', '==') and mentions(f, lambda x: x[0] == 'phi')]
        self.chunks.append((a, b, facts, w, chain))

    def assumed(self, E, st, fr, node, atom, truth):
        if atom[1] == '==' and truth and len(atom) == 4 and atom[2][0] == 'size' and atom[3] == C0:
            if st.get('got') == C1 and st.get('inc') == C0 and self.known_token(atom[2]):
                st = st.set('inc', ('none',))
        if atom[1] == '==' and truth and len(atom) == 4 and atom[3] == C0:
            a = st.get('acc')
            if a is not None and a[0] == 'loc' and strip_cast(atom[2]) == strip_cast(models.size_of(content(st, a[1]), a[1])):
                st = self.cover(st, 'e', self.ALL)
        if atom[1] == '==' and truth and len(atom) == 4:
            for a, b in ((atom[2], atom[3]), (atom[3], atom[2])):
                if a[0] == 'p' and a[2] == ('K', ('str', 'method')) and b[0] == 'str' and self.response:
                    st = st.set('cmd', ('str', b[1]))
                if b == C0 and self.inloop(st, 's') and a[0] == 's' and tag(a)[:1] == ('elem',):
                    st = self.add(st, 's', 'null')
        return st

    def respond(self, E, st, fr, node, v, w, chain):
        R = self.report_to
        text = repr(v)
        cmd = st.get('cmd')
        rec = v
        while rec[0] == 'op' and rec[1] in ('json.dump', 'concat', 'text') and len(rec) == 3:
            rec = rec[2]
        answers = []
        mentions(v, lambda x: answers.append(x) if x[0] == 'rec' and any(len(s) == 1 and s[0] == ('K', ('str', 'id')) for s, y in x[2]) else False)
        if answers:
            R.ok(R_ANS, w)
            ident = [y for s, y in answers[0][2] if s[0] == ('K', ('str', 'id'))][0]
            if ident[0] != 'p' and ident[0] in ('c', 'str', 'empty', 'default') or ident[0] == 'p' and ident[2] != ('K', ('str', 'id')) and ident[2][0] == 'K':
                R.bad(R_ANS, w, 'the answer carries %s instead of the identifier of the command' % show(ident), chain)
            if st.get('answered'):
                R.bad(R_ANS, w, 'a command is answered twice', chain)
            return st.set('answered', C1)
        if 'Tracing.tracingComplete' in text:
            R.ok(R_DONE, w)
            if st.get('complete'):
                R.bad(R_DONE, w, 'completion is announced twice', chain)
            if not self.covered(st, 'e', 'emit') and not self.nothing(E, st):
                if not self.covered(st, 's', 'finish') or st.get('acc') is not None:
                    R.bad(R_DONE, w, 'completion is announced before all collected events are sent', chain)
            if cmd is not None and cmd[1] != 'Tracing.end':
                R.bad(R_DONE, w, 'completion is announced for %s' % cmd[1], chain)
            return st.set('complete', C1)
        if 'Tracing.dataCollected' in text or tag(v)[:1] == ('str',):
            R.ok(R_DONE, w)
            if st.get('complete'):
                R.bad(R_DONE, w, 'data is sent after completion was announced', chain)
            return st.set('data', C1)
        return st


class Poly:
    """Sums of products over unknowns; the size of the collection is the unknown 'n'."""

    def __init__(self, P):
        self.consts = {}
        for r in P.records.values():
            for f in r['fields']:
                e = f.get('inite')
                while isinstance(e, dict) and e.get('k') == 'cast':
                    e = e['e']
                if f.get('const') and isinstance(e, dict) and (e.get('cv') is not None or e.get('k') == 'int'):
                    self.consts[f['f']] = int(e['cv'] if e.get('cv') is not None else e['v'])

    def of(self, t):
        t = strip_cast(t)
        if t[0] == 'c' and isinstance(t[1], (int, bool)):
            return {(): int(t[1])} if t[1] else {}
        if t[0] == 'init' and t[1][0] == 'F' and t[1][2] in self.consts:
            return {(): self.consts[t[1][2]]}
        if t[0] == 'size':
            return {('n',): 1}
        if t[0] == 'op' and len(t) == 4:
            if t[1] in ('+', '-', '*'):
                a, b = self.of(t[2]), self.of(t[3])
                if t[1] == '*':
                    r = {}
                    for m, x in a.items():
                        for k, y in b.items():
                            z = tuple(sorted(m + k, key=repr))
                            r[z] = r.get(z, 0) + x * y
                    return {m: x for m, x in r.items() if x}
                return self.sum(a, b, 1 if t[1] == '+' else -1)
            if t[1] in ('min', '/'):
                return {((t[1],) + tuple(self.key(self.of(x)) for x in t[2:]),): 1}
        return {(t,): 1}

    def key(self, p):
        return tuple(sorted(p.items(), key=repr))

    def sum(self, a, b, k=1):
        r = dict(a)
        for m, x in b.items():
            r[m] = r.get(m, 0) + k * x
            if not r[m]:
                del r[m]
        return r

    def const(self, p):
        return None if any(m != () for m in p) else p.get((), 0)


    def quotient(self, y):
        """y = (n + k) / d + e: (k, d, e)."""
        q = [m for m in y if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == '/']
        if len(q) != 1 or y[q[0]] != 1:
            return None
        e = self.const({m: v for m, v in y.items() if m != q[0]})
        k = self.const(self.sum(dict(q[0][0][1]), {('n',): 1}, -1))
        d = self.const(dict(q[0][0][2]))
        return None if e is None or k is None or d is None else (k, d, e)


def chunks(P, R, mon):
    """The pieces of the collection that are sent: first position, distance, length and the condition of the loop."""
    if not mon.chunks:
        return
    L = Poly(P)
    w, chain = mon.chunks[0][3], mon.chunks[0][4]
    R.ok(R_CHUNK, w)
    firsts = sorted({L.const(L.of(a)) for a, b, f, w, c in mon.chunks} - {None})
    if firsts and firsts[0] != 0:
        R.bad(R_CHUNK, w, 'the first chunk does not start at the first event', chain)
        return
    steps = {y - x for x, y in zip(firsts, firsts[1:])}
    if len(steps) != 1:
        return
    d = steps.pop()
    N = {('n',): 1}
    for a, b, facts, w, chain in mon.chunks:
        A, B = L.of(a), L.of(b)
        D = L.sum(B, A, -1)
        length = None
        mins = [m for m in D if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'min']
        if not mins:
            # min(start + length, size)
            mins = [m for m in B if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'min']
            if len(mins) == 1 and B == {mins[0]: 1}:
                sides = [dict(x) for x in mins[0][0][1:]]
                if N in sides:
                    o = [x for x in sides if x != N]
                    length = L.const(L.sum(o[0], A, -1)) if o else None
            elif L.const(D) is not None and L.const(A) is None:
                R.bad(R_CHUNK, w, 'the last chunk reaches past the end of the collected events', chain)
                return
            elif B == N or 'n' in str(D):
                continue
        elif len(mins) == 1 and D == {mins[0]: 1}:
            rest = L.sum(N, A, -1)
            sides = [dict(x) for x in mins[0][0][1:]]
            if rest in sides:
                o = [x for x in sides if x != rest]
                length = L.const(o[0]) if o else None
        if length is None:
            continue
        R.ok(R_CHUNK, w)
        if length != d:
            R.bad(R_CHUNK, w, 'chunks of %d events start %d events apart: events are %s' % (length, d, 'sent twice' if length > d else 'left out'), chain)
            return
        if L.const(A) is not None:
            continue
        for f, tv in facts:
            x, y = L.of(f[2]), L.of(f[3])
            extra = 0
            if f[1] == '==' and not tv or f[1] == '<' and tv:
                pass
            elif f[1] == '<' and not tv:
                x, y, extra = y, x, 1
            else:
                continue
            # the loop goes on while x < y + extra
            if x == A and y.get(('n',)) == 1:
                k = L.const(L.sum(y, N, -1))
                if k is not None and k + extra < 0:
                    R.bad(R_CHUNK, w, 'the last events are not sent', chain)
                continue
            c = L.sum({m: v * d for m, v in x.items()}, A, -1)
            if c:
                continue
            q = L.quotient(y)
            if q is None:
                continue
            k, den, e = q[0], q[1], q[2] + extra
            R.ok(R_CHUNK, w)
            if den != d:
                R.bad(R_CHUNK, w, 'the number of chunks is computed for chunks of %d events, they have %d' % (den, d), chain)
            elif k + e * d < d - 1:
                R.bad(R_CHUNK, w, 'there are too few chunks for some numbers of events: the last events are not sent', chain)
            elif k + (e - 1) * d > 0:
                R.bad(R_CHUNK, w, 'there are too many chunks for some numbers of events: the last one starts past the end', chain)


def source_fields(P, cls, what=SRC):
    res = set()
    for f in P.records.get(cls, {}).get('fields', ()):
        t = f['tt'] if f.get('tt') else f['t']
        if what in str(t) + f['t'] and ('vector' in f['t'] or 'list' in f['t'] or 'set' in f['t'] or 'deque' in f['t'] or 'map' in f['t']):
            res.add(f['f'])
    return res


def managers(P):
    return {c: fs for c in P.records for fs in [source_fields(P, c)] if fs and SRC not in (P.records[c].get('allbases') or ()) and
            any(f.get('body') is not None and library(f) and any(x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('n', x['c'].get('q', '').rsplit('::', 1)[-1]) == 'finishInterval'
                for x in walk(f)) for f in P.methods(c))}


def recorder(P, R, cls, fields):
    for f in public_methods(P, cls):
        if f.get('body') is None:
            continue
        want = {'startInterval': ('start',), 'stopInterval': ('stop',), 'collectEvents': ('stop', 'finish')}.get(f['n'])
        mon = Interval(P, R, fields)
        E, outs, thr = run(P, R, mon, f, this=('O', 'this', cls), cls=cls)
        w = '%s:%s' % (rel(f['file']), f['line'])
        for st, v in outs:
            for p in want or ():
                rule = {'start': R_START, 'stop': R_STOP, 'finish': R_INC}[p]
                R.ok(rule, w)
                if not mon.covered(st, 's', p):
                    R.bad(rule, w, '%s can return without having reached every source (%s)' % (f['n'], p))
            if f['n'] == 'collectEvents' and st.get('acc') is not None:
                R.ok(R_OUT, w)
                if not mon.covered(st, 'e', 'emit') and not mentions(v or C0, lambda x: x == st.get('acc')[1]):
                    R.bad(R_OUT, w, 'the events that were collected do not reach the output')


def session(P, R, cls, fields):
    """The function that takes one message and answers it."""
    resp = None
    for c in ctors(P, cls):
        if any('std::function' in p['t'] for p in c['p']):
            for i in c.get('inits', ()):
                if i.get('f') and any(x.get('k') == 'var' and x.get('vk') == 'param' for x in walk(i['e'])):
                    resp = i['f']
    if resp is None:
        cands = [f['f'] for f in P.records[cls]['fields'] if 'std::function' in f['t'] and 'const std::basic_string' not in f['t'] and 'const std::string' not in f['t']]
        resp = cands[0] if len(cands) == 1 else None
    if resp is None:
        raise AnalysisBroken('the function %s sends its answers with was not found' % cls)
    entries = []
    for f in P.methods(cls):
        if f.get('body') is None or f['kind'] != 'method':
            continue
        if parses(P, f) and reaches(P, f, resp):
            inner = [g for g in callees(P, f) if g is not f and g.get('cls') == cls and g['kind'] == 'method' and parses(P, g) and reaches(P, g, resp)]
            if not inner:
                entries.append(f)
    if not entries:
        raise AnalysisBroken('no function of %s takes a message and answers it' % cls)
    for f in entries:
        mon = Interval(P, R, fields, response=resp)
        E, outs, thr = run(P, R, mon, f, this=('O', 'this', cls), cls=cls)
        w = '%s:%s' % (rel(f['file']), f['line'])
        chunks(P, R, mon)
        for st, v in outs:
            cmd = st.get('cmd')
            if cmd is None:
                continue
            R.ok(R_ANS, w)
            if not st.get('answered'):
                R.bad(R_ANS, w, 'the command %s may not be answered' % cmd[1])
            if cmd[1] == 'Tracing.start':
                R.ok(R_START, w)
                if not mon.covered(st, 's', 'start'):
                    R.bad(R_START, w, 'the start command may not reach every source')
            if cmd[1] == 'Tracing.end':
                R.ok(R_DONE, w)
                if not st.get('complete'):
                    R.bad(R_DONE, w, 'completion may never be announced for an end command')
                if not mon.covered(st, 's', 'finish'):
                    R.bad(R_INC, w, 'the end command may not ask every source for its results')
        for t in thr:
            st = t[0]
            cmd = st.get('cmd')
            if cmd is not None and cmd[1] == 'Tracing.end' and (st.get('got') is not None or mon.inloop(st, 's')) and not st.get('complete'):
                R.bad(R_DONE, w, 'completion is never announced if collecting the events of a source fails')


def parses(P, f):
    return any(x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('q', '').endswith('basic_json::parse') for g in callees(P, f) for x in walk(g))


def reaches(P, f, resp):
    return any(x.get('k') == 'mem' and x.get('f') == resp for g in callees(P, f) for x in walk(g))


class Fresh(Monitor):
    """startInterval() of a source: the containers its results are made from are emptied before data can arrive."""
    throws = False

    def __init__(self, P, R, data):
        super().__init__(P, R)
        self.data = data


def sources(P, R):
    for cls in sorted(c for c, r in P.records.items() if SRC in (r.get('allbases') or ()) and library({'file': r['file']})):
        ms = {f['n']: f for f in P.methods(cls) if f.get('body') is not None and f['kind'] == 'method'}
        fin, sta = ms.get('finishInterval'), ms.get('startInterval')
        if fin is None:
            continue
        conts = {f['f'] for f in P.records[cls]['fields'] if any(t in f['t'] for t in ('vector', 'list', 'deque', 'map', 'set')) and 'function' not in f['t']}
        data = {x['f'] for g in callees(P, fin) for x in walk(g) if x.get('k') == 'mem' and x.get('f') in conts}
        if not data:
            continue
        w0 = '%s:%s' % (rel(fin['file']), fin['line'])
        if sta is None:
            R.bad(R_NEW, w0, '%s collects data but does nothing when an interval starts' % cls)
            continue
        w = '%s:%s' % (rel(sta['file']), sta['line'])
        this = ('O', 'this', cls)

        class M(Monitor):
            throws = False

            def call(self, E, st, fr, node, q, recv, args):
                # a callback that fills the container is handed out
                for a in args:
                    if a is None:
                        continue
                    s, v = E.val(st, a, node, fr)
                    if v[0] == 'lam' and not (node.get('c') or {}).get('lambda') and 'function' not in q.rsplit('::', 1)[0]:
                        d = self.p.definition(v[1])
                        if d is not None and any(x.get('k') == 'mem' and x.get('f') in data for x in walk(d)):
                            for f in data:
                                self.check(E, st, fr, node, f)
                return None

            def check(self, E, st, fr, node, f):
                w, chain = where_chain(E, node, fr)
                self.report_to.ok(R_NEW, w)
                if stale(E, st, this, f):
                    self.report_to.bad(R_NEW, w, 'data of an earlier interval can still be in %s when new data is let in' % f.rsplit('::', 1)[-1], chain)
        stored(P, R, cls, this, data, PHASES)
        E, outs, thr = run(P, R, M(P, R), sta, this=this, cls=cls)
        for st, v in outs:
            for f in sorted(data):
                R.ok(R_NEW, w)
                if stale(E, st, this, f):
                    R.bad(R_NEW, w, 'an interval can start with data of an earlier one in %s' % f.rsplit('::', 1)[-1])


def stored(P, R, cls, this, data, skip):
    """A function that is handed data keeps it, whatever it already has."""
    for f in P.methods(cls):
        if f.get('body') is None or f['kind'] != 'method' or not f['p'] or f['n'] in skip or not public(f):
            continue
        if not any(adds(g, data) for g in callees(P, f)):
            continue
        E, outs, thr = run(P, R, Monitor(P, R), f, this=this, cls=cls)
        w = '%s:%s' % (rel(f['file']), f['line'])
        for st, v in outs:
            for d in sorted(data):
                loc = ('F', this, d)
                had = any(E.decide(st, ('op', '==', models.size_of(x, loc), C0)) is False for x in (('init', loc),))
                R.ok(R_KEPT, w)
                if content(st, loc) == ('init', loc) and any(adds(g, {d}) for g in callees(P, f)) and (had or asks(f, d)):
                    R.bad(R_KEPT, w, 'data that is handed in can be left out depending on what %s already holds' % d.rsplit('::', 1)[-1])


def public(f):
    return f.get('access', 'public') == 'public'


def adds(g, data):
    for x in walk(g):
        if x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('q', '').rsplit('::', 1)[-1] in ADDERS:
            if any(y.get('k') == 'mem' and y.get('f') in data for y in walk(x)):
                return True
    return False


def asks(f, d):
    """Does a condition look at the container?"""
    return any(x.get('k') in ('if', 'cond') and any(y.get('k') == 'mem' and y.get('f') == d for y in walk(x.get('cond') or x.get('c') or {})) for x in walk(f))


def stale(E, st, this, f):
    loc = ('F', this, f)
    v = content(st, loc)
    return v == ('init', loc) and E.decide(st, ('op', '==', models.size_of(v, loc), C0)) is not True


class Provide(Loops):
    """Makes a source for every provider and keeps it."""

    def __init__(self, P, R, fields):
        super().__init__(P, R)
        self.fields = fields

    def kind(self, E, st, cont):
        c = st.base(cont)
        return 'p' if about(cont, self.fields) or c[0] == 'init' and about(c[1], self.fields) else None

    def call(self, E, st, fr, node, q, recv, args):
        n = q.rsplit('::', 1)[-1]
        if n == 'makeSource':
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(R_SRC, w)
            E.maythrow(self.add(st, 'p', 'source'), node, fr, 'std::exception')
            st = self.add(st, 'p', 'source')
            st, f = E.fresh(st, fr, node, ('source',))
            return [(st, f)]
        if n in ADDERS + ('addSource', 'operator='):
            for a in args:
                if a is not None and mentions(E.val(st, a, node, fr)[1], lambda x: x[0] == 's' and tag(x)[:1] == ('source',)):
                    s2 = self.add(st, 'p', 'taken')
                    c = node.get('c')
                    if isinstance(c, dict) and not E.p.definition(c.get('usr', '')):
                        r = models.std_call(E, node, c, recv, args, s2, fr)
                        if r is not None:
                            return r
                    st, f = E.fresh(s2, fr, node, ('ret', ('str', q)))
                    return [(st, f)]
        return None

    def finished(self, E, st, fr, node, k, c, any_, empty):
        w, chain = where_chain(E, node, fr)
        if not empty and 'source' in any_:
            self.report_to.ok(R_SRC, w)
            if 'source' not in c:
                self.report_to.bad(R_SRC, w, 'some providers are not asked for a source', chain)
            elif 'taken' not in c:
                self.report_to.bad(R_SRC, w, 'a source that was made is not added to the recording', chain)
        return st


def providers(P, R):
    n = 0
    for cls in sorted(P.records):
        fields = source_fields(P, cls, PROV)
        if not fields:
            continue
        for f in P.methods(cls):
            if f.get('body') is None or not library(f) or not any(x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('q', '').endswith('::makeSource') for x in walk(f)):
                continue
            n += 1
            mon = Provide(P, R, fields)
            E, outs, thr = run(P, R, mon, f, this=('O', 'this', cls), cls=cls)
    if not n:
        raise AnalysisBroken('nothing asks the providers for their sources')


def c26(P, R):
    """Loops over the sources are followed with what each iteration did; a session's handler is followed per command with what
    it sent; the results of a source are a token that must enter the collection once, and the collection must be written."""
    ms = managers(P)
    if not ms:
        raise AnalysisBroken('no class collects the results of its sources')
    for cls in sorted(ms):
        pub = {f['n'] for f in public_methods(P, cls)}
        if 'startInterval' in pub or 'collectEvents' in pub:
            recorder(P, R, cls, ms[cls])
        else:
            session(P, R, cls, ms[cls])
    sources(P, R)
    providers(P, R)


CHECKS = {'C26': c26}
