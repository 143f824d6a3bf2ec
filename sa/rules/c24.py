"""C24: the event ring buffer never loses, duplicates, tears or invents an element."""
from ..lib import *
from ..terms import *
from .. import models
from ..facts import walk
from .c18 import strip_cast

RING = 'scalopus::SPSCRingBuffer'
R_PUB = 'an element is written before the index that announces it is stored with release ordering, and only then'
R_FREE = 'a slot is given back with release ordering, and only after its element was taken'
R_SEE = 'the index of the other side is loaded with acquire ordering and compared before a slot is used'
R_IDX = 'the slot used is the one the own index designates, and the own index advances by exactly the elements transferred'
R_NOP = 'a push to a full buffer and a pop from an empty one change nothing'
R_SHARE = 'only the indices are shared between the two sides, and each is stored by one side only'
R_ZERO = 'a container without elements is refused and the indices start equal'
R_COUNT = 'the number of elements reported follows from the two indices'
RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ = range(6)
STORES = ('store', 'exchange', 'operator=', 'operator++', 'operator--', 'operator+=', 'operator-=', 'fetch_add', 'fetch_sub',
          'compare_exchange_weak', 'compare_exchange_strong')


class Shape:
    """The members of the class, by their role."""

    def __init__(self, P):
        r = P.records.get(RING)
        if r is None:
            raise AnalysisBroken('%s not found' % RING)
        self.atomics = {f['f'] for f in r['fields'] if f['t'].startswith('std::atomic')}
        self.sizes = {f['f'] for f in r['fields'] if f.get('scalar') and not f['t'].startswith('std::atomic') and f['f'] not in self.atomics}
        self.conts = {f['f'] for f in r['fields']} - self.atomics - self.sizes
        self.fields = {f['f'] for f in r['fields']}


def stored(P, f, S):
    res = {}
    for g in callees(P, f):
        if g.get('cls') != RING:
            continue
        for n in walk(g):
            if n.get('k') == 'call' and isinstance(n.get('c'), dict) and 'atomic' in n['c'].get('q', '') and n['c'].get('n', n['c']['q'].rsplit('::', 1)[-1]) in STORES:
                o = n.get('o')
                while isinstance(o, dict) and o.get('k') == 'cast':
                    o = o['e']
                if isinstance(o, dict) and o.get('k') == 'mem' and o.get('f') in S.atomics:
                    res[o['f']] = '%s:%s' % (rel(g['file']), n['l'])
    return res


def remember(st, f, t):
    """Decisions survive where paths meet (the engine keeps states with different type states apart)."""
    if st.get('slot') or st.get('advanced') or mentions(f, lambda x: x[0] == 'phi'):
        return st
    d = st.get('dec') or ('dec',)
    return st if len(d) > 16 or f in d else st.set('dec', d + (f, ('c', int(t))))


def known(st):
    r = dict(st.facts)
    d = st.get('dec') or ('dec',)
    for i in range(1, len(d), 2):
        r[d[i]] = bool(d[i + 1][1])
    return r


class Lin:
    """Sums of the two indices, the size of the container and whatever else appears in them."""

    def __init__(self, S, W, R):
        self.S, self.W, self.R = S, W, R

    def sym(self, t):
        """'W', 'R', 'N', or the term itself."""
        if t[0] == 's' and isinstance(t[3], tuple) and t[3][0] == 'idx':
            return {self.W: 'W', self.R: 'R'}.get(t[3][1], t)
        if t[0] == 'init' and t[1][0] == 'F':
            if t[1][2] == self.W:
                return 'W'
            if t[1][2] == self.R:
                return 'R'
            if t[1][2] in self.S.sizes:
                return 'N'
        if t[0] == 'size' and mentions(t, lambda x: x[0] == 'F' and len(x) == 3 and x[2] in self.S.conts):
            return 'N'
        return t

    def of(self, t):
        """{symbol: coefficient}, with the constant under None."""
        t = strip_cast(t)
        if t[0] == 'c' and isinstance(t[1], (int, bool)):
            k = int(t[1])
            return {None: k - (1 << 64) if k >= 1 << 63 else k} if k else {}
        if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
            a, b = self.of(t[2]), self.of(t[3])
            return self.sum(a, b, 1 if t[1] == '+' else -1)
        return {self.sym(t): 1}

    def sum(self, a, b, k=1):
        r = dict(a)
        for s, c in b.items():
            r[s] = r.get(s, 0) + k * c
            if not r[s]:
                del r[s]
        return r

    def known(self, d):
        return all(s in ('W', 'R', 'N', None) for s in d)

    def wrapped(self, t):
        """The sum under `% size`, or None."""
        t = strip_cast(t)
        if t[0] == 'op' and t[1] == '%' and self.of(t[3]) == {'N': 1}:
            return self.of(t[2])
        return None

    def facts(self, st):
        """(difference a-b, operator, truth, fact) of every comparison."""
        for f, tv in known(st).items():
            if len(f) == 4 and f[1] in ('==', '<') and f[3][0] != 'str':
                yield self.sum(self.of(f[2]), self.of(f[3]), -1), f[1], tv, f

    def holds(self, st, d, op, want):
        """Is `d op 0` known to be want?"""
        neg = {s: -c for s, c in d.items()}
        for e, o, tv, f in self.facts(st):
            if op == '==' and o == '==' and e in (d, neg) and tv == want:
                return True
            if op == '==' and not want and o == '<' and tv and e in (d, neg):
                return True
            if op == '<' and o == '<':
                if e == d and tv == want:
                    return True
                if not want and tv and e == neg:            # 0 < d
                    return True
                if want and not tv and e == neg and self.holds(st, d, '==', False):
                    return True
                if want and not tv and e == self.sum(neg, {None: -1}):    # not (-d-1 < 0), that is d <= -1
                    return True
        return False

    def equal(self, st, t, d):
        """Is t the value of the sum d, reduced to the size of the container?  True, False or None (not understood)."""
        w = self.wrapped(t)
        if w is not None:
            e = self.sum(w, d, -1)
            if not e or e in ({'N': 1}, {'N': -1}):
                return True
            return False if self.known(w) else None
        v = self.of(t)
        full = self.sum(d, {'N': 1}, -1)
        if v == d:
            return True if self.holds(st, full, '==', False) or self.holds(st, full, '<', True) or self.known(d) and sum(abs(c) for s, c in d.items()) == 1 and None not in d else False
        if not v or v == full:
            return True if self.holds(st, full, '==', True) or self.holds(st, full, '<', False) else False if self.known(v) else None
        return False if self.known(v) else None

    def avail(self, st):
        """The number of elements in the buffer, as a sum, if it is known which index is ahead."""
        d = {'W': 1, 'R': -1}
        if self.holds(st, d, '<', False) or self.holds(st, d, '==', True):
            return d
        if self.holds(st, d, '<', True):
            return self.sum(d, {'N': 1})
        return None


def order(args, E, st, node, fr, default=SEQ):
    for a in args:
        if a is not None:
            v = E.val(st, a, node, fr)[1]
            if v[0] == 'c':
                return v[1]
    return default


class Side(Monitor):
    throws = False
    wants_access = True
    fresh_atomics = True
    exit_limit = 16

    def __init__(self, P, R, S, L, own, other, kind, fn):
        super().__init__(P, R)
        self.S, self.L, self.own, self.other, self.kind, self.fn = S, L, own, other, kind, fn
        self.reads, self.writes = {}, {}
        self.bounds = []
        self.out = False

    def moved(self, E, st, fr, node, loc, rq):
        r = root(loc)
        if r[0] == 'O' and r[1].startswith('arg:') and not st.get('slot'):
            return st.set('spent', C1)
        return st

    def rule(self):
        return R_PUB if self.kind == 'push' else R_FREE

    def call(self, E, st, fr, node, q, recv, args):
        n = q.rsplit('::', 1)[-1]
        if q == 'std::atomic_thread_fence':
            o = order(args, E, st, node, fr)
            if o in (ACQUIRE, ACQ_REL, SEQ):
                st = st.set('fence_a', C1)
            if o in (RELEASE, ACQ_REL, SEQ):
                st = st.set('fence_r', C1)
            return [(st, ('void',))]
        if 'back_insert_iterator' in q and n == 'operator=':
            self.out = True
        if 'atomic' in q and recv is not None and recv[0] in ('&', 'ptr') and recv[1][0] == 'F' and recv[1][2] in self.S.atomics:
            loc = recv[1]
            f = loc[2]
            w, chain = where_chain(E, node, fr)
            if n == 'load' or n.startswith('operator ') or n == 'operator T':
                if f == self.own:
                    return [(st, st.read(loc))]
                o = order(args, E, st, node, fr)
                st, v = E.fresh(st, fr, node, ('idx', f, ('c', o)))
                st = E.assume(st, ('op', '<', v, ('init', ('F', loc[1], sorted(self.S.sizes)[0]))), True) if self.S.sizes else st
                return [(st, v)] if st is not None else []
            if n in ('store', 'operator='):
                st, v = E.val(st, args[0], node, fr)
                o = order(args[1:], E, st, node, fr) if n == 'store' else SEQ
                return [(self.advance(E, st, fr, node, loc, v, o), v)]
        return None

    def advance(self, E, st, fr, node, loc, v, o):
        """The own index is stored."""
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        rule = self.rule()
        R.ok(rule, w)
        if loc[2] != self.own:
            return st.write(loc, v)
        if o not in (RELEASE, ACQ_REL, SEQ) and not st.get('fence_r'):
            R.bad(rule, w, 'the index is stored without release ordering: the other side may see it before the element is %s' %
                  ('written' if self.kind == 'push' else 'taken'), chain)
        if st.get('advanced'):
            R.bad(R_IDX, w, 'the index is stored twice', chain)
        if self.kind != 'pop_into':
            if not st.get('slot'):
                R.bad(rule, w, 'the index is stored before the element is ' + ('written' if self.kind == 'push' else 'taken'), chain)
            R.ok(R_IDX, w)
            if self.L.equal(st, v, {('W' if self.kind == 'push' else 'R'): 1, None: 1}) is False:
                R.bad(R_IDX, w, 'the index does not advance by one, wrapping at the size of the container', chain)
        return st.write(loc, v).set('advanced', ('v', v))

    def access(self, E, st, fr, node, loc, rw):
        f = None
        inside = False
        x = loc
        chain_ = []
        while x[0] in PARTS:
            chain_.append(x)
            x = x[1]
        if x != fr.stack()[-1].this and x != ('O', 'this', RING):
            return st
        for p in chain_:
            if p[0] == 'F' and p[2] in self.S.fields:
                f = p[2]
        if f is None:
            return st
        slot = [p for p in chain_ if p[0] == 'I' and p[1][0] == 'F' and p[1][2] in self.S.conts]
        w, chain = where_chain(E, node, fr)
        if not slot:
            if f not in self.S.atomics:
                (self.writes if 'w' in rw else self.reads).setdefault(f, w)
            return st
        R = self.report_to
        idx = slot[-1][2]
        R.ok(self.rule(), w)
        R.ok(R_SEE, w)
        if st.get('advanced'):
            R.bad(self.rule(), w, 'the slot is still used after the index that %s was stored' % ('announces it' if self.kind == 'push' else 'gives it back'), chain)
        own = {('W' if self.kind == 'push' else 'R'): 1}
        if not st.get('slot') or self.kind != 'pop_into':
            R.ok(R_IDX, w)
            if self.L.equal(st, idx, own) is False:
                R.bad(R_IDX, w, 'the slot used is not the one the own index designates', chain)
        elif self.L.equal(st, idx, own) is None and self.L.wrapped(idx) is None:
            v = self.L.of(idx)
            if self.L.known(v):
                R.bad(R_IDX, w, 'the slot used may lie outside the container', chain)
            elif idx[0] == 'phi' and not self.below(st, v):
                R.bad(R_IDX, w, 'the slot used may lie outside the container', chain)
        self.seen(E, st, w, chain)
        return st.set('slot', C1)

    def below(self, st, v):
        return self.L.holds(st, self.L.sum(v, {'N': 1}, -1), '<', True)

    def seen(self, E, st, w, chain):
        """The comparison with the index of the other side that makes the slot usable."""
        L, R = self.L, self.report_to
        any_, strong, strange = False, False, False
        for f in known(st):
            for t in self.others(f):
                o = t[3][2][1]
                # the bound on the index itself says nothing about the slot
                if f[1] == '<' and f[2] == t and self.L.of(f[3]) == {'N': 1}:
                    continue
                any_ = True
                strong |= o in (ACQUIRE, CONSUME, ACQ_REL, SEQ) or bool(st.get('fence_a'))
            d = L.sum(L.of(f[2]), L.of(f[3]), -1) if len(f) == 4 and f[1] in ('==', '<') else {('?',): 1}
            strange |= not L.known(d) and not any(L.wrapped(x) is not None and L.known(L.wrapped(x)) for x in (f[2], f[3]))
        if not any_:
            if self.kind != 'pop_into' and not strange:
                R.bad(R_SEE, w, 'the slot is used without comparing the own index with that of the other side', chain)
            elif self.kind == 'pop_into' and not self.counted(st):
                R.bad(R_SEE, w, 'slots are used without comparing the own index with that of the other side', chain)
            return
        if not strong:
            R.bad(R_SEE, w, 'the index of the other side is loaded without acquire ordering before the slot is used', chain)
        if self.kind == 'pop_into' or strange:
            return
        if self.kind == 'push':
            good = False
            for f, tv in known(st).items():
                if f[1] == '==' and not tv:
                    for a, b in ((f[2], f[3]), (f[3], f[2])):
                        if L.of(b) == {'R': 1} and L.equal(st, a, {'W': 1, None: 1}):
                            good = True
                        if L.of(b) == {} and L.wrapped(a) is not None and L.wrapped(a) in ({'W': 1, 'R': -1, None: 1}, {'W': 1, 'R': -1, None: 1, 'N': 1}):
                            good = True
            av = L.avail(st)
            if av is not None:
                d = L.sum(av, {'N': 1, None: -1}, -1)
                good |= L.holds(st, d, '==', False) or L.holds(st, d, '<', True)
            if not good:
                R.bad(R_SEE, w, 'an element can be put into a buffer that is full, over one that was not taken yet', chain)
        else:
            d = {'W': 1, 'R': -1}
            good = L.holds(st, d, '==', False)
            av = L.avail(st)
            if av is not None:
                good |= L.holds(st, av, '==', False) or L.holds(st, {s: -c for s, c in av.items()}, '<', True)
            if not good:
                R.bad(R_SEE, w, 'an element can be taken from a buffer that is empty', chain)

    def counted(self, st):
        return any(self.others(f) for f in known(st))

    def others(self, t):
        res = []

        def go(x):
            if isinstance(x, tuple):
                if x and x[0] == 's' and len(x) > 3 and isinstance(x[3], tuple) and x[3][:1] == ('idx',) and x[3][1] == self.other:
                    res.append(x)
                    return
                for y in x:
                    go(y)
        go(t)
        return res

    def assumed(self, E, st, fr, node, f, t):
        st = remember(st, f, t)
        if self.kind == 'pop_into' and len(f) == 4 and f[1] in ('<', '=='):
            for a, b, s in ((f[2], f[3], 0), (f[3], f[2], 1)):
                if mentions(a, lambda x: x[0] == 'phi') and not mentions(b, lambda x: x[0] == 'phi') and b[0] != 'c':
                    phi = [x for x in (a, strip_cast(a)) if x[0] == 'phi']
                    if phi and len(phi[0]) > 2 and phi[0][2] not in (1, -1):
                        w, chain = where_chain(E, node, fr)
                        self.report_to.bad(R_IDX, w, 'elements are passed over', chain)
                    k = {}
                    if f[1] == '<' and s:
                        if t:
                            continue
                        k = {None: 1}           # not (b < a): a <= b
                    elif f[1] == '<' and not t or f[1] == '==' and t:
                        continue
                    if a[0] == 'phi':
                        st = st.set('bound', ('b', b, ('c', k.get(None, 0))))
        return st


def outcome(P, R, S, L, m, fn, outs):
    w = '%s:%s' % (rel(fn['file']), fn['line'])
    kind = m.kind
    v = [p for p in fn['p']]
    for st, val in outs:
        val = strip_cast(val) if val is not None else ('void',)
        if kind in ('push', 'pop'):
            arg = ('O', 'arg:v', '')
            if val == C0:
                R.ok(R_NOP, w)
                if st.get('slot') or st.get('advanced'):
                    R.bad(R_NOP, w, 'a %s that fails changes the buffer' % kind)
                if st.get('spent'):
                    R.bad(R_NOP, w, 'a %s that fails has already moved from the value given to it' % kind)
                for l in st.mem:
                    if root(l)[0] == 'O' and root(l)[1].startswith('arg:') and st.mem[l] != ('init', l):
                        R.bad(R_NOP, w, 'a %s that fails changes the value given to it' % kind)
            elif val == C1:
                R.ok(R_IDX, w)
                if not st.get('advanced'):
                    R.bad(R_IDX, w, 'a %s reports success without advancing the index' % kind)
                if not st.get('slot'):
                    R.bad(R_IDX, w, 'a %s reports success without using a slot' % kind)
                if kind == 'pop' and not any(root(l)[0] == 'O' and root(l)[1].startswith('arg:') for l in st.mem):
                    R.bad(R_IDX, w, 'a pop reports success without returning an element')
        else:
            R.ok(R_IDX, w)
            adv = st.get('advanced')
            c = L.of(val)
            if adv is None:
                if val != C0 and st.get('slot'):
                    R.bad(R_IDX, w, 'elements are taken without advancing the index')
                continue
            s = L.wrapped(adv[1])
            if s is not None:
                e = L.sum(L.sum(s, {'R': 1}, -1), c, -1)
                if e and e not in ({'N': 1}, {'N': -1}) and not mentions(adv[1], lambda x: x[0] == 'phi') and not mentions(val, lambda x: x[0] == 'phi'):
                    R.bad(R_IDX, w, 'the index does not advance by the number of elements reported')
            b = st.get('bound')
            if b:
                d = L.sum(L.of(b[1]), {None: b[2][1]} if b[2][1] else {})
                if L.sum(d, c, -1) and L.sum(d, L.sum(c, {'R': 1}), -1) and not mentions(val, lambda x: x[0] == 'phi'):
                    R.bad(R_IDX, w, 'the number of elements taken differs from the number reported')
            limit(R, S, L, st, val, fn, w)
            if st.get('slot') and not m.out and any('back_insert' in p['t'] for p in fn['p']):
                R.bad(R_IDX, w, 'elements are taken from the buffer but not put into the output')


def limit(R, S, L, st, c, fn, w):
    """At most what is available and at most what was asked for."""
    if c == C0:
        return
    cand = list(c[2:]) if c[0] == 'op' and c[1] == 'min' else [c]
    cs = [L.of(x) for x in cand]
    av = L.avail(st)
    names = ['arg:' + p['n'] for p in fn['p']]
    ask = [t for x in cand for t in [strip_cast(x)] if t[0] == 'init' and t[1][0] == 'O' and t[1][1] in names]
    if any(not L.known(d) and x not in ask for d, x in zip(cs, [strip_cast(x) for x in cand])):
        return
    good = False
    for d in cs:
        if av is not None and (d == av or L.holds(st, L.sum(av, d, -1), '<', False) or L.holds(st, L.sum(d, av, -1), '<', True)):
            good = True
        # a run up to the end of the container or the other index, whichever comes first
        if av is not None and d == {'N': 1, 'R': -1} and L.holds(st, {'W': 1, 'R': -1}, '<', True):
            good = True
    if not good:
        R.bad(R_IDX, w, 'more elements than there are can be taken from the buffer')


def counts(P, R, S, L, fn):
    w = '%s:%s' % (rel(fn['file']), fn['line'])
    m = Side(P, R, S, L, None, None, 'query', fn)
    this = ('O', 'this', RING)

    class Q(Monitor):
        throws = False
        fresh_atomics = True

        def call(self, E, st, fr, node, q, recv, args):
            n = q.rsplit('::', 1)[-1]
            if 'atomic' in q and recv is not None and recv[0] in ('&', 'ptr') and recv[1][0] == 'F' and recv[1][2] in S.atomics \
                    and (n == 'load' or n.startswith('operator ')):
                return [(st, ('init', recv[1]))]
            return None

        def assumed(self, E, st, fr, node, f, t):
            return remember(st, f, t)
    E, outs, thr = run(P, R, Q(P, R), fn, this=this, cls=RING)
    for st, v in outs:
        if v is None:
            continue
        R.ok(R_COUNT, w)
        if fn['n'] == 'size':
            av = L.avail(st)
            x = strip_cast(v)
            s = L.wrapped(x)
            d = L.of(x)
            if s is not None:
                if L.known(s) and s != {'W': 1, 'R': -1, 'N': 1}:
                    R.bad(R_COUNT, w, 'the number of elements reported is wrong')
            elif L.known(d) and d != av and not (not d and L.holds(st, {'W': 1, 'R': -1}, '==', True)):
                R.bad(R_COUNT, w, 'the number of elements reported is wrong')
        else:
            for truth in (True, False):
                s = E.assume(st, v, truth)
                if s is None:
                    continue
                av = L.avail(s)
                if av is not None and L.holds(s, av, '==', truth):
                    continue
                eq = L.holds(s, {'W': 1, 'R': -1}, '==', True) or av is not None and L.holds(s, av, '==', True)
                ne = L.holds(s, {'W': 1, 'R': -1}, '==', False) or av is not None and L.holds(s, av, '==', False)
                if truth and ne or not truth and eq or v[0] == 'c' and not eq and not ne:
                    R.bad(R_COUNT, w, 'the buffer is reported to be empty when it is not, or the other way round')


def c24(P, R):
    """Push, pop and the bulk pop are followed on all paths for arbitrary index positions and an arbitrary container size.  The
    member stored by push is the producer's index, the one stored by pop the consumer's; every use of a slot, every load of the
    other side's index, every store of the own index and every result is checked against the publication protocol, with sums of
    the two indices and the size as the abstract values."""
    S = Shape(P)
    fns = {}
    for l in P.defs.values():
        for f in l:
            if f.get('cls') == RING and f['kind'] == 'method' and f.get('body') is not None and not f.get('copymove'):
                fns.setdefault(f['n'], {}).setdefault(f.get('clst'), f)
    if 'push' not in fns or 'pop' not in fns:
        raise AnalysisBroken('%s::push or pop not found' % RING)
    st_ = {n: {} for n in fns}
    for n, d in fns.items():
        for f in d.values():
            st_[n].update(stored(P, f, S))
    ws = st_['push']
    rs = dict(st_['pop'], **st_.get('pop_into', {}))
    w0 = '%s:%s' % (rel(next(iter(fns['push'].values()))['file']), next(iter(fns['push'].values()))['line'])
    R.ok(R_SHARE, w0)
    for f in sorted(set(ws) & set(rs)):
        R.bad(R_SHARE, ws[f], 'the index %s is stored by the producer and by the consumer' % f.rsplit('::', 1)[-1])
    if set(ws) & set(rs):
        return
    if not ws or not rs:
        if len(S.atomics) >= 2:
            R.bad(R_SHARE, w0, 'push or pop never stores its index')
        else:
            R.bad(R_SHARE, w0, 'the indices shared between the producer and the consumer are not atomic')
        return
    if len(ws) > 1 or len(rs) > 1:
        R.notes.append('several indices per side: protocol not recognised')
        return
    W, Rd = next(iter(ws)), next(iter(rs))
    L = Lin(S, W, Rd)
    this = ('O', 'this', RING)
    used = {}
    for n, own, other in (('push', W, Rd), ('pop', Rd, W), ('pop_into', Rd, W)):
        for t, f in sorted(fns.get(n, {}).items(), key=lambda x: str(x[0])):
            m = Side(P, R, S, L, own, other, n, f)
            E, outs, thr = run(P, R, m, f, this=this, cls=RING)
            outcome(P, R, S, L, m, f, outs)
            u = used.setdefault('producer' if n == 'push' else 'consumer', ({}, {}))
            u[0].update(m.reads)
            u[1].update(m.writes)
    p, c = used['producer'], used['consumer']
    for a, b in ((p, c), (c, p)):
        for f, w in a[1].items():
            if f in b[0] or f in b[1]:
                if f in S.conts:
                    continue
                R.bad(R_SHARE, w, 'the member %s is written by one side while the other side uses it' % f.rsplit('::', 1)[-1])
    for n in ('size', 'empty'):
        for t, f in fns.get(n, {}).items():
            counts(P, R, S, L, f)
    for c in ctors(P, RING):
        E, outs, thr = run(P, R, Monitor(P, R), c, this=this, cls=RING)
        w = '%s:%s' % (rel(c['file']), c['line'])
        for st, v in outs:
            R.ok(R_ZERO, w)
            iw, ir = st.read(('F', this, W)), st.read(('F', this, Rd))
            if iw != ir or iw[0] == 'undef':
                R.bad(R_ZERO, w, 'the indices do not start equal')
            for f in S.sizes:
                z = st.read(('F', this, f))
                if z[0] == 'undef' or z == C0:
                    R.bad(R_ZERO, w, 'the size of the container is not known to the buffer')
                elif E.decide(st, ('op', '==', z, C0)) is not False:
                    R.bad(R_ZERO, w, 'a container without elements is accepted')


CHECKS = {'C24': c24}
