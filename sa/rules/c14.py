"""C14: a serving process is found and reached under its process id."""
import re
from ..lib import *
from ..terms import *

HOLE = ('PID',)
WIDE = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'size_t', 'std::size_t', 'pid_t', 'uint32_t', 'uint64_t'}
R_NAME = 'serving and connecting build the same socket name from the process id'
R_LEN = 'serving and connecting pass the same address length'
R_FIND = 'discovery looks for the name that is served'
R_STEP = 'success is reported only after every setup step succeeded'
R_FAIL = 'a failed setup does not leave the transport announcing itself'
R_FACT = 'a factory returns a transport only if its setup succeeded'
R_ADDR = 'the address of a transport is the process id it serves or connects to'


def norm(t, pids):
    """A term with the process id replaced by a hole, without names of locals and positions."""
    if not isinstance(t, tuple):
        return t
    if t in pids:
        return HOLE
    if t and t[0] == 'cast' and len(t) == 3 and t[1] in WIDE:
        return norm(t[2], pids)
    if t and t[0] == 's':
        return ('s', norm(t[3], pids))
    if t and t[0] == 'L':
        return ('L',)
    if t and t[0] == 'op' and t[1] == 'text' and norm(t[2], pids) == HOLE:
        return HOLE
    return tuple(norm(x, pids) for x in t)


def narrowed(t):
    return t[0] == 'cast' and len(t) == 3 and t[1] not in WIDE and mentions(t[2], lambda x: x == HOLE)


def mangled(t):
    """Arithmetic on the process id before it is written out."""
    def hole(x):
        while x[0] == 'cast' and len(x) == 3:
            x = x[2]
        return x == HOLE
    return t[0] == 'op' and t[1] in ('&', '%', '/', '>>', '<<', '|', '^', '+', '-', '*') and len(t) == 4 and (hole(t[2]) or hole(t[3]))


def known_text(t):
    """Only literals and the hole."""
    if t == HOLE or t[0] == 'str':
        return True
    return t[0] == 'op' and t[1] == 'concat' and all(known_text(x) for x in t[2:])


def flat(t):
    if t[0] == 'op' and t[1] == 'concat':
        r = []
        for x in t[2:]:
            r += flat(x)
        return r
    return [t] if t != ('str', '') else []


def parts(t):
    r = []
    for x in flat(t):
        if r and r[-1][0] == 'str' and x[0] == 'str':
            r[-1] = ('str', r[-1][1] + x[1])
        else:
            r.append(x)
    return r


class Setup(Monitor):
    """One setup function: what it names, which steps succeeded."""
    throws = False
    fresh_atomics = False
    exit_limit = 8

    def __init__(self, P, R):
        super().__init__(P, R)
        self.names, self.lens, self.marks = [], [], {}

    def after(self, E, st, fr, node, q, recv, args, res):
        n = q.rsplit('::', 1)[-1]
        if args and n not in ('memset', 'strlen', 'strnlen') and node.get('c') and not node['c'].get('repo'):
            st2, d = E.val(st, args[0], node, fr)
            if mentions(args[0], is_path) or mentions(d, is_path):
                vals = []
                for a in args[1:]:
                    st2, v = E.val(st, a, node, fr)
                    vals.append(v)
                if vals:
                    self.names.append((vals[0], d, vals[1:], where_chain(E, node, fr)))
                    st = st.set('named', C1)
        if q in ('bind', 'connect') and len(args) == 3:
            st2, v = E.val(st, args[2], node, fr)
            self.lens.append((v, where_chain(E, node, fr)))
            if st.get('named') is None:
                self.marks.setdefault('unnamed', where_chain(E, node, fr))
        if q in ('socket', 'bind', 'listen', 'connect') and res is not None:
            st = st.set(('step', q), (res,))
            if q == 'socket':           # descriptor 0 stands for "none" throughout: assumed not to be handed out
                st = E.assume(st, ('op', '==', res, C0), False) or st
        if q == 'std::thread::operator=':
            st = st.set('thread', C1)
        return st


def is_path(t):
    return t[0] == 'F' and t[-1] == 'sockaddr_un::sun_path'


def failed(E, st, v):
    """True if known to have failed, False if known not to, None if unknown."""
    for c in (('op', '==', v, ('c', -1)), ('op', '<', v, C0), ('op', '!=', v, C0)):
        d = E.decide(st, c)
        if d is not None:
            return d
    return None


def posix(f):
    return {n['c'].get('q') for n in walk(f) if n.get('k') == 'call' and isinstance(n.get('c'), dict)}


def c14(P, R):
    """Setup functions are the public functions that reach bind() or connect().  On every path the text copied into sun_path is
    kept as a term over the process id; serving and connecting must build equal terms and equal lengths.  A path returning true
    has no step that may have failed and started the worker, a path returning false leaves isConnected() not true.  Discovery
    only lists an entry compared with the literal part of that name, reading the number behind the literal prefix in decimal.
    Factories return non-null only on paths on which the setup function of that object returned true."""
    pub = {}
    for f in library_functions(P):
        if f.get('cls') and f['kind'] == 'method' and f.get('access') == 'public' and not f['q'].startswith('subprocess::') \
                and 'scalopus::Transport' in ((P.records.get(f['cls']) or {}).get('allbases') or []):
            cs = set()
            for g in callees(P, f):
                cs |= posix(g)
            for k in ('bind', 'connect'):
                if k in cs and 'socket' in cs:
                    pub.setdefault(k, []).append(f)
    if 'bind' not in pub or 'connect' not in pub:
        raise AnalysisBroken('setup functions with bind and connect not found')
    names, lens, setup = {}, {}, {}
    for k in ('bind', 'connect'):
        for f in pub[k]:
            cls = f['cls']
            this = ('O', 'this', cls)
            m = Setup(P, R)
            # states right after construction
            sts = construct(P, R, cls) or [None]
            for s0 in sts:
                E, outs, thr = run(P, R, m, f, this=this, cls=cls, st=s0.copy() if s0 else None)
                w = '%s:%s' % (rel(f['file']), f['line'])
                R.ok(R_STEP, w)
                R.ok(R_FAIL, w)
                for st, v in outs:
                    t = E.decide(st, v) if v is not None else None
                    need = ['socket', 'bind', 'listen'] if k == 'bind' else ['socket', 'connect']
                    if t is not False:
                        for n in need:
                            r = st.get(('step', n))
                            if r is None:
                                R.bad(R_STEP, w, '%s reports success on a path that does not call %s' % (f['q'], n))
                            elif failed(E, st, r[0]) is not False and t is True:
                                R.bad(R_STEP, w, '%s reports success on a path on which %s may have failed' % (f['q'], n))
                        if st.get('thread') is None and t is True:
                            R.bad(R_STEP, w, '%s reports success without starting the worker' % f['q'])
                        want = False
                    else:
                        want = True
                    for q in public_methods(P, cls):
                        if q['n'] == 'isConnected' and q.get('body') is not None:
                            res = decide_method(P, R, st, q, this)
                            if t is not None and res == {want}:
                                R.bad(R_FAIL, w, '%s: after %s the transport says it is %sconnected' %
                                      (f['q'], 'success' if t else 'a failed step', '' if want else 'not '))
            pids = [v for v, d, o, w in m.names] + [v for v, w in m.lens]
            pidset = set()
            for t in pids + [d for v, d, o, w in m.names]:
                collect_pids(t, pidset, f)
            setup[f['usr']] = (f, k)
            for v, d, o, w in m.names:
                names.setdefault(k, []).append((norm(v, pidset), norm(d, pidset), norm(tuple(o), pidset), w))
            for v, w in m.lens:
                lens.setdefault(k, []).append((norm(v, pidset), w))
            if 'unnamed' in m.marks and not m.names:
                R.notes.append('%s: the name is not set by a call that is understood' % f['q'])
    suffix = prefix = None
    for v, d, o, (w, chain) in names.get('bind', []):
        R.ok(R_NAME, w)
        p = parts(v)
        if known_text(v):
            if HOLE not in p:
                R.bad(R_NAME, w, 'the served name does not depend on the process id', chain)
            else:
                i = p.index(HOLE)
                prefix = p[i - 1][1] if i else ''
                suffix = p[i + 1][1] if i + 1 < len(p) else ''
        for v2, d2, o2, (w2, chain2) in names.get('connect', []):
            if mentions(v2, narrowed) or mentions(v, narrowed):
                R.bad(R_NAME, w2, 'the process id is cut to fewer bits in the name', chain2)
            elif parts(v) != parts(v2) and mentions(v, mangled) != mentions(v2, mangled):
                R.bad(R_NAME, w2, 'one side changes the process id before writing it into the name, the other does not', chain2)
            elif mentions(v, mangled) and mentions(v2, mangled):
                R.bad(R_NAME, w2, 'the name is not made from the process id itself, processes can share one', chain2)
            R.ok(R_NAME, w2)
            if known_text(v) != known_text(v2) and (mentions(v, lambda t: t == HOLE) != mentions(v2, lambda t: t == HOLE)) \
                    or known_text(v) and known_text(v2) and parts(v) != parts(v2):
                R.bad(R_NAME, w2, 'clients connect to %s, served is %s' % (show(v2), show(v)), chain2)
            elif d != d2:
                R.bad(R_NAME, w2, 'the name is put at another place of the address than when serving', chain2)
            elif o != o2 and all(x[0] == 'c' for x in o + o2):
                R.bad(R_NAME, w2, 'the name is cut at another length than when serving', chain2)
    for v, (w, chain) in lens.get('bind', []):
        R.ok(R_LEN, w)
        for v2, (w2, chain2) in lens.get('connect', []):
            R.ok(R_LEN, w2)
            if v != v2 and comparable(v, v2):
                R.bad(R_LEN, w2, 'the address length differs from the one used for serving', chain2)
        if v[0] == 'c' and v[1] >= 110:
            R.bad(R_LEN, w, 'the address includes the unused rest of the path, discovery does not find such a name', chain)
    if not names.get('bind') or not names.get('connect'):
        R.notes.append('socket names not extracted')
    discovery(P, R, prefix, suffix)
    factories(P, R, setup)
    address(P, R, setup)


def comparable(a, b):
    unk = lambda t: t[0] == 's'
    return not mentions(a, unk) and not mentions(b, unk) or mentions(a, unk) != mentions(b, unk) and False


def show(t):
    return ''.join('<pid>' if x == HOLE else x[1] if x[0] == 'str' else '?' for x in parts(t))


def collect_pids(t, out, f):
    """getpid() when serving, the integer argument when connecting."""
    def see(x):
        if x[0] == 's' and isinstance(x[3], tuple) and x[3] == ('ret', 'getpid'):
            out.add(x)
        if x[0] == 'init' and x[1][0] == 'O' and str(x[1][1]).startswith('arg:'):
            out.add(x)
        return False
    mentions(t, see)


class Disc(Monitor):
    throws = False
    fresh_atomics = False
    R1 = R_FIND

    def __init__(self, P, R, prefix, suffix, lits):
        super().__init__(P, R)
        self.prefix, self.suffix, self.lits = prefix, suffix, lits

    def assumed(self, E, st, fr, node, atom, truth):
        if atom[1] in ('==', '<') and len(atom) == 4:
            a, b = atom[2], atom[3]
            num = lambda x: x[0] == 's' and is_number(tag(x)) or x[0] == 'cast' and num(x[2])
            c = b if num(a) else a if num(b) else None
            if c is not None and c[0] == 'c' and abs(c[1]) < 2 ** 31 - 1:
                least = atom[1] == '<' and (num(a) and c[1] == 1)
                if c[1] != 0 and not least and not (atom[1] == '<' and num(b) and c[1] < 0):
                    w, chain = where_chain(E, node, fr)
                    self.report_to.bad(R_FIND, w, 'whether an entry is listed depends on comparing a number in it with %d' % c[1], chain)
        return st

    def after(self, E, st, fr, node, q, recv, args, res):
        R = self.report_to
        n = q.rsplit('::', 1)[-1]
        if n in ('emplace_back', 'push_back', 'insert', 'emplace') and args and recv is not None and q.startswith('std::') \
                and not q.startswith('std::basic_string'):
            st2, v = E.val(st, args[-1], node, fr)
            w, chain = where_chain(E, node, fr)
            R.ok(R_FIND, w)
            S = set()
            for f, t in st.facts.items():
                mentions(f, lambda x: x[0] == 'str' and len(x) == 2 and len(x[1]) > 2 and S.add(x[1]))
            if self.suffix and S and not any(x == self.suffix for x in S):
                R.bad(R_FIND, w, 'entries are compared with %s, served names end in %s' % (sorted(S), self.suffix), chain)
            elif self.suffix and not S and not any(self.suffix in x for x in self.lits):
                R.bad(R_FIND, w, 'an entry is listed without comparing it with the served name', chain)
            t = v
            if t[0] == 'cast' and t[1] not in WIDE:
                R.bad(R_FIND, w, 'the process id is cut to %s' % t[1], chain)
        if n in ('emplace_back', 'push_back', 'insert', 'emplace') and args and recv is not None and recv[0] == '&' and q.startswith('std::'):
            st2, v = E.val(st, args[-1], node, fr)
            if mentions(v, is_number):
                st = st.set(('pids', recv[1]), C1)
        if n in ('clear', 'pop_back') and recv is not None and recv[0] == '&' and st.get(('pids', recv[1])) is not None:
            w, chain = where_chain(E, node, fr)
            R.bad(R_FIND, w, 'a process that was already found is taken out of the list again', chain)
        if n in ('strtoul', 'strtol', 'strtoull', 'strtoll', 'stoul', 'stoi', 'stol', 'stoull', 'stoll') and args:
            w, chain = where_chain(E, node, fr)
            R.ok(R_FIND, w)
            if len(args) > 2 and args[2] is not None:
                st2, b = E.val(st, args[2], node, fr)
                if b[0] == 'c' and b[1] not in (10, 0):
                    R.bad(R_FIND, w, 'the decimal process id is read with base %d' % b[1], chain)
            st2, s = E.val(st, args[0], node, fr)
            k = offset(s)
            if k is not None and self.prefix is not None:
                what, c = k
                want = (2 if what == ' ' else 1) + len(self.prefix)
                if c != want:
                    R.bad(R_FIND, w, 'the process id starts %d characters behind the last %r, it is read from %d' % (want, what, c), chain)
        return st


NUMS = ('strtoul', 'strtol', 'strtoull', 'strtoll', 'std::strtoul', 'std::strtol', 'std::strtoull', 'std::strtoll', 'atoi', 'atol', 'std::atoi',
        'std::atol', 'std::stoul', 'std::stoi', 'std::stol', 'std::stoull', 'std::stoll')


def is_number(x):
    return x[0] == 'ret' and len(x) > 1 and x[1] in NUMS


def offset(t):
    """(separator, constant) of substr(x, rfind(x, separator) + constant)."""
    hit = []

    def see(x):
        if x[0] == 'op' and x[1] == 'substr' and len(x) >= 4:
            o = x[3]
            c = 0
            if o[0] == 'op' and o[1] == '+' and o[3][0] == 'c':
                o, c = o[2], o[3][1]
            if o[0] == 'op' and o[1] in ('rfind', 'find_last_of'):
                for y in o[2:]:
                    if y in (('str', ' '), ('str', '@')):
                        hit.append((y[1], c))
            elif o[0] == 's' and isinstance(o[3], tuple) and o[3][0] == 'find' and o[3][1] in ('rfind', 'find_last_of'):
                if o[3][3] in (('str', ' '), ('str', '@')):
                    hit.append((o[3][3][1], c))
                elif o[3][3] in (('c', 32), ('c', 64)):
                    hit.append((chr(o[3][3][1]), c))
        return False
    mentions(t, see)
    return hit[0] if hit else None


def discovery(P, R, prefix, suffix):
    fs = []
    for f in library_functions(P):
        if any(n.get('k') == 'str' and n.get('v') == '/proc/net/unix' for n in walk(f)):
            fs.append(f)
    if not fs:
        R.notes.append('nothing reads /proc/net/unix')
        return
    for f in fs:
        lits = {n.get('v') for g in callees(P, f) for n in walk(g) if n.get('k') == 'str' and isinstance(n.get('v'), str)}
        R.ok(R_FIND, '%s:%s' % (rel(f['file']), f['line']))
        m = Disc(P, R, prefix, suffix, lits)
        run(P, R, m, f)


class Fact(Monitor):
    """A factory function: setup functions succeed or fail."""
    throws = False
    exit_limit = 8

    def __init__(self, P, R, setup):
        super().__init__(P, R)
        self.setup = setup
        self.n = 0

    def call(self, E, st, fr, node, q, recv, args):
        u = (node.get('c') or {}).get('usr')
        if u in self.setup:
            f, k = self.setup[u]
            self.n += 1
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(R_FACT, w)
            if k == 'connect' and args:
                st, a = E.val(st, args[0], node, fr)
                while a[0] == 'cast' and a[1] in WIDE:
                    a = a[2]
                if a[0] == 'c' or a[0] == 'cast':
                    self.report_to.bad(R_FACT, w, 'the process id connected to is not the one of the destination', chain)
            l = recv
            return [(st.set(('ok', u), (l,) if l is not None else C1), C1), (st, C0)]
        return None


def factories(P, R, setup):
    n = 0
    for f in library_functions(P):
        c = f.get('cls')
        if not c or 'scalopus::TransportFactory' not in ((P.records.get(c) or {}).get('allbases') or []) or f['n'] not in ('serve', 'connect'):
            continue
        this = ('O', 'this', c)
        m = Fact(P, R, setup)
        E, outs, thr = run(P, R, m, f, this=this, cls=c)
        w = '%s:%s' % (rel(f['file']), f['line'])
        R.ok(R_FACT, w)
        n += 1
        if not m.n:
            # kinds without a setup step: the object must exist
            continue
        want = {'serve': 'bind', 'connect': 'connect'}[f['n']]
        some = False
        for st, v in outs:
            if v is None:
                continue
            st, x = E.val(st, v, {'#': 0, 'l': 0, 't': ''}, None) if v[0] == '&' else (st, v)
            null = E.decide(st, ('op', '==', x, C0))
            if x in (C0, ('null',)) or null is True:
                continue
            some = True
            good = any(st.get(('ok', u)) is not None and setup[u][1] == want for u in setup)
            if not good:
                R.bad(R_FACT, w, '%s returns a transport whose setup was not done or failed' % f['q'])
        if not some:
            R.bad(R_FACT, w, '%s never returns a transport' % f['q'])
    if n < 2:
        raise AnalysisBroken('transport factories not found')


class Addr(Monitor):
    throws = False
    fresh_atomics = False


def address(P, R, setup):
    """getAddress() after a successful setup holds the process id."""
    for u, (f, k) in sorted(setup.items()):
        cls = f['cls']
        this = ('O', 'this', cls)
        ga = [g for g in public_methods(P, cls) if g['n'] == 'getAddress' and g.get('body') is not None]
        if not ga:
            continue
        m = Setup(P, R)
        for s0 in construct(P, R, cls) or [None]:
            E, outs, thr = run(P, R, m, f, this=this, cls=cls, st=s0.copy() if s0 else None)
            for st, v in outs:
                if v is None or E.decide(st, v) is not True:
                    continue
                w = '%s:%s' % (rel(ga[0]['file']), ga[0]['line'])
                R.ok(R_ADDR, w)
                st2 = st.copy(ts={}, locks=(), cl=())
                E2, o2, t2 = run(P, R, Addr(P, R), ga[0], this=this, cls=cls, st=st2)
                for s, a in o2:
                    if a is None or a[0] not in ('shared', 'ptr'):
                        continue
                    obj = a[1]
                    vals = [x for l, x in s.mem.items() if l[0] == 'F' and l[1] == obj]
                    for l, x in s.mem.items():
                        fd = P.fields.get(l[2]) if l[0] == 'F' and l[1] in (obj, this) else None
                        if fd and re.search(r'\b(short|char|u?int(8|16)_t)\b', fd['t']) and 'vector' not in fd['t'] and mentions(x, lambda t: pidterm(t, k)):
                            R.bad(R_ADDR, w, '%s keeps only some bits of the process id (%s)' % (l[2].replace(NS, ''), fd['t']))
                    if not vals:
                        continue
                    ok = any(mentions(x, lambda t: pidterm(t, k)) for x in vals)
                    # a value that may be the process id for all we know
                    unk = any(x[0] == 's' and not mentions(x, lambda t: t == ('ret', 'getpid')) for x in vals)
                    if not ok and not unk:
                        R.bad(R_ADDR, w, 'after %s the address does not name the process %s' % (f['q'], 'served' if k == 'bind' else 'connected to'))


def pidterm(t, k):
    if k == 'bind':
        return t == ('ret', 'getpid')
    return t[0] == 'init' and t[1][0] == 'O' and str(t[1][1]).startswith('arg:')


CHECKS = {'C14': c14}
