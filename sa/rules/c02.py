"""C02: a socket message is transferred whole and field-exact, or the transfer reports failure."""
from ..wire import *
from ..models import size_of, content, it_split

GU = ('G', 'ghost-bytes-done')
GV = ('G', 'ghost-bytes-done2')       # the same count, in terms of the size of the container
INT_T = {'unsigned long', 'size_t', 'std::size_t', 'unsigned int', 'int', 'long', 'ssize_t', 'unsigned long long', 'long long',
         'uint32_t', 'std::uint32_t', 'uint16_t', 'unsigned short', 'std::uint16_t', 'uint64_t', 'std::uint64_t'}
WIDTH = {'unsigned char': 1, 'signed char': 1, 'char': 1, 'bool': 1, 'unsigned short': 2, 'short': 2, 'unsigned int': 4, 'int': 4,
         'unsigned long': 8, 'long': 8, 'unsigned long long': 8, 'long long': 8, 'size_t': 8, 'std::size_t': 8, 'ssize_t': 8,
         'uint8_t': 1, 'uint16_t': 2, 'uint32_t': 4, 'uint64_t': 8, 'std::uint8_t': 1, 'std::uint16_t': 2, 'std::uint32_t': 4,
         'std::uint64_t': 8, 'std::byte': 1}
COPY = {'memcpy', 'std::memcpy', 'memmove', 'std::memmove', 'std::copy_n'}


def bare(t):
    return t.replace('const ', '').replace(' const', '').strip()


def int_params(f):
    return [i for i, p in enumerate(f['p']) if bare(p['t']) in INT_T]


def ref_params(f):
    return [i for i, p in enumerate(f['p']) if p['t'].endswith('&') or p['t'].endswith('*')]


def sizes(C):
    """The size of an untouched field of the message, as strings and as containers write it."""
    return (('size', ('init', C)), ('size', ('init', C), C))


def wraps(t, sym):
    """What happens to sym on its way into t: byte swaps and casts to fewer bits than `width`."""
    res = []
    while isinstance(t, tuple) and t != sym:
        if t[0] == 'cast' and len(t) == 3:
            res.append(('cast', WIDTH.get(bare(str(t[1])), 8)))
        elif t[0] == 'op':
            q = str(t[1])
            sw = any(x in q for x in ('hton', 'ntoh', 'htobe', 'htole', 'be16toh', 'be32toh', 'be64toh', 'bswap'))
            res.append(('swap',) if sw else ('op', q))
        nxt = None
        for x in t[1:]:
            if isinstance(x, tuple) and (x == sym or mentions(x, lambda y: y == sym)):
                nxt = x
        if nxt is None:
            break
        t = nxt
    return res


def blocks(P, top, calls):
    """The functions top uses to transfer one block of given length; None when it calls the system directly."""
    res, seen, todo = [], set(), [top]
    direct = False
    while todo:
        f = todo.pop(0)
        if f['usr'] in seen:
            continue
        seen.add(f['usr'])
        if f is not top:
            reach = set()
            for g in callees(P, f):
                reach |= posix_calls(g)
            if not reach & calls:
                continue
            ints = [i for i in int_params(f)]
            fds = [i for i in ints if bare(f['p'][i]['t']) == 'int']
            lens = [i for i in ints if i not in fds[:1]] if fds and len(ints) > 1 else [i for i in ints if i not in fds]
            if lens and ref_params(f):
                res.append((f, fds[0] if fds else None, lens[0], ref_params(f)[0]))
                continue
        if posix_calls(f) & calls:
            direct = True
        for n in walk(f):
            u = None
            if n.get('k') in ('call', 'ctor') and isinstance(n.get('c'), dict):
                u = n['c'].get('usr')
            elif n.get('k') == 'lambda':
                u = n.get('fn')
            d = P.definition(u) if u else None
            if d is not None and library(d):
                todo.append(d)
    return res, direct


def done(st):
    return st.read(GU), st.read(GV)


def range_at(v):
    """(container, offset) an iterator or pointer stands at."""
    if v[0] == 'ptr':
        return (v[1][1], v[1][2]) if v[1][0] == 'I' else (v[1], C0)
    if v[0] == 'op' and v[1] == '+' and len(v) == 4 and v[2][0] == 'ptr':
        b = range_at(v[2])
        return (b[0], v[3]) if b[1] == C0 else None
    return it_split(v)


class Block(Monitor):
    """Transfer of one block of `length` bytes over a descriptor."""
    throws = False
    prove = True

    def __init__(self, P, R, f, li, ri, reading):
        super().__init__(P, R)
        self.f, self.li, self.ri, self.reading = f, li, ri, reading
        p = f['p'][li]
        self.length = ('init', ('O', 'arg:' + p['n'], bare(p['t'])))
        self.calls = 0
        self.stored = False
        self.copies = 0

    def start(self, E, st, fr):
        st = st.write(GU, C0).write(GV, C0).write(('G', 'ghost-bytes-left'), self.length)
        return st

    # -- the container the block is read into may itself be the count of what was received
    def cont(self):
        p = self.f['p'][self.ri]
        t = bare(p['t'].rstrip('&* '))
        return ('O', 'arg:' + p['n'], t) if self.reading and ('vector' in t or 'string' in t) else None

    def relate(self, E, st):
        C = self.cont()
        if C is None:
            return st
        z = uncast(size_of(content(st, C), C))
        return st.set('same', C1 if any(z == uncast(g) or E.decide(st, ('op', '==', z, uncast(g))) is True for g in done(st)) else None)

    def after(self, E, st, fr, node, q, recv, args, res):
        C = self.cont()
        if C is not None and recv is not None and recv[0] == '&' and recv[1] == C:
            st = self.relate(E, st)
        return st

    def head(self, E, st, fr, node):
        if st.get('same') is not None:
            z = size_of(content(st, self.cont()), self.cont())
            return st.write(GV, z)
        return st.write(GV, st.read(GU))

    def left(self, E, st):
        """Terms for the number of bytes still missing."""
        return [E.arith('-', self.length, g) for g in done(st)] + [st.read(('G', 'ghost-bytes-left'))]

    def call(self, E, st, fr, node, q, recv, args):
        cs = R_CALLS if self.reading else W_CALLS
        if q in cs and len(args) >= 3:
            return self.transfer(E, st, fr, node, q, args)
        if q in COPY and len(args) >= 3 and self.reading and st.get('last') is not None:
            self.copied(E, st, fr, node, args)
        C = self.cont()
        if C is not None and recv == ('&', C) and q.rsplit('::', 1)[-1] == 'insert' and len(args) == 3 and st.get('last') is not None:
            self.inserted(E, st, fr, node, C, args)
        return None

    def inserted(self, E, st, fr, node, C, args):
        """A range of the buffer that was just filled is inserted in the caller's block."""
        r, before, buf = st.get('last')
        vs = []
        for a in args:
            st, v = E.val(st, a, node, fr)
            vs.append(v)
        b, e = range_at(vs[1]), range_at(vs[2])
        if b is None or e is None or b[0] != e[0] or b[0] != buf:
            return
        R = self.report_to
        w, chain = where_chain(E, node, fr)
        self.copies += 1
        rule = 'exactly the bytes that were read are kept'
        R.ok(rule, w)
        if e[1] is None or E.decide(st, ('op', '==', uncast(E.arith('-', e[1], b[1])), r)) is not True:
            R.bad(rule, w, '%s bytes of the buffer are kept after reading %s' % ('all' if e[1] is None else show(E.arith('-', e[1], b[1])), show(r)), chain)
        if b[1] != C0:
            R.bad(rule, w, 'the bytes are not taken from the start of the buffer they were read into', chain)
        rule = 'every byte goes to and comes from its own position'
        R.ok(rule, w)
        at, z = range_at(vs[0]), size_of(content(st, C), C)
        if at is not None and (at[0] != C or not any(E.decide(st, ('op', '==', uncast(z if at[1] is None else at[1]), uncast(x))) is True for x in before)):
            R.bad(rule, w, 'the bytes that were read are stored at the wrong position (%s instead of %s)'
                  % (show(z if at[1] is None else at[1]), show(before[0])), chain)

    def transfer(self, E, st, fr, node, q, args):
        R = self.report_to
        w, chain = where_chain(E, node, fr)
        self.calls += 1
        st, ptr = E.val(st, args[1], node, fr)
        st, n = E.val(st, args[2], node, fr)
        rule = 'never more is transferred than the block has left'
        R.ok(rule, w)
        if not any(E.prove_le(st, uncast(n), uncast(z), 0) or E.prove_le(st, n, z, 0) for z in self.left(E, st)):
            R.bad(rule, w, 'the amount asked for (%s) is not shown to be at most what the block still misses: bytes of the next '
                  'block or message would be taken' % show(n), chain)
        self.position(E, st, fr, node, ptr, done(st), 'the next bytes of the block are taken from the wrong position'
                      if not self.reading else 'received bytes are stored at the wrong position')
        out = [(st.set('last', None), ('c', -1))]
        if self.reading:
            out.append((st.set('last', None), C0))
        s, r = E.fresh(st, fr, node, ('moved', q))
        # values computed before the call may have been renamed
        s2, n2 = E.val(s, args[2], node, fr)
        s = E.assume(s, ('op', '<', C0, r), True)
        s = E.assume(s, ('op', '<', n2, r), False) or s
        buf = ptr[1] if ptr[0] == 'ptr' else None
        if buf is not None and buf[0] == 'I':
            buf = buf[1]
        g, g2 = s.read(GU), s.read(GV)
        l = s.read(('G', 'ghost-bytes-left'))
        s = s.set('last', (r, done(s), buf if buf is not None else C0))
        s = s.write(GU, E.arith('+', g, r)).write(GV, E.arith('+', g2, r)).write(('G', 'ghost-bytes-left'), E.arith('-', l, r))
        out.append((self.relate(E, s), r))
        return out

    def position(self, E, st, fr, node, ptr, want, msg):
        """A pointer into the caller's block must be at the number of bytes moved so far."""
        base = idx = None
        if ptr[0] == 'ptr' and ptr[1][0] == 'I':
            base, idx = ptr[1][1], ptr[1][2]
        elif ptr[0] == 'ptr':
            base, idx = ptr[1], C0
        elif ptr[0] == 'op' and ptr[1] == '+' and len(ptr) == 4:
            base, idx = ('D', ptr[2]), ptr[3]
        elif ptr[0] == 'init':
            base, idx = ('D', ptr), C0
        if base is None:
            return
        pr = self.f['p'][self.ri]
        mine = mentions(base, lambda x: x[:1] == ('O',) and x[1:2] == ('arg:' + pr['n'],))
        if not mine:
            return
        rule = 'every byte goes to and comes from its own position'
        w, chain = where_chain(E, node, fr)
        self.report_to.ok(rule, w)
        if not any(E.decide(st, ('op', '==', uncast(idx), uncast(x))) is True or E.decide(st, ('op', '==', idx, x)) is True for x in want):
            self.report_to.bad(rule, w, msg + ' (%s instead of %s)' % (show(idx), show(want[0])), chain)

    def copied(self, E, st, fr, node, args):
        r, before, buf = st.get('last')
        st, a = E.val(st, args[0], node, fr)
        st, b = E.val(st, args[1], node, fr)
        st, n = E.val(st, args[2], node, fr)
        q = node['c']['q']
        dst, src, cnt = (args[2], b and a, b) if q == 'std::copy_n' else (a, b, n)
        if q == 'std::copy_n':
            dst, src, cnt = n, a, b
        sl = src[1] if src[0] == 'ptr' else None
        if sl is not None and sl[0] == 'I':
            sl = sl[1]
        if sl is None or sl != buf:
            return
        R = self.report_to
        w, chain = where_chain(E, node, fr)
        self.copies += 1
        rule = 'exactly the bytes that were read are kept'
        R.ok(rule, w)
        if E.decide(st, ('op', '==', uncast(cnt), r)) is not True:
            R.bad(rule, w, '%s bytes of the buffer are kept after reading %s' % (show(cnt), show(r)), chain)
        if src[1][0] == 'I' and src[1][2] != C0:
            R.bad(rule, w, 'the bytes are not taken from the start of the buffer they were read into', chain)
        self.position(E, st, fr, node, dst, before, 'the bytes that were read are stored at the wrong position')
        if dst[0] == 'ptr' and dst[1][0] == 'I':
            C = dst[1][1]
            rule = 'received bytes are stored inside their container'
            R.ok(rule, w)
            z = size_of(content(st, C), C)
            end = E.arith('+', dst[1][2], cnt)
            if not (E.prove_le(st, uncast(end), uncast(z), 0) or E.decide(st, ('op', '==', uncast(end), uncast(z))) is True):
                R.bad(rule, w, 'the container has not been made large enough (%s) for bytes up to %s' % (show(z), show(end)), chain)

    def complete(self, E, st):
        g, l = st.read(GU), st.read(('G', 'ghost-bytes-left'))
        if any(E.prove_le(st, self.length, g, 0) or E.decide(st, ('op', '==', g, self.length)) is True for g in done(st)):
            return True
        if l != self.length and (E.prove_le(st, l, C0, 0) or E.decide(st, ('op', '==', l, C0)) is True):
            return True
        return E.prove_le(st, self.length, C0, 0) or E.decide(st, ('op', '==', self.length, C0)) is True


def size_after(E, st, f, ri):
    p = f['p'][ri]
    t = bare(p['t'].rstrip('&* '))
    if 'vector' not in t and 'string' not in t:
        return None
    C = ('O', 'arg:' + p['n'], t)
    return size_of(content(st, C), C)


def block_summary(P, R, f, fd, li, ri, reading):
    """Checks one block function and says how it reports: kind 'bool' or 'count', and how failure can look."""
    mon = Block(P, R, f, li, ri, reading)
    E, outs, thr = run(P, R, mon, f)
    if not mon.calls:
        raise AnalysisBroken('%s transfers nothing' % f['q'])
    w = '%s:%s' % (rel(f['file']), f['line'])
    rule = 'a block is only reported as transferred when all of it was'
    R.ok(rule, w)
    kind = 'bool' if f['rt'] == 'bool' else 'void' if f['rt'] == 'void' else 'count'
    fails = set()
    ok = False
    for st, v in outs:
        full = mon.complete(E, st)
        if kind == 'bool':
            d = E.decide(st, v)
            if d is not False and not full:
                R.bad(rule, w, '%s reports success although only %s of %s bytes were transferred on some path'
                      % (f['n'], show(st.read(GU)), show(mon.length)))
            ok = ok or d is not False
            if d is not False and reading:
                z = size_after(E, st, f, ri)
                r2 = 'the received block has exactly the announced length'
                if z is not None:
                    R.ok(r2, w)
                    if E.decide(st, ('op', '==', uncast(z), mon.length)) is False or \
                            E.prove_le(st, uncast(z), mon.length, -1) or E.prove_le(st, mon.length, uncast(z), -1):
                        R.bad(r2, w, 'the received block ends up with %s bytes instead of %s' % (show(z), show(mon.length)))
        elif kind == 'count':
            if full:
                ok = True
                continue
            g = st.read(GU)
            u = uncast(v)
            if u[0] == 'c' and u[1] <= 0:
                fails.add(u[1])
            elif E.prove_le(st, u, g, 0):
                fails.add('partial')
            elif u == mon.length or E.prove_le(st, mon.length, u, 0):
                R.bad(rule, w, '%s returns %s although only %s bytes were transferred on some path' % (f['n'], show(v), show(g)))
            else:
                fails.add('partial')
        else:
            if not full:
                R.bad(rule, w, '%s returns without saying that only %s of %s bytes were transferred'
                      % (f['n'], show(st.read(GU)), show(mon.length)))
    if kind == 'count' and not fails:
        fails = {-1}
    return kind, fails


class Top(Monitor):
    """send(fd, message) or receive(fd, message): the order of the blocks."""
    throws = False
    prove = True

    def __init__(self, P, R, W, f, blks, direct, reading):
        super().__init__(P, R)
        self.W, self.f, self.reading, self.direct = W, f, reading, direct
        self.b = {x[0]['usr']: x + (s,) for x, s in blks}
        self.paths = []
        self.msg = [('O', 'arg:' + p['n'], bare(p['t'].rstrip('&* '))) for p in f['p'] if 'Msg' in p['t']][0]
        self.site = None

    def call(self, E, st, fr, node, q, recv, args):
        u = (node.get('c') or {}).get('usr')
        if u in self.b:
            f, fd, li, ri, (kind, fails) = self.b[u]
            off = 0
            if len(args) <= max(li, ri):
                return None
            return self.block(E, st, fr, node, args[ri], args[li], kind, fails)
        cs = R_CALLS if self.reading else W_CALLS
        if q in cs and len(args) >= 3:
            return self.block(E, st, fr, node, args[1], args[2], 'count', {-1, 'partial', 0} if self.reading else {-1, 'partial'})
        if q in COPY and len(args) >= 3 and self.reading:
            self.copied(E, st, fr, node, args)
        return None

    def block(self, E, st, fr, node, ptr, length, kind, fails):
        R = self.report_to
        w, chain = where_chain(E, node, fr)
        self.site = w
        seq = st.get('seq') or ()
        st, n = E.val(st, length, node, fr)
        for a in node.get('a') or []:
            if a.get('k') == 'var' and length[0] == '&' and a.get('id') == length[1][-1]:
                for ln, sym, w0 in seq:
                    if ln[0] == 'c' and mentions(n, lambda x: x == sym) and WIDTH.get(bare(a['t'])) == ln[1]:
                        st = self.signed(st, sym, a['t'])
        rule = 'after a block failed nothing more is transferred'
        R.ok(rule, w)
        if st.get('failed') is not None:
            R.bad(rule, w, 'another block is transferred after one failed', chain)
        if not self.reading and not seq:
            st = self.bounds(E, st)
        out = []
        if self.reading:
            dst = ptr[1] if ptr[0] == '&' else None
            if dst is None:
                st, v = E.val(st, ptr, node, fr)
                if v[0] == 'ptr':
                    dst = v[1]
            else:
                v = st.read(dst)
                if v[0] == 'ptr':
                    dst = v[1]
            s, sym = E.fresh(st, fr, node, ('blk', len(seq)))
            s, n = E.val(s, length, node, fr)
            if dst is not None:
                if dst[0] == 'I' and dst[2] == C0:
                    dst = dst[1]
                s = s.write(dst, ('op', 'vec', n, sym) if self.is_container(fr, node, ptr, dst) else sym)
            s = s.set('seq', seq + ((n, sym, ('w', w)),))
        else:
            st, v = E.val(st, ptr, node, fr)
            if ptr[0] == '&' and v[0] not in ('ptr',):
                v = ('ptr', ptr[1])
            what = v
            if v[0] == 'ptr' and v[1][0] in ('L', 'T'):
                what = ('value', st.read(v[1]))
            elif v[0] == 'ptr' and v[1][0] == 'I' and v[1][1][0] in ('L', 'T'):
                what = ('value', st.read(v[1][1]))
            s = st.set('seq', seq + ((n, what, ('w', w)),))
        good = C1 if kind == 'bool' else n if kind == 'count' else ('undef',)
        out.append((s, good))
        f = st.set('failed', C1).set('seq', seq or ((n, C0, ('w', w)),))
        if kind == 'bool':
            out.append((f, C0))
        elif kind == 'count':
            for x in fails:
                if x == 'partial':
                    s2, r = E.fresh(f, fr, node, ('part', len(seq)))
                    s2, n2 = E.val(s2, length, node, fr)
                    s2 = E.assume(s2, ('op', '<', C0, r), True) or s2
                    s2 = E.assume(s2, ('op', '<', r, n2), True)
                    if s2 is not None:
                        out.append((s2, r))
                else:
                    out.append((f, ('c', x)))
        return out

    def recast(self, t):
        """Is there an explicit conversion to the unsigned type of this width?"""
        return any(n.get('k') == 'cast' and 'unsigned' in n.get('t', '') and WIDTH.get(bare(n['t'])) == WIDTH[t] for n in walk(self.f))

    def signed(self, st, sym, t):
        t = bare(t)
        if t in ('signed char', 'char', 'short', 'int') and not self.recast(t):
            return st.set(('signed', sym), C1)
        return st

    def is_container(self, fr, node, ptr, dst):
        if dst[0] == 'F':
            return dst[2] in (self.W.name, self.W.data)
        for a in node.get('a') or []:
            if 'vector' in a.get('t', '') or 'string' in a.get('t', ''):
                return True
        return False

    def bounds(self, E, st):
        for f in (self.W.name, self.W.data):
            b = 8
            for w in (4, 2, 1):
                if any(E.prove_le(st, z, ('c', 256 ** w - 1), 0) for z in sizes(('F', self.msg, f))):
                    b = w
            st = st.set(('bound', f), ('c', b))
        return st

    def copied(self, E, st, fr, node, args):
        """Copies into the message: from the start of a block, all of it."""
        vs = []
        for a in args[:3]:
            st, v = E.val(st, a, node, fr)
            vs.append(v)
        d, s, n = vs
        if node['c']['q'] == 'std::copy_n':
            s, n, d = vs
        if s[0] != 'ptr' or d[0] != 'ptr':
            return
        src = s[1][1] if s[1][0] == 'I' else s[1]
        v = st.read(src)
        for ln, sym, w0 in st.get('seq') or ():
            if v == sym or v[:2] == ('op', 'vec') and v[3:] == (sym,):
                R = self.report_to
                w, chain = where_chain(E, node, fr)
                rule = 'a field takes all bytes of its block'
                R.ok(rule, w)
                if E.decide(st, ('op', '==', uncast(n), uncast(ln))) is not True and uncast(n) != uncast(ln):
                    R.bad(rule, w, '%s bytes are copied out of a block of %s' % (show(n), show(ln)), chain)
                if s[1][0] == 'I' and s[1][2] != C0 or d[1][0] == 'I' and d[1][2] != C0:
                    R.bad(rule, w, 'a field is copied with an offset', chain)
                C = d[1][1] if d[1][0] == 'I' else d[1]
                if has_any_field(C, (self.W.name, self.W.data)) or C[0] == 'L':
                    z = size_of(content(st, C), C)
                    if d[1][0] == 'I' and not E.prove_le(st, uncast(n), uncast(z), 0) and \
                            E.decide(st, ('op', '==', uncast(n), uncast(z))) is not True:
                        R.bad(rule, w, 'the destination has not been made large enough (%s) for %s bytes' % (show(z), show(n)), chain)

    def deref(self, E, st, fr, node, v):
        """Reading a number out of a received block: the type must have the width of the block."""
        if not self.reading or v[0] != 'ptr' or node is None:
            return st
        C = v[1][1] if v[1][0] == 'I' else v[1]
        t = node.get('t', '').replace('&', '')
        wd = WIDTH.get(bare(t))
        if wd is None:
            return st
        c = st.read(C)
        for ln, sym, w0 in st.get('seq') or ():
            if c[:2] == ('op', 'vec') and c[3:] == (sym,) and ln[0] == 'c':
                w, chain = where_chain(E, node, fr)
                rule = 'a field is decoded with the width it was transferred with'
                self.report_to.ok(rule, w)
                if wd == ln[1]:
                    st = self.signed(st, sym, t)
                if v[1][0] == 'I' and v[1][2] == C0 and wd != ln[1] and not (wd == 1):
                    self.report_to.bad(rule, w, 'a block of %d bytes is decoded as %d bytes' % (ln[1], wd), chain)
        return st


def has_any_field(loc, fs):
    return any(has_field(loc, f) for f in fs)


def receiver_layout(P, R, W, mon, E, st, w):
    """Names the blocks of a successful path by what the message got from them."""
    seq = st.get('seq') or ()
    res = []
    R1 = 'sender and receiver agree on every field'
    fin = {'id': st.read(('F', mon.msg, W.id)), 'name': st.read(('F', mon.msg, W.name)), 'data': st.read(('F', mon.msg, W.data))}
    for k, v in fin.items():
        if v == ('init', ('F', mon.msg, {'id': W.id, 'name': W.name, 'data': W.data}[k])):
            R.bad(R1, w, 'receiving succeeds without setting the %s of the message' % k)
        elif v[0] == 'ptr' or v[0] == 'op' and v[1] == 'cast' and len(v) > 2 and v[-1][0] == 'ptr':
            R.bad(R1, w, 'the %s is taken from a C string: it ends at the first zero byte' % k)
        elif v[:2] == ('op', 'vec') and all(x[0] == 'c' for x in v[3:]) and v[2] != C0:
            R.bad(R1, w, 'receiving succeeds although the %s of the message is only sized, not filled with what was received' % k)
    kinds = []
    for ln, sym, w0 in seq:
        kind = None
        for k in ('id', 'name', 'data'):
            if mentions(fin[k], lambda x: x == sym) and not (fin[k][:2] == ('op', 'vec') and fin[k][3:] != (sym,) and
                                                            not mentions(fin[k][3:], lambda x: x == sym)):
                kind = kind or k
        kinds.append([kind, ln, sym, w0])
    # the name's own length: content is the block, its length is another block
    for e in kinds:
        if e[0] in ('name', 'data'):
            for g in kinds:
                if g is not e and mentions(e[1], lambda x: x == g[2]):
                    g[0] = e[0] + ' length'
                    g.append(wraps(e[1], g[2]))
                    if st.get(('signed', g[2])) is not None:
                        R.bad(R1, g[3][1], 'the %s is decoded as a signed number: large lengths the sender accepts turn negative' % g[0])
    for e in kinds:
        if e[0] == 'id':
            e.append(wraps(fin['id'], e[2]))
    return kinds


def sender_layout(P, R, W, mon, E, st):
    res = []
    for n, what, w0 in st.get('seq') or ():
        kind = None
        wr = []
        if what[0] == 'value':
            v = what[1]
            for k, f in (('name length', W.name), ('data length', W.data)):
                C = ('F', mon.msg, f)
                for z in sizes(C):
                    if mentions(v, lambda x: x == z):
                        kind = k
                        wr = wraps(v, z)
            if v == ('init', ('F', mon.msg, W.id)) or mentions(v, lambda x: x == ('init', ('F', mon.msg, W.id))):
                kind = 'id'
                wr = wraps(v, ('init', ('F', mon.msg, W.id)))
        elif what[0] == 'ptr':
            l = what[1]
            off = None
            if l[0] == 'I':
                l, off = l[1], l[2]
            for k, f in (('id', W.id), ('name', W.name), ('data', W.data)):
                if l == ('F', mon.msg, f):
                    kind = k
                    if off not in (None, C0):
                        wr = [('offset',)]
        res.append([kind, n, what, w0, wr])
    return res


def c02(P, R):
    """Block functions (the outermost functions with a length below send/receive): a ghost counter is advanced with every
    result of the system call (error, end of stream, any amount up to the one asked for); success implies counter = length in
    the constraint domain, no call asks for more than is left, every copy goes to the counter's position, has the length just
    read and fits its container.  Message functions: with blocks that may fail, success implies that every block succeeded and
    nothing is transferred after a failure; the sequence of fields (kind, width, byte order) of the sender equals the one the
    receiver decodes; name and payload are proven to fit their length fields before the first byte is written."""
    W = Wire(P)
    lay = {}
    for reading, tops in ((False, W.senders), (True, W.receivers)):
        for f in tops:
            bl, direct = blocks(P, f, R_CALLS if reading else W_CALLS)
            sums = []
            for x in bl:
                sums.append((x, block_summary(P, R, x[0], x[1], x[2], x[3], reading)))
            if not sums and not direct:
                raise AnalysisBroken('%s: how it transfers blocks was not recognised' % f['q'])
            mon = Top(P, R, W, f, sums, direct, reading)
            E, outs, thr = run(P, R, mon, f)
            w = '%s:%s' % (rel(f['file']), f['line'])
            good = 0
            for st, v in outs:
                d = E.decide(st, v) if f['rt'] == 'bool' else None
                seq = st.get('seq') or ()
                rule = 'success means that every block was transferred'
                R.ok(rule, w)
                if not reading and seq:
                    r3 = 'what does not fit its length field is refused before anything is written'
                    R.ok(r3, w)
                    st2 = st
                    for k, n, what, w0, wr in sender_layout(P, R, W, mon, E, st):
                        if k in ('name length', 'data length') and n[0] == 'c' and n[1] in (1, 2, 4):
                            b = st.get(('bound', W.name if k == 'name length' else W.data))
                            if b is not None and b[1] > n[1]:
                                R.bad(r3, w0[1], 'the %s is not shown to fit into %d bytes before the first byte is written'
                                      % (k.replace(' length', ''), n[1]))
                if d is False:
                    continue
                if st.get('failed') is not None:
                    R.bad(rule, w, '%s reports success on a path on which a block was not transferred completely' % f['n'])
                    continue
                if not seq:
                    if reading:
                        R.bad(rule, w, '%s reports success without transferring anything' % f['n'])
                    continue
                good += 1
                L = receiver_layout(P, R, W, mon, E, st, w) if reading else sender_layout(P, R, W, mon, E, st)
                sig = []
                for e in L:
                    ln = e[1]
                    wr = [x for x in (e[4] if len(e) > 4 else []) if x[0] in ('swap', 'offset') or x[0] == 'cast' and
                          x[1] < (ln[1] if ln[0] == 'c' and isinstance(ln[1], int) else 8)]
                    sig.append((e[0], ln[1] if ln[0] == 'c' else 'n', tuple(x[0] for x in wr), e[3][1]))
                    if not reading and e[0] in ('name', 'data'):
                        C = ('F', mon.msg, W.name if e[0] == 'name' else W.data)
                        z = sizes(C)
                        r4 = 'all of the name and the payload is sent'
                        R.ok(r4, e[3][1])
                        if uncast(ln) not in z and not any(E.decide(st, ('op', '==', uncast(ln), x)) for x in z):
                            R.bad(r4, e[3][1], '%s bytes of the %s are sent instead of all of it' % (show(ln), e[0]))
                lay.setdefault(reading, {}).setdefault(tuple(x[:3] for x in sig), sig)
            if not good:
                R.bad('success means that every block was transferred', w, '%s can never succeed' % f['n'])
    rule = 'sender and receiver agree on every field'
    if True in lay and False in lay:
        for a, sa in lay[False].items():
            for b, sb in lay[True].items():
                R.ok(rule, sa[0][3])
                if len(a) != len(b):
                    R.bad(rule, sb[-1][3], 'the sender writes %d fields (%s), the receiver reads %d (%s)'
                          % (len(a), ', '.join(str(x[0]) for x in a), len(b), ', '.join(str(x[0]) for x in b)))
                    continue
                for i, (x, y) in enumerate(zip(a, b)):
                    kx, ky = x[0], y[0]
                    if kx is not None and ky is not None and kx != ky:
                        R.bad(rule, sb[i][3], 'field %d is sent as %s but received as %s' % (i + 1, kx, ky))
                    elif x[1] != y[1]:
                        R.bad(rule, sb[i][3], 'field %d (%s) is sent with width %s but received with width %s'
                              % (i + 1, kx or ky, x[1], y[1]))
                    elif kx is not None and ky is not None and x[2] != y[2]:
                        R.bad(rule, sb[i][3], 'field %d (%s) is encoded %s but decoded %s' % (i + 1, kx, x[2] or 'plainly', y[2] or 'plainly'))


CHECKS = {'C02': c02}
