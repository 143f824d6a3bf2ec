"""Models of the standard library, nlohmann::json, cbor, seasocks and POSIX calls used by the analysed sources."""
import re
from .terms import *

MAPS = {'std::map', 'std::unordered_map', 'std::multimap', 'std::unordered_multimap'}
SETS = {'std::set', 'std::unordered_set', 'std::multiset', 'std::unordered_multiset'}
SEQS = {'std::vector', 'std::list', 'std::deque', 'std::array', 'std::queue', 'std::stack', 'std::forward_list',
        'std::initializer_list'}
STRING = 'std::basic_string'
CONTAINERS = MAPS | SETS | SEQS
SMART = {'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr'}
WEAK = {'std::weak_ptr', 'std::__weak_ptr'}
ATOMIC = {'std::atomic', 'std::__atomic_base', 'std::atomic_flag', 'std::__atomic_float'}
JSON = 'nlohmann::basic_json'
NPOS = ('c', (1 << 64) - 1)
SECOND = 'std::pair::second'
FIRST = 'std::pair::first'

REPO_THROWS = {
    'scalopus::Endpoint::handle', 'scalopus::Endpoint::unsolicited',
    'scalopus::TransportFactory::discover', 'scalopus::TransportFactory::connect', 'scalopus::TransportFactory::serve',
    'scalopus::TraceEventSource::startInterval', 'scalopus::TraceEventSource::stopInterval',
    'scalopus::TraceEventSource::finishInterval',
}

TO_JSON_THROW = 'nlohmann::exception'


def is_container(q):
    return q in CONTAINERS


def empty_like(v):
    return v in (('empty',),) or (v[0] == 'default') or (v[0] == 'list' and len(v) == 1) or v == ('str', '')


def size_of(v, c):
    """Size of a container content (c is None for strings)."""
    if empty_like(v):
        return C0
    if v[0] == 'list':
        return ('c', len(v) - 1)
    if v[0] == 'str':
        return ('c', len(v[1].encode('utf8', 'replace')) if isinstance(v[1], str) else 0)
    if v[0] == 'op' and v[1] == 'vec':
        return v[2]
    if v[0] == 'rec':
        return size_of(v[1], c)
    if c is None or c[0] in ('L', 'T'):
        return ('size', v)
    return ('size', v, c)


def content(st, c):
    v = st.base(c)
    while v[0] == 'rec':
        v = v[1]
    return v


def keyed(c, k):
    return ('F', ('K', c, k), SECOND)


def obj(E, n, recv, st, fr):
    """Location of the receiver object."""
    if n.get('arrow'):
        st, p = E.val(st, recv, n['o'], fr)
        if n['o'].get('k') == 'this' or (n['o'].get('k') == 'call' and n['o'].get('op') == '->'):
            return st, (p[1] if p[0] == 'ptr' else ('D', p))
        return E.target(st, p, n, fr)
    return E.loc(st, recv, n['o'], fr)


def acc(E, st, fr, n, loc, rw):
    if E.mon.wants_access:
        st = E.mon.access(E, st, fr, n, loc, rw)
    return st


def vals(E, st, n, args, fr):
    vs = []
    an = n.get('a') or []
    for i, x in enumerate(args):
        st, v = E.val(st, x, an[i] if i < len(an) else n, fr)
        vs.append(v)
    return st, vs


def mutate(E, st, c, n, fr, keep=True, v=None):
    """Record that the structure of container c changed."""
    st = acc(E, st, fr, n, c, 'w')
    if v is None:
        st, v = E.fresh(st, fr, n, ('mut', c))
    if keep:
        m = dict(st.mem)
        m[c] = v
        st = st.copy(mem=m)
    else:
        st = st.write(c, v)
    return E.mon.write(E, st, fr, n, c, v)


def nonempty(E, st, c):
    """Assume container c holds something."""
    t = ('op', '==', size_of(content(st, c), c), C0)
    s = E.assume(st, t, False)
    return s if s is not None else st


# ------------------------------------------------------------------------------------------------------- constructors
def std_ctor(E, n, rq, st, fr):
    res = []
    anodes = n.get('a') or []
    for s, xs in E.evs(anodes, st, fr):
        for s2, v in ctor_value(E, n, rq, xs, anodes, s, fr):
            s2 = E.mon.after(E, s2, fr, n, rq + '::ctor', None, xs, v)
            if s2 is not None:
                res.append((s2, v))
    return res


def flat_init(v):
    return v


def ctor_value(E, n, rq, xs, anodes, st, fr):
    # default arguments such as allocators are not interesting
    real = [(x, a) for x, a in zip(xs, anodes) if not (a.get('t', '').replace('const ', '').startswith(('std::allocator', 'std::less')))]
    if rq == 'std::thread':
        if not real:
            return [(st, ('nothread',))]
        s, v = E.val(st, real[0][0], real[0][1], fr)
        if v[0] == 'ptr':
            v = ('lam?', v)
        return [(s, ('thread', v))]
    if rq in ATOMIC:
        if not real:
            return [(st, ('undef',))]
        return [E.val(st, real[0][0], real[0][1], fr)]
    if rq == 'std::promise':
        s, p = E.fresh(st, fr, n, 'promise')
        return [(s, ('promise', p))]
    if rq in ('std::mutex', 'std::shared_timed_mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex'):
        return [(st, ('mutex',))]
    if rq in SMART or rq in WEAK or rq == 'std::function':
        if not real:
            return [(st, C0)]
        return [E.val(st, real[0][0], real[0][1], fr)]
    if rq in ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream'):
        real = [r for r in real if 'openmode' not in r[1].get('t', '').lower()]
        if real:
            s, v = E.val(st, real[0][0], real[0][1], fr)
            return [(s, ('sscat', v))]
        return [(st, ('sscat',))]
    if rq == STRING:
        if not real:
            return [(st, ('str', ''))]
        s, vs = st, []
        for x, a in real:
            s, v = E.val(s, x, a, fr)
            vs.append(v)
        if len(vs) == 1:
            return [(s, vs[0])]
        if vs[0][0] == 'it' and vs[1][0] == 'it' and vs[0][2] == ('begin',) and vs[1][2] == ('end',) and vs[0][1] == vs[1][1]:
            return [(s, s.read(vs[0][1]))]
        whole = whole_block(E, s, vs)
        return [(s, whole if whole is not None else ('op', 'string') + tuple(vs))]
    if rq in CONTAINERS:
        if not real:
            return [(st, ('empty',))]
        s, vs = st, []
        for x, a in real:
            s, v = E.val(s, x, a, fr)
            vs.append(v)
        if vs[0][0] == 'it' and len(vs) > 1 and vs[1][0] == 'it':
            if vs[0][2] == ('begin',) and vs[1][2] == ('end',) and vs[0][1] == vs[1][1]:
                return [(s, s.read(vs[0][1]))]
            return [(s, ('op', 'range', vs[0], vs[1]))]
        t = real[0][1].get('t', '').replace('const ', '')
        if rq == 'std::vector' and t in ('unsigned long', 'int', 'unsigned int', 'long', 'unsigned short'):
            return [(s, ('op', 'vec', vs[0]) + tuple(vs[1:2]))]
        if vs[0][0] == 'ptr' and len(vs) > 1:
            return [(s, ('op', 'range', vs[0], vs[1]))]
        if vs[0][0] == 'list' and rq in MAPS:
            items = []
            for it in vs[0][1:]:
                k, v = None, None
                if it[0] == 'rec':
                    k, v = proj(it, ('F', FIRST)), proj(it, ('F', SECOND))
                elif it[0] == 'list' and len(it) == 3:
                    k, v = it[1], it[2]
                if k is not None:
                    items.append(((('K', k), ('F', SECOND)), v))
            return [(s, ('rec', ('litmap', vs[0]), tuple(items)))]
        return [(s, vs[0])]
    if rq in ('std::pair', 'std::tuple'):
        s, vs = st, []
        for x, a in real:
            s, v = E.val(s, x, a, fr)
            vs.append(v)
        if rq == 'std::pair' and len(vs) == 2:
            return [(s, ('rec', ('default', 'std::pair'), (((('F', FIRST),), vs[0]), ((('F', SECOND),), vs[1]))))]
        if rq == 'std::tuple' and len(vs) > 1:
            return [(s, ('rec', ('default', 'std::tuple'), tuple((((('F', 'std::tuple::%d' % i),), v)) for i, v in enumerate(vs))))]
        if len(vs) == 1:
            return [(s, vs[0])]
        return [(s, ('default', rq))]
    if rq in (JSON, 'nlohmann::detail::json_ref'):
        real = [r for r in real if 'value_t' not in r[1].get('t', '') and not (r[1].get('k') == 'bool' and len(real) > 1)]
        if not real:
            return [(st, ('empty',))]
        s, v = E.val(st, real[0][0], real[0][1], fr)
        if v[0] == 'list' and len(v) > 1 and all(i[0] == 'list' and len(i) == 3 and i[1][0] == 'str' for i in v[1:]):
            v = ('rec', ('empty',), tuple((((('K', i[1]),), i[2])) for i in v[1:]))
        return [(s, v)]
    if rq == 'std::chrono::duration' or rq.startswith('std::chrono'):
        if real:
            return [E.val(st, real[0][0], real[0][1], fr)]
        return [(st, C0)]
    if rq == 'std::initializer_list':
        if real:
            return [E.val(st, real[0][0], real[0][1], fr)]
        return [(st, ('empty',))]
    if 'iterator' in rq and real:
        return [E.val(st, real[0][0], real[0][1], fr)]
    s, vs = st, []
    for x, a in real:
        s, v = E.val(s, x, a, fr)
        vs.append(v)
    if not vs:
        return [(s, ('default', rq))]
    return [(s, ('op', 'new ' + rq) + tuple(vs))]


# -------------------------------------------------------------------------------------------------------------- calls
def std_call(E, n, c, recv, args, st, fr):
    q = c['q']
    cls, name = (q.rsplit('::', 1) + [''])[:2] if '::' in q else ('', q)
    if 'operator' in q:
        i = q.index('operator')
        cls, name = q[:i].rstrip(':'), q[i:]
    h = HANDLERS.get(q)
    r = None
    if h is not None:
        r = h(E, n, c, recv, args, st, fr)
    elif recv is not None:
        if cls in MAPS or cls in SETS or cls in SEQS:
            r = container(E, n, c, cls, name, recv, args, st, fr)
        elif cls == STRING or cls == 'std::basic_string_view':
            r = string(E, n, c, name, recv, args, st, fr)
        elif cls in SMART:
            r = smart(E, n, c, name, recv, args, st, fr)
        elif cls in WEAK:
            r = weak(E, n, c, name, recv, args, st, fr)
        elif cls in ATOMIC:
            r = atomic(E, n, c, name, recv, args, st, fr)
        elif cls == JSON:
            r = json(E, n, c, name, recv, args, st, fr)
        elif cls == 'std::function':
            r = function(E, n, c, name, recv, args, st, fr)
        elif 'iterator' in cls:
            r = iterator(E, n, c, name, recv, args, st, fr)
        elif cls in ('std::unique_lock', 'std::shared_lock', 'std::lock_guard'):
            r = guard(E, n, c, name, recv, args, st, fr)
        elif cls in ('std::mutex', 'std::shared_timed_mutex', 'std::recursive_mutex', 'std::shared_mutex',
                     'std::timed_mutex', 'std::__mutex_base'):
            r = mutex(E, n, c, name, recv, args, st, fr)
        elif cls in ('std::pair', 'std::tuple') and name == 'operator=':
            r = assign(E, n, recv, args, st, fr)
        elif cls == 'std::thread':
            r = thread(E, n, c, name, recv, args, st, fr)
        elif cls in ('std::future', 'std::__basic_future', 'std::shared_future'):
            r = future(E, n, c, name, recv, args, st, fr)
        elif cls == 'std::promise':
            r = promise(E, n, c, name, recv, args, st, fr)
        elif name == 'operator<<' and 'stream' in cls:
            r = stream_out(E, n, c, recv, args, st, fr)
        elif cls in ('std::basic_stringstream', 'std::basic_ostringstream') and name == 'str':
            r = ss_str(E, n, c, recv, args, st, fr)
        elif name == 'operator=' and len(args) == 1:
            r = assign(E, n, recv, args, st, fr)
        elif cls.startswith('std::chrono') and name in ('count', 'time_since_epoch'):
            s, v = E.val(st, recv, n['o'], fr)
            r = [(s, v)]
    else:
        if name.startswith('operator') and len(args) == 2:
            r = free_operator(E, n, c, name[8:], args, st, fr)
        elif name.startswith('operator') and cls.startswith('std::chrono'):
            s, vs = vals(E, st, n, args, fr)
            r = [(s, ('op', name[8:]) + tuple(vs))]
    if r is None:
        r = default(E, n, c, cls, name, recv, args, st, fr)
    else:
        out = []
        for s, v in r:
            s = E.mon.after(E, s, fr, n, q, recv, args, v)
            if s is not None:
                out.append((s, v))
        r = out
    return r


def default(E, n, c, cls, name, recv, args, st, fr):
    q = c['q']
    if q.startswith('std::') or q.startswith('nlohmann') or q.startswith('__gnu'):
        if recv is not None and not c.get('const'):
            st, l = obj(E, n, recv, st, fr)
            if st is None:
                return []
            st, vs = vals(E, st, n, args, fr)
            st, v = E.fresh(st, fr, n, ('mut', q))
            if l[0] != 'D':
                st = acc(E, st, fr, n, l, 'w').write(l, v)
            return E.opaque(n, c, recv, args, st, fr)
        pts = c.get('pt') or []
        if any(t.endswith('&') and not t.startswith('const ') for t in pts) or any(t.endswith('*') and not t.startswith('const ') for t in pts):
            # arguments that are closures are still called
            return E.opaque(n, c, recv, args, st, fr)
        ops = []
        if recv is not None:
            st, l = obj(E, n, recv, st, fr)
            if st is None:
                return []
            st, v = E.val(st, ('&', l), n, fr)
            ops.append(v)
        st, vs = vals(E, st, n, args, fr)
        v = ('op', q) + tuple(ops) + tuple(vs)
        st = E.mon.after(E, st, fr, n, q, recv, args, v)
        return [(st, v)] if st is not None else []
    return E.opaque(n, c, recv, args, st, fr)


def assign(E, n, recv, args, st, fr):
    an = n.get('a') or [n]
    st, v = E.val(st, args[0], an[0], fr)
    st, l = obj(E, n, recv, st, fr)
    if st is None:
        return []
    if args[0] is not None and args[0][0] == '&' and is_move(an[0]) and args[0][1] != l:
        st = E.moved_from(st, args[0][1], (n.get('c') or {}).get('cls') or '', n, fr)
    st = E.store(st, l, v, n, fr)
    return [(st, ('&', l))]


def is_move(a):
    return a.get('k') == 'call' and (a.get('c') or {}).get('q') == 'std::move'


def container(E, n, c, cls, name, recv, args, st, fr):
    st, C = obj(E, n, recv, st, fr)
    if st is None:
        return []
    v = st.mem.get(C)
    if v is not None and v[0] == 'ref':
        C = v[1]
    cont = content(st, C)
    ismap, isset = cls in MAPS, cls in SETS
    an = n.get('a') or []
    if name == 'operator=':
        return assign(E, n, recv, args, st, fr)
    if name in ('begin', 'cbegin'):
        st = acc(E, st, fr, n, C, 'r')
        return [(st, ('it', C, ('begin',), cont))]
    if name in ('end', 'cend', 'rend', 'crend'):
        st = acc(E, st, fr, n, C, 'r')
        return [(st, ('it', C, ('end',), cont))]
    if name in ('rbegin', 'crbegin'):
        st = acc(E, st, fr, n, C, 'r')
        return [(st, ('it', C, ('rbegin',), cont))]
    if name == 'empty':
        st = acc(E, st, fr, n, C, 'r')
        t = ('op', '==', size_of(cont, C), C0)
        d = E.decide(st, t)
        return [(st, t if d is None else (C1 if d else C0))]
    if name == 'size' or name == 'length':
        st = acc(E, st, fr, n, C, 'r')
        return [(st, size_of(cont, C))]
    if name in ('find', 'count', 'contains', 'lower_bound', 'upper_bound') and (ismap or isset):
        st, vs = vals(E, st, n, args, fr)
        st = acc(E, st, fr, n, C, 'r')
        it = ('it', C, ('find', vs[0]), cont)
        if name in ('lower_bound', 'upper_bound'):
            st, f = E.fresh(st, fr, n, (name, vs[0]))
            return [(st, ('it', C, ('nth', f), cont))]
        if name == 'find':
            return [(st, it)]
        return [(st, ('op', '==', ('isend', it), C0))]
    if name == 'at' or name == 'operator[]':
        st, vs = vals(E, st, n, args, fr)
        k = vs[0]
        if ismap:
            if name == 'at':
                st = acc(E, st, fr, n, C, 'r')
                it = ('it', C, ('find', k), cont)
                present = E.decide(st, ('op', '==', ('isend', it), C0))
                known = keyed(C, k) in st.mem or (st.base(C)[0] == 'rec' and any(p[0] == ('K', k) for p, _ in st.base(C)[2]))
                if present is not True and not known and cont[0] != 'litmap':
                    E.maythrow(st, n, fr, 'std::out_of_range')
                return [(st, ('&', keyed(C, k)))]
            # operator[] inserts when absent
            was = C in st.mem and keyed(C, k) in st.mem
            if not was:
                it = ('it', C, ('find', k), cont)
                present = E.decide(st, ('op', '==', ('isend', it), C0))
                if present is True:
                    st = acc(E, st, fr, n, C, 'r')
                else:
                    fresh_key = empty_like(cont) or present is False
                    st = mutate(E, st, C, n, fr)
                    s2 = nonempty(E, st, C)
                    st = s2
                    nit = ('it', C, ('find', k), content(st, C))
                    s2 = E.assume(st, ('op', '==', ('isend', nit), C0), True)
                    st = s2 if s2 is not None else st
                    if fresh_key and keyed(C, k) not in st.mem:
                        m = dict(st.mem)
                        m[keyed(C, k)] = ('default', mapped_type(c.get('rt', '')))
                        st = st.copy(mem=m)
            else:
                st = acc(E, st, fr, n, C, 'w')
            return [(st, ('&', keyed(C, k)))]
        if name == 'at':
            if not E.prove_le(st, k, size_of(cont, C), -1):
                E.maythrow(st, n, fr, 'std::out_of_range')
        st = acc(E, st, fr, n, C, 'r')
        return [(st, ('&', ('I', C, k)))]
    if name in ('front', 'back', 'top'):
        st = acc(E, st, fr, n, C, 'r')
        if name == 'front' and C[0] != 'D' or name == 'front':
            return [(st, ('&', ('I', C, C0)))] if cls in ('std::vector', 'std::array') else [(st, ('&', ('E', C, ('front',))))]
        return [(st, ('&', ('E', C, ('back',))))]
    if name == 'data':
        st = acc(E, st, fr, n, C, 'r')
        return [(st, ('ptr', ('I', C, C0)))]
    if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace', 'insert', 'try_emplace',
                'insert_or_assign', 'emplace_hint'):
        st, vs = vals(E, st, n, args, fr)
        if name.startswith('emplace') and not ismap and not isset and len(vs) > 1:
            vs2 = [('rec', ('default', 'elem'), tuple((((('F', 'std::tuple::%d' % i),), v)) for i, v in enumerate(vs)))]
        else:
            vs2 = vs
        if an:
            for x, a in zip(args, an):
                if is_move(a) and x is not None and x[0] == '&':
                    st = E.moved_from(st, x[1], (a.get('rq') or a.get('t', '').split('<')[0]), n, fr)
        oldc = cont
        if name == 'insert' and len(vs) == 3 and not ismap and not isset and cls in ('std::vector', 'std::deque', 'std::list'):
            # a range or a number of copies: may be empty
            d = None
            if vs[1][0] == 'ptr' and vs[2][0] == 'ptr':
                (b1, i1), (b2, i2) = ptr_split(vs[1]), ptr_split(vs[2])
                if b1 == b2:
                    d = E.arith('-', i2, i1)
            elif it_split(vs[1]) is not None and it_split(vs[2]) is not None:
                (b1, i1), (b2, i2) = it_split(vs[1]), it_split(vs[2])
                if b1 == b2:
                    i1, i2 = (size_of(content(st, b1), b1) if i is None else i for i in (i1, i2))
                    d = E.arith('-', i2, i1)
            elif vs[1][0] not in ('it', 'ptr') and not mentions(vs[1], lambda x: x[:1] in (('it',), ('ptr',))):
                d = vs[1]
            st, f = E.fresh(st, fr, n, ('mut', C))
            z = size_of(oldc, C)
            st = mutate(E, st, C, n, fr, keep=False, v=('op', 'vec', E.arith('+', z, d), f) if d is not None else f)
            st, f = E.fresh(st, fr, n, ('ins', C))
            return [(st, ('it', C, ('nth', f), content(st, C)))]
        if name == 'insert' and len(vs) == 2 and (ismap or isset) and vs[0][0] in ('it', 'ptr') and vs[1][0] in ('it', 'ptr'):
            st = mutate(E, st, C, n, fr)
            return [(st, ('void',))]
        st = mutate(E, st, C, n, fr)
        new = content(st, C)
        st = nonempty(E, st, C)
        if ismap:
            k = v = None
            if name in ('emplace', 'insert_or_assign', 'try_emplace') and len(vs) >= 2 and vs[0][0] != 'it':
                k, v = vs[0], vs[1]
            elif vs and vs[-1][0] == 'rec':
                k, v = proj(vs[-1], ('F', FIRST)), proj(vs[-1], ('F', SECOND))
            if k is not None:
                it0 = ('it', C, ('find', k), oldc)
                present = E.decide(st, ('op', '==', ('isend', it0), C0))
                res = []
                if name != 'insert_or_assign' and present is not False and not empty_like(oldc):
                    s1, keep = E.fresh(st, fr, n, ('kept', C))
                    s1 = E.assume(s1, ('op', '==', ('isend', ('it', C, ('find', k), new)), C0), True) or s1
                    s1p = E.assume(s1, ('op', '==', ('isend', it0), C0), True)
                    if s1p is not None:
                        m = dict(s1p.mem)
                        m.setdefault(keyed(C, k), keep)
                        res.append((s1p.copy(mem=m), ins_res(('it', C, ('find', k), new), C0)))
                    if present is True:
                        return res
                    st = E.assume(st, ('op', '==', ('isend', it0), C0), False) or st
                s2 = E.store(st, keyed(C, k), v, n, fr)
                s2 = E.assume(s2, ('op', '==', ('isend', ('it', C, ('find', k), new)), C0), True) or s2
                res.append((s2, ins_res(('it', C, ('find', k), new), C1)))
                return res
        if isset and vs and vs[-1][0] != 'it':
            k = vs[-1]
            nit = ('it', C, ('find', k), new)
            s2 = E.assume(st, ('op', '==', ('isend', nit), C0), True) or st
            s2, fl = E.fresh(s2, fr, n, ('inserted', k))
            return [(s2, ins_res(nit, fl))]
        if cls == 'std::vector' or cls == 'std::list' or cls == 'std::deque':
            if name in ('push_back', 'emplace_back', 'push'):
                m = dict(st.mem)
                m[('E', C, ('back',))] = vs2[0] if vs2 else ('undef',)
                st = st.copy(mem=m)
                if name == 'emplace_back':
                    return [(st, ('&', ('E', C, ('back',))))]
                return [(st, ('void',))]
        st, f = E.fresh(st, fr, n, ('ins', C))
        return [(st, ('it', C, ('nth', f), content(st, C)))]
    if name in ('erase', 'pop_back', 'pop_front', 'pop', 'remove', 'remove_if'):
        st, vs = vals(E, st, n, args, fr)
        key = None
        if vs:
            if vs[0][0] == 'it':
                if vs[0][2][0] == 'find':
                    key = vs[0][2][1]
            elif ismap or isset:
                key = vs[0]
        if key is not None and (ismap or isset):
            st = st.drop(('K', C, key))
        elif name in ('pop_back', 'pop_front', 'pop') or vs:
            for k in [k for k in st.mem if k[0] == 'E' and k[1] == C]:
                if not (k[2] and k[2][0] == 'rf'):
                    st = st.drop(k)
        st = mutate(E, st, C, n, fr)
        new = content(st, C)
        if key is not None and (ismap or isset):
            st = E.assume(st, ('op', '==', ('isend', ('it', C, ('find', key), new)), C0), False) or st
        st, f = E.fresh(st, fr, n, ('next', C))
        if vs and vs[0][0] == 'it':
            return [(st, ('it', C, ('nth', f), new))]
        return [(st, f)]
    if name == 'clear':
        st = mutate(E, st, C, n, fr, keep=False, v=('empty',))
        return [(st, ('void',))]
    if name in ('resize', 'assign'):
        st, vs = vals(E, st, n, args, fr)
        if name == 'resize':
            st = mutate(E, st, C, n, fr, keep=False, v=('op', 'vec', vs[0]))
        elif len(vs) == 2 and vs[0][0] == 'it':
            v = st.read(vs[0][1]) if vs[0][2] == ('begin',) and vs[1][2] == ('end',) else ('op', 'range', vs[0], vs[1])
            st = mutate(E, st, C, n, fr, keep=False, v=v)
        else:
            st = mutate(E, st, C, n, fr, keep=False)
        return [(st, ('void',))]
    if name == 'swap':
        x = args[0]
        st, D = E.loc(st, x, an[0] if an else n, fr)
        a, b = st.read(C), st.read(D)
        st = acc(E, st, fr, n, C, 'w')
        st = acc(E, st, fr, n, D, 'w')
        st = st.write(C, b).write(D, a)
        st = E.mon.write(E, st, fr, n, C, b)
        st = E.mon.write(E, st, fr, n, D, a)
        return [(st, ('void',))]
    if name in ('reserve', 'shrink_to_fit', 'fill'):
        st = acc(E, st, fr, n, C, 'w')
        st, vs = vals(E, st, n, args, fr)
        return [(st, ('void',))]
    if name in ('max_size', 'capacity'):
        return [(st, ('op', name, cont))]
    if c.get('const'):
        st, vs = vals(E, st, n, args, fr)
        st = acc(E, st, fr, n, C, 'r')
        return [(st, ('op', c['q'], cont) + tuple(vs))]
    st, vs = vals(E, st, n, args, fr)
    st = mutate(E, st, C, n, fr, keep=False)
    st, f = E.fresh(st, fr, n, ('ret', c['q']))
    return [(st, f)]


def it_split(v):
    """(container, offset) of an iterator; None is the offset of the end."""
    if v[0] == 'op' and v[1] == '+' and len(v) == 4 and v[2][0] == 'it':
        b = it_split(v[2])
        return (b[0], v[3]) if b is not None and b[1] == C0 else None
    if v[0] == 'it' and v[2] == ('begin',):
        return v[1], C0
    if v[0] == 'it' and v[2] == ('end',):
        return v[1], None
    return None


def whole_block(E, st, vs):
    """The content of the container a (pointer, length) pair spans from its first to its last element; None if it does not."""
    if len(vs) != 2 or vs[0][0] != 'ptr':
        return None
    C, off = ptr_split(vs[0])
    if off != C0 or C[0] in ('O', 'D'):
        return None
    v = st.read(C)
    z = size_of(v, C)
    n = vs[1]
    if z == n or uncast(z) == uncast(n) or E.decide(st, ('op', '==', uncast(z), uncast(n))) is True:
        return v
    return None


def ptr_split(p):
    l = p[1]
    return (l[1], l[2]) if l[0] == 'I' else (l, C0)


def ins_res(it, flag):
    return ('rec', ('default', 'std::pair'), (((('F', FIRST),), it), ((('F', SECOND),), flag)))


def mapped_type(t):
    return t.replace('const ', '').rstrip(' &')


def string(E, n, c, name, recv, args, st, fr):
    st, l = obj(E, n, recv, st, fr)
    if st is None:
        return []
    an = n.get('a') or []
    if name == 'operator=':
        return assign(E, n, recv, args, st, fr)
    if name in ('operator[]', 'at'):
        st, vs = vals(E, st, n, args, fr)
        st, v = E.val(st, ('&', l), n, fr)
        if name == 'at' and not E.prove_le(st, vs[0], size_of(v, None), -1):
            E.maythrow(st, n, fr, 'std::out_of_range')
        return [(st, ('&', ('I', l, vs[0])))]
    if not c.get('const') and name in ('begin', 'end', 'data', 'front', 'back'):
        pass
    elif not c.get('const'):
        st, vs = vals(E, st, n, args, fr)
        st, v = E.val(st, ('&', l), n, fr)
        if name == 'clear':
            st = E.store(st, l, ('str', ''), n, fr)
            return [(st, ('void',))]
        if name in ('operator+=', 'append', 'push_back') and len(vs) == 1:
            nv = concat(v, vs[0])
        elif name == 'resize':
            nv = ('op', 'vec', vs[0])
        elif name == 'assign' and len(vs) == 1:
            nv = vs[0]
        elif name == 'assign' and len(vs) == 2 and whole_block(E, st, vs) is not None:
            nv = whole_block(E, st, vs)
        elif name == 'swap' and args[0] is not None and args[0][0] == '&':
            st = st.write(l, vs[0]).write(args[0][1], v)
            return [(st, ('void',))]
        elif name == 'reserve':
            return [(st, ('void',))]
        else:
            st, nv = E.fresh(st, fr, n, ('strmut', name))
        st = E.store(st, l, nv, n, fr)
        return [(st, ('&', l))]
    st, v = E.val(st, ('&', l), n, fr)
    st, vs = vals(E, st, n, args, fr)
    sz = size_of(v, None)
    if name in ('size', 'length'):
        return [(st, sz)]
    if name == 'empty':
        t = ('op', '==', sz, C0)
        d = E.decide(st, t)
        return [(st, t if d is None else (C1 if d else C0))]
    if name in ('c_str',):
        return [(st, v)]
    if name == 'data':
        return [(st, ('ptr', ('I', l, C0)))]
    if name in ('begin', 'cbegin'):
        return [(st, ('it', l, ('begin',), v))]
    if name in ('end', 'cend'):
        return [(st, ('it', l, ('end',), v))]
    if name in ('front', 'back'):
        return [(st, ('&', ('E', l, (name,))))]
    if name == 'substr':
        pos = vs[0] if vs else C0
        ln = vs[1] if len(vs) > 1 else NPOS
        ok = pos == C0 or (pos[0] == 'c' and sz[0] == 'c' and pos[1] <= sz[1]) or E.prove_le(st, pos, sz, 0)
        if not ok:
            E.maythrow(st, n, fr, 'std::out_of_range')
        if pos == C0 and ln == NPOS:
            return [(st, v)]
        r = ('op', 'substr', v, pos, ln)
        return [(st, r)]
    if name in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        needle = vs[0]
        start = vs[1] if len(vs) > 1 else (C0 if not name.startswith('rfind') and 'last' not in name else NPOS)
        res = []
        if v[0] == 'str' and needle[0] == 'str' and start[0] == 'c' and name in ('find',):
            i = v[1].find(needle[1], start[1])
            return [(st, ('c', i) if i >= 0 else NPOS)]
        known = st.facts.get(('op', '==', ('found', name, v, needle, start), C0))
        s1 = st
        s1, f = E.fresh(s1, fr, n, ('find', name, v, needle, start))
        miss = st
        res.append((miss, NPOS))
        if needle[0] == 'c':
            nl = C1
        elif 'of' in name.split('_'):
            nl = C1
        else:
            nl = size_of(needle, None)
        s1 = E.assume(s1, ('op', '==', f, NPOS), False) or s1
        if 'first' in name or name == 'find':
            if start != C0:
                s2 = E.assume(s1, ('op', '<', f, start), False)
                s1 = s2 or s1
        if nl[0] == 'c':
            # f + len <= size
            s2 = E.assume(s1, ('op', '<', sz, E.add(f, nl)), False)
            s1 = s2 or s1
        elif nl[0] != 'c':
            s2 = E.assume(s1, ('op', '<', sz, f), False)
            s1 = s2 or s1
        res.append((s1, f))
        return res
    if name in ('compare',):
        t = ('op', '==', v, vs[0]) if len(vs) == 1 else ('op', 'compare', v) + tuple(vs)
        if len(vs) == 1:
            return [(st, ('op', '!=', v, vs[0]))]
        return [(st, t)]
    return [(st, ('op', 'string::' + name, v) + tuple(vs))]


def concat(a, b):
    pa = a[2:] if a[0] == 'op' and a[1] == 'concat' else (a,)
    pb = b[2:] if b[0] == 'op' and b[1] == 'concat' else (b,)
    out = []
    for x in pa + pb:
        if x == ('str', ''):
            continue
        if out and out[-1][0] == 'str' and x[0] == 'str':
            out[-1] = ('str', out[-1][1] + x[1])
        else:
            out.append(x)
    if not out:
        return ('str', '')
    if len(out) == 1:
        return out[0]
    if len(out) > 24:
        out = out[:24]
    return ('op', 'concat') + tuple(out)


def as_text(v, t):
    t = t.replace('const ', '')
    if v[0] in ('str',) or 'basic_string' in t or 'char *' in t or 'char[' in t or t == 'char':
        if t == 'char' and v[0] == 'c':
            return ('str', chr(v[1] & 255))
        return v
    if v[0] == 'c' and isinstance(v[1], int):
        return ('str', str(v[1]))
    return ('op', 'text', v)


def stream_out(E, n, c, recv, args, st, fr):
    st, l = E.loc(st, recv, n, fr)
    st, vs = vals(E, st, n, args, fr)
    an = n.get('a') or []
    return ss_append(E, n, l, vs[0] if vs else ('void',), an[0].get('t', '') if an else '', st, fr)


def ss_append(E, n, l, v, t, st, fr):
    cur = st.base(l)
    if v[0] == 'fn' or '(*)' in t:
        v = ('str', '\n')
    if cur[0] == 'sscat':
        nv = concat(('op', 'concat') + cur[1:], as_text(v, t))
        nv = ('sscat',) + (nv[2:] if nv[0] == 'op' and nv[1] == 'concat' else (nv,))
        st = st.write(l, nv)
    return [(st, ('&', l))]


def ss_str(E, n, c, recv, args, st, fr):
    st, l = obj(E, n, recv, st, fr)
    if st is None:
        return []
    v = st.base(l)
    if args:
        st, vs = vals(E, st, n, args, fr)
        return [(st.write(l, ('sscat', vs[0])), ('void',))]
    if v[0] == 'sscat':
        r = ('str', '')
        for x in v[1:]:
            r = concat(r, x)
        return [(st, r)]
    return [(st, ('op', 'str()', v))]


def smart(E, n, c, name, recv, args, st, fr):
    if name == 'operator=':
        return assign(E, n, recv, args, st, fr)
    if name in ('operator->', 'operator*', 'operator[]'):
        st, v = E.val(st, recv, n['o'], fr)
        st, l = E.target(st, v, n, fr)
        if st is None:
            return []
        return [(st, ('ptr', l) if name == 'operator->' else ('&', l))]
    if name in ('get', 'release'):
        st, v = E.val(st, recv, n['o'], fr)
        return [(st, v)]
    if name == 'operator bool':
        st, v = E.val(st, recv, n['o'], fr)
        return [(st, E.binop(st, '!=', v, C0))]
    if name == 'reset':
        st, vs = vals(E, st, n, args, fr)
        st, l = E.loc(st, recv, n['o'], fr)
        st = E.store(st, l, vs[0] if vs else C0, n, fr)
        return [(st, ('void',))]
    if name == 'swap' and args and args[0][0] == '&' and recv[0] == '&':
        a, b = st.read(recv[1]), st.read(args[0][1])
        st = E.store(st, recv[1], b, n, fr)
        st = E.store(st, args[0][1], a, n, fr)
        return [(st, ('void',))]
    return None


def weak(E, n, c, name, recv, args, st, fr):
    if name == 'operator=':
        return assign(E, n, recv, args, st, fr)
    st, v = E.val(st, recv, n['o'], fr)
    if name == 'lock':
        if v == C0 or v[0] == 'default':
            return [(st, C0)]
        st, f = E.fresh(st, fr, n, ('weaklock', v))
        return [(st, f)]
    if name == 'expired':
        st, f = E.fresh(st, fr, n, ('expired', v))
        return [(st, f)]
    if name == 'reset':
        st, l = E.loc(st, recv, n['o'], fr)
        return [(E.store(st, l, C0, n, fr), ('void',))]
    return None


def atomic(E, n, c, name, recv, args, st, fr):
    st, l = obj(E, n, recv, st, fr)
    if st is None:
        return []
    st, vs = vals(E, st, n, args, fr)
    if name == 'load' or (name.startswith('operator ') and not vs):
        st = acc(E, st, fr, n, l, 'ar')
        r = E.mon.atomic(E, st, fr, n, l, 'load')
        if r is not None:
            return r
        if E.mon.fresh_atomics and l[0] not in ('L', 'T'):
            st, f = E.fresh(st, fr, n, ('load', l))
            return [(st, f)]
        return [(st, st.read(l))]
    st = acc(E, st, fr, n, l, 'aw')
    if name in ('store', 'operator='):
        m = dict(st.mem)
        st = st.write(l, vs[0])
        st = E.mon.write(E, st, fr, n, l, vs[0])
        return [(st, vs[0])]
    if name in ('exchange', 'test_and_set'):
        nv = vs[0] if name == 'exchange' else C1
        if E.mon.fresh_atomics and l[0] not in ('L', 'T'):
            st, f = E.fresh(st, fr, n, ('load', l))
        else:
            f = st.read(l)
        st = st.write(l, nv)
        st = E.mon.write(E, st, fr, n, l, nv)
        return [(st, f)]
    if name in ('operator++', 'operator--', 'fetch_add', 'fetch_sub', 'operator+=', 'operator-=', 'operator|=', 'operator&='):
        st, f = E.fresh(st, fr, n, ('rmw', l, ('str', name)))
        st = st.write(l, f)
        st = E.mon.write(E, st, fr, n, l, f)
        return [(st, f)]
    if name.startswith('compare_exchange'):
        old = st
        st, f = E.fresh(st, fr, n, ('cas', l))
        a = E.assume(st, f, True)
        res = []
        a2 = E.mon.write(E, a.write(l, vs[1]), fr, n, l, vs[1])
        res.append((a2, C1))
        b = E.assume(st, f, False)
        if args and args[0] is not None and args[0][0] == '&':
            b, g = E.fresh(b, fr, n, ('load', l))
            b = b.write(args[0][1], g)
        res.append((b, C0))
        return res
    if name == 'clear':
        st = st.write(l, C0)
        return [(st, ('void',))]
    return None


def closed(v):
    """Is this value built from constants only?"""
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and x[0] in ('init', 's', 'old', 'older', 'phi', 'ref'):
                return False
            stack.extend(x)
    return True


def json_known(st, l):
    """Does the json at l belong to an object built here (as opposed to parsed or received data)?"""
    r = l
    while r[0] in PARTS:
        r = r[1]
    if r[0] not in ('L', 'T', 'O'):
        return False
    v = st.mem.get(r)
    if v is None or v[0] == 'ref':
        return r[0] == 'O' and str(r[1]).startswith('arg:')
    return v[0] in ('empty', 'default', 'rec', 'list')


def json(E, n, c, name, recv, args, st, fr):
    if name == 'operator=':
        return assign(E, n, recv, args, st, fr)
    st, l = obj(E, n, recv, st, fr)
    if st is None:
        return []
    if name in ('operator[]', 'at'):
        st, vs = vals(E, st, n, args, fr)
        k = vs[0]
        if name == 'at' or not json_known(st, l):
            E.maythrow(st, n, fr, TO_JSON_THROW)
        return [(st, ('&', ('K', l, k)))]
    if name in ('get', 'get_ptr', 'get_ref') or name.startswith('operator '):
        st, v = E.val(st, ('&', l), n, fr)
        E.maythrow(st, n, fr, TO_JSON_THROW)
        return [(st, v)]
    if name == 'get_to':
        st, v = E.val(st, ('&', l), n, fr)
        E.maythrow(st, n, fr, TO_JSON_THROW)
        if args[0][0] == '&':
            st = E.store(st, args[0][1], v, n, fr)
        return [(st, args[0])]
    if name == 'value':
        st, vs = vals(E, st, n, args, fr)
        E.maythrow(st, n, fr, TO_JSON_THROW)
        return [(st, ('op', 'json.value', st.read(l)) + tuple(vs))]
    if name == 'dump':
        st, v = E.val(st, ('&', l), n, fr)
        if not closed(v):
            E.maythrow(st, n, fr, TO_JSON_THROW)
        return [(st, ('op', 'json.dump', v))]
    if name in ('push_back', 'emplace_back'):
        st, vs = vals(E, st, n, args, fr)
        st = mutate(E, st, l, n, fr)
        return [(st, ('void',))]
    return None


def json_from(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    allow = len(vs) < 3 or vs[2] != C0
    if allow:
        E.maythrow(st, n, fr, TO_JSON_THROW)
    st, f = E.fresh(st, fr, n, ('parsed', vs[0]))
    return [(st, f)]


def json_to(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    return [(st, ('op', c['n'], vs[0]))]


def json_object(E, n, c, recv, args, st, fr):
    return [(st, ('empty',))]


def function(E, n, c, name, recv, args, st, fr):
    if name == 'operator=':
        return assign(E, n, recv, args, st, fr)
    if name == 'operator bool':
        st, v = E.val(st, recv, n['o'], fr)
        return [(st, E.binop(st, '!=', v, C0))]
    return None


def iterator(E, n, c, name, recv, args, st, fr):
    if 'insert_iterator' in c['q']:
        # *it = v ; ++it
        if name == 'operator=':
            st, v = E.val(st, recv, n['o'], fr)
            st, vs = vals(E, st, n, args, fr)
            if v[0] == 'backins':
                st = mutate(E, st, v[1], n, fr)
            return [(st, recv)]
        return [(st, recv)]
    if name == 'operator=':
        return assign(E, n, recv, args, st, fr)
    st, it = E.val(st, recv, n['o'], fr)
    if name in ('operator*', 'operator->', 'operator[]'):
        st, l = E.target(st, it, n, fr)
        if st is None:
            return []
        return [(st, ('ptr', l) if name == 'operator->' else ('&', l))]
    if name in ('operator++', 'operator--', 'operator+=', 'operator-='):
        st, f = E.fresh(st, fr, n, ('step',))
        if it[0] == 'it':
            nv = ('it', it[1], ('nth', f), it[3])
            if recv[0] == '&':
                st = st.write(recv[1], nv)
            post = bool(args) and name in ('operator++', 'operator--')
            return [(st, it if post else (recv if recv[0] == '&' else nv))]
        if recv[0] == '&':
            st = st.write(recv[1], f)
        return [(st, recv if recv[0] == '&' else f)]
    if name in ('operator+', 'operator-') and it[0] == 'it':
        st, vs = vals(E, st, n, args, fr)
        st, f = E.fresh(st, fr, n, step(E, it, vs[0] if name == 'operator+' and vs else None))
        if vs and vs[0][0] == 'it':
            return [(st, f)]
        return [(st, ('it', it[1], ('nth', f), it[3]))]
    if name == 'base':
        return [(st, it)]
    return None


def guard(E, n, c, name, recv, args, st, fr):
    st, l = obj(E, n, recv, st, fr)
    if st is None:
        return []
    g = st.base(l)
    if g[0] != 'guard':
        return [(st, ('void',))]
    if name in ('unlock', 'release') and g[2]:
        for x in g[1]:
            st = E.unlock(st, x, n, fr)
        return [(st.write(l, ('guard', g[1], False, g[3])), ('void',))]
    if name == 'lock' and not g[2]:
        for x in g[1]:
            st = E.lock(st, x, n, fr, g[3])
            if st is None:
                return []
        return [(st.write(l, ('guard', g[1], True, g[3])), ('void',))]
    if name in ('try_lock', 'try_lock_for', 'try_lock_until') and not g[2]:
        s2, f = E.fresh(st, fr, n, 'trylock')
        res = [(st, C0)]
        for x in g[1]:
            s2 = E.lock(s2, x, n, fr, g[3])
        if s2 is not None:
            res.append((s2.write(l, ('guard', g[1], True, g[3])), C1))
        return res
    if name == 'owns_lock' or name.startswith('operator bool'):
        return [(st, C1 if g[2] else C0)]
    return [(st, ('void',))]


def mutex(E, n, c, name, recv, args, st, fr):
    st, l = obj(E, n, recv, st, fr)
    if st is None:
        return []
    if name in ('lock', 'lock_shared'):
        st = E.lock(st, l, n, fr, 's' if name == 'lock_shared' else 'x')
        return [(st, ('void',))] if st is not None else []
    if name in ('unlock', 'unlock_shared'):
        return [(E.unlock(st, l, n, fr), ('void',))]
    if name.startswith('try_lock'):
        res = [(st, C0)]
        s2 = E.lock(st, l, n, fr, 's' if 'shared' in name else 'x')
        if s2 is not None:
            res.append((s2, C1))
        return res
    return None


def thread(E, n, c, name, recv, args, st, fr):
    st, l = obj(E, n, recv, st, fr)
    if st is None:
        return []
    if name == 'operator=':
        an = n.get('a') or [n]
        st, v = E.val(st, args[0], an[0], fr)
        if args[0] is not None and args[0][0] == '&':
            st = st.write(args[0][1], ('nothread',))
        st = E.store(st, l, v, n, fr)
        return [(st, ('&', l))]
    st, v = E.val(st, ('&', l), n, fr)
    if name == 'joinable':
        if v[0] == 'nothread':
            return [(st, C0)]
        if v[0] == 'thread':
            return [(st, C1)]
        return [(st, ('op', 'joinable', v))]
    if name in ('join', 'detach'):
        st = E.store(st, l, ('nothread',), n, fr)
        return [(st, ('void',))]
    if name == 'swap' and args[0][0] == '&':
        w = st.read(args[0][1])
        st = E.store(st, l, w, n, fr)
        st = E.store(st, args[0][1], v, n, fr)
        return [(st, ('void',))]
    return None


def future(E, n, c, name, recv, args, st, fr):
    st, l = obj(E, n, recv, st, fr)
    if st is None:
        return []
    st, vs = vals(E, st, n, args, fr)
    v = st.read(l)
    if name == 'operator=':
        return assign(E, n, recv, args, st, fr)
    if name == 'get':
        E.maythrow(st, n, fr, '?')
        st, f = E.fresh(st, fr, n, ('future_get', v))
        return [(st, f)]
    if name in ('wait_for', 'wait_until'):
        st, f = E.fresh(st, fr, n, ('wait_for', v))
        return [(st, f)]
    if name == 'valid':
        st, f = E.fresh(st, fr, n, ('valid', v))
        return [(st, f)]
    return [(st, ('void',))]


def promise(E, n, c, name, recv, args, st, fr):
    st, l = obj(E, n, recv, st, fr)
    if st is None:
        return []
    if name == 'operator=':
        return assign(E, n, recv, args, st, fr)
    st, vs = vals(E, st, n, args, fr)
    st, v = E.val(st, ('&', l), n, fr)
    if v[0] in ('default',):
        st, p = E.fresh(st, fr, n, 'promise')
        v = ('promise', p)
        st = st.write(l, v)
    if name == 'get_future':
        return [(st, ('future', v))]
    return [(st, ('void',))]


def iter_eq(E, st, a, b):
    """Equality of iterators as a term (None if not iterators)."""
    if a[0] == 'it' and b[0] == 'it':
        if a[2] == ('end',) and b[2] != ('end',):
            a, b = b, a
        if b[2] == ('end',):
            return ('isend', a)
        if a == b:
            return C1
        return ('op', '==', a, b)
    return None


def free_operator(E, n, c, op, args, st, fr):
    an = n.get('a') or []
    if op == '<<':
        pts = c.get('pt') or []
        if pts and 'stream' in pts[0]:
            st, l = E.loc(st, args[0], n, fr)
            st, v = E.val(st, args[1], an[1] if len(an) > 1 else n, fr)
            return ss_append(E, n, l, v, an[1].get('t', '') if len(an) > 1 else '', st, fr)
    st, a = E.val(st, args[0], an[0] if an else n, fr)
    st, b = E.val(st, args[1], an[1] if len(an) > 1 else n, fr)
    if op in ('==', '!='):
        t = iter_eq(E, st, a, b)
        if t is not None:
            if t == C1:
                return [(st, C1 if op == '==' else C0)]
            if t[0] == 'isend':
                d = E.decide(st, t)
                if d is not None and not (t[1][2][0] in ('begin', 'rbegin', 'nth')):
                    return [(st, C1 if d == (op == '==') else C0)]
                return [(st, t if op == '==' else ('op', '!', t))]
            return [(st, t if op == '==' else ('op', '!', t))]
        return [(st, E.binop(st, op, a, b))]
    if op in ('<', '>', '<=', '>='):
        return [(st, E.binop(st, op, a, b))]
    if op == '+' and 'basic_string' in c.get('rt', ''):
        return [(st, concat(as_text(a, an[0].get('t', '') if an else ''), as_text(b, an[1].get('t', '') if len(an) > 1 else '')))]
    if op in ('+', '-') and a[0] == 'it':
        if b[0] == 'it':
            return [(st, ('op', 'distance', a, b))]
        st, f = E.fresh(st, fr, n, step(E, a, b if op == '+' else None))
        return [(st, ('it', a[1], ('nth', f), a[3]))]
    return [(st, E.arith(op, a, b) if op in ('+', '-', '*', '/', '%', '&', '|') else ('op', op, a, b))]


# ------------------------------------------------------------------------------------------------ named free functions
def h_move(E, n, c, recv, args, st, fr):
    return [(st, args[0])]


def h_first(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    return [(st, vs[0])]


def h_get(E, n, c, recv, args, st, fr):
    m = re.search(r'get<#V[a-zA-Z]*(\d+)', c.get('usr', ''))
    st, l = E.loc(st, args[0], (n.get('a') or [n])[0], fr)
    if m is None:
        return None
    i = int(m.group(1))
    if 'std::pair' in (c.get('pt') or [''])[0].split('<')[0]:
        f = FIRST if i == 0 else SECOND
    else:
        f = 'std::tuple::%d' % i
    return [(st, ('&', ('F', l, f)))]


def made_class(c):
    m = re.match(r'(?:const )?std::(?:shared|unique)_ptr<(.*)>$', c.get('rt', ''))
    return m.group(1).strip() if m else ''


def h_make(E, n, c, recv, args, st, fr):
    """std::make_shared / make_unique."""
    t = made_class(c)
    rq = t.split('<')[0]
    st, s = E.fresh(st, fr, n, ('new', rq))
    o = ('O', s, rq)
    st = st.drop(o)
    if rq in E.p.records:
        ctors = [f for f in E.p.methods(rq) if f['kind'] == 'ctor' and len(f['p']) == len(args) and not f.get('copymove')]
        if ctors:
            d = ctors[0]
            r = E.mon.call(E, st, fr, n, d['q'], ('&', o), args)
            if r is not None:
                return [(s2, ('ptr', o)) for s2, _ in r]
            return [(s2, ('ptr', o)) for s2, _ in E.inline(d, o, n.get('a') or [], args, st, fr, n)]
        st, vs = vals(E, st, n, args, fr)
        r = E.p.records[rq]
        if len(vs) == 1 and (n.get('a') or [{}])[0].get('t', '').replace('const ', '').split('<')[0] == rq:
            return [(st.write(o, vs[0]), ('ptr', o))]
        # implicit default constructor
        for f in E.p.all_fields(rq):
            if f.get('inite'):
                for s2, x in E.ev(f['inite'], st, fr):
                    st, v = E.val(s2, x, n, fr)
                    st = st.write(('F', o, f['f']), v)
        return [(st, ('ptr', o))]
    an = n.get('a') or []
    outs = []
    for s2, v in ctor_value(E, n, rq, args, an, st, fr):
        outs.append((s2.write(o, v), ('ptr', o)))
    return outs


def h_dyncast(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    st, f = E.fresh(st, fr, n, ('dyncast', vs[0]))
    return [(st, f)]


def h_sft(E, n, c, recv, args, st, fr):
    st, l = obj(E, n, recv, st, fr)
    if st is None:
        return []
    return [(st, ('ptr', l))]


def h_tostring(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    return [(st, as_text(vs[0], ''))]


def h_minmax(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    op = c['n']
    if len(vs) < 2:
        return None
    if vs[0][0] == 'c' and vs[1][0] == 'c':
        return [(st, ('c', min(vs[0][1], vs[1][1]) if op == 'min' else max(vs[0][1], vs[1][1])))]
    return [(st, ('op', op, vs[0], vs[1]))]


def h_limits(E, n, c, recv, args, st, fr):
    if n.get('cv') is not None:
        return [(st, ('c', int(n['cv'])))]
    t = c.get('rt', '')
    bits = {'unsigned short': 16, 'unsigned char': 8, 'unsigned int': 32, 'unsigned long': 64, 'short': 15, 'int': 31,
            'long': 63, 'signed char': 7, 'char': 7}.get(t)
    if bits and c['n'] == 'max':
        return [(st, ('c', (1 << bits) - 1))]
    if c['n'] in ('min', 'lowest') and bits in (8, 16, 32, 64):
        return [(st, C0)]
    return None


def h_stox(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args[:1], fr)
    E.maythrow(st, n, fr, 'std::invalid_argument', 'std::out_of_range')
    return [(st, ('op', c['n'], vs[0]) + ((('c', 10),) if False else ()))]


def h_next(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    if vs[0][0] == 'it':
        st, f = E.fresh(st, fr, n, step(E, vs[0], (vs[1] if len(vs) > 1 else ('c', 1)) if c['n'] == 'next' else None))
        return [(st, ('it', vs[0][1], ('nth', f), vs[0][3]))]
    return None


def position(it):
    """The distance of an iterator from the beginning, if it is known."""
    if it[2] == ('begin',):
        return C0
    if it[2][0] == 'nth' and it[2][1][0] == 's' and it[2][1][3][:1] == ('step',) and len(it[2][1][3]) == 2:
        return it[2][1][3][1]
    return None


def step(E, it, k):
    """The name of a position reached by moving an iterator."""
    p = position(it) if it[1][0] in ('L', 'F', 'O', 'T', 'D') else None
    if p is None or k is None or k[0] == 'it':
        return ('step',)
    return ('step', k if p == C0 else E.arith('+', p, k))


def h_backins(E, n, c, recv, args, st, fr):
    st, l = E.loc(st, args[0], (n.get('a') or [n])[0], fr)
    return [(st, ('backins', l))]


def loop_call(E, n, st, fr, C, lam, args_of, keep):
    """Call a closure on the elements of container C, zero or more times."""
    work, seen, exits = [st], set(), []
    from .engine import Widen
    W = Widen(E, fr, n)
    while work:
        s = W.apply(E.gc(work.pop(0)))
        if s.key() in seen or len(seen) > 200:
            continue
        seen.add(s.key())
        e = E.mon.done(E, s, fr, n, C)
        if e is not None:
            exits.append(e)
        s, l = E.elem(s, C, n, fr)
        s = E.mon.visit(E, s, fr, n, C, l)
        if s is None:
            continue
        for s2, v in E.call_value(lam, n, [], args_of(l), s, fr):
            for s3, stop in keep(s2, v, l):
                if stop is not None:
                    exits.append((s3, stop))
                else:
                    work.append(s3.drop(l))
    return exits


def h_foreach(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    if len(vs) < 3 or vs[0][0] != 'it':
        return None
    C = vs[0][1]
    ex = loop_call(E, n, st, fr, C, vs[-1], lambda l: [('&', l)], lambda s, v, l: [(s, None)])
    return [(s if not isinstance(s, tuple) else s[0], vs[-1]) for s in ex]


def h_transform(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    if len(vs) < 4 or vs[0][0] != 'it':
        return None
    C = vs[0][1]
    out = vs[2]

    def keep(s, v, l):
        s, v = E.val(s, v, n, fr)
        if out[0] == 'backins':
            s = mutate(E, s, out[1], n, fr)
            m = dict(s.mem)
            m[('E', out[1], ('back',))] = v
            s = s.copy(mem=m)
        elif out[0] == 'it':
            s = E.store(s, ('E', out[1], ('each',)), v, n, fr)
        return [(s, None)]
    ex = loop_call(E, n, st, fr, C, vs[-1], lambda l: [('&', l)], keep)
    return [(s, out) for s in ex]


def h_findif(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    if len(vs) < 3 or vs[0][0] != 'it':
        return None
    C = vs[0][1]
    cont = vs[0][3]
    name = c['n']

    def keep(s, v, l):
        s, v = E.val(s, v, n, fr)
        res = []
        t = E.assume(s, v, True)
        if t is not None:
            res.append((t, 'hit'))
        f = E.assume(s, v, False)
        if f is not None:
            res.append((f, None))
        return res
    ex = loop_call(E, n, st, fr, C, vs[-1], lambda l: [('&', l)], keep)
    res = []
    for e in ex:
        if isinstance(e, tuple):
            s = e[0]
            s, f = E.fresh(s, fr, n, ('hit',))
            it = ('it', C, ('nth', f), cont)
            if name == 'find_if':
                s = E.assume(s, ('op', '==', ('isend', it), C0), True) or s
                # keep the element the predicate saw
                el = ('E', C, ('rf', fr.id, n['#']))
                if el in s.mem:
                    s2 = s.drop(el)
                    m = dict(s2.mem)
                    m[('E', C, ('nth', f))] = s.read(el)
                    s = s2.copy(mem=m)
                res.append((s, it))
            else:
                res.append((s, C1 if name == 'any_of' else C0))
        else:
            res.append((e, vs[1] if name == 'find_if' else (C0 if name == 'any_of' else C1)))
    return res


def h_element(E, n, c, recv, args, st, fr):
    """max_element, min_element, find, lower_bound...: some element or end."""
    st, vs = vals(E, st, n, args, fr)
    if vs and vs[0][0] == 'it':
        st = acc(E, st, fr, n, vs[0][1], 'r')
        st, f = E.fresh(st, fr, n, (c['n'],) + tuple(vs[2:]))
        return [(st, ('it', vs[0][1], ('nth', f), vs[0][3]))]
    return None


def h_sort(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    if vs and vs[0][0] == 'it':
        C = vs[0][1]
        if len(vs) > 2 and vs[2][0] == 'lam':
            a = ('E', C, ('rf', fr.id, n['#']))
            b = ('E', C, ('rf2', fr.id, n['#']))
            for s2, v in E.call_value(vs[2], n, [], [('&', a), ('&', b)], st, fr):
                st = s2
                break
        st = mutate(E, st, C, n, fr, keep=False)
    return [(st, ('void',))]


def h_now(E, n, c, recv, args, st, fr):
    st, f = E.fresh(st, fr, n, ('now',))
    return [(st, f)]


def h_swap(E, n, c, recv, args, st, fr):
    if len(args) == 2 and args[0][0] == '&' and args[1][0] == '&':
        a, b = st.read(args[0][1]), st.read(args[1][1])
        st = E.store(st, args[0][1], b, n, fr)
        st = E.store(st, args[1][1], a, n, fr)
        return [(st, ('void',))]
    return None


def h_exchange(E, n, c, recv, args, st, fr):
    if len(args) == 2 and args[0][0] == '&':
        st, old = E.val(st, args[0], n, fr)
        st, nv = E.val(st, args[1], n, fr)
        st = E.store(st, args[0][1], nv, n, fr)
        return [(st, old)]
    return None


def h_pair(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    if c['n'] == 'make_pair':
        return [(st, ('rec', ('default', 'std::pair'), (((('F', FIRST),), vs[0]), ((('F', SECOND),), vs[1]))))]
    return [(st, ('rec', ('default', 'std::tuple'), tuple((((('F', 'std::tuple::%d' % i),), v)) for i, v in enumerate(vs))))]


def h_copybytes(E, n, c, recv, args, st, fr):
    """memcpy / strncpy: the destination object takes the source's value."""
    st, vs = vals(E, st, n, args, fr)
    d, s = vs[0], vs[1]
    if d[0] == 'ptr':
        l = d[1]
        src = s
        if s[0] == 'ptr':
            st, src = E.val(st, ('&', s[1]), n, fr)
        if l[0] == 'I' and l[2] == C0:
            l = l[1]
        if l[0] == 'I':
            st, src = E.fresh(st, fr, n, ('bytes', src))
        st = E.store(st, l, src, n, fr)
    elif d[0] not in ('c',):
        st = E.store(st, ('D', d), s, n, fr)
    return [(st, d)]


def h_memset(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    if vs[0][0] == 'ptr':
        st = E.store(st, vs[0][1], C0 if vs[1] == C0 else ('op', 'memset', vs[1]), n, fr)
    return [(st, vs[0])]


def h_cbor(E, n, c, recv, args, st, fr):
    E.maythrow(st, n, fr, 'cbor::error')
    if c['n'] == 'get_to':
        st, v = E.val(st, recv, n['o'], fr)
        st, f = E.fresh(st, fr, n, ('cbor', v))
        if args and args[0][0] == '&':
            st = E.store(st, args[0][1], f, n, fr)
        return [(st, ('void',))]
    st, vs = vals(E, st, n, ([recv] if recv is not None else []) + list(args), fr)
    st, f = E.fresh(st, fr, n, ('cbor',) + tuple(vs))
    if recv is None and args and len(args) > 1 and args[-1] is not None and args[-1][0] == '&' and not (c.get('pt') or [''])[-1].startswith('const'):
        st = E.store(st, args[-1][1], f, n, fr)
    return [(st, f)]


def h_strlen(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    return [(st, size_of(vs[0], None))]


def h_noreturn(E, n, c, recv, args, st, fr):
    st, vs = vals(E, st, n, args, fr)
    E.mon.after(E, st, fr, n, c['q'], recv, args, None)
    return []


HANDLERS = {
    'std::move': h_move, 'std::forward': h_move, 'std::ref': h_move, 'std::cref': h_move, 'std::as_const': h_move,
    '__builtin_expect': h_first, 'std::chrono::duration_cast': h_first, 'std::chrono::time_point_cast': h_first,
    'std::get': h_get, 'std::make_shared': h_make, 'std::make_unique': h_make,
    'std::dynamic_pointer_cast': h_dyncast, 'std::static_pointer_cast': h_first,
    'std::const_pointer_cast': h_first,
    'std::enable_shared_from_this::shared_from_this': h_sft, 'std::enable_shared_from_this::weak_from_this': h_sft,
    'std::to_string': h_tostring, 'std::min': h_minmax, 'std::max': h_minmax,
    'std::numeric_limits::max': h_limits, 'std::numeric_limits::min': h_limits,
    'std::stoull': h_stox, 'std::stoul': h_stox, 'std::stod': h_stox, 'std::stoi': h_stox, 'std::stol': h_stox,
    'std::stoll': h_stox, 'std::stof': h_stox,
    'std::next': h_next, 'std::prev': h_next, 'std::back_inserter': h_backins,
    'std::for_each': h_foreach, 'std::transform': h_transform, 'std::find_if': h_findif, 'std::any_of': h_findif,
    'std::all_of': h_element, 'std::none_of': h_findif,
    'std::max_element': h_element, 'std::min_element': h_element, 'std::find': h_element,
    'std::stable_sort': h_sort, 'std::sort': h_sort,
    'std::chrono::system_clock::now': h_now, 'std::chrono::_V2::system_clock::now': h_now,
    'std::chrono::steady_clock::now': h_now, 'std::chrono::high_resolution_clock::now': h_now,
    'std::swap': h_swap, 'std::exchange': h_exchange, 'std::make_pair': h_pair, 'std::make_tuple': h_pair,
    'memcpy': h_copybytes, 'std::memcpy': h_copybytes, 'strncpy': h_copybytes, 'strcpy': h_copybytes,
    'memmove': h_copybytes, 'memset': h_memset, 'std::memset': h_memset,
    'nlohmann::basic_json::from_bson': json_from, 'nlohmann::basic_json::parse': json_from,
    'nlohmann::basic_json::from_cbor': json_from, 'nlohmann::basic_json::from_msgpack': json_from,
    'nlohmann::basic_json::to_bson': json_to, 'nlohmann::basic_json::to_cbor': json_to, 'nlohmann::basic_json::to_msgpack': json_to,
    'nlohmann::basic_json::object': json_object,
    'nlohmann::basic_json::array': json_object,
    'cbor::from_cbor': h_cbor, 'cbor::cbor_object::get': h_cbor, 'cbor::cbor_object::get_to': h_cbor,
    'strlen': h_strlen, 'std::strlen': h_strlen,
    '_exit': h_noreturn, 'exit': h_noreturn, 'abort': h_noreturn, 'std::terminate': h_noreturn, 'std::abort': h_noreturn,
}
