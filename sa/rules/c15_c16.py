"""C15: remote queries are bounded and well defined.  C16: both sides of an endpoint speak the same format."""
import re
from ..lib import *
from ..terms import *

REQ = 'scalopus::Transport::request'
R_WAIT = 'a reply is read only after a finite wait found it ready'
R_NULL = 'without a transport a communication error is raised'
R_INIT = 'the result on timeout is fully initialised and empty'
R_SUCC = 'success is reported only after the reply was decoded'
R_PID = 'information that was not received is not recorded for a process'
R_CMD = 'the server recognises what the client sends'
R_FIELD = 'the client reads what the server writes'
R_REQF = 'the server reads what the client writes'
R_ENDP = 'the client addresses the name the server side registers under'
R_CONV = 'conversions write and read the same fields under the same names'
R_BCAST = 'broadcasts go to the name the receiving endpoint registers under'
NODE = {'#': 0, 'l': 0, 't': '', 'k': 'none'}


def endpoint_classes(P):
    return [c for c, r in sorted(P.records.items()) if 'scalopus::Endpoint' in (r.get('allbases') or []) and library({'file': r.get('file') or ''})]


def is_call(n, q):
    return n.get('k') == 'call' and isinstance(n.get('c'), dict) and n['c'].get('q') == q


def clients(P):
    """(class, public function) of endpoints that send a request."""
    res = []
    for c in endpoint_classes(P):
        for f in P.methods(c):
            if f['kind'] == 'method' and f.get('access') == 'public' and f.get('body') is not None and not f.get('static'):
                if any(is_call(n, REQ) for g in callees(P, f) for n in walk(g)):
                    res.append((c, f))
    return res


def transport_field(P):
    for x in (P.records.get('scalopus::Endpoint') or {}).get('fields') or []:
        if 'Transport' in x['t']:
            return x['f']
    raise AnalysisBroken('Endpoint has no transport member')


class Client(Monitor):
    fresh_atomics = False
    exit_limit = 6
    throws = False

    def __init__(self, P, R):
        super().__init__(P, R)
        self.sent = []
        self.reads = {}
        self.formats = {}
        self.quiet = False

    def call(self, E, st, fr, node, q, recv, args):
        R = self.report_to
        if q == REQ:
            w, chain = where_chain(E, node, fr)
            if not self.quiet:
                R.ok(R_NULL, w)
            p = None
            if recv is not None:
                st, p = E.val(st, recv, node.get('o') or NODE, fr) if recv[0] == '&' else (st, recv)
                if p[0] == 'ptr':
                    p = None
            if p is not None:
                d = E.decide(st, ('op', '==', p, C0))
                if d is not False and not self.quiet:
                    R.bad(R_NULL, w, 'a request is sent without having checked that there is a transport', chain)
                if d is True:
                    return []
            vs = []
            for a in args[:2]:
                st, v = E.val(st, a, node, fr)
                vs.append(v)
            self.sent.append((vs[0], vs[1] if len(vs) > 1 else None, (w, chain)))
            st, f = E.fresh(st, fr, node, ('reply', len(self.sent) - 1))
            st = E.assume(st, ('op', '==', f, C0), False) or st
            return [(st, f)]
        n = q.rsplit('::', 1)[-1]
        if 'future' in q and recv is not None and q.startswith('std::'):
            w, chain = where_chain(E, node, fr)
            if n in ('wait_for', 'wait_until'):
                if any(x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('n') == 'max' for a in node.get('a') or [] for x in walk(a)) \
                        and not self.quiet:
                    R.bad(R_WAIT, w, 'the reply is waited for without a limit', chain)
                R.ok(R_WAIT, w)
                tag_ = ('fstatus', node['#'])
                return [(st.set('ready', C1), C0), (st.set('ready', None), C1), (st.set('ready', None), ('c', 2))]
            if n in ('get', 'wait'):
                R.ok(R_WAIT, w)
                if st.get('ready') is None and not self.quiet:
                    R.bad(R_WAIT, w, 'the reply is waited for without a limit: nothing has shown that it arrived', chain)
                st = st.set('got', C1)
                if n == 'get':
                    st, f = E.fresh(st, fr, node, ('replied',))
                    return [(st, f)]
                return [(st, ('void',))]
        return None

    def after(self, E, st, fr, node, q, recv, args, res):
        if q.startswith('nlohmann::basic_json::') and recv is not None and recv[0] == '&':
            n = q.rsplit('::', 1)[-1]
            l = recv[1]
            if n in ('get', 'get_to', 'items', 'begin', 'size') or n.startswith('operator '):
                k = keypath(l)
                if k and mentions(st.base(root(l)), lambda t: t[0] == 'parsed' and mentions(t, lambda x: x == ('replied',))):
                    self.reads.setdefault(k, where_chain(E, node, fr))
            if n in ('value',) and args:
                pass
            if n == 'at' and args:
                st2, v = E.val(st, args[0], node, fr)
                if v[0] == 'str' and mentions(st.base(root(l)), lambda t: t[0] == 'parsed' and mentions(t, lambda x: x == ('replied',))):
                    self.reads.setdefault(keypath(l) + (v[1],), where_chain(E, node, fr))
        if q.startswith('nlohmann::basic_json::from_'):
            st = st.set('decoded', C1)
            self.formats.setdefault(q.rsplit('_', 1)[-1], where_chain(E, node, fr))
        return st


def keypath(l):
    ks = []
    while l[0] in PARTS:
        if l[0] == 'K' and l[2][0] == 'str':
            ks.append(l[2][1])
        l = l[1]
    return tuple(reversed(ks))


def field_value(P, v, f):
    """Value of field f of a record value, or None."""
    path = (('F', f),)
    if v[0] == 'rec':
        for k, x in v[2]:
            if k == path:
                return x
        return field_value(P, v[1], f)
    return None


def c15(P, R):
    """Every endpoint function that sends a request is followed on all paths with the three outcomes of waiting: the reply's
    value is taken only where wait_for/wait_until returned ready on that path; with a null transport every path throws
    communication_error; on paths without a reply every scalar field of the returned value is defined and a success flag or
    process id in it is not set; a success flag is set only after decoding.  Callers do not store a result whose pid is 0."""
    cl = clients(P)
    if len(cl) < 4:
        raise AnalysisBroken('endpoint queries not found')
    tf = transport_field(P)
    recs = {}
    for c, f in cl:
        this = ('O', 'this', c)
        w = '%s:%s' % (rel(f['file']), f['line'])
        m = Client(P, R)
        E, outs, thr = run(P, R, m, f, this=this, cls=c)
        if not m.sent:
            raise AnalysisBroken('%s sends no request' % f['q'])
        R.ok(R_INIT, w)
        R.ok(R_SUCC, w)
        for st, v in outs:
            if v is None:
                continue
            if v[0] == '&':
                st, v = E.val(st, v, NODE, None)
            if mentions(v, lambda t: t == ('undef',)) and st.get('got') is None:
                R.bad(R_INIT, w, '%s returns a value with undefined parts when no reply arrives' % f['q'])
            if st.get('got') is None and v[0] == 'init' and v[1][0] == 'O' and str(v[1][1]).startswith('arg:'):
                R.bad(R_INIT, w, '%s returns what it was given as if it were the result when no reply arrives' % f['q'])
            t = f['rt'].replace('const ', '').rstrip(' &')
            r = P.records.get(t) or next((P.records[x] for x in P.records if x == t or x.endswith('::' + t)), None)
            for x in (r or {}).get('fields') or []:
                if not x.get('scalar'):
                    continue
                fv = field_value(P, v, x['f'])
                if x['n'] == 'pid':
                    recs.setdefault(t, []).append((c, f))
                if st.get('got') is None:
                    if fv is None and v[0] in ('rec', 'default', 'init', 'empty') and not x.get('init') and v[0] != 'empty':
                        fv = ('undef',) if v[0] == 'rec' and v[1][0] == 'init' else None
                    if fv == ('undef',):
                        R.bad(R_INIT, w, '%s: %s has no value when no reply arrives' % (f['q'], x['n']))
                    if x['n'] == 'pid':
                        if fv is not None and fv[0] == 'c' and fv != C0 or fv is not None and mentions(fv, lambda t: t == ('ret', 'getpid')):
                            R.bad(R_INIT, w, '%s: a process id is given although no reply arrived' % f['q'])
                if 'success' in x['n'] and fv is not None and E.decide(st, ('op', '==', fv, C0)) is False \
                        and (st.get('got') is None or st.get('decoded') is None):
                    R.bad(R_SUCC, w, '%s reports success on a path on which no reply was decoded' % f['q'])
        # without a transport
        m2 = Client(P, R)
        m2.quiet = True
        s0 = St().write(('F', this, tf), C0)
        E, outs, thr = run(P, R, m2, f, this=this, cls=c, st=s0)
        R.ok(R_NULL, w)
        if m2.sent or outs:
            R.bad(R_NULL, w, '%s returns although it has no transport' % f['q'] if outs else '%s uses a missing transport' % f['q'])
        for st, t in thr:
            if not any(isinstance(x, str) and x.endswith('communication_error') for x in t) and '?' not in t:
                R.bad(R_NULL, w, '%s raises %s instead of a communication error' % (f['q'], t[0]))
    users(P, R, {f['usr']: f for c, f in cl}, recs)


class User(Monitor):
    """Callers of a query that returns information about a process."""
    throws = False
    fresh_atomics = False
    head_limit = 4

    def __init__(self, P, R, qs, pidf):
        super().__init__(P, R)
        self.qs, self.pidf = qs, pidf
        self.n = 0

    def call(self, E, st, fr, node, q, recv, args):
        u = (node.get('c') or {}).get('usr')
        if u in self.qs:
            self.n += 1
            st, x = E.fresh(st, fr, node, ('info',))
            nr = ('rec', x, ((((('F', self.pidf),)), C0),))
            st1, p = E.fresh(st, fr, dict(node, **{'#': (node['#'], 'p')}), ('pid',))
            st1 = E.assume(st1, ('op', '==', p, C0), False) or st1
            return [(st.set('nr', C1), nr), (st1.set('nr', None), ('rec', x, ((((('F', self.pidf),)), p),)))]
        n = q.rsplit('::', 1)[-1]
        if q.startswith(('std::map', 'std::unordered_map', 'std::set', 'std::vector')) and args and st.get('nr') is not None \
                and n in ('operator[]', 'insert', 'emplace', 'insert_or_assign', 'try_emplace', 'push_back', 'emplace_back'):
            st2, v = E.val(st, args[0], node, fr)
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(R_PID, w)
            if v == C0 or v[0] == 'rec' and mentions(v, lambda t: t == ('info',)):
                self.report_to.bad(R_PID, w, 'information without a process id is recorded', chain)
        return None

    def visit(self, E, st, fr, node, cont, elem):
        return st.set('nr', None)


def users(P, R, qs, recs):
    if not recs:
        raise AnalysisBroken('no query returns a process id')
    t = sorted(recs)[0]
    mine = {f['usr'] for l in recs.values() for c, f in l}
    r = P.records.get(t) or next(P.records[x] for x in P.records if x.endswith('::' + t))
    pidf = next(x['f'] for x in r['fields'] if x['n'] == 'pid')
    n = 0
    for f in library_functions(P):
        if f['usr'] in mine or 'python' in rel(f['file']):
            continue
        if any(x.get('k') == 'call' and isinstance(x.get('c'), dict) and x['c'].get('usr') in mine for x in walk(f)):
            m = User(P, R, mine, pidf)
            run(P, R, m, f)
            n += m.n
            R.ok(R_PID, '%s:%s' % (rel(f['file']), f['line']))


# ---------------------------------------------------------------------------------------------------------------------- C16
class Server(Monitor):
    """handle() applied to what one client function sends."""
    throws = False
    fresh_atomics = False
    exit_limit = 6

    def __init__(self, P, R, data):
        super().__init__(P, R)
        self.data = data
        self.missing = {}
        self.parsed = False

    def call(self, E, st, fr, node, q, recv, args):
        if q.startswith('nlohmann::basic_json::from_') and args:
            st, v = E.val(st, args[0], node, fr)
            if v[0] == 'op' and v[1] in ('to_bson', 'to_cbor', 'to_msgpack', 'to_ubjson'):
                if q.rsplit('_', 1)[-1] != v[1].rsplit('_', 1)[-1]:
                    self.missing.setdefault(('encoding',), where_chain(E, node, fr))
                return [(st, v[2])]
        return None

    def after(self, E, st, fr, node, q, recv, args, res):
        if q.startswith('nlohmann::basic_json::') and recv is not None and recv[0] == '&':
            n = q.rsplit('::', 1)[-1]
            if n in ('get', 'get_to') or n.startswith('operator '):
                st2, v = E.val(st, recv, NODE, fr)
                self.look(E, st, fr, node, v)
            if n == 'at' and args:
                st2, k = E.val(st, args[0], node, fr)
                st2, v = E.val(st, ('&', ('K', recv[1], k)), NODE, fr)
                self.look(E, st, fr, node, v)
        return st

    def write(self, E, st, fr, node, loc, v):
        k = keypath(loc)
        if k and node is not None:
            n = node
            if n.get('k') == 'call' and n.get('a'):
                n = n['a'][0]
            pt = (n.get('c') or {}).get('pt') if (n.get('c') or {}).get('q') == 'nlohmann::basic_json::basic_json' else None
            st = st.set(('kind', k), ('kind', json_kind(pt[0])) if pt and len(pt) == 1 and json_kind(pt[0]) else None)
        return st

    def look(self, E, st, fr, node, v):
        ks = []
        x = v
        while x[0] == 'p':
            if x[2][0] == 'K' and x[2][1][0] == 'str':
                ks.append(x[2][1][1])
            x = x[1]
        if ks and (x == ('empty',) or x[0] == 'default' or x[0] == 'rec'):
            self.missing.setdefault(tuple(reversed(ks)), where_chain(E, node, fr))


def json_kind(t):
    """What a value of this type becomes in a message."""
    t = t.replace('const ', '').rstrip(' &')
    if t.startswith('std::basic_string<') or t in ('char *',) or t.startswith('char['):
        return 'a string'
    if re.match(r'std::(unordered_)?map<std::basic_string<', t):
        return 'an object'
    if re.match(r'std::(vector|list|deque|set|unordered_set|map|unordered_map)<', t):
        return 'a list'
    if t == 'bool':
        return 'a truth value'
    if t in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'long long', 'unsigned long long', 'double', 'float'):
        return 'a number'
    return None


def keys_of(v):
    """Known key paths of a json value; None if it is not an object built here."""
    if v[0] == 'empty':
        return set()
    if v[0] != 'rec' or v[1][0] not in ('empty', 'default'):
        return None
    res = set()
    for k, x in v[2]:
        p = tuple(s[1][1] for s in k if s[0] == 'K' and s[1][0] == 'str')
        if len(p) != len(k):
            return None
        res.add(p)
        sub = keys_of(x) if x[0] == 'rec' else None
        for y in sub or ():
            res.add(p + y)
    return res


def resolve(P, v):
    """A string constant behind a global."""
    if v is not None and v[0] == 'init' and v[1][0] == 'G':
        for g in P.globals.values() if isinstance(P.globals, dict) else P.globals:
            if g.get('q') == v[1][1] and g.get('init'):
                for x in walk(g['init']):
                    if x.get('k') == 'str':
                        return ('str', x['v'])
    return v


def name_of(P, R, c):
    fs = [f for f in P.methods(c) if f['n'] == 'getName' and f.get('body') is not None]
    if not fs:
        return None

    class M(Monitor):
        throws = False
        fresh_atomics = False
    E, outs, thr = run(P, R, M(P, R), fs[0], this=('O', 'this', c), cls=c)
    vs = set()
    for st, v in outs:
        if v is not None and v[0] == '&':
            st, v = E.val(st, v, NODE, None)
        vs.add(resolve(P, v))
    return vs.pop() if len(vs) == 1 else None


def known_name(v):
    return v is not None and (v[0] == 'str' or v[0] == 'init' and v[1][0] == 'G')


def c16(P, R):
    """Each client function is composed with the handle() of its class: the term it sends is given to handle(), every path of
    which is followed; some path must answer, nothing is read from the request that was not put there, and every key path
    the client reads from the reply is written on every answering path.  Names are compared as terms; to_json/from_json
    pairs must agree key by key; every broadcast goes to the name of an endpoint that handles unsolicited data."""
    cl = clients(P)
    if len(cl) < 4:
        raise AnalysisBroken('endpoint queries not found')
    for c, f in cl:
        this = ('O', 'this', c)
        m = Client(P, R)
        m.quiet = True
        E, outs, thr = run(P, R, m, f, this=this, cls=c)
        hs = [h for h in P.methods(c) if h['n'] == 'handle' and h.get('body') is not None]
        w = '%s:%s' % (rel(f['file']), f['line'])
        if not hs:
            R.ok(R_CMD, w)
            R.bad(R_CMD, w, '%s sends requests but its endpoint handles none' % f['q'])
            continue
        h = hs[0]
        hw = '%s:%s' % (rel(h['file']), h['line'])
        nm = name_of(P, R, c)
        for name, data, (sw, chain) in m.sent:
            R.ok(R_ENDP, sw)
            name = resolve(P, name)
            if known_name(nm) and known_name(name) and nm != name:
                R.bad(R_ENDP, sw, 'the request goes to another name than %s::getName() returns' % c, chain)
            R.ok(R_CMD, sw)
            R.ok(R_REQF, sw)
            s = Server(P, R, data)
            args = []
            for i, p in enumerate(h['p']):
                args.append(None)
            s0 = St()
            # parameters: transport, request, response
            ps = h['p']
            ro = ('O', 'request', 'Data')
            so = ('O', 'response', 'Data')
            if len(ps) == 3:
                args = [None, ('ref', ro), ('ref', so)]
                s0 = s0.write(ro, data if data is not None else ('init', ro)).write(so, ('empty',))
            E2, o2, t2 = run(P, R, s, h, this=this, cls=c, st=s0, args=args)
            for k, (mw, mc) in sorted(s.missing.items()):
                R.bad(R_REQF, mw, 'reads "%s" from the request, which %s does not send' % ('.'.join(k), f['q']), mc)
            ans = []
            kinds = {}
            for st, v in o2:
                if v is None or E2.decide(st, v) is False:
                    continue
                for k, x in st.ts.items():
                    if isinstance(k, tuple) and k[0] == 'kind' and x is not None and k[1] in m.reads:
                        kinds.setdefault(k[1], set()).add(x[1])
                ans.append(st.read(so))
            if not ans:
                R.bad(R_CMD, sw, 'no path of %s answers this request' % h['q'], chain)
            for k, x in sorted(kinds.items()):
                if len(x) > 1:
                    R.bad(R_FIELD, m.reads[k][0], '"%s" in the reply is %s, depending on the path through %s' % ('.'.join(k), ' or '.join(sorted(x)), h['q']),
                          m.reads[k][1])
            for fm, (rw, rc) in sorted(m.formats.items()):
                R.ok(R_FIELD, rw)
                for a in ans:
                    if a[0] == 'op' and a[1] in ('to_bson', 'to_cbor', 'to_msgpack', 'to_ubjson') and a[1] != 'to_' + fm:
                        R.bad(R_FIELD, rw, 'decodes the reply as %s, %s encodes it as %s' % (fm, h['q'], a[1][3:]), rc)
            for k, (rw, rc) in sorted(m.reads.items()):
                R.ok(R_FIELD, rw)
                for a in ans:
                    a = a[2] if a[0] == 'op' and a[1] in ('to_bson', 'to_cbor', 'to_msgpack') else None
                    ks = keys_of(a) if a is not None else None
                    if ks is None:
                        continue
                    # a prefix whose value is not spelled out may hold anything
                    hit = k in ks or any(k[:i] in ks and not any(y[:i] == k[:i] and len(y) > i for y in ks) for i in range(1, len(k)))
                    if not hit:
                        R.bad(R_FIELD, rw, 'reads "%s" from the reply, %s writes %s' % ('.'.join(k), h['q'], sorted('.'.join(y) for y in ks)), rc)
    conversions(P, R)
    broadcasts(P, R)


class Conv(Monitor):
    throws = False
    fresh_atomics = False

    def __init__(self, P, R, j, o):
        super().__init__(P, R)
        self.j, self.o = j, o
        self.map = {}

    def after(self, E, st, fr, node, q, recv, args, res):
        if q.endswith('::get_to') and recv is not None and args and args[0] is not None and args[0][0] == '&':
            st2, v = E.val(st, recv, NODE, fr)
            l = recv[1] if recv[0] == '&' else None
            k = keypath(l) if l is not None else ()
            if k and args[0][1][0] == 'F':
                self.map.setdefault(k, set()).add((args[0][1][2],))
        return st

    def write(self, E, st, fr, node, loc, v):
        # state.field = j["k"].get<T>()
        if loc[0] == 'F' and loc[1] == self.o:
            ks = []

            def see(t):
                if t[0] == 'K' and len(t) == 3 and t[2][0] == 'str' and mentions(t[1], lambda y: y == self.j):
                    ks.append(keypath(t))
                if t[0] == 'p' and t[2][0] == 'K' and t[2][1][0] == 'str':
                    ks.append((t[2][1][1],))
                return False
            mentions(v, see)
            for k in ks[:1]:
                self.map.setdefault(k, set()).add((loc[2],))
        return st


def conversions(P, R):
    to, frm = {}, {}
    for f in library_functions(P):
        if f['kind'] == 'func' and len(f['p']) == 2 and f['n'] in ('to_json', 'from_json'):
            t = f['p'][1]['t'].replace('const ', '').rstrip(' &')
            (to if f['n'] == 'to_json' else frm)[t] = f
    for t in sorted(set(to) & set(frm)):
        j, o = ('O', 'json', 'json'), ('O', 'obj', t)
        f = to[t]
        m = Conv(P, R, j, o)
        E, outs, thr = run(P, R, m, f, st=St().write(j, ('empty',)), args=[('ref', j), ('ref', o)])
        wr = {}
        for st, v in outs:
            a = st.read(j)
            if keys_of(a) is None:
                wr = None
                break
            for k, x in a[2] if a[0] == 'rec' else ():
                p = tuple(s[1][1] for s in k)
                if x[0] == 'init' and x[1][0] == 'F':
                    wr.setdefault(p, set()).add((x[1][2],))
                else:
                    wr.setdefault(p, set())
        g = frm[t]
        m = Conv(P, R, j, o)
        run(P, R, m, g, args=[('ref', j), ('ref', o)])
        w = '%s:%s' % (rel(g['file']), g['line'])
        R.ok(R_CONV, w)
        if wr is None:
            continue
        for k, fs in sorted(m.map.items()):
            if k not in wr:
                R.bad(R_CONV, w, 'reads "%s", which %s does not write' % ('.'.join(k), f['q']))
            elif wr[k] and fs and not wr[k] & fs:
                R.bad(R_CONV, w, '"%s" is written from %s but read into %s' % ('.'.join(k), sorted(wr[k])[0][0], sorted(fs)[0][0]))
        got = {x for fs in m.map.values() for x in fs}
        for k, fs in sorted(wr.items()):
            if m.map and fs and not fs & got:
                R.bad(R_CONV, w, '"%s" (%s) is written but never read back' % ('.'.join(k), sorted(fs)[0][0]))


class Bcast(Monitor):
    throws = False
    fresh_atomics = True
    exit_limit = 2
    head_limit = 3

    def __init__(self, P, R):
        super().__init__(P, R)
        self.sent = []

    def call(self, E, st, fr, node, q, recv, args):
        if q == 'scalopus::Transport::broadcast':
            st, v = E.val(st, args[0], node, fr)
            w, chain = where_chain(E, node, fr)
            self.sent.append((v, w, chain))
            return [(st, ('void',))]
        return None


def broadcasts(P, R):
    names = {}
    for c in endpoint_classes(P):
        if any(f['n'] == 'unsolicited' and f.get('body') is not None for f in P.methods(c)) \
                and any(f['n'] == 'getName' and f.get('body') is not None for f in P.methods(c)):
            names[c] = name_of(P, R, c)
    n = 0
    for f in library_functions(P):
        if 'python' in rel(f['file']) or not any(is_call(x, 'scalopus::Transport::broadcast') for x in walk(f)):
            continue
        m = Bcast(P, R)
        run(P, R, m, f)
        for v, w, chain in m.sent:
            n += 1
            R.ok(R_BCAST, w)
            v = resolve(P, v)
            ns = list(names.values())
            if known_name(v) and ns and all(known_name(x) for x in ns) and v not in ns:
                R.bad(R_BCAST, w, 'broadcasts to %s, no endpoint taking broadcasts has that name' % (v[1] if v[0] == 'str' else v[1][1]), chain)
    if not n:
        raise AnalysisBroken('no broadcast found')


CHECKS = {'C15': c15, 'C16': c16}
