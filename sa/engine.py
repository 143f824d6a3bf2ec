"""Path-sensitive abstract interpreter over the extracted syntax trees (property simulation to a fixpoint).

The interpreter walks every statement of an entry function, inlining repository callees, and keeps sets of abstract
states (abstract memory, branch facts, held locks, rule automaton state).  Loops are iterated until no new abstract
state appears; loop-carried accumulators are widened.  Rules are monitors that observe events (calls, accesses, lock
operations, element visits, returns, escaping exceptions) and keep their automaton in the state.  No code of the
analysed program is run and no solver is used."""
from .terms import *
import time
from .facts import AnalysisBroken, rel

MAXDEPTH = 14
CAP = 160
LOOPCAP = 600
START = time.time()
SOFT, HARD = 480, 780       # seconds: loops are cut short, the analysis ends


class OutOfTime(Exception):
    pass


LATE = [False]


def late(n):
    if n % 8 == 0:
        t = time.time() - START
        if t > HARD:
            raise OutOfTime()
        LATE[0] = t > SOFT
    return LATE[0]


GUARDS = {'std::lock_guard', 'std::unique_lock', 'std::shared_lock', 'std::scoped_lock'}
U64 = 1 << 64

STD_BASES = {
    'std::out_of_range': ('std::logic_error', 'std::exception'),
    'std::invalid_argument': ('std::logic_error', 'std::exception'),
    'std::length_error': ('std::logic_error', 'std::exception'),
    'std::future_error': ('std::logic_error', 'std::exception'),
    'std::bad_function_call': ('std::exception',),
    'std::bad_cast': ('std::exception',),
    'std::system_error': ('std::runtime_error', 'std::exception'),
    'std::runtime_error': ('std::exception',),
    'cbor::error': ('std::runtime_error', 'std::exception'),
    'nlohmann::exception': ('std::exception',),
}


class Frame:
    __slots__ = ('id', 'fn', 'this', 'caps', 'parent', 'depth', 'site')

    def __init__(self, id, fn, this, caps, parent, site):
        self.id, self.fn, self.this, self.caps, self.parent, self.site = id, fn, this, caps, parent, site
        self.depth = parent.depth + 1 if parent else 0

    def stack(self):
        f, r = self, []
        while f:
            r.append(f)
            f = f.parent
        return r


class St:
    __slots__ = ('mem', 'facts', 'locks', 'ts', 'cl', 'made', '_k', '_c', '_l', '_g')

    def __init__(self, mem=None, facts=None, locks=(), ts=None, cl=(), made=frozenset()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.locks = locks
        self.ts = ts if ts is not None else {}
        self.cl = cl
        self.made = made
        self._k = self._c = self._l = None
        self._g = False

    def copy(self, **kw):
        n = St(self.mem, self.facts, self.locks, self.ts, self.cl, self.made)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def key(self):
        if self._k is None:
            self._k = (self.core(), frozenset(self.facts.items()))
        return self._k

    def core(self):
        if self._c is None:
            self._c = (frozenset(self.mem.items()), self.locks, frozenset(self.ts.items()), self.cl)
        return self._c

    # automaton state
    def get(self, k, d=None):
        return self.ts.get(k, d)

    def set(self, k, v):
        if self.ts.get(k) == v and k in self.ts:
            return self
        t = dict(self.ts)
        if v is None:
            t.pop(k, None)
        else:
            t[k] = v
        return self.copy(ts=t)

    # memory
    def write(self, loc, v):
        m = dict(self.mem)
        r = root(loc)
        dead = [k for k in m if k != loc and root(k) == r and loc in parents(k)]
        for k in dead:
            del m[k]
        m[loc] = v
        return self.copy(mem=m)

    def drop(self, loc, self_too=True):
        r = root(loc)
        dead = [k for k in self.mem if (k == loc and self_too) or (k != loc and root(k) == r and loc in parents(k))]
        if not dead:
            return self
        m = dict(self.mem)
        for k in dead:
            del m[k]
        return self.copy(mem=m)

    def base(self, loc):
        v = self.mem.get(loc)
        if v is not None:
            return v
        if loc[0] == 'F' and loc[2] == 'std::pair::first' and loc[1][0] == 'K':
            return loc[1][2]
        for a in parents(loc):
            v = self.mem.get(a)
            if v is not None:
                if v[0] == 'ref':
                    continue
                for s in steps(loc, a):
                    v = proj(v, s)
                return v
        return ('init', loc)

    def read(self, loc):
        v = self.base(loc)
        r = root(loc)
        ch = []
        for k in self.mem:
            if k is not loc and k[0] in PARTS and root(k) == r and k != loc and loc in parents(k):
                ch.append((steps(k, loc), self.mem[k]))
        if ch:
            if v[0] == 'rec':
                keep = [(p, x) for p, x in v[2] if not any(p[:len(q)] == q for q, _ in ch)]
                ch = keep + ch
                v = v[1]
            ch.sort(key=lambda e: (len(e[0]), str(e[0])))
            return ('rec', v, tuple(ch))
        return v


class Monitor:
    """Base class of rules: all hooks are optional."""
    wants_access = False
    fresh_atomics = True
    prove = False           # enable the difference-bound prover in branch decisions
    throws = True           # model exceptions of library calls
    opaque = ()             # qualified names never inlined
    exit_limit = 2          # states per result value kept apart at function exits
    block_limit = None      # states kept apart between statements
    head_limit = 8          # states kept apart at loop heads

    def __init__(self, prog, report):
        self.p = prog
        self.report_to = report

    def start(self, E, st, fr):
        return st

    def call(self, E, st, fr, node, q, recv, args):
        return None

    def after(self, E, st, fr, node, q, recv, args, res):
        return st

    def access(self, E, st, fr, node, loc, rw):
        return st

    def acquire(self, E, st, fr, node, loc, mode):
        return st

    def release(self, E, st, fr, node, loc):
        return st

    def visit(self, E, st, fr, node, cont, elem):
        return st

    def done(self, E, st, fr, node, cont):
        return st

    def broke(self, E, st, fr, node, cont):
        return st

    def deref(self, E, st, fr, node, v):
        return st

    def write(self, E, st, fr, node, loc, v):
        return st

    def moved(self, E, st, fr, node, loc, rq):
        return st

    def enter(self, E, st, fr):
        return st

    def leave(self, E, st, fr, val):
        return st

    def head(self, E, st, fr, node):
        return st

    def thrown(self, E, st, fr, node, types):
        return st

    def assumed(self, E, st, fr, node, atom, truth):
        """A branch was taken on which this atom is known."""
        return st

    def atomic(self, E, st, fr, node, loc, op):
        return None

    def callback_throws(self, E, node, c):
        """Endpoint factories are user code that may fail; loggers and event sinks are assumed not to throw."""
        return 'Endpoint' in c.get('rt', '')


class Engine:
    def __init__(self, prog, mon):
        self.p = prog
        self.mon = mon
        self.frames = {}
        self.sink = []
        self.stats = {'functions': set(), 'statements': 0, 'calls': 0, 'states': 0, 'opaque': set(), 'merged': 0}
        self._live_memo = {}

    # ------------------------------------------------------------------------------------------------- entry points
    def frame(self, fn, this, caps, parent, site):
        k = (parent.id if parent else -1, site, fn['usr'])
        i = self.frames.setdefault(k, len(self.frames))
        return Frame(i, fn, this, caps or {}, parent, site)

    def run(self, fn, this=None, cls=None, st=None, args=None):
        """Analyse fn as an entry point.  Returns [(state, value)] for normal exits and [(state, types)] for escapes."""
        if this is None and fn.get('cls') and not fn.get('static'):
            this = ('O', 'this', cls or fn['cls'])
        fr = self.frame(fn, this, {}, None, 0)
        st = st or St()
        for i, p in enumerate(fn['p']):
            l = ('L', fr.id, p['id'])
            if args is not None and i < len(args) and args[i] is not None:
                st = st.write(l, args[i])
            elif p['ref'] or p['t'].endswith('&'):
                st = st.write(l, ('ref', ('O', 'arg:' + p['n'], p['t'].replace('const ', '').rstrip(' &'))))
            else:
                st = st.write(l, ('init', ('O', 'arg:' + p['n'], p['t'])))
        st = self.mon.start(self, st, fr)
        self.sink.append([])
        outs = self.body(fn, [st], fr)
        thr = self.sink.pop()
        return outs, thr

    def run_lambda(self, lam, this=None, cls=None, st=None, outer=None):
        """Analyse a closure as an entry point, e.g. the body of a thread."""
        fn = self.p.definition(lam['fn'])
        if fn is None:
            raise AnalysisBroken('lambda body not found')
        return self.run(fn, this=this, cls=cls, st=st)

    def body(self, fn, states, fr):
        """Run a function body (with constructor initialisers) in frame fr; returns [(st, val)]."""
        self.stats['functions'].add(fn['q'] if fn['kind'] != 'lambda' else 'lambda@%s:%s' % (rel(fn['file']), fn['line']))
        mark = ('M', fr.id, 0)
        states = [self.mon.enter(self, s.copy(cl=s.cl + (mark,)), fr) for s in states]
        self.sink.append([])
        outs = []
        if fn['kind'] == 'ctor':
            states = self.ctor_inits(fn, states, fr)
        if fn.get('body') is not None:
            o = self.ex(fn['body'], states, fr)
        else:
            o = {'n': states, 'b': [], 'c': [], 'r': []}
        for s in o['n']:
            outs.append((s, None))
        outs.extend(o['r'])
        thr = self.sink.pop()
        res = []
        for s, v in outs:
            for s2 in self.unwind(s, mark, fr):
                s2 = self.mon.leave(self, s2, fr, v)
                res.append((self.purge(s2, fr.id), v))
        et = []
        for s, t in self.join_v(thr):
            for s2 in self.unwind(s, mark, fr):
                et.append((self.purge(s2, fr.id), t))
        top = fr.parent is None
        self.sink[-1].extend(self.squash_v(self.join_v(et), 20 if top else 2, fr, fn))
        return self.squash_v(self.join_v(res), 40 if top else self.mon.exit_limit, fr, fn)

    def ctor_inits(self, fn, states, fr):
        this = fr.this
        done = set()
        for ini in fn.get('inits') or []:
            nxt = []
            for st in states:
                if ini.get('f'):
                    loc = ('F', this, ini['f'])
                    done.add(ini['f'])
                    e = ini.get('e')
                    if e is None:
                        nxt.append(st)
                        continue
                    nxt.extend(self.init_at(e, loc, self.p.fields.get(ini['f'], {}), st, fr))
                else:
                    e = ini.get('e')
                    if e is not None and e.get('k') == 'ctor' and e.get('c') and self.p.definition(e['c']['usr']):
                        nxt.extend(s for s, _ in self.construct(e, this, st, fr))
                    elif e is not None:
                        nxt.extend(s for s, _ in self.ev(e, st, fr))
                    else:
                        nxt.append(st)
            states = nxt
        r = self.p.records.get(fn.get('cls'))
        if r and not any(i.get('deleg') for i in fn.get('inits') or []):
            for f in r['fields']:
                if f['f'] not in done:
                    nxt = []
                    for st in states:
                        loc = ('F', this, f['f'])
                        if f.get('inite'):
                            nxt.extend(self.init_at(f['inite'], loc, f, st, fr))
                        else:
                            nxt.append(st.write(loc, ('undef',) if f.get('scalar') else ('nothread',) if f['t'] == 'std::thread'
                                                else ('default', f['t'])))
                    states = nxt
        return states

    def init_at(self, e, loc, vd, st, fr):
        """Initialise the object at loc with expression e."""
        if e.get('k') == 'ctor' and e.get('c') and e.get('cm') in ('', None):
            d = self.p.definition(e['c']['usr'], fr.fn['file'])
            if d is not None and e.get('rq') in self.p.records:
                return [s for s, _ in self.construct(e, loc, st, fr)]
            if e.get('rq') in GUARDS:
                return self.guard_init(e, loc, st, fr)
        res = []
        for s, x in self.ev(e, st, fr):
            s, v = self.val(s, x, e, fr)
            if vd.get('t', '').startswith('std::atomic') or (e.get('rq') or '').startswith('std::atomic'):
                v = v if v[0] != 'default' else ('undef',)
            s = s.write(loc, v)
            s = self.mon.write(self, s, fr, e, loc, v)
            if self.mon.wants_access:
                s = self.mon.access(self, s, fr, e, loc, 'w')
            res.append(s)
        return res

    def purge(self, st, fid):
        dead = [k for k in st.mem if root(k)[0] in ('L', 'T') and root(k)[1] == fid]
        if dead:
            m = dict(st.mem)
            for k in dead:
                del m[k]
            st = st.copy(mem=m)
        return st

    # ---------------------------------------------------------------------------------------------- state utilities
    def fresh(self, st, fr, node, tag):
        """An unknown value created at this site; the previous one of the same site is renamed (recency)."""
        if isinstance(tag, tuple) and size(tag) > 150:
            tag = (tag[0],) + tuple(x if isinstance(x, str) or size(x) < 60 else ('...',) for x in tag[1:])
        s = ('s', fr.id, node['#'], tag)
        site = (fr.id, node['#'], tag[0] if isinstance(tag, tuple) else tag)
        if site in st.made:
            st = self.age(st, site)
        else:
            st = st.copy(made=st.made | {site})
        return st, s

    @staticmethod
    def site(s):
        while s[0] in ('old', 'older'):
            s = s[1]
        return (s[1], s[2], s[3][0] if isinstance(s[3], tuple) else s[3]) if s[0] == 's' else None

    def age(self, st, site):
        """The values this site produced before become 'earlier' ones; what is stored under them is forgotten."""
        live = [x for x in self.live(st) if x[0] != 'phi' and self.site(x) == site]
        cur = [x for x in live if x[0] == 's']
        if not cur:
            # facts may still mention it
            bad = [f for f in st.facts if any(x[0] == 's' and self.site(x) == site for x in syms(f))]
            if bad:
                fs = dict(st.facts)
                for f in bad:
                    del fs[f]
                st = st.copy(facts=fs)
            return st
        key = ('older', ('s', site[0], site[1], (site[2],)))
        for o in live:
            if o[0] == 'old':
                st = self.rename(self.drop_facts(st, o), o, key)
        for c in cur:
            st = self.drop_facts(st, ('old', c))
            st = self.rename(st, c, ('old', c))
        dead = [k for k in st.mem if any(x[0] in ('old', 'older') and self.site(x) == site for x in syms(k))]
        if dead:
            m = dict(st.mem)
            for k in dead:
                del m[k]
            st = st.copy(mem=m)
        return st

    def drop_facts(self, st, s):
        bad = [f for f in st.facts if s in syms(f)]
        if not bad:
            return st
        fs = dict(st.facts)
        for f in bad:
            del fs[f]
        return st.copy(facts=fs)

    def rename(self, st, a, b):
        memo = {}
        def sb(t):
            return subst(t, a, b, memo)
        mem = {}
        for k, v in st.mem.items():
            mem[sb(k)] = sb(v)
        facts = {sb(k): v for k, v in st.facts.items()}
        ts = {k: sb(v) if isinstance(v, tuple) else (frozenset(sb(x) for x in v) if isinstance(v, frozenset) else v)
              for k, v in st.ts.items()}
        return st.copy(mem=mem, facts=facts, ts=ts, locks=sb(st.locks), cl=sb(st.cl))

    def live(self, st):
        if st._l is not None:
            return st._l
        r = set()
        for k, v in st.mem.items():
            a = syms(k)
            if a:
                r |= a
            a = syms(v)
            if a:
                r |= a
        for v in st.ts.values():
            if isinstance(v, tuple):
                r |= syms(v)
            elif isinstance(v, frozenset):
                for x in v:
                    r |= syms(x) if isinstance(x, tuple) else set()
        r |= syms(st.locks)
        st._l = r
        return r

    def gc_heap(self, st):
        """Forget objects created here that nothing refers to any more."""
        own = {}
        for k in st.mem:
            r = root(k)
            if r[0] == 'O' and isinstance(r[1], tuple):
                own.setdefault(r[1], []).append(k)
        if not own:
            return st
        reach, work = set(), []

        def mark(t):
            for s in syms(t):
                if s in own and s not in reach:
                    reach.add(s)
                    work.append(s)
        for k, v in st.mem.items():
            r = root(k)
            if r[0] == 'O' and isinstance(r[1], tuple):
                continue
            mark(k)
            mark(v)
        for v in st.ts.values():
            if isinstance(v, tuple):
                mark(v)
            elif isinstance(v, frozenset):
                for x in v:
                    if isinstance(x, tuple):
                        mark(x)
        mark(st.locks)
        mark(st.cl)
        while work:
            s = work.pop()
            for k in own[s]:
                mark(st.mem[k])
        dead = [k for s, l in own.items() if s not in reach for k in l]
        if dead:
            m = dict(st.mem)
            for k in dead:
                del m[k]
            st = st.copy(mem=m)
        return st

    def gc(self, st):
        if st._g:
            return st
        st = self.gc_heap(st)
        live = self.live(st)
        bad = [f for f in st.facts if not (syms(f) <= live)]
        if bad:
            fs = dict(st.facts)
            for f in bad:
                del fs[f]
            st = st.copy(facts=fs)
        st._g = True
        return st

    def dedupe(self, states):
        if len(states) <= 1:
            return states
        seen, res = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                res.append(s)
        if len(res) > CAP:
            res = self.merge(res)
        return res

    in_cond = False

    def compares_index(self, n):
        """A comparison with something that is not a literal (`i < v.size()` with i known to be 0, not `v.size() > 0`)."""
        if n.get('k') != 'bin':
            return False
        for o in (n['x'], n['y']):
            while isinstance(o, dict) and o.get('k') == 'cast':
                o = o['e']
            if o.get('k') in ('int', 'bool'):
                return False
        return True

    def index_loop(self, st, fr, n, a, pol, truth):
        """`i < c.size()` (or `i != c.size()`) as the condition of a loop: the element with that index is visited next."""
        x, y = a[2], a[3]
        if a[1] == '==' and x[0] == 'size':
            x, y = y, x
        elif a[1] == '<' and x[0] == 'size':
            return st
        if y[0] != 'size':
            return st
        C = y[2] if len(y) == 3 else None
        if C is None:
            where = [k for k, v in st.mem.items() if v == y[1] and k[0] in ('L', 'T', 'O', 'F')]
            if not where:
                return st
            C = min(where, key=lambda k: (('L', 'T', 'O', 'F').index(k[0]), repr(k)))
        inside = (truth == pol) == (a[1] == '<')
        if inside:
            return self.mon.visit(self, st, fr, n, C, ('I', C, x))
        return self.mon.done(self, st, fr, n, C)

    def common(self, a, b):
        """Branch facts that hold in both states; with numeric reasoning also those one state has and the other implies."""
        res = {f: v for f, v in a.facts.items() if b.facts.get(f) == v}
        if self.mon.prove:
            for x, y in ((a, b), (b, a)):
                for f, v in x.facts.items():
                    if f not in res and f not in y.facts and f[1] in ('<', '==') and self.decide_atom(y, f) == v:
                        res[f] = v
        return res

    def join(self, states):
        """Join point: states that agree on memory, locks and rule state keep only their common branch facts."""
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            s = self.gc(s)
            k = s.core()
            o = groups.get(k)
            if o is None:
                groups[k] = s
            elif o.facts != s.facts:
                groups[k] = o.copy(facts=self.common(o, s))
        res = list(groups.values())
        if len(res) > CAP:
            res = self.merge(res)
        return res

    def squash(self, states, limit, fr, node):
        """Many states with the same rule state: values that differ become unknown."""
        if len(states) <= limit:
            return states
        groups = {}
        for s in states:
            groups.setdefault((s.locks, frozenset(s.ts.items()), s.cl), []).append(s)
        out = []
        for g in groups.values():
            if len(g) <= limit:
                out += g
                continue
            self.stats['squashed'] = self.stats.get('squashed', 0) + 1
            keys = set(g[0].mem)
            diff = []
            for s in g[1:]:
                keys |= set(s.mem)
            for k in keys:
                v = g[0].mem.get(k)
                if any(s.mem.get(k) != v for s in g[1:]):
                    diff.append(k)
            facts = {f: v for f, v in g[0].facts.items() if all(s.facts.get(f) == v for s in g[1:])}
            special = ('ref', 'guard', 'lam', 'thread', 'nothread', 'mutex')
            split = [k for k in diff if any(s.mem.get(k, ('?',))[0] in special for s in g)]
            small = [k for k in diff if k not in split and all(s.mem.get(k, ('?',))[0] == 'c' for s in g)
                     and len(set(s.mem.get(k) for s in g)) <= 3]
            keep = split + small
            sub_ = {}
            for s in g:
                sub_.setdefault(tuple(s.mem.get(k) for k in keep), []).append(s)
            if len(sub_) > 4 * limit:
                sub_ = {}
                keep = split
                for s in g:
                    sub_.setdefault(tuple(s.mem.get(k) for k in keep), []).append(s)
            for h in sub_.values():
                s = h[0]
                if len(h) > 1:
                    fc = h[0]
                    for x in h[1:]:
                        fc = fc.copy(facts=self.common(fc, x))
                    fc = fc.facts
                    ks = [k for k in diff if k not in keep and any(x.mem.get(k) != s.mem.get(k) for x in h[1:])]
                    ks.sort(key=lambda k: (len(parents(k)), str(k)))
                    m = dict(s.mem)
                    made = s.made
                    for x in h[1:]:
                        made = made | x.made
                    for k in ks:
                        m.pop(k, None)
                    s = s.copy(mem=m, facts=fc, made=made)
                    sizes = set()
                    if self.mon.prove:
                        for f in fc:
                            for t in (f[2], f[3]):
                                b = self.lin(t)[0]
                                if b is not None and b[0] == 'size':
                                    sizes.add(b)
                    for i, k in enumerate(ks):
                        if k[0] in PARTS and any(k not in x.mem for x in h):
                            # known in some states only: unknown, unless an enclosing value would say otherwise
                            if not any(a in m for a in parents(k)):
                                continue
                        s, v = self.fresh(s, fr, node, ('joined ' + show(k), k))
                        m = dict(s.mem)
                        m[k] = v
                        s = s.copy(mem=m)
                        if sizes and all(k in x.mem and x.mem[k][0] in ('c', 's', 'op', 'phi', 'size', 'old', 'older') for x in h):
                            for z in sizes:
                                if all(self.prove_le(x, x.mem[k], z, 0) for x in h):
                                    s = self.assume(s, ('op', '<', z, v), False) or s
                out.append(s)
        return out

    def join_v(self, pairs):
        if len(pairs) <= 1:
            return pairs
        byv = {}
        for s, v in pairs:
            byv.setdefault(v, []).append(s)
        res = [(s, v) for v, l in byv.items() for s in self.join_for(l, v)]
        if len(res) > CAP:
            res = self.dedupe_v(res)
        return res

    def squash_v(self, pairs, limit, fr, node):
        if len(pairs) <= limit:
            return pairs
        byv = {}
        for s, v in pairs:
            byv.setdefault(v, []).append(s)
        k = ('T', -7, 0)
        res = []
        for v, l in byv.items():
            if len(l) <= limit:
                res += [(s, v) for s in l]
                continue
            hold = isinstance(v, tuple)
            if hold:
                l = [s.write(k, v) for s in l]
            for s in self.squash(l, limit, fr, node):
                v2 = s.mem.get(k, v) if hold else v
                res.append((s.drop(k) if hold else s, v2))
        return res

    def join_for(self, l, v):
        """Like join, but the symbols of the value v stay alive."""
        if len(l) <= 1 or not isinstance(v, tuple):
            return self.join(l)
        k = ('T', -7, 0)
        return [s.drop(k) for s in self.join([s.write(k, v) for s in l])]

    def merge(self, states):
        self.stats['merged'] += 1
        seen, res = set(), []
        for s in states:
            s = self.gc(s)
            if s.key() not in seen:
                seen.add(s.key())
                res.append(s)
        if len(res) <= CAP:
            return res
        # forget branch facts where the rule state, locks and memory agree
        groups = {}
        for s in res:
            k = (frozenset(s.mem.items()), s.locks, frozenset(s.ts.items()), s.cl)
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            common = dict(g[0].facts)
            for s in g[1:]:
                common = {f: v for f, v in common.items() if s.facts.get(f) == v}
            out.append(g[0].copy(facts=common))
        if len(out) <= CAP:
            return out
        # join memories of states with the same rule state
        groups = {}
        for s in out:
            groups.setdefault((s.locks, frozenset(s.ts.items()), s.cl), []).append(s)
        res = []
        for g in groups.values():
            m = dict(g[0].mem)
            for s in g[1:]:
                for k in list(m):
                    if s.mem.get(k) != m[k]:
                        m[k] = ('s', -1, 0, ('joined', k))
                for k in s.mem:
                    if k not in m:
                        m[k] = ('s', -1, 0, ('joined', k))
            common = dict(g[0].facts)
            for s in g[1:]:
                common = {f: v for f, v in common.items() if s.facts.get(f) == v}
            res.append(g[0].copy(mem=m, facts=common))
        return res

    def dedupe_v(self, pairs):
        if len(pairs) <= 1:
            return pairs
        seen, res = set(), []
        for s, v in pairs:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                res.append((s, v))
        if len(res) > CAP:
            res2, seen = [], set()
            for s, v in res:
                s = self.gc(s)
                k = (s.key(), v)
                if k not in seen:
                    seen.add(k)
                    res2.append((s, v))
            res = res2
            if len(res) > CAP:
                self.stats['merged'] += 1
                byv = {}
                for s, v in res:
                    byv.setdefault(v, []).append(s)
                res = [(s, v) for v, l in byv.items() for s in (self.merge(l) if len(l) > CAP // 4 else l)]
        return res

    # --------------------------------------------------------------------------------------------- facts and decisions
    def atom(self, t):
        """Canonical (atom, polarity) of a boolean term; atoms are '==' or '<'."""
        pol = True
        while True:
            if t[0] == 'op':
                o = t[1]
                if o == '!':
                    t, pol = t[2], not pol
                    continue
                if o == '!=':
                    t, pol = ('op', '==', t[2], t[3]), not pol
                    continue
                if o == '>':
                    t = ('op', '<', t[3], t[2])
                    continue
                if o == '>=':
                    t, pol = ('op', '<', t[2], t[3]), not pol
                    continue
                if o == '<=':
                    t, pol = ('op', '<', t[3], t[2]), not pol
                    continue
                if o == '==':
                    a, b = t[2], t[3]
                    # comparisons of comparisons against constants
                    if b == C0 and a[0] == 'op' and a[1] in ('==', '<', '!=', '!', '>', '>=', '<='):
                        t, pol = a, not pol
                        continue
                    if b == C1 and a[0] == 'op' and a[1] in ('==', '<', '!=', '!', '>', '>=', '<='):
                        t = a
                        continue
                    if a[0] in ('c', 'str') and b[0] not in ('c', 'str'):
                        a, b = b, a
                    elif b[0] not in ('c', 'str') and str(a) > str(b):
                        a, b = b, a
                    return ('op', '==', a, b), pol
                if o == '<':
                    bools = ('==', '<', '!=', '!', '>', '>=', '<=')
                    if t[2] == C0 and t[3][0] == 'op' and t[3][1] in bools:
                        t = t[3]
                        continue
                    if t[3] == C1 and t[2][0] == 'op' and t[2][1] in bools:
                        t, pol = t[2], not pol
                        continue
                    return t, pol
            return ('op', '==', t, C0), not pol

    def decide_atom(self, st, a):
        v = st.facts.get(a)
        if v is not None:
            return v
        _, o, x, y = a
        if o == '==':
            if x == y:
                return True if not any(s[0] == 'older' for s in syms(x)) else None
            if x[0] in ('c', 'str') and y[0] in ('c', 'str'):
                return x == y or (x[0] == y[0] == 'c' and x[1] == y[1])
            if x[0] in ('empty', 'undef', 'default') and y == C0:
                return True if x[0] == 'default' and ('_ptr<' in x[1] or 'std::function' in x[1]) else None
            if x[0] in ('ptr', 'lam', 'fn') and y == C0:
                return False
            if y[0] == 'c' and not isinstance(y[1], float) and y[1] < 0 and (
                    x[0] == 'size' or x[0] == 'cast' and str(x[1]).replace('const ', '') in
                    ('unsigned short', 'unsigned char', 'uint16_t', 'uint8_t', 'std::uint16_t', 'std::uint8_t', 'unsigned int',
                     'uint32_t', 'std::uint32_t')):
                return False
            if x[0] in ('ptr',) and y[0] == 'ptr' and root(x[1])[0] in ('L', 'O', 'G') and root(y[1])[0] in ('L', 'O', 'G') \
                    and root(x[1]) != root(y[1]) and x[1][0] != 'D' and y[1][0] != 'D':
                return None
            if x[0] == 'it' and y[0] == 'it':
                return None
            if y[0] == 'c':
                for f, tv in st.facts.items():
                    if tv and f[1] == '==' and f[2] == x and f[3][0] == 'c' and f[3] != y:
                        return False
                lx = self.lin(x)
                if lx[1] and lx[0] is not None:
                    for f, tv in st.facts.items():
                        if tv and f[1] == '==' and f[2] == lx[0] and f[3][0] == 'c':
                            return f[3][1] + lx[1] == y[1]
            if y[0] == 'str':
                for f, tv in st.facts.items():
                    if tv and f[1] == '==' and f[2] == x and f[3][0] == 'str' and f[3] != y:
                        return False
            if x[0] == 'isend' and y == C0:
                return self.decide_isend(st, x)
            if self.mon.prove or y == C0 and x[0] == 'size':
                lx, ly = self.lin(x), self.lin(y)
                if lx[0] == ly[0]:
                    return lx[1] == ly[1]
                if self.prove_le(st, x, y, -1) or self.prove_le(st, y, x, -1):
                    return False
                if self.prove_le(st, x, y, 0) and self.prove_le(st, y, x, 0):
                    return True
            return None
        if o == '<':
            if x == y:
                return False
            if x[0] == 'c' and y[0] == 'c':
                return x[1] < y[1]
            lx, ly = self.lin(x), self.lin(y)
            if lx[0] == ly[0] and lx[0] is not None:
                return lx[1] < ly[1]
            if y == C0 and x[0] == 'size':
                return False
            if self.mon.prove:
                if self.prove_le(st, x, y, -1):
                    return True
                if self.prove_le(st, y, x, 0):
                    return False
            return None
        return None

    def decide_isend(self, st, t):
        # ('isend', it): an iterator from begin() of an empty container, or end() itself
        it = t[1]
        if it[2] == ('end',):
            return False    # term == 0 is false: it is end
        if it[2] == ('begin',):
            from .models import size_of
            zt = size_of(it[3], it[1])
            if zt[0] == 'c':
                return zt[1] != 0
            sz = self.decide_atom(st, ('op', '==', zt, C0))
            if sz is None:
                return None
            return not sz
        return None

    def decide(self, st, t):
        if t[0] == 'c':
            return bool(t[1])
        if t[0] == 'str':
            return True
        a, pol = self.atom(t)
        v = self.decide_atom(st, a)
        if v is None:
            return None
        return v if pol else not v

    def assume(self, st, t, truth):
        if t[0] == 'c':
            return st if bool(t[1]) == truth else None
        a, pol = self.atom(t)
        want = truth if pol else not truth
        v = self.decide_atom(st, a)
        if v is not None:
            return st if v == want else None
        fs = dict(st.facts)
        fs[a] = want
        return st.copy(facts=fs)

    def lin(self, t):
        """(base, offset) with base None for constants."""
        if t[0] == 'c' and not isinstance(t[1], float):
            return None, t[1]
        if t[0] == 'op' and t[1] == '+' and len(t) == 4 and t[3][0] == 'c' and not isinstance(t[3][1], float):
            b, k = self.lin(t[2])
            return b, k + t[3][1]
        if t[0] == 'cast':
            return t, 0
        return t, 0

    def constraints(self, st):
        """Difference constraints a - b <= k implied by the facts."""
        cs = []
        terms = set()
        for f, tv in st.facts.items():
            (a, ka), (b, kb) = self.lin(f[2]), self.lin(f[3])
            if f[2][0] == 'str' or f[3][0] == 'str':
                continue
            terms.add(a)
            terms.add(b)
            if f[1] == '<':
                if tv:      # a+ka < b+kb  ->  a - b <= kb - ka - 1
                    cs.append((a, b, kb - ka - 1))
                else:       # b+kb <= a+ka ->  b - a <= ka - kb
                    cs.append((b, a, ka - kb))
            elif f[1] == '==' and tv:
                cs.append((a, b, kb - ka))
                cs.append((b, a, ka - kb))
            elif f[1] == '==' and not tv and f[3] == C0 and f[2][0] == 'size':
                cs.append((None, a, -1 + ka))
        return cs, terms

    def prove_le(self, st, x, y, k):
        """Is x - y <= k a consequence of the facts?"""
        (a, ka), (b, kb) = self.lin(x), self.lin(y)
        bound = k - ka + kb        # a - b <= bound
        if a == b:
            return 0 <= bound
        cs, terms = self.constraints(st)
        nodes = set(terms) | {a, b, None}
        for n in nodes:
            if n is not None and (n[0] == 'size' or (n[0] == 's' and isinstance(n[3], tuple) and n[3][0] == 'find')):
                cs.append((None, n, 0))
            if n is not None and n[0] == 'op' and n[1] == '/' and len(n) == 4 and n[2][0] == 'size':
                cs.append((None, n, 0))
                cs.append((n, n[2], 0))
            if n is not None and n[0] == 'op' and n[1] == 'min':
                for z in n[2:]:
                    lb, lk = self.lin(z)
                    cs.append((n, lb, lk))
        # a - b <= bound : shortest path b -> a where edge (v -> u, w) for u - v <= w
        dist = {n: None for n in nodes}
        for u, v, w in cs:
            dist.setdefault(u, None)
            dist.setdefault(v, None)
        dist[b] = 0
        for _ in range(len(dist)):
            ch = False
            for u, v, w in cs:
                if dist[v] is not None and (dist[u] is None or dist[v] + w < dist[u]):
                    dist[u] = dist[v] + w
                    ch = True
            if not ch:
                break
        return dist.get(a) is not None and dist[a] <= bound

    # -------------------------------------------------------------------------------------------------- arithmetic
    def add(self, a, b, t=''):
        if a[0] == 'c' and b[0] == 'c':
            r = a[1] + b[1]
            if t in ('unsigned long', 'size_t', 'unsigned long long') and not isinstance(r, float):
                r %= U64
            return ('c', r)
        if a[0] == 'c':
            a, b = b, a
        if b[0] == 'c':
            if isinstance(b[1], float):
                return ('op', '+', a, b)
            if a[0] == 'op' and a[1] == '+' and len(a) == 4 and a[3][0] == 'c' and not isinstance(a[3][1], float):
                k = a[3][1] + b[1]
                return a[2] if k == 0 else ('op', '+', a[2], ('c', k))
            if b[1] == 0:
                return a
            return ('op', '+', a, b)
        if a[0] == 'op' and a[1] == '-' and len(a) == 4 and a[3] == b:
            return a[2]
        if b[0] == 'op' and b[1] == '-' and len(b) == 4 and b[3] == a:
            return b[2]
        return ('op', '+', a, b)

    def arith(self, op, a, b, t=''):
        if a[0] == 'ptr' and op in ('+', '-') and a[1][0] == 'I':
            l = a[1]
            return ('ptr', ('I', l[1], self.arith(op, l[2], b)))
        if a[0] == 'ptr' and op == '+':
            return ('ptr', ('I', a[1], b)) if b != C0 else a
        if op == '+':
            return self.add(a, b, t)
        if op == '-':
            if b[0] == 'c' and not isinstance(b[1], float) and not (a[0] == 'c' and isinstance(a[1], float)):
                return self.add(a, ('c', -b[1]), t)
            if a == b:
                return C0
            (x, k), (y, m) = self.lin(a), self.lin(b)
            if x == y:
                return ('c', k - m)
            if a[0] == 'op' and a[1] == '+' and len(a) == 4:
                if a[3] == b:
                    return a[2]
                if a[2] == b:
                    return a[3]
            return ('op', '-', a, b)
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                if op == '*':
                    return ('c', x * y)
                if op == '/' and y:
                    return ('c', x / y if isinstance(x, float) or isinstance(y, float) else int(x / y))
                if op == '%' and y:
                    return ('c', x % y)
                if op == '&':
                    return ('c', x & y)
                if op == '|':
                    return ('c', x | y)
                if op == '^':
                    return ('c', x ^ y)
                if op == '<<' and 0 <= y < 64:
                    return ('c', x << y)
                if op == '>>' and 0 <= y < 64:
                    return ('c', x >> y)
            except TypeError:
                pass
        if op in ('*', '&', '|', '^') and str(a) > str(b):
            a, b = b, a
        return ('op', op, a, b)

    # ---------------------------------------------------------------------------------------------------- expressions
    def val(self, st, x, node, fr):
        """Load: the value of an evaluated expression."""
        if x is None:
            return st, ('void',)
        if x[0] == '&':
            loc = x[1]
            if self.mon.wants_access:
                st = self.mon.access(self, st, fr, node, loc, 'r')
            v = st.read(loc)
            if v[0] == 'ref':
                v = st.read(v[1])
            return st, v
        return st, x

    def loc(self, st, x, node, fr):
        """Location of an evaluated expression; values are put into a temporary."""
        if x is not None and x[0] == '&':
            return st, x[1]
        t = ('T', fr.id, node['#'])
        return st.write(t, x if x is not None else ('void',)), t

    def target(self, st, v, node, fr):
        """Location a pointer value points to (emits the dereference event)."""
        st = self.mon.deref(self, st, fr, node, v)
        if st is None:
            return None, None
        if v[0] == 'ptr':
            return st, v[1]
        if v[0] == 'it':
            return self.it_loc(st, v, node, fr)
        return st, ('D', v)

    def it_loc(self, st, it, node, fr):
        c, pos = it[1], it[2]
        if pos[0] == 'find':
            l = ('K', c, pos[1])
        elif pos[0] == 'begin':
            l = ('E', c, ('front',))
        else:
            l = ('E', c, pos)
        if self.mon.wants_access:
            st = self.mon.access(self, st, fr, node, c, 'r')
        return st, l

    def evs(self, nodes, st, fr):
        res = [(st, [])]
        for n in nodes or []:
            nxt = []
            for s, xs in res:
                for s2, x in self.ev(n, s, fr):
                    nxt.append((s2, xs + [x]))
            res = nxt
        return res

    def ev(self, n, st, fr):
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            st, s = self.fresh(st, fr, n, 'expr ' + k)
            return [(st, s)]
        return m(n, st, fr)

    def e_int(self, n, st, fr):
        return [(st, ('c', int(n.get('cv', n.get('v', 0)))))]

    def e_bool(self, n, st, fr):
        return [(st, C1 if n.get('v') in (True, 'true', 1, '1') else C0)]

    def e_float(self, n, st, fr):
        return [(st, ('c', float(n['v'])))]

    def e_str(self, n, st, fr):
        return [(st, ('str', n.get('v', '')))]

    def e_null(self, n, st, fr):
        return [(st, C0)]

    def e_zero(self, n, st, fr):
        return [(st, C0)]

    def e_this(self, n, st, fr):
        return [(st, ('ptr', fr.this))]

    def e_sizeof(self, n, st, fr):
        return [(st, ('c', int(n['cv']))) if n.get('cv') is not None else (st, ('op', 'sizeof', ('str', n.get('at', ''))))]

    def var_loc(self, n, st, fr):
        vk = n.get('vk')
        i = n.get('id')
        if i in fr.caps:
            return fr.caps[i]
        if vk in ('static', 'tls') and i is not None:
            return ('S', fr.fn['usr'] if fr.fn['kind'] != 'lambda' else fr.fn['usr'], i, vk)
        if vk == 'global' or i is None:
            return ('G', n.get('q') or n['n'])
        return ('L', fr.id, i)

    def e_var(self, n, st, fr):
        if n.get('vk') == 'enum' or (n.get('cv') is not None and n.get('vk') in ('global', 'static')):
            try:
                return [(st, ('c', int(n['cv'])))]
            except (KeyError, ValueError):
                pass
        l = self.var_loc(n, st, fr)
        if l[0] == 'G' and l not in st.mem:
            g = self.p.globals.get(l[1])
            if g and g.get('const') and isinstance(g.get('init'), dict):
                out = []
                for s, x in self.ev(g['init'], st, fr):
                    out.append(self.val(s, x, n, fr))
                return out
        v = st.mem.get(l)
        if v is not None and v[0] == 'ref':
            return [(st, ('&', v[1]))]
        return [(st, ('&', l))]

    def e_fn(self, n, st, fr):
        return [(st, ('fn', n.get('usr') or (n.get('c') or {}).get('usr') or n.get('q')))]

    def e_mem(self, n, st, fr):
        res = []
        f = n.get('f') or n.get('n')
        for s, b in self.ev(n['b'], st, fr):
            if n.get('arrow'):
                s, p = self.val(s, b, n['b'], fr)
                if n['b'].get('k') == 'this' or (n['b'].get('k') == 'call' and n['b'].get('op') == '->'):
                    l = p[1] if p[0] == 'ptr' else ('D', p)
                else:
                    s, l = self.target(s, p, n, fr)
                    if s is None:
                        continue
                x = ('&', ('F', l, f))
            elif b[0] == '&':
                x = ('&', ('F', b[1], f))
            else:
                x = proj(b, ('F', f))
            if x[0] == '&':
                v = s.mem.get(x[1])
                if v is not None and v[0] == 'ref':
                    x = ('&', v[1])
            res.append((s, x))
        return res

    def e_lambda(self, n, st, fr):
        caps = []
        states = [(st, [])]
        for c in n.get('caps') or []:
            nxt = []
            for s, acc in states:
                if c.get('this'):
                    nxt.append((s, acc + [('this', ('ptr', fr.this))]))
                    continue
                if c.get('initcap') and c.get('e') is not None:
                    for s2, x in self.ev(c['e'], s, fr):
                        if c.get('byref') and x[0] == '&':
                            nxt.append((s2, acc + [(c['id'], ('ref', x[1]))]))
                        else:
                            s3, v = self.val(s2, x, c['e'], fr)
                            nxt.append((s3, acc + [(c['id'], v)]))
                    continue
                vn = {'k': 'var', 'id': c['id'], 'n': c.get('n'), 'vk': 'local', '#': n['#'], 't': ''}
                if isinstance(c.get('e'), dict) and c['e'].get('k') == 'var':
                    vn = c['e']
                for s2, x in self.e_var(vn, s, fr):
                    if c.get('byref') and x[0] == '&':
                        nxt.append((s2, acc + [(c['id'], ('ref', x[1]))]))
                    else:
                        s3, v = self.val(s2, x, n, fr)
                        nxt.append((s3, acc + [(c['id'], v)]))
            states = nxt
        outer_this = ('ptr', fr.this) if fr.this is not None else None
        res = []
        for s, acc in states:
            if not any(a[0] == 'this' for a in acc) and outer_this and n.get('capthis'):
                acc = acc + [('this', outer_this)]
            res.append((s, ('lam', n['fn'], tuple(acc))))
        return res

    def e_un(self, n, st, fr):
        op = n['op']
        if op in ('!',):
            t, f = self.cond(n, st, fr)
            return [(s, C1) for s in t] + [(s, C0) for s in f]
        res = []
        for s, x in self.ev(n['e'], st, fr):
            if op == '&':
                if x[0] == '&':
                    res.append((s, ('ptr', x[1])))
                else:
                    s, l = self.loc(s, x, n['e'], fr)
                    res.append((s, ('ptr', l)))
            elif op == '*':
                s, v = self.val(s, x, n['e'], fr)
                s, l = self.target(s, v, n, fr)
                if s is None:
                    continue
                res.append((s, ('&', l)))
            elif op in ('++', '--'):
                s, v = self.val(s, x, n['e'], fr)
                nv = self.arith('+' if op == '++' else '-', v, C1, n.get('t', ''))
                if x[0] == '&':
                    s = self.store(s, x[1], nv, n, fr)
                res.append((s, v if n.get('post') else (x if x[0] == '&' else nv)))
            elif op == '-':
                s, v = self.val(s, x, n['e'], fr)
                if n.get('cv') is not None:
                    try:
                        v2 = ('c', int(n['cv']))
                    except ValueError:
                        v2 = ('op', 'neg', v)
                else:
                    v2 = ('c', -v[1]) if v[0] == 'c' else ('op', 'neg', v)
                res.append((s, v2))
            elif op == '+':
                s, v = self.val(s, x, n['e'], fr)
                res.append((s, v))
            else:
                s, v = self.val(s, x, n['e'], fr)
                res.append((s, ('op', op, v)))
        return res

    def store(self, st, loc, v, node, fr):
        if loc[0] == 'I' and loc[1][0] == 'F' and 'fds_bits' in loc[1][2]:
            return st           # select() sets: only passed on to the system call
        st = st.write(loc, v)
        st = self.mon.write(self, st, fr, node, loc, v)
        if self.mon.wants_access:
            st = self.mon.access(self, st, fr, node, loc, 'w')
        return st

    def e_bin(self, n, st, fr):
        op = n['op']
        if op in ('&&', '||'):
            t, f = self.cond(n, st, fr)
            return [(s, C1) for s in t] + [(s, C0) for s in f]
        if n.get('cv') is not None and op not in (',',):
            try:
                return [(st, ('c', int(n['cv'])))]
            except ValueError:
                pass
        res = []
        for s, (x, y) in self.evs([n['x'], n['y']], st, fr):
            if op == ',':
                res.append((s, y))
                continue
            s, a = self.val(s, x, n['x'], fr)
            s, b = self.val(s, y, n['y'], fr)
            res.append((s, self.binop(s, op, a, b, n.get('t', ''))))
        return res

    def binop(self, st, op, a, b, t=''):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            r = ('op', op, a, b)
            if self.in_cond and op in ('<', '>', '!=') and 'size' in (a[0], b[0]):
                return r                                          # kept for the traversal hooks
            d = self.decide(st, r)
            if d is not None:
                return C1 if d else C0
            return r
        return self.arith(op, a, b, t)

    def e_assign(self, n, st, fr):
        res = []
        op = n['op']
        for s, y in self.ev(n['y'], st, fr):
            s, b = self.val(s, y, n['y'], fr)
            for s2, x in self.ev(n['x'], s, fr):
                if op != '=':
                    s2, a = self.val(s2, x, n['x'], fr)
                    v = self.arith(op[:-1], a, b, n.get('t', ''))
                else:
                    v = b
                if x[0] == '&':
                    s2 = self.store(s2, x[1], v, n, fr)
                    res.append((s2, x))
                else:
                    res.append((s2, v))
        return res

    def e_cond(self, n, st, fr):
        t, f = self.cond(n['c'], st, fr)
        res = []
        for s in t:
            res.extend(self.ev(n['x'], s, fr))
        for s in f:
            res.extend(self.ev(n['y'], s, fr))
        return res

    NARROW = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'signed char': 8, 'char': 8, 'short': 16,
              'int': 32}

    def e_cast(self, n, st, fr):
        res = []
        if n.get('cv') is not None:
            try:
                return [(st, ('c', int(n['cv'])))]
            except ValueError:
                pass
        for s, x in self.ev(n['e'], st, fr):
            if n.get('cs') == 'dynamic' or n.get('ck') == 'Dynamic':
                s, v = self.val(s, x, n['e'], fr)
                s, r = self.fresh(s, fr, n, ('dyncast', v))
                res.append((s, r))
                continue
            w = self.NARROW.get(n.get('t'))
            et = n['e'].get('t', '').replace('const ', '')
            if w and et in ('unsigned long', 'long', 'unsigned long long', 'long long', 'int', 'unsigned int') \
                    and self.NARROW.get(et, 64) > w:
                s, v = self.val(s, x, n['e'], fr)
                if v[0] == 'c':
                    res.append((s, ('c', v[1] & ((1 << w) - 1) if 'unsigned' in n['t'] else v[1])))
                else:
                    res.append((s, ('cast', n['t'], v)))
                continue
            if n.get('t') in ('double', 'float') and 'double' not in et and 'float' not in et:
                s, v = self.val(s, x, n['e'], fr)
                res.append((s, ('c', float(v[1])) if v[0] == 'c' else ('op', 'todouble', v)))
                continue
            if n.get('t') == 'bool' and et != 'bool':
                s, v = self.val(s, x, n['e'], fr)
                res.append((s, self.binop(s, '!=', v, C0)))
                continue
            res.append((s, x))
        return res

    def e_initlist(self, n, st, fr):
        res = []
        fields = n.get('fields')
        for s, xs in self.evs(n.get('a'), st, fr):
            vs = []
            for a, x in zip(n.get('a') or [], xs):
                s, v = self.val(s, x, a, fr)
                vs.append(v)
            if fields:
                items = []
                for f, v in zip(fields, vs):
                    items.append(((('F', f),), v))
                res.append((s, ('rec', ('default', n.get('rq') or ''), tuple(items))))
            elif not vs:
                res.append((s, ('empty',)))
            else:
                res.append((s, ('list',) + tuple(vs)))
        return res

    def e_idx(self, n, st, fr):
        res = []
        for s, (x, y) in self.evs([n['x'], n['y']], st, fr):
            s, i = self.val(s, y, n['y'], fr)
            if x[0] == '&' and ('[' in n['x'].get('t', '') or n['x'].get('k') in ('mem', 'var') and '*' not in n['x'].get('t', '')):
                res.append((s, ('&', ('I', x[1], i))))
            else:
                s, p = self.val(s, x, n['x'], fr)
                if p[0] == 'ptr':
                    l = p[1]
                    if l[0] == 'I':
                        l = ('I', l[1], self.arith('+', l[2], i))
                    else:
                        l = ('I', l, i)
                    res.append((s, ('&', l)))
                else:
                    s, l = self.target(s, p, n, fr)
                    if s is None:
                        continue
                    res.append((s, ('&', ('I', l, i))))
        return res

    def e_throw(self, n, st, fr):
        states = [st]
        if n.get('e') is not None:
            states = [s for s, _ in self.ev(n['e'], st, fr)]
        for s in states:
            t = n.get('tt')
            if t is None:
                h = s.get('handling')
                if h:
                    self.sink[-1].append((s, h))
                    continue
                types = ('?',)
            else:
                types = (t,) + tuple(n.get('bases') or ())
            self.throw(s, types, n, fr)
        return []

    def throw(self, st, types, node, fr):
        st = self.mon.thrown(self, st, fr, node, types)
        if st is not None:
            self.sink[-1].append((st, types + (('@', self.where(node, fr)),)))

    def maythrow(self, st, node, fr, *types):
        if not self.mon.throws:
            return
        for t in types:
            self.throw(st, (t,) + STD_BASES.get(t, ('std::exception',) if t != '?' else ()), node, fr)

    def e_new(self, n, st, fr):
        st, s = self.fresh(st, fr, n, 'new')
        obj = ('O', s, n.get('at') or n.get('t', '').rstrip(' *'))
        e = n.get('e') or n.get('init')
        if isinstance(e, dict):
            if e.get('k') == 'ctor' and self.p.definition((e.get('c') or {}).get('usr', ''), fr.fn['file']):
                return [(s2, ('ptr', obj)) for s2, _ in self.construct(e, obj, st, fr)]
            return [(s2.write(obj, self.val(s2, x, e, fr)[1]), ('ptr', obj)) for s2, x in self.ev(e, st, fr)]
        return [(st, ('ptr', obj))]

    def e_delete(self, n, st, fr):
        res = []
        for s, x in self.ev(n['e'], st, fr):
            res.append((s, ('void',)))
        return res

    def e_stmtexpr(self, n, st, fr):
        body = n.get('s')
        last = None
        if isinstance(body, dict) and body.get('s'):
            last = body['s'][-1]
        o = self.ex(body, [st], fr)
        res = []
        for s in o['n']:
            s, v = self.fresh(s, fr, n, 'stmtexpr')
            res.append((s, v))
        return res

    def e_other(self, n, st, fr):
        st, s = self.fresh(st, fr, n, 'expr ' + str(n.get('cn')))
        return [(st, s)]

    # ------------------------------------------------------------------------------------------------------ conditions
    def cond(self, n, st, fr):
        k = n['k']
        if k == 'un' and n['op'] == '!':
            t, f = self.cond(n['e'], st, fr)
            return f, t
        if k == 'bin' and n['op'] == '&&':
            t, f = self.cond(n['x'], st, fr)
            T, F = [], list(f)
            for s in t:
                t2, f2 = self.cond(n['y'], s, fr)
                T += t2
                F += f2
            return T, F
        if k == 'bin' and n['op'] == '||':
            t, f = self.cond(n['x'], st, fr)
            T, F = list(t), []
            for s in f:
                t2, f2 = self.cond(n['y'], s, fr)
                T += t2
                F += f2
            return T, F
        T, F = [], []
        for s, x in self.ev(n, st, fr):
            s, v = self.val(s, x, n, fr)
            a = self.assume(s, v, True)
            if a is not None:
                T += self.refined(a, v, True, n, fr)
            b = self.assume(s, v, False)
            if b is not None:
                F += self.refined(b, v, False, n, fr)
        return T, F

    def refined(self, st, v, truth, n, fr):
        """Hooks for traversal: an iterator compared against end."""
        if v[0] == 'c':
            return [st]
        a, pol = self.atom(v)
        st = self.mon.assumed(self, st, fr, n, a, truth == pol)
        if st is None:
            return []
        if self.in_cond and a[1] in ('<', '==') and ('size' in (a[2][0], a[3][0])) and (a[3] != C0 or self.compares_index(n)):
            st = self.index_loop(st, fr, n, a, pol, truth)
            if st is None:
                return []
        if a[1] == '==' and a[2][0] == 'isend' and a[3] == C0:
            is_end = (truth == (not pol))
            it = a[2][1]
            if it[2][0] in ('begin', 'nth', 'rbegin'):
                if is_end:
                    st = self.mon.done(self, st, fr, n, it[1])
                else:
                    st2, l = self.it_loc(st, it, n, fr)
                    st = self.mon.visit(self, st2, fr, n, it[1], l)
        if a[1] == '==' and a[2][0] == 'size' and a[3] == C0 and len(a[2]) == 3:
            empty = (truth == pol)
            if empty:
                st = self.mon.done(self, st, fr, n, a[2][2])
        return [st] if st is not None else []

    # ------------------------------------------------------------------------------------------------------- statements
    def ex(self, n, states, fr):
        """Execute statement n on a set of states: {'n': [...], 'b': [...], 'c': [...], 'r': [(st, val)]}."""
        out = {'n': [], 'b': [], 'c': [], 'r': []}
        if n is None:
            out['n'] = states
            return out
        if not states:
            return out
        k = n['k']
        self.stats['statements'] += 1
        self.stats['states'] += len(states)
        late(self.stats['statements'])
        m = getattr(self, 'x_' + k, None)
        if m is not None:
            return m(n, states, fr, out)
        # expression statement
        res = []
        for st in states:
            for s, x in self.ev(n, st, fr):
                if x is not None and x[0] == 'guard' and x[2]:
                    for l in x[1]:
                        s = self.unlock(s, l, n, fr)
                if k == 'ctor' and n.get('rq') in self.p.records:
                    d = self.dtor_of(n['rq'])
                    if d is not None:
                        s, l = self.loc(s, x, n, fr)
                        res.extend(self.run_dtor(s, l, n['rq'], fr, n))
                        continue
                res.append(s)
        out['n'] = self.dedupe(res)
        return out

    def x_block(self, n, states, fr, out):
        mark = ('M', fr.id, n['#'])
        states = [s.copy(cl=s.cl + (mark,)) for s in states]
        self.sink.append([])
        cur = states
        for x in n['s']:
            if not cur:
                break
            o = self.ex(x, cur, fr)
            cur = self.dedupe(o['n'])
            if self.mon.block_limit is not None and len(cur) > self.mon.block_limit:
                cur = self.squash(self.join(cur), self.mon.block_limit, fr, x)
            out['b'] += o['b']
            out['c'] += o['c']
            out['r'] += o['r']
        out['n'] = cur
        thr = self.sink.pop()
        for key in ('n', 'b', 'c'):
            out[key] = self.join([s2 for s in out[key] for s2 in self.unwind(s, mark, fr)])
        out['r'] = self.join_v([(s2, v) for s, v in out['r'] for s2 in self.unwind(s, mark, fr)])
        et = []
        for s, t in self.join_v(thr):
            for s2 in self.unwind(s, mark, fr):
                et.append((s2, t))
        self.sink[-1].extend(self.join_v(et))
        return out

    def unwind(self, st, mark, fr):
        """Run the destructors of the locals above mark, innermost first."""
        states = [st]
        while True:
            nxt, more = [], False
            for s in states:
                if not s.cl:
                    nxt.append(s)
                    continue
                top = s.cl[-1]
                if top == mark:
                    nxt.append(s.copy(cl=s.cl[:-1]))
                    continue
                if mark not in s.cl:
                    nxt.append(s)
                    continue
                more = True
                s = s.copy(cl=s.cl[:-1])
                if top[0] == 'V':
                    nxt.extend(self.destroy(s, top, fr))
                else:
                    nxt.append(s)
            # finished states must not be unwound again
            if not more:
                return nxt
            done = [s for s in nxt if not (mark in s.cl)]
            pend = [s for s in nxt if mark in s.cl]
            if not pend:
                return done
            rest = []
            for s in pend:
                rest.extend(self.unwind(s, mark, fr))
            return done + rest

    def destroy(self, st, ent, fr):
        _, loc, rq, dt = ent
        v = st.mem.get(loc)
        res = [st]
        if v is not None and v[0] == 'guard' and v[2]:
            for l in v[1]:
                st = self.unlock(st, l, None, fr)
            res = [st]
        elif rq and rq in self.p.records and dt:
            res = self.run_dtor(st, loc, rq, fr, None)
        return [s.drop(loc) for s in res]

    def dtor_of(self, rq):
        for f in self.p.methods(rq):
            if f['kind'] == 'dtor':
                return f
        return None

    def run_dtor(self, st, loc, rq, fr, node):
        d = self.dtor_of(rq)
        if d is None or fr.depth > MAXDEPTH or any(f.fn is d for f in fr.stack()):
            return [st]
        f2 = self.frame(d, loc, {}, fr, ('dtor', str(loc)))
        return [s for s, _ in self.body(d, [st], f2)]

    def x_decl(self, n, states, fr, out):
        cur = states
        for v in n['v']:
            if v.get('k') not in (None, 'vd'):
                continue
            nxt = []
            for st in cur:
                nxt.extend(self.declare(v, st, fr))
            cur = self.dedupe(nxt)
        out['n'] = cur
        return out

    def declare(self, v, st, fr):
        if v.get('static') or v.get('tls'):
            return self.declare_static(v, st, fr)
        loc = ('L', fr.id, v['id'])
        init = v.get('init')
        if loc in st.mem:
            st = st.drop(loc)
        ent = ('V', loc, v.get('rq'), bool(v.get('dtor')))
        if v.get('ref'):
            res = []
            for s, x in self.ev(init, st, fr):
                if x[0] == '&':
                    s = s.write(loc, ('ref', x[1]))
                else:
                    t = ('T', fr.id, v['#'])
                    s = s.write(t, x).write(loc, ('ref', t))
                    if x[0] == 'guard':
                        s = s.write(loc, x)
                res.append(s.copy(cl=s.cl + (ent,)))
            return res
        if init is None:
            st = st.write(loc, ('undef',) if not v.get('rq') else ('default', v['t']))
            return [st.copy(cl=st.cl + (ent,))]
        if v.get('rq') in GUARDS and init.get('k') == 'ctor' and init.get('cm') in ('', None):
            return [s.copy(cl=s.cl + (ent,)) for s in self.guard_init(init, loc, st, fr)]
        if init.get('k') == 'ctor' and init.get('cm') in ('', None) and init.get('rq') in self.p.records:
            d = self.p.definition(init['c']['usr'], fr.fn['file'])
            if d is not None:
                return [s.copy(cl=s.cl + (ent,)) for s, _ in self.construct(init, loc, st, fr)]
        res = []
        for s, x in self.ev(init, st, fr):
            s, val = self.val(s, x, init, fr)
            s = s.write(loc, val)
            res.append(s.copy(cl=s.cl + (ent,)))
        return res

    def declare_static(self, v, st, fr):
        """Function-local static / thread_local: evaluated on first use; the result is what every use sees."""
        st_kind = 'tls' if v.get('tls') else 'static'
        loc = ('S', fr.fn['usr'], v['id'], st_kind)
        if loc in st.mem or v.get('init') is None:
            return [st]
        res = []
        for s, x in self.ev(v['init'], st, fr):
            s, val = self.val(s, x, v['init'], fr)
            s = s.write(loc, val)
            s = self.mon.write(self, s, fr, v, loc, val)
            res.append(s)
        return res

    def x_if(self, n, states, fr, out):
        cur = states
        if n.get('init'):
            o = self.ex(n['init'], cur, fr)
            cur = o['n']
        if n.get('var'):
            nxt = []
            for s in cur:
                nxt.extend(self.declare(n['var'], s, fr))
            cur = nxt
        T, F = [], []
        for s in cur:
            t, f = self.cond(n['c'], s, fr)
            T += t
            F += f
        T, F = self.dedupe(T), self.dedupe(F)
        a = self.ex(n['th'], T, fr)
        b = self.ex(n.get('el'), F, fr)
        for key in out:
            out[key] = a[key] + b[key]
        out['n'] = self.join(out['n'])
        return out

    def x_empty(self, n, states, fr, out):
        out['n'] = states
        return out

    x_asm = x_empty

    def x_other(self, n, states, fr, out):
        out['n'] = states
        return out

    def x_label(self, n, states, fr, out):
        b = n.get('b')
        return self.ex(b, states, fr) if isinstance(b, dict) else self.x_empty(n, states, fr, out)

    def x_goto(self, n, states, fr, out):
        return out

    def x_ret(self, n, states, fr, out):
        e = n.get('e')
        for st in states:
            if e is None:
                out['r'].append((st, None))
                continue
            isref = fr.fn['rt'].endswith('&')
            for s, x in self.ev(e, st, fr):
                if not isref:
                    s, x = self.val(s, x, e, fr)
                out['r'].append((s, x))
        return out

    def x_break(self, n, states, fr, out):
        out['b'] = states
        return out

    def x_continue(self, n, states, fr, out):
        out['c'] = states
        return out

    def x_try(self, n, states, fr, out):
        self.sink.append([])
        o = self.ex(n['b'], states, fr)
        thr = self.sink.pop()
        for key in out:
            out[key] += o[key]
        # dedupe pending exceptions
        for st, types in self.join_v(thr):
            escapes = True
            for h in n.get('h') or []:
                ct = h.get('ct')
                m = self.matches(ct, types)
                if m is None or m is True:
                    hs = [st]
                    mark = ('M', fr.id, h['#'] if '#' in h else n['#'])
                    if h.get('var'):
                        l = ('L', fr.id, h['var']['id'] if isinstance(h['var'], dict) else h['var'])
                        hs = [st.write(l, ('exc', types[0]))]
                    hs = [s.set('handling', types) for s in hs]
                    ho = self.ex(h['b'], hs, fr)
                    for key in ('n', 'b', 'c'):
                        out[key] += [s.set('handling', None) for s in ho[key]]
                    out['r'] += [(s.set('handling', None), v) for s, v in ho['r']]
                if m is True:
                    escapes = False
                    break
            if escapes:
                self.sink[-1].append((st, types))
        out['n'] = self.join(out['n'])
        return out

    def matches(self, ct, types):
        """True: handler certainly catches; None: may catch; False: cannot."""
        if ct in (None, '', '...'):
            return True
        c = ct.replace('const ', '').rstrip(' &')
        if c in types:
            return True
        if types[0] == '?':
            return None
        if any(isinstance(t, str) and t.startswith('nlohmann') for t in types) and c.startswith('nlohmann'):
            return True if c.endswith('exception') or 'basic_json::exception' in c else None
        return False

    def x_while(self, n, states, fr, out):
        if n.get('var'):
            def cond(s):
                T, F = [], []
                for s2 in self.declare(n['var'], s, fr):
                    t, f = self.cond(n['c'], s2, fr)
                    T += t
                    F += f
                return T, F
        else:
            def cond(s):
                return self.cond(n['c'], s, fr)
        return self.loop(n, states, fr, out, cond, n['b'], None)

    def x_do(self, n, states, fr, out):
        first = self.ex(n['b'], states, fr)
        out['r'] += first['r']
        out['n'] += first['b']
        cur = first['n'] + first['c']
        o2 = {'n': [], 'b': [], 'c': [], 'r': []}
        o2 = self.loop(n, cur, fr, o2, lambda s: self.cond(n['c'], s, fr), n['b'], None)
        out['n'] += o2['n']
        out['r'] += o2['r']
        out['n'] = self.dedupe(out['n'])
        return out

    def x_for(self, n, states, fr, out):
        mark = ('M', fr.id, n['#'])
        states = [s.copy(cl=s.cl + (mark,)) for s in states]
        if n.get('init'):
            states = self.ex(n['init'], states, fr)['n']
        c = n.get('c')
        cond = (lambda s: self.cond(c, s, fr)) if c else (lambda s: ([s], []))
        self.sink.append([])
        o = self.loop(n, states, fr, {'n': [], 'b': [], 'c': [], 'r': []}, cond, n['b'], n.get('inc'))
        thr = self.sink.pop()
        out['n'] = self.dedupe([s2 for s in o['n'] for s2 in self.unwind(s, mark, fr)])
        out['r'] = [(s2, v) for s, v in o['r'] for s2 in self.unwind(s, mark, fr)]
        for s, t in thr:
            for s2 in self.unwind(s, mark, fr):
                self.sink[-1].append((s2, t))
        return out

    def x_rfor(self, n, states, fr, out):
        mark = ('M', fr.id, n['#'])
        cur = []
        for st in states:
            for s, x in self.ev(n['range'], st, fr):
                s, c = self.loc(s, x, n['range'], fr)
                s = s.copy(cl=s.cl + (mark,))
                cur.append((s, c))
        groups = {}
        for s, c in cur:
            groups.setdefault(c, []).append(s)
        self.sink.append([])
        ends, rets = [], []
        for c, ss in groups.items():
            e, r = self.foreach(n, ss, c, fr, n['b'], n['var'])
            ends += e
            rets += r
        thr = self.sink.pop()
        out['n'] = self.dedupe([s2 for s in ends for s2 in self.unwind(s, mark, fr)])
        out['r'] = [(s2, v) for s, v in rets for s2 in self.unwind(s, mark, fr)]
        for s, t in thr:
            for s2 in self.unwind(s, mark, fr):
                self.sink[-1].append((s2, t))
        return out

    def elem(self, st, c, node, fr):
        """A fresh element of container c."""
        content = st.base(c)
        if self.mon.wants_access:
            st = self.mon.access(self, st, fr, node, c, 'r')
        st, s = self.fresh(st, fr, node, ('elem', content))
        l = ('E', c, ('rf', fr.id, node['#']))
        st = st.write(l, s)
        return st, l

    def foreach(self, n, states, c, fr, body, var):
        """Range-for over container c: 0..n iterations to a fixpoint."""
        work = self.join(states)
        seen, exits, rets = {}, [], []
        W = Widen(self, fr, n)
        while work:
            st = self.subsume(W.apply(self.gc(work.pop(0))), seen)
            if st is None:
                continue
            if len(seen) > LOOPCAP or late(self.stats['statements']) and len(seen) > 6:
                self.stats['merged'] += 1
                break
            st = self.mon.head(self, st, fr, n)
            sz = self.decide_atom(st, ('op', '==', ('size', st.base(c), c), C0))
            e = self.mon.done(self, st, fr, n, c)
            if e is not None:
                exits.append(e)
            s, l = self.elem(st, c, n, fr)
            s = self.mon.visit(self, s, fr, n, c, l)
            if s is None:
                continue
            vl = ('L', fr.id, var['id'])
            if var.get('ref'):
                s = s.write(vl, ('ref', l))
            else:
                s, v = self.val(s, ('&', l), n, fr)
                s = s.write(vl, v)
            o = self.ex(body, [s], fr)
            rets += o['r']
            for b in o['b']:
                b = self.mon.broke(self, b, fr, n, c)
                if b is not None:
                    exits.append(b.drop(vl).drop(l))
            nxt = [x.drop(vl).drop(l) for x in o['n'] + o['c']]
            work = self.squash(self.join(work + nxt), self.mon.head_limit, fr, n)
        return self.squash(self.join([x.drop(('L', fr.id, var['id'])) for x in exits]), self.mon.head_limit, fr, n), self.join_v(rets)

    def subsume(self, st, seen):
        """Loop head: None if a weaker state was already analysed here, otherwise the state joined with it."""
        k = st.core()
        o = seen.get(k)
        if o is not None:
            common = {f: v for f, v in o.items() if st.facts.get(f) == v}
            if len(common) == len(o):
                return None
            st = st.copy(facts=common)
        seen[k] = st.facts
        return st

    def loop(self, n, states, fr, out, cond, body, inc):
        work = self.join(list(states))
        seen, exits = {}, []
        W = Widen(self, fr, n)
        while work:
            st = self.subsume(W.apply(self.gc(work.pop(0))), seen)
            if st is None:
                continue
            if len(seen) > LOOPCAP or late(self.stats['statements']) and len(seen) > 6:
                self.stats['merged'] += 1
                break
            st = self.mon.head(self, st, fr, n)
            old, self.in_cond = self.in_cond, True
            T, F = cond(st)
            self.in_cond = old
            exits += F
            o = self.ex(body, self.dedupe(T), fr)
            out['r'] += o['r']
            exits += o['b']
            nxt = o['n'] + o['c']
            if inc is not None:
                nxt = [s2 for s in nxt for s2, _ in self.ev(inc, s, fr)]
            work = self.squash(self.join(work + nxt), self.mon.head_limit, fr, n)
        out['n'] = self.squash(self.join(exits), self.mon.head_limit, fr, n)
        out['r'] = self.join_v(out['r'])
        return out

    def x_switch(self, n, states, fr, out):
        # flatten the body into (labels, statement) pairs
        items = []

        def flat(x):
            labels = []
            while isinstance(x, dict) and x.get('k') in ('case', 'default'):
                labels.append(x['v'] if x['k'] == 'case' else 'default')
                x = x.get('b')
            items.append((labels, x))
        b = n['b']
        for x in (b['s'] if b.get('k') == 'block' else [b]):
            flat(x)
        starts = {}
        for st in states:
            if n.get('init'):
                st = self.ex(n['init'], [st], fr)['n'][0]
            for s, x in self.ev(n['c'], st, fr):
                s, v = self.val(s, x, n['c'], fr)
                rest = s
                dflt = None
                for i, (labels, _) in enumerate(items):
                    for lab in labels:
                        if lab == 'default':
                            dflt = i
                            continue
                        cvs = self.ev(lab, s, fr)
                        cv = self.val(s, cvs[0][1], lab, fr)[1]
                        t = ('op', '==', v, cv)
                        if rest is None:
                            continue
                        a = self.assume(rest, t, True)
                        if a is not None:
                            starts.setdefault(i, []).append(a)
                        rest = self.assume(rest, t, False)
                if rest is not None:
                    if dflt is not None:
                        starts.setdefault(dflt, []).append(rest)
                    elif not n.get('allenum'):
                        starts.setdefault(len(items), []).append(rest)
        cur = []
        for i, (labels, x) in enumerate(items):
            cur = cur + starts.get(i, [])
            if not cur:
                continue
            o = self.ex(x, self.dedupe(cur), fr)
            cur = o['n']
            out['n'] += o['b']
            out['c'] += o['c']
            out['r'] += o['r']
        out['n'] = self.join(out['n'] + cur + starts.get(len(items), []))
        return out

    # ------------------------------------------------------------------------------------------------------------ locks
    def lock(self, st, loc, node, fr, mode='x'):
        st = self.mon.acquire(self, st, fr, node, loc, mode)
        if st is None:
            return None
        st = st.copy(locks=st.locks + ((loc, mode, node['#'] if node else 0),))
        # what other threads did meanwhile is unknown: forget presence facts about containers of the same object
        if loc[0] == 'F':
            owner = loc[1]
            bad = [f for f in st.facts if self._about(f, owner)]
            if bad:
                fs = dict(st.facts)
                for f in bad:
                    del fs[f]
                st = st.copy(facts=fs)
        return st

    def _about(self, f, owner):
        stack = [f]
        while stack:
            t = stack.pop()
            if isinstance(t, tuple):
                if t and t[0] in ('isend',) and owner in parents(t[1][1]):
                    return True
                if t and t[0] == 'size' and len(t) == 3 and owner in parents(t[2]):
                    return True
                stack.extend(t)
        return False

    def unlock(self, st, loc, node, fr):
        ls = list(st.locks)
        for i in range(len(ls) - 1, -1, -1):
            if ls[i][0] == loc:
                del ls[i]
                break
        st = st.copy(locks=tuple(ls))
        return self.mon.release(self, st, fr, node, loc)

    def guard_init(self, e, loc, st, fr):
        res = []
        for s, g in self.make_guard(e, st, fr):
            res.append(s.write(loc, g))
        return res

    def make_guard(self, e, st, fr):
        res = []
        rq = e['rq']
        for s, xs in self.evs(e.get('a'), st, fr):
            locs, defer, adopt, attempt = [], False, False, False
            for a, x in zip(e.get('a') or [], xs):
                t = a.get('t', '')
                if 'defer_lock' in t:
                    defer = True
                elif 'adopt_lock' in t:
                    adopt = True
                elif 'try_to_lock' in t or 'chrono' in t:
                    attempt = True
                elif x[0] == '&':
                    locs.append(x[1])
                elif x[0] == 'ptr':
                    locs.append(x[1])
            mode = 's' if rq == 'std::shared_lock' else 'x'
            if attempt:
                # the lock may not be obtained
                res.append((s, ('guard', tuple(locs), False, mode)))
            if not defer and not adopt:
                for l in locs:
                    s = self.lock(s, l, e, fr, 's' if rq == 'std::shared_lock' else 'x')
                    if s is None:
                        break
                if s is None:
                    continue
            res.append((s, ('guard', tuple(locs), not defer and bool(locs), 's' if rq == 'std::shared_lock' else 'x')))
        return res

    # ---------------------------------------------------------------------------------------------------- construction
    def construct(self, e, loc, st, fr):
        """Run a repository constructor on the object at loc."""
        d = self.p.definition(e['c']['usr'], fr.fn['file'])
        res = []
        for s, xs in self.evs(e.get('a'), st, fr):
            r = self.mon.call(self, s, fr, e, e['c']['q'], ('&', loc), xs)
            if r is not None:
                res.extend((s2, None) for s2, _ in r)
                continue
            res.extend(self.inline(d, loc, e.get('a') or [], xs, s, fr, e))
        return [(s, ('&', loc)) for s, _ in res]

    def e_ctor(self, n, st, fr):
        rq = n.get('rq') or ''
        c = n.get('c') or {}
        if rq in GUARDS:
            if n.get('cm') == 'move' or n.get('cm') == 'copy':
                out = []
                for s, x in self.ev(n['a'][0], st, fr):
                    s, v = self.val(s, x, n, fr)
                    if x[0] == '&' and v[0] == 'guard':
                        s = s.write(x[1], ('guard', v[1], False, v[3]))
                    out.append((s, v))
                return out
            return self.make_guard(n, st, fr)
        if n.get('cm') in ('copy', 'move') and n.get('a'):
            out = []
            for s, x in self.ev(n['a'][0], st, fr):
                s, v = self.val(s, x, n['a'][0], fr)
                if n['cm'] == 'move' and x[0] == '&' and n['a'][0].get('k') != 'var':
                    s = self.moved_from(s, x[1], rq, n, fr)
                out.append((s, v))
            return out
        d = self.p.definition(c.get('usr', ''), fr.fn['file']) if rq in self.p.records else None
        if d is not None and fr.depth < MAXDEPTH and not any(f.fn is d for f in fr.stack()):
            t = ('T', fr.id, n['#'])
            st = st.drop(t)
            out = []
            for s, _ in self.construct(n, t, st, fr):
                out.append((s, s.read(t)))
            return out
        from . import models
        return models.std_ctor(self, n, rq, st, fr)

    def moved_from(self, st, loc, rq, node, fr):
        from . import models
        st = self.mon.moved(self, st, fr, node, loc, rq)
        if rq in models.CONTAINERS:
            if self.mon.wants_access:
                st = self.mon.access(self, st, fr, node, loc, 'w')
            st = st.write(loc, ('empty',))
            st = self.mon.after(self, st, fr, node, 'moved-from', ('&', loc), [], None)
        elif rq in ('std::thread',):
            st = st.write(loc, ('nothread',))
        return st

    # ------------------------------------------------------------------------------------------------------------ calls
    def e_call(self, n, st, fr):
        self.stats['calls'] += 1
        c = n.get('c')
        nodes = ([n['o']] if n.get('o') is not None else []) + (n.get('a') or [])
        res = []
        if c is None or not c.get('q'):
            fe = n.get('fnexpr')
            for s, xs in self.evs(([fe] if fe else []) + nodes, st, fr):
                f = None
                if fe:
                    f, xs = xs[0], xs[1:]
                    s, f = self.val(s, f, fe, fr)
                res.extend(self.call_value(f, n, nodes, xs, s, fr))
            return self.dedupe_v(res)
        if n.get('op') == '=' and n.get('o') is not None and len(nodes) == 2:
            # assignment evaluates the right operand first
            pairs = [(s, [xs[1], xs[0]]) for s, xs in self.evs([nodes[1], nodes[0]], st, fr)]
        else:
            pairs = self.evs(nodes, st, fr)
        for s, xs in pairs:
            recv = None
            args = xs
            if n.get('o') is not None:
                recv, args = xs[0], xs[1:]
            res.extend(self.invoke(n, c, recv, args, s, fr))
        return self.dedupe_v(res)

    def invoke(self, n, c, recv, args, st, fr):
        q = c['q']
        r = self.mon.call(self, st, fr, n, q, recv, args)
        if r is not None:
            return r
        anodes = n.get('a') or []
        # closures
        if c.get('lambda') or (recv is not None and n.get('op') == '()' and recv[0] == 'lam'):
            s, f = self.val(st, recv, n, fr)
            return self.call_value(f, n, anodes, args, s, fr)
        if q == 'std::function::operator()':
            s, f = self.val(st, recv, n['o'], fr)
            if f[0] in ('lam', 'fn'):
                return self.call_value(f, n, anodes, args, s, fr)
            s = self.mon.after(self, s, fr, n, 'callback', recv, args, f)
            if s is None:
                return []
            if self.mon.callback_throws(self, n, c):
                self.maythrow(s, n, fr, '?')
            return self.opaque(n, c, recv, args, s, fr)
        if c.get('repo') or c.get('repodecl'):
            d = self.dispatch(n, c, recv, st, fr)
            if d is not None and q not in self.mon.opaque:
                this = None
                s = st
                if recv is not None and not c.get('static'):
                    if n.get('arrow'):
                        s, p = self.val(s, recv, n['o'], fr)
                        if n['o'].get('k') == 'this' or (n['o'].get('k') == 'call' and n['o'].get('op') == '->'):
                            this = p[1] if p[0] == 'ptr' else ('D', p)
                        else:
                            s, this = self.target(s, p, n, fr)
                            if s is None:
                                return []
                    else:
                        s, this = self.loc(s, recv, n['o'], fr)
                return self.inline(d, this, anodes, args, s, fr, n)
            return self.opaque_repo(n, c, recv, args, st, fr)
        from . import models
        return models.std_call(self, n, c, recv, args, st, fr)

    def is_logger(self, o):
        """Is this std::function a field that a setLogger method of its class assigns?"""
        if o.get('k') != 'mem' or not o.get('f'):
            return False
        f = o['f']
        cls = f.rsplit('::', 1)[0]
        cache = self.__dict__.setdefault('_loggers', {})
        if f not in cache:
            ok = False
            for m in self.p.methods(cls):
                if m['n'] == 'setLogger':
                    from .facts import walk
                    for x in walk(m['body']):
                        if x.get('k') == 'mem' and x.get('f') == f:
                            ok = True
            fd = self.p.fields.get(f)
            if fd is not None and 'ogger' in fd['n']:
                ok = True
            cache[f] = ok
        return cache[f]

    def cls_of(self, loc, st):
        """Dynamic class of the object at loc, when known."""
        if loc[0] == 'O':
            return loc[2] if loc[2] in self.p.records and not str(loc[1]).startswith('arg:') else None
        return None

    def dispatch(self, n, c, recv, st, fr):
        usr = c['usr']
        d = self.p.definition(usr, fr.fn['file'])
        if c.get('virt') and not n.get('nonvirt'):
            s, v = (st, recv)
            loc = None
            if recv is not None:
                if n.get('arrow'):
                    v = st.read(recv[1]) if recv[0] == '&' else recv
                    loc = v[1] if v[0] == 'ptr' else None
                elif recv[0] == '&':
                    loc = recv[1]
            cls = self.cls_of(loc, st) if loc is not None else None
            if cls is not None:
                return self.p.resolve_virtual(usr, cls)
            if self.p.overriders.get(usr):
                return None
            return d
        return d

    def call_value(self, f, n, anodes, args, st, fr):
        if f is not None and f[0] == 'lam':
            d = self.p.definition(f[1])
            if d is None:           # generic lambda: its only instantiation
                ds = [x for x in map(self.p.definition, self.p.lambda_specs().get(f[1]) or ()) if x is not None and len(x['p']) == len(args)]
                d = ds[0] if len(ds) == 1 else None
            if d is None:
                return self.opaque(n, n.get('c') or {}, None, args, st, fr)
            this = fr.this
            caps = {}
            for i, v in f[2]:
                if i == 'this':
                    this = v[1] if v[0] == 'ptr' else ('D', v)
            return self.inline(d, this, anodes, args, st, fr, n, lamcaps=f[2])
        if f is not None and f[0] == 'fn':
            d = self.p.definition(f[1])
            if d is not None:
                return self.inline(d, None, anodes, args, st, fr, n)
        st2 = self.mon.after(self, st, fr, n, 'indirect', None, args, f)
        if st2 is None:
            return []
        return self.opaque(n, n.get('c') or {}, None, args, st2, fr)

    def inline(self, d, this, anodes, args, st, fr, n, lamcaps=None):
        if fr.depth >= MAXDEPTH or sum(1 for f in fr.stack() if f.fn['usr'] == d['usr']) >= 1:
            return self.opaque(n, n.get('c') or {}, None, args, st, fr)
        f2 = self.frame(d, this, {}, fr, n['#'])
        if lamcaps:
            for i, v in lamcaps:
                if i == 'this':
                    continue
                l = ('L', f2.id, i)
                if v[0] == 'ref':
                    f2.caps[i] = v[1]
                else:
                    st = st.write(l, v)
                    f2.caps[i] = l
        if this is not None and isinstance(root(this)[1], tuple) and root(this)[0] == 'O':
            st = st.write(('L', f2.id, 'this'), ('ptr', this))      # an object nothing else may refer to yet
        ps = d['p']
        for i, p in enumerate(ps):
            l = ('L', f2.id, p['id'])
            if i < len(args):
                x = args[i]
                if p['ref'] or p['t'].endswith('&'):
                    if x[0] == '&':
                        st = st.write(l, ('ref', x[1]))
                    else:
                        t = ('T', f2.id, -1 - i)
                        st = st.write(t, x).write(l, ('ref', t))
                else:
                    an = anodes[i] if i < len(anodes) else n
                    st, v = self.val(st, x, an, fr)
                    st = st.write(l, v)
            else:
                st = st.write(l, ('undef',))
        return self.body(d, [st], f2)

    def opaque_repo(self, n, c, recv, args, st, fr):
        """A repository function without a usable body: virtual calls on unknown objects, bodies in other units."""
        q = c['q']
        self.stats['opaque'].add(q)
        s = st
        if recv is not None and n.get('arrow') and not c.get('static'):
            s, p = self.val(s, recv, n['o'], fr)
            if not (n['o'].get('k') == 'this' or (n['o'].get('k') == 'call' and n['o'].get('op') == '->')):
                s, l = self.target(s, p, n, fr)
                if s is None:
                    return []
        from . import models
        if q in models.REPO_THROWS:
            self.maythrow(s, n, fr, '?')
        return self.opaque(n, c, recv, args, s, fr)

    def opaque(self, n, c, recv, args, st, fr, tag=None):
        """Unknown effect: fresh result; objects reachable through non-const references are overwritten."""
        pts = c.get('pt') or []
        for i, x in enumerate(args):
            t = pts[i] if i < len(pts) else ''
            if isinstance(t, dict):
                t = t.get('t', '')
            if x is None:
                continue
            if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&') and x[0] == '&' \
                    and not (x[1][0] in ('O', 'D') and t.rstrip(' &').split('<')[0] in self.p.records):
                st, v = self.fresh(st, fr, n, ('out', i, c.get('q', '?')))
                st = st.write(x[1], v)
                if self.mon.wants_access:
                    st = self.mon.access(self, st, fr, n, x[1], 'w')
            elif t.endswith('*') and not t.startswith('const '):
                s2, v = self.val(st, x, n, fr)
                if v[0] == 'ptr' and v[1][0] != 'O':
                    st, w = self.fresh(s2, fr, n, ('out', i, c.get('q', '?')))
                    l = v[1]
                    if l[0] == 'I':
                        l = l[1]
                    st = st.write(l, w)
            elif t.startswith('const ') or not t.endswith('&'):
                if x[0] == '&':
                    st, _ = self.val(st, x, n, fr)
        st, r = self.fresh(st, fr, n, tag or ('ret', c.get('q') or 'indirect'))
        st = self.mon.after(self, st, fr, n, c.get('q') or 'indirect', recv, args, r)
        return [(st, r)] if st is not None else []

    # ------------------------------------------------------------------------------------------------------------ where
    def where(self, node, fr):
        f = (node or {}).get('@') or fr.fn['file']
        if f and not (f.startswith('/repo') or '/repo/' in f or 'scalopus' in f):
            f = fr.fn['file']
            return '%s:%s' % (rel(f), fr.fn['line'])
        return '%s:%s' % (rel(f), (node or {}).get('l') or fr.fn['line'])

    def where_deep(self, node, fr):
        """Innermost repository position plus the call chain."""
        chain = [f.fn['q'] if f.fn['kind'] != 'lambda' else 'lambda@%d' % f.fn['line'] for f in fr.stack()]
        return '%s in %s' % (self.where(node, fr), ' <- '.join(chain))


class Widen:
    """Loop-head widening: values that keep changing become loop-carried unknowns; locations that always changed in
    lock-step share one unknown, so equalities between accumulators survive."""
    LIMIT = 4

    def __init__(self, E, fr, n):
        self.E, self.key = E, (fr.id, n['#'])
        self.vals = {}
        self.cls = {}
        self.n = 0
        self.heads = 0
        self.cand = {}

    def apply(self, st):
        E = self.E
        self.heads += 1
        changed = []
        for loc, v in st.mem.items():
            if loc in self.cls:
                changed.append(loc)
                continue
            if v[0] in ('ref', 'guard', 'lam', 'ptr', 'thread', 'nothread', 'str'):
                continue
            l = self.vals.setdefault(loc, [])
            if v not in l:
                l.append(v)
                lim = self.LIMIT if self.heads < 40 else 2
                if v[0] == 'c':
                    lim = self.LIMIT
                elif v[0] == 'op':
                    lim = 2
                if len(l) > lim:
                    changed.append(loc)
        if not changed:
            return st
        # (re)assign classes
        groups = {}
        for loc in changed:
            old = self.cls.get(loc) or ('new', tuple(self.vals.get(loc, ())))
            groups.setdefault((old, st.mem[loc]), []).append(loc)
        byold = {}
        for (old, v), locs in groups.items():
            byold.setdefault(old, []).append((v, locs))
        newcls = {}
        for old, parts in byold.items():
            members = [l for l, c in self.cls.items() if c == old]
            for i, (v, locs) in enumerate(parts):
                if old[0] == 'phi' and len(parts) == 1:
                    name = old
                else:
                    self.n += 1
                    name = ('phi', self.key, self.n)
                for l in locs:
                    newcls[l] = name
        self.cls.update(newcls)
        names = set(newcls[l] for l in changed)
        bounds = self.bounds(st, changed) if E.mon.prove else []
        # the unknowns denote this iteration's values: what still mentions them belongs to the previous iteration
        for nm in names:
            live = E.live(st)
            if nm in live:
                if all(st.mem[l] == nm for l in changed if newcls[l] == nm):
                    continue
                st = E.drop_facts(st, ('old', nm))
                st = E.rename(st, nm, ('old', nm))
                dead = [k for k in st.mem if ('old', nm) in syms(k)]
                if dead:
                    m = dict(st.mem)
                    for k in dead:
                        del m[k]
                    st = st.copy(mem=m)
                changed = [l for l in changed if l in st.mem]
        m = dict(st.mem)
        for l in changed:
            m[l] = newcls[l]
        st = st.copy(mem=m)
        for l, z in bounds:
            st = E.assume(st, ('op', '<', z, newcls[l]), False) or st
        return E.gc(st)

    def bounds(self, st, changed):
        """Candidate invariants 'accumulator <= size of an object', kept only while every state arriving here implies them."""
        E = self.E
        sizes = None
        keep = []
        for l in changed:
            v = st.mem[l]
            if v[0] not in ('c', 's', 'op', 'phi', 'init', 'size'):
                continue
            if l not in self.cand:
                if sizes is None:
                    sizes = set()
                    for f in st.facts:
                        for t in (f[2], f[3]):
                            b = E.lin(t)[0]
                            if b is not None and b[0] == 'size':
                                sizes.add(b)
                self.cand[l] = set(sizes)
            self.cand[l] = {z for z in self.cand[l] if E.prove_le(st, v, z, 0)}
            keep += [(l, z) for z in sorted(self.cand[l], key=str)]
        return keep
