"""C27: the helper process: what the child runs, failures are reported, signals reach only the helper."""
from ..lib import *
from ..terms import *

FORK = {'fork', 'vfork', '_Fork'}
EXEC = {'execv', 'execve', 'execvp', 'execvpe', 'execl', 'execle', 'execlp', 'fexecve', 'execveat'}
LEAVE = {'_exit', '_Exit', 'std::_Exit', 'abort', 'std::abort'}
HOST = {'exit', 'std::exit', 'quick_exit', 'std::quick_exit', 'std::terminate'}
PIPE = {'pipe', 'pipe2', 'socketpair'}
DUP = {'dup2', 'dup3'}
WAIT = {'waitpid', 'wait4'}
SIGNAL = {'kill', 'killpg', 'tgkill', 'sigqueue', 'pthread_kill', 'raise', 'std::raise'}
NEG1 = ('c', -1)
R_CHILD = 'the child becomes the requested program or exits at once'
R_STDIO = 'the program is started with the streams it was given'
R_HOST = 'the child runs none of the host program\'s code'
R_PARENT = 'only the child is replaced or ended'
R_FAIL = 'a process that cannot be created is reported as an error'
R_KILL = 'signals are sent to the helper process only'


def above(E, st, v):
    for t, truth in (('<', True), ('==', False)):
        st = E.assume(st, ('op', t, C0, v) if t == '<' else ('op', t, v, C0), truth) if st is not None else None
    return E.assume(st, ('op', '==', v, NEG1), False) if st is not None else None


def positive(E, st, v):
    return E.decide(st, ('op', '<', C0, v)) is True or E.decide(st, ('op', '<=', v, C0)) is False \
        or E.decide(st, ('op', '<=', C1, v)) is True


FIELDS = set()      # members of the classes that create processes


class Proc(Monitor):
    exit_limit = 8
    head_limit = 4

    def __init__(self, P, R, sure=(), only=None):
        super().__init__(P, R)
        self.sure = sure           # fields that hold the number of a created process in every complete object
        self.nfork = self.nkill = 0
        self.calls = only
        self.fields = FIELDS

    # ---- what may matter: process calls; the rest of the library is not entered
    def call(self, E, st, fr, node, q, recv, args):
        c = node.get('c') or {}
        w, chain = where_chain(E, node, fr)
        bad, ok = self.report_to.bad, self.report_to.ok
        child = st.get('proc') == 'child'
        if q in FORK:
            self.nfork += 1
            ok(R_CHILD, w)
            ok(R_FAIL, w)
            if child:
                bad(R_HOST, w, 'the child creates another process', chain)
            if st.get('nopipe') is not None:
                bad(R_FAIL, w, 'the process is created although its pipes could not be (failure at %s)' % st.get('nopipe'), chain)
            st, v = E.fresh(st, fr, node, ('ret', q))
            up = above(E, st, v)
            res = [(st.set('proc', 'child').set('at', w), C0), (st.set('proc', 'failed').set('at', w), NEG1)]
            if up is not None:
                res.append((up.set('proc', 'parent').set('at', w).set('pids', ((st.get('pids') or ()) + (v,))[-3:]), v))
            return res
        if q in EXEC:
            ok(R_PARENT, w)
            ok(R_STDIO, w)
            if not child:
                bad(R_PARENT, w, 'the program is started in the host process itself', chain)
            elif st.get('nodup') is not None:
                bad(R_STDIO, w, 'the program is started although dup2 failed (at %s)' % st.get('nodup')[0][1], chain)
            return [(st.set('tried', C1), NEG1)]
        if q in LEAVE or q in HOST:
            if child:
                ok(R_HOST, w)
                if q in HOST:
                    bad(R_HOST, w, 'the child ends with %s, which runs the exit handlers and destructors of the host program' % q, chain)
            elif st.get('proc') is not None:
                bad(R_PARENT, w, 'the host process is ended (%s)' % q, chain)
            return None
        if q in PIPE:
            return [(st, C0), (st.set('nopipe', w), NEG1)]
        if q in DUP and len(args) > 1 and child:
            st, t = E.val(st, args[1], node, fr)
            left = tuple(x for x in st.get('nodup') or () if x[0] != t) or None
            return [(st.set('nodup', left), t), (st.set('nodup', (left or ()) + ((t, w),)), NEG1)]
        if q in WAIT and args:
            st, v = E.val(st, args[0], node, fr)
            st, r = E.fresh(st, fr, node, ('ret', q))
            up = above(E, st, r)
            res = [(st, NEG1), (st, C0)]
            if up is not None:
                res.append((up.set('reaped', ((st.get('reaped') or ()) + ((v, w),))[-3:]), r))
            return res
        if q == 'wait' and not c.get('repo'):
            return [(st.set('reaped', (('any', w),)), NEG1)]
        if q in ('signal', 'std::signal') and args:
            st, v = E.val(st, args[0], node, fr)
            if v == ('c', 17):
                ok(R_KILL, w)
                bad(R_KILL, w, 'the disposition of SIGCHLD is changed: the number of an ended helper may be given to another process '
                    'before it is signalled', chain)
        if q in SIGNAL:
            return self.signal(E, st, fr, node, q, args, w, chain)
        if child:
            if q.startswith('std::function::operator()') or q == 'std::thread::thread' or q.startswith('std::async') \
                    or c.get('virt') and (c.get('repo') or c.get('repodecl')):
                ok(R_HOST, w)
                bad(R_HOST, w, 'the child calls %s' % q, chain)
        elif q.startswith('std::function::operator()') and (st.get('proc') == 'failed' or st.get('nopipe') is not None):
            return self.skipped(E, st.set('told', C1), fr, node, q, recv, args)
        return skip(E, self, node, st, fr, self.fields, (), self.calls)

    def skipped(self, E, st, fr, node, q, recv, args):
        from .. import models
        return models.std_call(E, node, node['c'], recv, args, st, fr)

    def acquire(self, E, st, fr, node, loc, mode):
        if st.get('proc') == 'child':
            w, chain = where_chain(E, node, fr)
            self.report_to.ok(R_HOST, w)
            self.report_to.bad(R_HOST, w, 'the child takes a lock another thread of the host may hold for ever', chain)
        return st

    def signal(self, E, st, fr, node, q, args, w, chain):
        ok, bad = self.report_to.ok, self.report_to.bad
        vs = []
        for a in args:
            st, v = E.val(st, a, node, fr)
            vs.append(v)
        self.nkill += 1
        ok(R_KILL, w)
        if q not in ('kill', 'sigqueue'):
            bad(R_KILL, w, '%s does not signal one process' % q, chain)
            return None
        if len(vs) > 1 and vs[1] == C0:
            return None         # only asks whether the process exists
        v = vs[0]
        if st.get('proc') == 'child':
            bad(R_HOST, w, 'the child sends signals', chain)
        for r, w2 in st.get('reaped') or ():
            if r == v or r == 'any':
                bad(R_KILL, w, 'the process was waited for before (%s): its number may belong to another process by now' % w2, chain)
                return None
        if v in (st.get('pids') or ()):
            return None
        f = fieldstep(v[1]) if v[0] == 'init' else None
        if f is None or self.sure is not None and f[2] not in self.sure[0]:
            bad(R_KILL, w, 'the number signalled is not that of a process this library created', chain)
        elif self.sure is not None and f[2] not in self.sure[1] and not positive(E, st, v):
            bad(R_KILL, w, 'the number signalled may be that of no process (negative or zero: every process of the group or user)', chain)
        return None


def uses(P, f, names):
    return any(n.get('k') == 'call' and isinstance(n.get('c'), dict) and n['c'].get('q') in names for n in walk(f))


def c27(P, R):
    """Every function that creates a process is followed with fork, pipe, dup2 and exec succeeding and failing at will.  On
    the child's paths nothing but exec (which only comes back after failing) or _exit ends the path: it never returns,
    throws out, calls exit, handlers, virtual functions or takes locks, and the program is not started after a failed
    dup2.  A failed fork or pipe leaves by an exception (or a logged / false result).  A signalled number comes from a
    successful fork of an object whose constructors only finish with one, and not after that process was waited for, also
    over two successive calls of the owner."""
    all_calls = FORK | EXEC | LEAVE | HOST | PIPE | DUP | WAIT | SIGNAL | {'wait', 'signal', 'std::signal'}
    lib = [f for l in P.defs.values() for f in l if f.get('body') is not None and library(f)]
    makers = sorted({enclosing_class(P, f) or '' for f in lib if uses(P, f, FORK)})
    free = [f for f in lib if uses(P, f, FORK) and not enclosing_class(P, f)]
    spawn = any(uses(P, f, {'posix_spawn', 'posix_spawnp'}) for f in lib)
    if not makers and not spawn:
        raise AnalysisBroken('no function creates a process')
    makers = [m for m in makers if m]
    FIELDS.clear()
    FIELDS.update(x['f'] for m in makers for x in (P.records.get(m) or {}).get('fields') or [])
    # -- classes that create processes
    entries = [(f, None) for f in free]
    for c in makers:
        entries += [(f, c) for f in ctors(P, c)] + [(f, c) for f in public_methods(P, c) if f.get('body') is not None]
    # -- functions that make objects of these classes
    for f in lib:
        c = enclosing_class(P, f)
        if c in makers or f['kind'] == 'lambda':
            continue
        if any(any(m in str(n.get('t') or '') for m in makers) for n in walk(f) if n.get('k') in ('call', 'new', 'ctor')) \
                or any(uses(P, g, FORK | SIGNAL) for g in callees(P, f)):
            entries.append((f, c))
    pidf, sure = set(), None
    for phase in (0, 1):
        doubt = set()
        for f, c in entries:
            if phase == 0 and c not in makers:
                continue
            M = Proc(P, R if phase else Null(R), sure, all_calls)
            this = ('O', 'this', c) if c else None
            E, outs, thr = run(P, M.report_to, M, f, this=this, cls=c)
            ends(P, M.report_to, E, f, outs, thr)
            for st, v in outs if phase == 0 and this else ():
                for loc, x in st.mem.items():
                    fl = fieldstep(loc)
                    if fl is None or root(loc) != this:
                        continue
                    if x in (st.get('pids') or ()):
                        pidf.add(fl[2])
            if phase == 0 and this:
                f['_c27'] = [(s, v) for s, v in outs]
        if phase == 0:
            for f, c in entries:
                for st, v in f.pop('_c27', ()):
                    for fl in pidf:
                        loc = ('F', ('O', 'this', c), fl)
                        x = st.read(loc)
                        if x in (st.get('pids') or ()):
                            continue
                        if f['kind'] != 'ctor' and x == ('init', loc):
                            continue
                        if fl.rsplit('::', 1)[0] == c:
                            doubt.add(fl)
            sure = (pidf, pidf - doubt)
    for fl in sorted(pidf):
        R.ok(R_KILL, fl, 'always a created process' if fl in sure[1] else 'perhaps no process')
    twice(P, R, sure, all_calls, entries)
    R.notes.append('process numbers kept in %s' % ', '.join(sorted(pidf)))


class Null:
    """A report nobody reads."""
    def __init__(self, R):
        self.notes, self.R = [], R

    def ok(self, *a):
        pass

    def bad(self, *a):
        pass

    def absorb(self, E):
        self.R.absorb(E)


def false(E, st, v):
    return v is not None and v[0] in ('c', 'op', 's', 'null') and E.decide(st, v) is False


def ends(P, R, E, f, outs, thr):
    w = '%s:%s' % (rel(f['file']), f['line'])
    for st, v in outs:
        p = st.get('proc')
        if p == 'child':
            R.bad(R_CHILD, st.get('at'), 'the child returns from %s and goes on as a second host program' % f['q'])
        elif (p == 'failed' or st.get('nopipe') is not None and p is None) and st.get('told') is None and not false(E, st, v):
            at = st.get('at') or st.get('nopipe')
            R.bad(R_FAIL, at, '%s ends as if the process had been created although that failed' % f['q'])
    for x in thr:
        if x[0].get('proc') == 'child':
            R.bad(R_CHILD, x[0].get('at'), 'an exception leaves %s in the child, which goes on as a second host program' % f['q'])


def twice(P, R, sure, calls, entries):
    """Two successive public calls on an owner that signals or waits."""
    act = SIGNAL | WAIT
    for c in sorted({c for f, c in entries if c}):
        ms = [f for f in public_methods(P, c) if f.get('body') is not None and any(uses(P, g, act) for g in callees(P, f))]
        ds = [f for f in P.methods(c) if f['kind'] == 'dtor' and f.get('body') is not None
              and any(uses(P, g, act) for g in callees(P, f))]
        this = ('O', 'this', c)
        for a in ms:
            M = Proc(P, R, sure, calls)
            E, outs, thr = run(P, R, M, a, this=this, cls=c)
            for st, v in outs:
                if not st.get('reaped'):
                    continue
                s = clean(st, this).set('reaped', st.get('reaped'))
                for b in ms + ds:
                    run(P, R, Proc(P, R, sure, calls), b, this=this, cls=c, st=s.copy())


CHECKS = {'C27': c27}
