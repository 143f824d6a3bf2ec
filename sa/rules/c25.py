"""C25: any line of trace viewer output is parsed without failure or undefined values."""
from ..lib import *
from ..terms import *
from .. import models
from ..models import SECOND, size_of, content
from .c18 import strip_cast

EV = 'scalopus::CTFEvent'
PARSER = 'scalopus::BabeltraceParser'
R_THROW = 'no exception leaves the parser, whatever the line'
R_RANGE = 'characters are only read where they exist'
R_DEF = 'every field of the event has a defined value'
R_NUM = 'only text that was converted to a number is stored, with the value it stands for'
R_KEEP = 'the event keeps the line it was made from'
NARROW = ('std::stoi', 'std::stol', 'std::stoll', 'std::stof', 'std::stod', 'std::stold')
SILENT = ('atoi', 'atol', 'atoll', 'std::atoi', 'std::atol', 'std::atoll', 'std::atof', 'atof')
CHECKED = ('strtoull', 'std::strtoull', 'strtoul', 'std::strtoul')


class Parse(Monitor):
    throws = True
    prove = True
    exit_limit = 24

    def call(self, E, st, fr, node, q, recv, args):
        n = q.rsplit('::', 1)[-1]
        R = self.report_to
        w, chain = where_chain(E, node, fr)
        if 'basic_string' in q or q.startswith('std::string::'):
            if recv is None:
                return None
            s, v = E.val(st, recv, node, fr)
            sz = size_of(v, None)
            vs = []
            for a in args:
                if a is None:
                    continue
                s, x = E.val(s, a, node, fr)
                vs.append(strip_cast(x))
            if n in ('front', 'back', 'pop_back'):
                R.ok(R_RANGE, w)
                if E.decide(s, ('op', '==', sz, C0)) is not False:
                    R.bad(R_RANGE, w, '%s() of a text that may be empty' % n, chain)
            elif n == 'operator[]' and vs:
                R.ok(R_RANGE, w)
                if not self.within(E, s, vs[0], sz):
                    R.bad(R_RANGE, w, 'a character is read at a position that may lie outside the text', chain)
            elif n in ('at', 'erase', 'insert', 'replace', 'substr', 'compare') and vs and self.numeric(vs[0], args[0], n, len(vs)):
                R.ok(R_THROW, w)
                if not self.within(E, s, vs[0], sz, 1 if n == 'at' else 0):
                    if n != 'substr' or self.below_zero(E, s, vs[0]):
                        E.maythrow(st, node, fr, 'std::out_of_range', 'std::logic_error', 'std::exception')
            elif n in ('at', 'erase', 'substr') and not vs:
                R.ok(R_THROW, w)
        if q in ('std::stoull', 'std::stoul', 'std::stod') + NARROW + SILENT + CHECKED:
            R.ok(R_NUM, w)
            self.conv = q
        if q in NARROW and q != 'std::stod' or q in SILENT + CHECKED:
            st, f = E.fresh(st, fr, node, ('number', ('str', q)))
            if q in CHECKED and len(args) > 1:
                s2, end = E.val(st, args[1], node, fr)
                if end[0] in ('ref', 'ptr'):
                    st, o = E.fresh(st, fr, node, ('numberend', ('str', q)))
                    st = E.write(st, end[1], o) if hasattr(E, 'write') else st.write(end[1], o)
            st = st.set('examined', None)
            if q in NARROW:
                E.maythrow(st, node, fr, 'std::invalid_argument', 'std::logic_error', 'std::exception')
                E.maythrow(st, node, fr, 'std::out_of_range', 'std::logic_error', 'std::exception')
            return [(st, f)]
        if q.rsplit('::', 1)[0] in ('std::map', 'std::unordered_map'):
            if n in ('operator[]', 'emplace', 'insert', 'try_emplace', 'insert_or_assign') and recv is not None and recv[0] == '&':
                for a in args[1:]:
                    if a is not None:
                        self.stored(E, st, fr, node, E.val(st, a, node, fr)[1])
                s2 = st.set('entry', C1) if n in ('operator[]', 'try_emplace') and len(args) < 2 else st
                return models.std_call(E, node, node['c'], recv, args, s2, fr)
        return None

    def numeric(self, v, a, n, k):
        if n in ('at', 'substr'):
            return True
        if v[0] in ('it', 'str', 'isend') or v[0] == 'c' and not isinstance(v[1], int):
            return False
        return v[0] in ('c', 's', 'op', 'phi') and not (n == 'compare' and k == 1) and not (v[0] == 'op' and v[1] in ('substr', 'concat', 'text'))

    def below_zero(self, E, st, x):
        b, k = E.lin(x)
        if k >= 1 << 63:
            k -= 1 << 64
        return b is not None and k < 0 and not E.prove_le(st, ('c', -k), b, 0) or x[0] == 'op' and x[1] == '-' and not E.prove_le(st, x[3], x[2], 0)

    def within(self, E, st, x, sz, k=0):
        if x == C0 and k == 0:
            return True
        if self.below_zero(E, st, x):
            return False
        if x == C0 or k:
            return E.prove_le(st, x, sz, -k) or x == C0 and E.decide(st, ('op', '==', sz, C0)) is False
        return x[0] == 'c' and sz[0] == 'c' and x[1] <= sz[1] or E.prove_le(st, x, sz, 0)

    def write(self, E, st, fr, node, loc, v):
        if loc[0] == 'F' and loc[2] == SECOND and loc[1][0] == 'K':
            self.stored(E, st, fr, node, v)
            st = st.set('entry', None)
        return st

    def stored(self, E, st, fr, node, v):
        w, chain = where_chain(E, node, fr)
        R = self.report_to
        v = strip_cast(v)
        R.ok(R_NUM, w)
        if st.get('failed'):
            R.bad(R_NUM, w, 'a value is stored although its text is not a number that fits', chain)
        t = tag(v)
        if t[:1] == ('number',):
            q = t[1][1]
            if q in NARROW:
                R.bad(R_NUM, w, 'numbers that fit an event are refused or changed: %s is used for an unsigned 64 bit value' % q, chain)
            elif q in SILENT:
                R.bad(R_NUM, w, 'text that is not a number is stored as zero (%s)' % q, chain)
            elif not self.examined(st, v):
                R.bad(R_NUM, w, 'text that is not a number is stored as zero (%s without looking at where the number ends)' % q, chain)

    def examined(self, st, v):
        return bool(st.get('examined'))

    def thrown(self, E, st, fr, node, types):
        c = node.get('c') or {}
        if isinstance(c, dict) and str(c.get('q', '')).startswith('std::sto') and fr.parent is not None:
            if st.get('entry'):
                w, chain = where_chain(E, node, fr)
                self.report_to.bad(R_NUM, w, 'an entry is made for a value before its text is known to be a number', chain)
            st = st.set('failed', C1)
        return st

    def assumed(self, E, st, fr, node, atom, truth):
        if mentions(atom, lambda x: x[0] == 's' and tag(x)[:1] == ('numberend',)):
            st = st.set('examined', C1)
        return st

    def head(self, E, st, fr, node):
        return st.set('failed', None).set('entry', None)


def c25(P, R):
    """The constructor that parses a line is followed for an arbitrary text: positions are proved to lie inside the text by
    difference bounds from the searches, exceptions are followed to where they are caught, and every field is looked at on
    every exit."""
    this = ('O', 'this', EV)
    cs = [c for c in ctors(P, EV) if any('basic_string' in p['t'] or 'std::string' in p['t'] for p in c['p'])]
    if not cs:
        raise AnalysisBroken('no constructor of %s takes a line' % EV)
    rec = P.records[EV]
    for c in ctors(P, EV):
        parse = c in cs
        E, outs, thr = run(P, R, Parse(P, R), c, this=this, cls=EV)
        w = '%s:%s' % (rel(c['file']), c['line'])
        R.ok(R_THROW, w)
        for t in thr:
            R.bad(R_THROW, w, 'parsing a line can fail with %s' % ', '.join(t[1][:1]))
        for st, v in outs:
            for f in rec['fields']:
                x = st.read(('F', this, f['f']))
                R.ok(R_DEF, '%s:%s' % (rel(rec['file']), f.get('line') or rec['line']))
                if x[0] == 'undef':
                    R.bad(R_DEF, '%s:%s' % (rel(rec['file']), f.get('line') or rec['line']),
                          'the field %s can be left without a value' % f['f'].rsplit('::', 1)[-1])
        if parse:
            line = [f for f in P.methods(EV) if f['n'] == 'line' and f.get('body') is not None]
            for st, v in outs:
                for f in line:
                    R.ok(R_KEEP, w)

                    class M(Monitor):
                        throws = False
                    E2, o2, t2 = run(P, R, M(P, R), f, this=this, cls=EV, st=st.copy(ts={}, locks=(), cl=()))
                    for s, x in o2:
                        if x is not None and (x[0] in ('str', 'default', 'empty', 'undef') and E.decide(s, ('op', '==', ('size', ('init', ('O', 'arg:' + c['p'][0]['n'], c['p'][0]['t']))), C0)) is not True):
                            R.bad(R_KEEP, w, 'the event can forget the line it was made from')
    for f in P.methods(PARSER):
        if f['kind'] == 'method' and f.get('body') is not None and f['rt'].endswith('CTFEvent'):
            E, outs, thr = run(P, R, Parse(P, R), f)
            w = '%s:%s' % (rel(f['file']), f['line'])
            R.ok(R_THROW, w)
            for t in thr:
                R.bad(R_THROW, w, 'parsing a line can fail with %s' % ', '.join(t[1][:1]))


CHECKS = {'C25': c25}
