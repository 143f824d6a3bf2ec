"""Abstract values (terms) and abstract locations.

Both are plain tuples.  Values:
  ('c', n)            integer/bool/null constant (null and false are 0)      ('str', s)  string constant
  ('ptr', loc)        pointer to a known location (smart pointers are transparent)
  ('init', loc)       whatever the location held when the analysed entry point was called
  ('s', ...)          unknown produced at one site; ('old', s) the same site one iteration earlier; ('older', s) earlier
  ('phi', ...)        loop-carried accumulator
  ('rec', base, ((path, value), ...))  aggregate with overridden parts       ('p', v, step) part of an unknown aggregate
  ('op', name, ...)   pure operation
Locations: ('L', frame, id) ('T', frame, node) ('G', q) ('S', fn, id, storage) ('O', name, cls) ('D', value)
  and parts ('F', loc, field) ('K', loc, key) ('E', loc, tag) ('I', loc, index)."""
from functools import lru_cache

C0 = ('c', 0)
C1 = ('c', 1)
PARTS = ('F', 'K', 'E', 'I')
SYMS = ('s', 'old', 'older', 'phi')


@lru_cache(maxsize=None)
def syms(t):
    if not isinstance(t, tuple) or not t:
        return frozenset()
    if t[0] in ('old', 'older'):
        return frozenset({t} | {x for x in syms(t[1]) if x != t[1]})
    if t[0] in SYMS:
        r = {t}
        for x in t[1:]:
            if isinstance(x, tuple):
                r |= syms(x)
        return frozenset(r)
    r = set()
    for x in t:
        if isinstance(x, tuple):
            r |= syms(x)
    return frozenset(r)


@lru_cache(maxsize=None)
def size(t):
    if not isinstance(t, tuple):
        return 1
    return 1 + sum(size(x) for x in t)


def subst(t, a, b, memo):
    if not isinstance(t, tuple):
        return t
    if t == a:
        return b
    if a not in syms(t):
        return t
    r = memo.get(t)
    if r is None and t[0] in ('old', 'older'):
        r = (t[0], tuple(subst(x, a, b, memo) for x in t[1]))
        memo[t] = r
    if r is None:
        r = tuple(subst(x, a, b, memo) for x in t)
        memo[t] = r
    return r


@lru_cache(maxsize=None)
def root(loc):
    while loc[0] in PARTS:
        loc = loc[1]
    return loc


@lru_cache(maxsize=None)
def parents(loc):
    """Proper ancestors, innermost first."""
    r = []
    while loc[0] in PARTS:
        loc = loc[1]
        r.append(loc)
    return tuple(r)


@lru_cache(maxsize=None)
def steps(loc, anc):
    """Path from anc down to loc."""
    r = []
    while loc != anc:
        r.append((loc[0], loc[2]))
        loc = loc[1]
    return tuple(reversed(r))


def sub(loc, path):
    for k, x in path:
        loc = (k, loc, x)
    return loc


@lru_cache(maxsize=None)
def proj(v, step):
    if v[0] == 'rec':
        rest = []
        for path, val in v[2]:
            if path[0] == step:
                if len(path) == 1:
                    base = val
                    rest = [(p, x) for p, x in rest]
                    # deeper overrides follow as separate items
                    deeper = tuple((p[1:], x) for p, x in v[2] if p[0] == step and len(p) > 1)
                    return ('rec', base, deeper) if deeper else base
                rest.append((path[1:], val))
        b = proj(v[1], step)
        return ('rec', b, tuple(rest)) if rest else b
    if v[0] == 'init':
        return ('init', (step[0], v[1], step[1]))
    if v[0] == 'ptr' and step[0] == 'F':
        return ('p', v, step)
    if v == ('empty',) or v == ('undef',):
        return ('undef',) if v == ('undef',) else ('p', v, step)
    if v[0] == 'list' and step[0] == 'I' and step[1][0] == 'c':
        i = step[1][1]
        if 0 <= i < len(v) - 1:
            return v[1 + i]
    return ('p', v, step)


def field_name(f):
    return f.rsplit('::', 1)[-1]


def show(t, depth=0):
    """Readable rendering for reports."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 6:
        return '..'
    d = depth + 1
    k = t[0]
    if k == 'c':
        return str(t[1])
    if k == 'str':
        return '"%s"' % t[1]
    if k == 'ptr':
        return '&' + show(t[1], d)
    if k == 'init':
        return show(t[1], d)
    if k == 'L':
        return str(t[2]).split('@')[0]
    if k == 'S':
        return str(t[2]).split('@')[0]
    if k == 'G':
        return t[1]
    if k == 'O':
        return t[1] if isinstance(t[1], str) else 'new ' + str(t[2]).rsplit('::', 1)[-1]
    if k == 'D':
        return '*' + show(t[1], d)
    if k == 'F':
        return show(t[1], d) + '.' + field_name(t[2])
    if k == 'K':
        return show(t[1], d) + '[' + show(t[2], d) + ']'
    if k == 'E':
        return 'element of ' + show(t[1], d)
    if k == 'I':
        return show(t[1], d) + '[' + show(t[2], d) + ']'
    if k == 'p':
        return show(t[1], d) + '.' + (field_name(t[2][1]) if isinstance(t[2][1], str) else show(t[2][1], d))
    if k == 's':
        tag = t[3]
        if isinstance(tag, tuple):
            return '%s(%s)' % (tag[0], ', '.join(show(x, d) for x in tag[1:]))
        return str(tag)
    if k in ('old', 'older'):
        return 'earlier ' + show(t[1], d)
    if k == 'phi':
        return 'accumulated value'
    if k == 'rec':
        return '{' + ', '.join('%s=%s' % ('.'.join(field_name(s[1]) if isinstance(s[1], str) else show(s[1], d)
                                                   for s in p), show(v, d)) for p, v in t[2]) + '}'
    if k == 'op':
        if len(t) == 4:
            return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
        return '%s(%s)' % (t[1], ', '.join(show(x, d) for x in t[2:]))
    if k == 'T':
        return 'temporary'
    return '%s(%s)' % (k, ', '.join(show(x, d) for x in t[1:]))


def mentions(t, pred):
    """Does any subterm satisfy pred?"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and pred(x):
                return True
            stack.extend(x)
    return False


def uncast(t):
    while t[0] == 'cast' and len(t) == 3:
        t = t[2]
    return t
