"""Front end: builds the libTooling extractor, runs it over every translation unit of /repo and loads the resolved
program (functions, records, globals, enums) for the analyses.  Nothing of /repo is executed."""
import os, sys, json, subprocess, hashlib, glob, concurrent.futures, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))


class AnalysisBroken(Exception):
    """The analysis lost its footing (anchor vanished, unit does not parse): neither a pass nor a violation."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def extractor():
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    data = open(src, 'rb').read()
    out = os.path.join(BUILD, 'extract-' + _sha(data)[:16])
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = ['/usr/bin/g++', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-D_GNU_SOURCE', src,
           '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1',
           '-Wl,-rpath,/usr/lib/llvm-18/lib']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise AnalysisBroken('extractor does not build: ' + r.stdout.decode()[-2000:])
    os.replace(tmp, out)
    return out


def units():
    res = []
    for mod in ('interface', 'transport', 'general', 'tracing', 'catapult'):
        base = os.path.join(REPO, 'scalopus_' + mod, 'src')
        for root, _, files in os.walk(base):
            for f in files:
                if f.endswith('.cpp'):
                    res.append(os.path.join(root, f))
    res.sort()
    res.append(os.path.join(VERIF, 'tu', 'instantiate.cpp'))
    return res


def include_dirs():
    res = []
    for mod in sorted(glob.glob(os.path.join(REPO, 'scalopus_*'))):
        for root, dirs, _ in os.walk(mod):
            dirs.sort()
            if os.path.basename(root) in ('include', 'include_consumer', 'src'):
                res.append(root)
    return res


def _tree_hash(headers=False):
    """Content hash of everything a translation unit can include from the repository and the stubs."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in sorted(os.listdir(REPO)) if d.startswith('scalopus_')]
    roots += [os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'tu')]
    for r in roots:
        for root, dirs, files in os.walk(r):
            dirs.sort()
            for f in sorted(files):
                if headers and f.endswith('.cpp'):
                    continue
                if f.endswith(('.cpp', '.h', '.hpp', '.hh', '.c', '.inc', '.tpp', '.ipp')):
                    p = os.path.join(root, f)
                    h.update((os.path.relpath(p, REPO) if headers else p).encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()


def _run_unit(exe, unit, incs):
    args = [exe, REPO + '/:' + os.path.join(VERIF, 'tu') + '/', unit, '--', '-std=gnu++17', '-w',
            '-I' + os.path.join(VERIF, 'stubs')] + ['-I' + d for d in incs]
    dev = os.environ.get('VERIF_UNITCACHE')        # development only: results shared between edited copies
    if dev:
        h = _sha(exe, os.path.relpath(unit, REPO), open(unit, 'rb').read(), _tree_hash(True))
        path = os.path.join(dev, h[:32])
        if os.path.exists(path):
            return unit, 0, open(path, 'rb').read().replace(b'@REPO@', REPO.encode()), b''
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if dev and r.returncode == 0:
        os.makedirs(dev, exist_ok=True)
        tmp = path + '.%d.tmp' % os.getpid()
        with open(tmp, 'wb') as f:
            f.write(r.stdout.replace(REPO.encode() + b'/', b'@REPO@/'))
        os.replace(tmp, path)
    return unit, r.returncode, r.stdout, r.stderr


def load_raw():
    exe = extractor()
    key = _sha(os.path.basename(exe), _tree_hash(), REPO)[:24]
    cache = os.path.join(BUILD, 'facts-' + key + '.json')
    if os.path.exists(cache):
        try:
            return json.load(open(cache))
        except ValueError:
            pass
    incs = include_dirs()
    out = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for unit, rc, so, se in ex.map(lambda u: _run_unit(exe, u, incs), units()):
            if rc != 0:
                raise AnalysisBroken('cannot parse %s: %s' % (unit, se.decode()[-1500:]))
            out.append(json.loads(so))
    for old in glob.glob(os.path.join(BUILD, 'facts-*.json')):
        try:
            os.remove(old)
        except OSError:
            pass
    tmp = cache + '.%d.tmp' % os.getpid()
    json.dump(out, open(tmp, 'w'))
    os.replace(tmp, cache)
    return out


class Program:
    def __init__(self, raw=None):
        raw = raw or load_raw()
        self.units = [d['tu'] for d in raw]
        self.defs = {}        # usr -> list of definitions (several when units define the same symbol)
        self.by_q = {}
        self.records = {}
        self.records_t = {}
        self.globals = {}
        self.enums = {}
        self.nid = 0
        self._methods = None
        seen = set()
        for d in raw:
            for fn in d['functions']:
                key = (fn['usr'], fn['file'])
                if key in seen:
                    continue
                seen.add(key)
                self._number(fn, fn['file'])
                self.defs.setdefault(fn['usr'], []).append(fn)
                self.by_q.setdefault(fn['q'], []).append(fn)
            for r in d['records']:
                self.records.setdefault(r['q'], r)
                self.records_t.setdefault(r['t'], r)
                for f in r['fields']:
                    if f.get('inite'):
                        self._number(f['inite'], r['file'])
            for g in d['globals']:
                old = self.globals.get(g['q'])
                if old is None or (old.get('init') is None and g.get('init') is not None):
                    if isinstance(g.get('init'), dict):
                        self._number(g['init'], g['file'])
                    self.globals[g['q']] = g
            for e in d['enums']:
                self.enums.setdefault(e['q'], e)
        self.fields = {}
        for r in self.records.values():
            for f in r['fields']:
                self.fields.setdefault(f['f'], f)
                f['cls'] = r['q']
        self.overriders = {}
        for l in self.defs.values():
            for fn in l:
                for o in fn.get('over') or []:
                    self.overriders.setdefault(o, []).append(fn)
        self.subclasses = {}
        for r in self.records.values():
            for b in r.get('allbases') or []:
                self.subclasses.setdefault(b, []).append(r['q'])

    def _number(self, n, file):
        stack = [(n, file)]
        while stack:
            x, f = stack.pop()
            if isinstance(x, dict):
                f = x.get('file', f)
                if 'k' in x or 'body' in x:
                    self.nid += 1
                    x['#'] = self.nid
                    x['@'] = f
                for k, v in x.items():
                    if isinstance(v, (dict, list)) and k != 'c' or (k == 'c' and x.get('k') not in ('call', 'ctor')):
                        if isinstance(v, (dict, list)):
                            stack.append((v, f))
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        stack.append((v, f))

    # -- lookups ----------------------------------------------------------------------------------------------------
    def fn(self, q, must=True, file=None, nparams=None):
        l = [f for f in self.by_q.get(q, []) if f.get('body') is not None]
        if file:
            l = [f for f in l if f['file'].endswith(file)]
        if nparams is not None:
            l = [f for f in l if len(f['p']) == nparams]
        if not l:
            if must:
                raise AnalysisBroken('anchor vanished: function %s' % q)
            return None
        return l[0]

    def fns(self, q):
        return [f for f in self.by_q.get(q, []) if f.get('body') is not None]

    def record(self, q, must=True):
        r = self.records.get(q)
        if r is None and must:
            raise AnalysisBroken('anchor vanished: class %s' % q)
        return r

    def lambda_specs(self):
        """Generic lambda -> the instantiations of its call operator."""
        if not hasattr(self, '_specs'):
            self._specs = {}
            for l in self.defs.values():
                for f in l:
                    for n in walk(f):
                        if n.get('k') == 'lambda' and n.get('generic'):
                            self._specs[n['fn']] = n.get('specs') or []
        return self._specs

    def methods(self, cls):
        if self._methods is None:
            self._methods = {}
            for l in self.defs.values():
                for f in l:
                    if f.get('cls') and f.get('body') is not None:
                        self._methods.setdefault(f['cls'], []).append(f)
        return self._methods.get(cls, [])

    def all_fields(self, cls):
        """Fields of a class and of its repository bases."""
        res = []
        r = self.records.get(cls)
        if r:
            res += r['fields']
            for b in r.get('bases') or []:
                res += self.all_fields(b if isinstance(b, str) else b.get('q', ''))
        return res

    def is_a(self, cls, base):
        if cls == base:
            return True
        r = self.records.get(cls)
        return bool(r) and base in (r.get('allbases') or [])

    def definition(self, usr, from_file=None):
        l = self.defs.get(usr)
        if not l:
            return None
        l = [f for f in l if f.get('body') is not None]
        if len(l) == 1:
            return l[0]
        same = [f for f in l if f['file'] == from_file]
        if len(same) == 1:
            return same[0]
        return None

    def resolve_virtual(self, usr, cls):
        """The definition that runs when the virtual method usr is called on an object of dynamic class cls."""
        base = self.definition(usr)
        c = cls
        seen = 0
        while c and seen < 10:
            seen += 1
            for f in self.methods(c):
                if f['usr'] == usr or self._overrides(f, usr):
                    return f
            r = self.records.get(c)
            bs = [b if isinstance(b, str) else b.get('q') for b in (r.get('bases') or [])] if r else []
            bs = [b for b in bs if b in self.records]
            c = bs[0] if bs else None
        return base

    def _overrides(self, f, usr, depth=0):
        if depth > 6:
            return False
        for o in f.get('over') or []:
            if o == usr:
                return True
            d = self.definition(o)
            if d is not None and self._overrides(d, usr, depth + 1):
                return True
        return False

    def lambdas_in(self, node):
        res = []
        stack = [node]
        while stack:
            x = stack.pop()
            if isinstance(x, dict):
                if x.get('k') == 'lambda':
                    res.append(x)
                stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
            elif isinstance(x, list):
                stack.extend(x)
        return res


def walk(node):
    stack = [node]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            stack.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            stack.extend(reversed(x))


def rel(path):
    if path and path.startswith(REPO + '/'):
        return path[len(REPO) + 1:]
    return path
