"""Development aid: runs checks on edited copies of the repository.

python3 tools/mut.py C02 [substring]   runs every case of tools/mutants/C02.py (or those whose name contains the substring)
A case is (name, expectation, [(file, old, new), ...]) or (name, expectation, checks, [...]): expectation is 'bad' or 'ok'."""
import sys, os, subprocess, shutil, importlib.util
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(prop, i, case):
    name, expect, edits = case[0], case[1], case[-1]
    checks = sys.argv[3].split(',') if len(sys.argv) > 3 else case[2] if len(case) == 4 else [prop]
    d = '/tmp/mut_%s_%d_%d' % (prop, os.getpid(), i)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    try:
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) < 1:
                return name, expect, 'EDIT DOES NOT APPLY: ' + f + ' ' + a[:60], ''
            open(p, 'w').write(s.replace(a, b, 1))
        res, txt = [], ''
        for c in checks:
            r = subprocess.run([sys.executable, '-m', 'sa.check', c], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/mut_ev', VERIF_UNITCACHE='/tmp/unitcache', VERIF_BUILD='/tmp/mutbuild', VERIF_STRICT='1'),
                               capture_output=True, text=True, timeout=400)
            res.append({0: 'ok', 1: 'bad'}.get(r.returncode, 'BROKEN'))
            txt += ''.join(l[:260] + '\n' for l in (r.stdout + r.stderr[-1500:]).splitlines() if not l.startswith(('    in', 'NOTE')))
        got = 'BROKEN' if 'BROKEN' in res else 'bad' if 'bad' in res else 'ok'
        return name, expect, got, txt
    except subprocess.TimeoutExpired:
        return name, expect, 'TIMEOUT', ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    prop = sys.argv[1]
    sub = sys.argv[2] if len(sys.argv) > 2 else ''
    sp = importlib.util.spec_from_file_location('m', os.path.join(ROOT, 'tools', 'mutants', prop + '.py'))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    cases = [c for c in m.CASES if sub in c[0]]
    with ThreadPoolExecutor(8) as ex:
        for name, expect, got, txt in ex.map(lambda t: one(prop, t[0], t[1]), list(enumerate(cases))):
            print('%-8s %-45s expected %-4s got %s' % ('' if expect == got else '*****', name, expect, got))
            if expect != got or sub:
                print('\n'.join('        ' + l for l in txt.splitlines()[:12]))


main()
