"""Development aid: python3 tools/mk.py C08 r_iter_erase DIR   makes the edited copy of one mutation case."""
import sys, os, subprocess, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = importlib.util.spec_from_file_location('m', os.path.join(ROOT, 'tools', 'mutants', sys.argv[1] + '.py'))
m = importlib.util.module_from_spec(sp)
sp.loader.exec_module(m)
subprocess.run(['git', 'clone', '-q', '/repo', sys.argv[3]], check=True)
for c in m.CASES:
    if c[0] == sys.argv[2]:
        for f, a, b in c[-1]:
            p = os.path.join(sys.argv[3], f)
            s = open(p).read()
            open(p, 'w').write(s.replace(a, b, 1))
