"""Debugging aid: print the abstract events of one function.  python3 tools/trace.py <qualified name> [substring filter]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.lib import *
from sa.facts import Program
from sa.report import Report


class T(Monitor):
    throws = False

    def after(self, E, st, fr, node, q, recv, args, res):
        if len(sys.argv) < 3 or sys.argv[2] in q:
            print('%s:%s %s recv=%s args=%s -> %s  locks=%s' % (fr.fn['n'], node.get('l'), q, recv, args, res, len(st.locks)))
        return st


P = Program()
for f in P.fns(sys.argv[1]):
    E, outs, thr = run(P, Report('x'), T(P, Report('x')), f)
    print(len(outs), 'outs')
    for o in outs:
        print('  ', o)
