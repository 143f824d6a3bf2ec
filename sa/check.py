"""Entry point: python3 -m sa.check <property>."""
import importlib
import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)
from . import facts
from .facts import AnalysisBroken, Program
from .report import Report
from .engine import OutOfTime, LATE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')


def registry():
    reg = {}
    d = os.path.join(ROOT, 'sa', 'rules')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            m = importlib.import_module('sa.rules.' + f[:-3])
            reg.update(m.CHECKS)
    return reg


def known(prop):
    """Recorded, unrepaired defects: property=<id> rule=<rule> where=<where>."""
    res = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                res.append(l[len('known: '):])
    return res


def write_evidence(prop, R, status, wall):
    os.makedirs(os.path.join(EVID), exist_ok=True)
    obl = len(R.obligations)
    bad = len(R.violations)
    samples = ['%s: %s' % k for k in sorted(R.obligations)[:12]]
    ev = {
        'property': prop,
        'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current sources: abstract interpretation to a fixpoint over the type-checked '
                           'syntax trees of all units; every path of every entry point listed is covered by some abstract state.',
            'rule': R.rules_text,
            'entry_points_analysed': R.stats['entries'],
            'functions_analysed': len(R.functions),
            'statements_interpreted': R.stats['statements'],
            'call_sites_interpreted': R.stats['calls'],
            'obligations': obl,
            'discharged': obl - bad,
            'violations': bad,
            'samples': samples,
            'functions': sorted(R.functions)[:60],
            'treated_as_unknown': sorted(R.opaque)[:40],
            'notes': R.notes,
            'status': status,
        },
        'wall_s': round(wall, 3),
    }
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':       # the order of sets must not influence a run
        os.execve(sys.executable, [sys.executable, '-m', 'sa.check'] + sys.argv[1:], dict(os.environ, PYTHONHASHSEED='0'))
    prop = sys.argv[1]
    t = time.time()
    reg = registry()
    R = Report(prop)
    R.rules_text = (reg[prop].__doc__ or '').strip()
    try:
        P = Program()
        try:
            reg[prop](P, R)
        except OutOfTime:
            R.notes.append('time budget used up: not everything was explored')
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, AssertionError) as e:
            if os.environ.get('VERIF_STRICT') or not R.obligations:
                raise
            R.notes.append('stopped early: %s %s at %s' % (type(e).__name__, str(e)[:120], traceback.extract_tb(e.__traceback__)[-1][:3]))
        if LATE[0]:
            R.notes.append('time budget: some loops were cut short before the fixpoint')
    except AnalysisBroken as e:
        if R.violations:
            R.notes.append('stopped early: %s' % e)
            return finish(prop, R, t)
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        write_evidence(prop, R, 'broken: %s' % e, time.time() - t)
        return 2
    if not R.obligations:
        print('ANALYSIS-BROKEN property=%s nothing to check was found' % prop)
        write_evidence(prop, R, 'broken: no obligations', time.time() - t)
        return 2
    return finish(prop, R, t)


def finish(prop, R, t):
    kn = known(prop)
    new = []
    for k, v in sorted(R.violations.items()):
        line = 'rule=%s where=%s' % (v['rule'], v['where'])
        hit = [x for x in kn if line in x]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, line))
        else:
            new.append(v)
    write_evidence(prop, R, 'violated' if new else 'holds', time.time() - t)
    for v in new:
        print('%s: [%s] %s' % (v['where'], v['rule'], v['message']))
        for x in v['trail'][:8]:
            print('    in ' + str(x))
    for x in R.notes:
        print('NOTE: ' + x)
    if new:
        d = os.path.join(EVID, 'violations')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + '.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'violations': new}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('property=%s holds: %d obligations in %d functions, %d entry points, %.1f s'
          % (prop, len(R.obligations), len(R.functions), R.stats['entries'], time.time() - t))
    return 0


if __name__ == '__main__':
    sys.exit(main())
