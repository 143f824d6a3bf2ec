"""Writes MANIFEST.json from properties.jsonl and the registered rules."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from sa.check import registry
TECH = {
    'C01': 'abstract interpretation: path typestate and value flow of the pending-request table',
    'C02': 'abstract interpretation with ghost byte counters and linear bounds; field-sequence agreement of reader and writer',
    'C03': 'lockset dataflow with hold epochs at every socket write',
    'C04': 'abstract interpretation: path typestate after failing reads and writes',
    'C05': 'interprocedural exception-escape analysis and bounds facts by abstract interpretation',
    'C06': 'nullness / emptiness typestate dataflow',
    'C07': 'abstract interpretation: queue discipline and loop-coverage typestate',
    'C08': 'file descriptor ownership typestate',
    'C09': 'thread ownership typestate over sequences of public calls',
    'C10': 'lockset race analysis over thread contexts',
    'C11': 'lockset race analysis over thread contexts; reference-escape query',
    'C12': 'lockset race analysis over thread contexts; callback-disable ordering',
    'C13': 'lock-order graph, lockset at handler calls and joins',
    'C14': 'abstract interpretation: symbolic value comparison of socket addresses; setup-order typestate',
    'C15': 'abstract interpretation: value flow of served tables; writer/reader key agreement',
    'C16': 'abstract interpretation: request/answer agreement by value flow; loop-coverage typestate',
    'C17': 'abstract interpretation: table-update typestate over loop coverage',
    'C18': 'abstract interpretation: value flow from tracepoint to event record, per backend',
    'C19': 'abstract interpretation: value flow from event record to json output, per event kind',
    'C20': 'typed-AST query of macro expansions; scope-exit typestate',
    'C21': 'abstract interpretation: saved-value typestate; macro-expansion query',
    'C22': 'abstract interpretation: effect and value flow from message to switches to answer',
    'C23': 'abstract interpretation: registration typestate and loop coverage of the drain',
    'C24': 'abstract interpretation with linear bounds over ring indices; memory-order query',
    'C25': 'interprocedural exception-escape analysis and bounds facts by abstract interpretation; definite initialisation',
    'C26': 'abstract interpretation: phase typestate and loop coverage over sources and messages',
    'C27': 'process-state typestate (child, parent, failed) by abstract interpretation',
    'C28': 'Python syntax-tree dataflow (ast)',
}
NA = {
    'N01': 'the identifiers are hash values of file, line and name of whatever programs use the library; whether two of them collide is a '
           'numeric fact about those inputs that no rule over this source can bound',
    'N02': 'depends on scheduling, socket buffers and the cost of user handlers; there is no static time bound in the source to argue from',
    'N03': 'numeric round trip through formatting, parsing and floating point; the paths exist, but equality of the values is a run-time '
           'quantity (microseconds as double lose precision by design)',
    'N04': 'depends on the run-time rate of events against the rate of draining; the structural half (a full buffer refuses, nothing '
           'accepted is lost) is claimed as C23 and C24',
}
reg = registry()
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in reg:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 -m sa.check ' + i,
            'thorough_cmd': 'python3 -m sa.check ' + i,
            'technique': TECH.get(i, 'abstract interpretation of the type-checked program: typestate and value flow'),
            'level': 'other',
            'level_note': 'Static: every path of the analysed entry points is covered by an abstract state of the type-checked source '
                          '(all translation units, including those the sandbox build skips, parsed against stub headers). Rule: '
                          + ' '.join((reg[i].__doc__ or '').split())
                          + ' Trusts: clang\'s parse, the models of std/POSIX/json calls in sa/models.py, the stubs for absent libraries.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no rule has been built for it yet')})
json.dump({
    'version': 1,
    'setup_cmd': 'python3 -c "from sa.facts import Program; Program()"',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Quick and thorough run the same fixpoint; there is no bound to deepen. No hooks in /repo.',
}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
