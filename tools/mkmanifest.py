import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, V + '/py')
NOTBUILT = {p: 'check not built yet' for p in ()}
TRACE = 'TLA+ model with TLC: generated behaviours replayed on the library, recorded traces and saved packages validated against the specification'
NOTE = ('Bounded: holds on the behaviours explored (walks of the model over new, fixture and generated foreign workbooks, plus directed scripts). '
        'Trusts TLC, the independent package projection (py/proj.py) and the script driver.')
OWN = {
    'P27': ('TLA+ trace validation: every session run alone and interleaved with others (turns, threads); answers and packages validated against the lone run', 'model_checking',
            'Bounded: the generated groups of two to six sessions and their interleavings; threads run as the scheduler has them.'),
    'P12': ('TLA+ save protocol checked exhaustively by TLC; every system call of real saves crashed and failed, outcomes validated against it', 'fault_enumeration',
            'Enumerates each file-system call of the save of the explored workbooks as a crash point and as an injected fault; power loss (unsynced pages) is outside.'),
    'P15': ('TLA+ trace validation of sessions on hostile packages (mutants of legal ones)', 'model_checking',
            'Bounded: the generated hostile inputs; absence of panics, hangs, aborts, input changes and unreadable output on them.'),
}
checks = []
na = []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    p = d['id']
    if p in NOTBUILT:
        na.append({'property': p, 'reason': NOTBUILT[p]})
        continue
    t, lv, n = OWN.get(p, (TRACE, 'model_checking', NOTE))
    checks.append({'property': p, 'quick_cmd': 'python3 py/check.py %s --tier quick' % p,
                   'thorough_cmd': 'python3 py/check.py %s --tier thorough' % p,
                   'technique': t, 'level': lv, 'level_note': n})
m = {'version': 1, 'setup_cmd': 'python3 py/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the library is driven through its public API. The checks build harness/ against /repo/rs and run TLC on spec/.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
