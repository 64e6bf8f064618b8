#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, plan.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from plan import PLAN
TECH = 'explicit enumeration of executions of the real code against an independent reference model (stateless model checking, input spaces complete within bounds)'
HIST = 'explicit-state exploration of operation histories on the real code against a reference model, complete to a depth'
CONF = 'exhaustive enumeration in every configuration with block-wise transcript comparison (model checking of the product of configurations)'
T = {'C14': HIST, 'C20': HIST, 'C22': HIST, 'C26': HIST, 'C27': HIST,
     'C23': 'enumerated inputs evaluated by the compilers\' constant evaluators and compared with run-time execution and the reference model',
     'C24': 'the enumerated executions of the other properties under address and undefined-behaviour monitors',
     'C28': CONF,
     'C30': 'exhaustive fault injection into the real code: every operation repeated with every one of its allocations failing, compared with the undisturbed execution',
     'C31': 'enumerated inputs evaluated for other targets by the compiler\'s constant evaluator and compared block-wise with the execution on the host (model checking of the product of targets)',
     'C32': 'explicit enumeration of all sub-ranges of sequences at the boundaries of the address space, every standard algorithm executed on the real iterators and on a plain list of the same elements (stateless model checking, complete within bounds)',
     'C29': 'stateless model checking: all interleavings up to a preemption bound of the real code under a controlled scheduler (every non-local memory access is a scheduling point), plus all ordered pairs of operations'}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in PLAN:
        na.append({'property': i, 'reason': 'check under construction'})
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': T.get(i, TECH), 'level': 'model_checking',
                   'level_note': 'Complete within the bounds stated in the evidence file (' + p['quantifier']['text'] + '); outside them nothing is claimed. ' + 'Trusts ' + '; '.join(PLAN[i]['assumptions']) + '.'})
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile check.py tools/plan.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all checks use the public interface of the headers in /repo/include, compiled afresh on every run. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
