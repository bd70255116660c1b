#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = 'TLC-generated behaviours of the TLA+ specification replayed on the real code, every reply and the visible state compared'
TECH, NOTE = {}, {}
REPLAY_NOTE = ('Exhaustive over the abstract transitions for small constants, random beyond; the binding is by replaying the generated '
               'behaviours on the real class under ASan/UBSan. Trusts TLC, the harness and the sanitizers; bounded sizes and depths.')
for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07'):
    TECH[p] = 'TLA+ (PagedStack, PagedStackPages), TLC: ' + GEN
    NOTE[p] = REPLAY_NOTE
import sys
sys.path.insert(0, os.path.join(V, 'lib'))
try:
    from manifest_more import TECH as T2, NOTE as N2
    TECH.update(T2); NOTE.update(N2)
except ImportError:
    pass
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if pid in TECH:
        checks.append({'property': pid, 'quick_cmd': 'VERIF_TIER=quick python3 lib/check.py %s' % pid,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 lib/check.py %s' % pid,
                       'evidence_file': 'evidence/%s.json' % pid, 'technique': TECH[pid],
                       'level': 'model_checking', 'level_note': NOTE[pid]})
    else:
        na.append({'property': pid, 'reason': 'Its check is not built yet.'})
json.dump({'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: concurrency is observed by compiling the sources with instrumentation calls served by harness/weave.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
