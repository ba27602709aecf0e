#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json
TECH = {}
CLAIMED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'S01', 'S02', 'S03', 'S05', 'S06', 'S07', 'S04', 'S08', 'S09', 'S10', 'L01', 'L02', 'L03', 'H01', 'H02', 'H03', 'M01', 'M02', 'M03', 'M04', 'M05']
NOTE = {
 'M04': 'Known-bits abstract interpretation of the index primitives over a case partition of the index states (quick: covering subset of the partition; thorough: larger subset). No solver, nothing executed. Sound for the analysed cases under the assumptions in the evidence.',
 'default': 'Decided on every path (loops cut at their header) of the listed functions in the compiler IR of the current tree, path-sensitive effect/typestate dataflow, no solver, nothing executed. '
            'Sound for the rules listed in the evidence under the assumptions listed there; does not decide runtime quantities beyond them.',
}
TECHNIQUE = {
 'C': 'path-sensitive effect analysis (typestate of index slot and item ownership) over LLVM IR of every cache command',
 'M': 'path-sensitive effect and block-shape analysis with inductive loop facts over LLVM IR of the allocator; known-bits abstract interpretation of the free-block index',
 'H': 'path-sensitive effect analysis with inductive loop facts over LLVM IR of the hash index',
 'S': 'path-sensitive effect analysis over LLVM IR of the protocol and connection handlers; exception-escape analysis',
 'L': 'effect-summary comparison and exception-escape analysis over LLVM IR of the API layer',
}
NA = {
 'X01': 'end-to-end read-back equality over all command histories quantifies over run-time contents and histories; its structural parts are claimed as C01, C02, C05, H01-H03, M01-M03 and S05',
 'X02': 'retention and fragmentation depend on run-time working sets and sizes; no static bound is in reach (structural LRU part claimed as C10)',
 'X03': 'latency is a timing property; probe lengths depend on the run-time key distribution',
 'X04': 'wall-time accuracy depends on the clock and on when commands arrive; the comparison itself is claimed as C03',
}
props = [json.loads(l) for l in open('properties.jsonl')]
ids = [p['id'] for p in props]
m = {'version': 1, 'setup_cmd': 'python3 checks/run.py --setup', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 checks/run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + i,
                            'technique': TECHNIQUE[i[0]], 'level': 'other', 'level_note': NOTE.get(i, NOTE['default'])})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check under construction')})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
