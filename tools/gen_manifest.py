#!/usr/bin/env python3
"""Authoring helper: writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': 'runtime monitor: reduced slices against CPython range slicing, exhaustive small box and random huge operands',
 'C02': 'runtime monitor: addressed positions of index chains against per-axis range selection',
 'C03': 'runtime monitor: solution families checked by substitution and by integer-lattice index',
 'C04': 'runtime monitor: solver answers against a brute-force position table, layouts interleaved',
 'C05': 'runtime monitor: element reads against a dense reference model',
 'C06': 'runtime monitor: recorded enumerations against a dense reference model',
 'C07': 'runtime monitor: slice chains against a dense reference model',
 'C08': 'runtime monitor: structural invariants on every compressed array handed out in operation histories',
 'C09': 'runtime monitor: conversion walks against a dense model and direct construction',
 'C10': 'runtime monitor: write histories against a cell model, full read-back after each write',
 'C11': 'runtime monitor: write visibility through families of aliased views against a cell model',
 'C12': 'runtime monitor: non-interference of copies and conversions over write histories',
 'C13': 'runtime monitor: equality verdicts against a reference comparison of dense models',
 'C14': 'runtime monitor: storage layout against the documented mixed-radix formula, bijection counting',
 'C15': 'runtime monitor: slice chains of dimensions-mapped arrays against a dense model',
 'C16': 'runtime monitor: write visibility and element-access spies on storage behind dimensions-mapped slices',
 'C17': 'runtime monitor: operation histories on towers of dimensions mappings against a dense model',
 'C18': 'runtime monitor: reduction/promotion against the documented formulas, bijection counting',
 'C19': 'runtime monitor: row compression against counting',
 'C20': 'runtime monitor: window chains and writes against a list-and-offset model',
 'C21': 'runtime monitor: placeholder histories against a dense model',
 'C22': 'runtime monitor: snapshots of every live object around random reads',
 'C23': 'runtime monitor: interleaved iterators and threads under forced switching against solo runs',
 'C24': 'runtime monitor: reported versions against a model of generated git histories, archives and plain trees',
 'C25': 'runtime monitor: operation histories on empty arrays against a dense model',
 'C26': 'runtime monitor: sequence protocol and refused indices against a dense model',
 'C27': 'runtime monitor: look-ups and slices of large compressed arrays against a dictionary model',
 'C28': 'runtime monitor: printed forms evaluated and compared with the array, and with a reference printer',
 'C30': 'runtime monitor: errors injected at accesses, comparisons and executed lines; every array compared with a cell model afterwards',
 'C31': 'runtime monitor: values that report being looked into, identity of every element read',
 'C32': 'runtime monitor: leak detection with weak references after full collections, against a model of what live arrays hold',
 'C33': 'runtime monitor: flawed requests next to flawless controls',
 'C34': 'runtime monitor: transcripts of answers from processes in different interpreter modes and orders, compared',
 'C35': 'runtime monitor: copies and pickles of collections of arrays against a cell model, write histories on both sides, another process',
 'C36': 'runtime monitor: values found at reported positions and recorded traversals against a dense model',
 'C37': 'runtime monitor: tracked files and versions compared before and after sequences of builds; built modules with their sources',
 'C29': 'runtime monitor: access-counting sequences behind arrays, counts compared with allowances',
}
NOTE = {
 'C23': 'Schedules are sampled: random step-by-step interleavings, and threads with a 1 microsecond switch interval on CPython with the GIL.',
 'C24': 'Drives the git of the sandbox in scratch directories; histories are sampled. Where two release tags are equally near nothing is claimed.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {
 'version': 1,
 'setup_cmd': 'python3 check.py --selftest',
 'checks': [{
   'property': p,
   'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p,
   'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
   'evidence_file': 'evidence/%s.json' % p,
   'technique': T[p],
   'level': 'exploration',
   'level_note': ('Holds on every execution observed; inputs and histories are seeded random samples plus exhaustive small boxes, so '
                  'absence of a violation is evidence, not proof. ' + NOTE.get(p, '') +
                  ' Trusts CPython and the reference model in vf/model.py, which uses no gcs code.').replace('  ', ' '),
 } for p in props],
 'not_applicable': [],
 'notes': 'No hooks in /repo: monitors wrap objects handed to the library and observe its public results. Python standard library only.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
