#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
NA = {
 'N01': 'whether generated text is accepted by rustc depends on the types of user code embedded in it; no static argument over the generator decides that for every specification, and compiling samples would be a test',
 'N02': 'termination depends on what semantic actions inject, what predicates decide and on the table contents at run time: no ranking argument over the source bounds these',
 'N03': 'the meaning of escapes is given by the Rust compiler to the emitted raw string; the generator intentionally copies the text, so there is no construct in the source at which the property is decided',
 'N04': 'a cost property over run-time quantities (text sizes, regular expressions, grammar shapes); out of reach for a sound static bound here',
}
TECH = {
 'T01': 'static analysis: abstract evaluation of the shipped decision functions over their finite domains from their MIR summaries, compared with an LALR(1) automaton built independently from the checked-in grammar files; MIR summaries compared with a reference for the rest',
 'G14': 'static analysis: call-graph, type and dataflow query for sources of non-determinism reachable from generation; MIR summaries compared with a reviewed reference',
 'C01': 'static analysis: per-path file-effect rule over the summaries of both main functions (nothing untested is overwritten or removed); MIR summaries compared with a reviewed reference',
 'C02': 'static analysis: per-path rule over the summaries of both main functions (failure implies non-zero status, no file effect before acceptance); MIR summaries compared with a reviewed reference',
 'C03': 'static analysis: per-path error-propagation rule (every I/O call explored failing, buffers flushed); MIR summaries compared with a reviewed reference',
}
DEFAULT = 'static analysis: path-sensitive dataflow summaries of the MIR of every function carrying the property, compared with a reviewed reference specification'
NOTE = ('Covers all paths of the listed functions for all inputs, up to uninterpreted library calls; differences that '
        'cannot be decided are counted as unknown in the evidence and raise no alarm. Trusts rustc\'s MIR, the models of '
        'std/ordered_collections/regex calls, and the reference, which was reviewed (and repaired: see known_findings.txt) '
        'against the property text.')
checks = []
for p in props:
    if p['id'] in NA:
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                   'thorough_cmd': './check %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': TECH.get(p['id'], DEFAULT), 'level': 'other', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'python3 engine/build.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks: the checks read the unmodified source through a rustc driver (driver/mirdump.rs).'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
