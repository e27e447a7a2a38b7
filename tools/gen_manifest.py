#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
# property -> (technique, what the level means here)
CHECKS = {
 'P01': ('stateful property-based testing: generated edit histories against host details recomputed from the serialization by an independent model', 'random histories of up to 8 edits; not exhaustive'),
 'P02': ('property-based testing: generated hosts and every suffix rule against an independent public-suffix implementation, plus concatenation and replacement laws', 'all rules of the list are visited at random with four prefixes; values sampled'),
 'P03': ('property-based testing: generated URLs, parts, indexes and values against a reference model, get/set laws and a component frame', 'random sampling'),
 'P04': ('property-based testing: filtered-list oracle over generated queries; stateful selector histories', 'random sampling'),
 'P05': ('stateful property-based testing: segment-edit histories against a list of strings', 'random histories of up to 6 edits'),
}
import importlib.util, sys
extra = os.path.join(here, 'tools', 'checks_extra.json')
if os.path.exists(extra):
    CHECKS.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
m = {
 'version': 1,
 'setup_cmd': 'bash setup.sh',
 'checks': [{'property': p['id'], 'quick_cmd': f"bash check.sh {p['id']} quick", 'thorough_cmd': f"bash check.sh {p['id']} thorough", 'technique': CHECKS[p['id']][0], 'level': 'exploration', 'level_note': CHECKS[p['id']][1]} for p in props if p['id'] in CHECKS],
 'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'} for p in props if p['id'] not in CHECKS],
 'notes': 'All checks run the crate in /repo (path dependency of harness/) and write evidence/<id>.json. Known findings and fixes: known-findings.txt. Replay: target/debug/uch <id> --replay FILE.'
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
