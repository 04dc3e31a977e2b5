#!/usr/bin/env python3
"""Writes MANIFEST.json from entries.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import entries as t
checks = []
for p, s in sorted(t.TABLE.items()):
    q = [e for e in s['entries'] if e.get('tier') != 'thorough']
    checks.append(dict(
        property=p, quick_cmd='python3 tools/check.py ' + p, thorough_cmd='python3 tools/check.py %s --tier thorough' % p,
        evidence_file='evidence/%s.json' % p, technique='symbolic execution of the LLVM IR of the real code, z3 decides every branch and assertion (bounded)',
        level='model_checking',
        level_note='holds for all values of the symbolic inputs within the bounds of %d scenarios: %s. Trusted: rustc, opt -O1, the engine symx, z3; hash values constant, panics abrupt. %s' % (
            len(q), '; '.join(e['bounds'] for e in q), s.get('note', ''))))
have = {c['property'] for c in checks}
na = [dict(property=k, reason=v) for k, v in t.NOT_APPLICABLE.items()]
for l in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(l)['id']
    if i not in have and i not in t.NOT_APPLICABLE:
        na.append(dict(property=i, reason='check under construction'))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the harness uses the public interface only. See DESIGN.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
