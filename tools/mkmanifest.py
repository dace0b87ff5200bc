#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and lib/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib import registry
checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    prop = json.loads(line)['id']
    if prop not in registry.SUITES:
        missing.append(dict(property=prop, reason='Not built yet.'))
        continue
    technique, note = registry.NOTES[registry.SUITES[prop][0]]
    checks.append(dict(
        property=prop, quick_cmd='python3 check.py %s' % prop,
        thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % prop,
        technique=technique, level='model_checking', level_note=note))
manifest = dict(
    version=1,
    setup_cmd='python3 tools/setup.py',
    hooks=dict(guard='IPKG_VERIF', enable='No hook is needed: the drivers of jy/ observe the public API and the file system; nothing in /repo is guarded.', source_commits=[]),
    checks=checks, not_applicable=missing)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
