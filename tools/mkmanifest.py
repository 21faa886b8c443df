"""Write MANIFEST.json: one check per property module present in mc/props."""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    mod = os.path.join(root, 'mc', 'props', i.lower() + '.py')
    if not os.path.exists(mod):
        na.append(dict(property=i, reason='check not built'))
        continue
    doc = open(mod).read().split('"""')[1].strip().replace('\n', ' ')
    tech = [l for l in open(mod) if l.startswith('TECHNIQUE = ')]
    import importlib, sys; sys.path.insert(0, root); tech = importlib.import_module("mc.props." + i.lower()).TECHNIQUE if tech else \
        'bounded exhaustive enumeration of inputs and call forms on the real code, against a reference model'
    checks.append(dict(
        property=i, quick_cmd=f'bash check.sh {i} quick', thorough_cmd=f'bash check.sh {i} thorough',
        evidence_file=f'evidence/{i}.json', technique='model checking: ' + tech, level='model_checking',
        level_note='Exhaustive within the bounds written to the evidence file; ' + doc.split(': ', 1)[-1]))
man = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
           notes='Explicit-state exploration of the real code imported from /repo; no hooks in /repo. '
                 'DESIGN.md describes alphabets, bounds, oracles and the planted-bug results.')
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
