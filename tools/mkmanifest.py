"""Writes MANIFEST.json from lib/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/lib')
import props
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        note = p['note']
        if p.get('bounds'):
            note += ' Bounds: ' + p['bounds'] + '.'
        c = dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough', evidence_file=f'evidence/{i}.json',
                 technique=p['technique'], level=p['level'], level_note=note)
        checks.append(c)
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'no check yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo: private items are reached by extracting the sources into one crate on every run (lib/extract.py). /repo carries only fix: commits (KNOWN_FINDINGS). A check whose proof tool gives no verdict on the current sources says UNDECIDED for those obligations, and then only the bounded native stand-in decides.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
