#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from spec import PROPS
PROPS.sort(key=lambda p: p['prop']['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['prop']['title']) <= 80, p['prop']['title']
        f.write(json.dumps(p['prop']) + '\n')
m = dict(version=1, setup_cmd='make -s -C /verif/tool', checks=[], not_applicable=[],
         notes='Every check is python3 /verif/check.py <id>; see DESIGN.md. Exit 2 means no verdict '
               '(an anchor vanished), which is neither a pass nor a violation.')
for p in PROPS:
    i = p['prop']['id']
    if p['na']:
        m['not_applicable'].append(dict(property=i, reason=p['na']))
    else:
        m['checks'].append(dict(property=i, quick_cmd='python3 /verif/check.py %s --tier quick' % i,
                                thorough_cmd='python3 /verif/check.py %s --tier thorough' % i,
                                technique='static analysis: ' + p['technique'], level=p['level'],
                                level_note=p['note']))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in PROPS: jsonschema.validate(p['prop'], json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid', len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
except ImportError:
    print('written (not validated)')

# DESIGN.md from its template: not-applicable list, repairs, planted bugs
d = open(H + '/DESIGN.tmpl.md').read()
na = ['* **%s** %s: %s' % (x['property'], next(p['prop']['title'] for p in PROPS if p['prop']['id'] == x['property']), x['reason'])
      for x in m['not_applicable']]
d = d.replace('NA_SECTION', '### Not applicable\n' + '\n'.join(na) if na else '')
kf = json.load(open(V + '/known_findings.json'))
d = d.replace('FIX_SECTION', '\n'.join('* ' + x[len('fixed: property='):] for x in kf['fixed']) +
              '\n\nKnown, not repaired: ' + ('none.' if not kf['findings'] else '\n' + '\n'.join('* %s' % json.dumps(f) for f in kf['findings'])))
rows = ['| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
res = json.load(open(H + '/seed_results.json')) if os.path.exists(H + '/seed_results.json') else {}
for s in sorted(os.listdir(V + '/seeded')):
    j = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    rows.append('| %s | %s: %s | %s | %s |' % (s, j['property'], j['what_it_breaks'], j['needs'],
                                              {1: 'check ' + j['property'], 0: 'missed'}.get(res.get(s), '?')))
d = d.replace('SEED_SECTION', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(d)
