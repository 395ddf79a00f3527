#!/usr/bin/env python3
"""regenerates properties.jsonl, MANIFEST.json and DESIGN.md"""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import props

with open(H + '/properties.jsonl', 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['observe']:
            a['observe_at'] = p['observe']
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks = []
na = []
for p in props.P:
    if os.path.exists(H + '/checks/%s.py' % p['id'].lower()):
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'model checking: ' + p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p.get('na', 'no check built yet')})
na += getattr(props, 'NA', [])
with open(H + '/MANIFEST.json', 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 lib/vbuild.py', 'checks': checks, 'not_applicable': na,
               'notes': 'All checks build /repo themselves (content-hashed build directories under /verif/build). See DESIGN.md.'}, f, indent=1)
    f.write('\n')
with open(H + '/design/head.md') as f:
    out = [f.read().rstrip() + '\n']
out.append('\n## Properties and how they are decided\n')
for p in props.P:
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('%s\n' % p['statement'])
    out.append('*Explored:* %s. *Why tests cannot settle it:* %s.\n' % (p['text'], p['why']))
    out.append('*Method and oracle:* %s\n' % p['design'])
    out.append('*Assurance:* %s\n' % p['note'])
out.append('## Defects found in lighttpd2\n')
for k in json.load(open(H + '/known_findings.json')):
    out.append('- %s: property=%s %s %s' % (k['status'] if k['status'] == 'fixed' else 'KNOWN (open)', k['property'], k.get('commit', ''), k['what']))
out.append('')
sd = H + '/seeded'
rows = []
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = sd + '/' + d + '/meta.json'
    if os.path.exists(m):
        m = json.load(open(m))
        rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), m.get('caught', '?')))
if rows:
    out.append('## Planted bugs\n\n| id | property | what it breaks | caught by |\n|---|---|---|---|')
    out += rows
    out.append('')
if os.path.exists(H + '/design/tail.md'):
    out.append(open(H + '/design/tail.md').read())
with open(H + '/DESIGN.md', 'w') as f:
    f.write('\n'.join(out))
