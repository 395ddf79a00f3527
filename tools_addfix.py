#!/usr/bin/env python3
"""tools_addfix.py <property> <commit> <what>: records a repaired defect (never run by a check)"""
import json, sys
f = '/verif/known_findings.json'
d = json.load(open(f))
p, c, w = sys.argv[1:4]
d.append({'property': p, 'status': 'fixed', 'commit': c, 'what': w, 'line': 'fixed: property=%s %s %s' % (p, c, w)})
with open(f, 'w') as o:
    json.dump(d, o, indent=1); o.write('\n')
