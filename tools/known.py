"""usage: known.py PROP MECH fixed|known WHAT  (fixed: commit = HEAD of /repo)"""
import json, subprocess, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
prop, mech, st, what = sys.argv[1:5]
e = dict(property=prop, mechanism=mech, status=st)
if st == 'fixed':
    e['commit'] = sys.argv[5] if len(sys.argv) > 5 else subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h'], text=True).strip()
e['what'] = what
d['findings'].append(e)
for x in d['findings']:
    x['record'] = (f"fixed: property={x['property']} {x['commit']} {x['what']}" if x['status'] == 'fixed'
                   else f"known: property={x['property']} {x['mechanism']} {x['what']}")
open(p, 'w').write('{\n "findings": [\n' + ',\n'.join('  ' + json.dumps(x) for x in d['findings']) + '\n ]\n}\n')
