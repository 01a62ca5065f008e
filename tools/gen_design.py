"""Writes DESIGN.md"""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = ['/repo', HERE]
from vlib import vsched
vsched.install()
ns = {}
exec(open(HERE + '/tools/design_text.py').read(), ns)
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
man = {c['property']: c for c in json.load(open(HERE + '/MANIFEST.json'))['checks']}
out = [ns['HEAD'].strip().replace('{COV}', ns['COV']).replace('{MUT}', ns['MUT']), '']
out.append('## The properties\n')
for p in props:
    chk = importlib.import_module('checks.' + p['id'].lower()).CHECK
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Specified:* ' + p['statement'] + '\n')
    out.append('*Anchored in:* ' + ', '.join('`%s`' % f for f in p['anchors']['files']) + '\n')
    out.append('*Decided by (%s):* %s\n' % (man[p['id']]['technique'], ns['HOW'][p['id']].replace('\n', ' ')))
    out.append('*Why this reaches what tests cannot:* ' + p['why_tests_cant'] + ' The workloads vary over ' + p['quantifier']['text'] + '.\n')
    out.append('*Bounds:* %s.' % (chk.rule,))
    out.append('\n| scenario | quick cases | thorough cases | what is demanded |\n|---|---|---|---|')
    for n, (fn, q, t, e) in chk.scenarios.items():
        out.append('| %s | %d | %d | %s |' % (n, q * 3, t, ' '.join((fn.__doc__ or '').split())[:300].replace('|', '/')))
    out.append('')
    if chk.assumptions:
        out.append('*Trusted:* ' + ('; '.join(chk.assumptions) if not isinstance(chk.assumptions, str) else chk.assumptions) + '\n')
kf = json.load(open(HERE + '/known_findings.json'))
out.append('## Known findings (recorded, not repaired)\n')
for k in kf['findings']:
    out.append('* %s `%s` / `%s`: %s' % (k['property'], k['scenario'], k['key'], k['what']))
out.append('\n## Repairs\n%d genuine defects were found and repaired, each in a `fix:` commit of /repo; listed in known_findings.json under `fixed`.\n' % len(kf['fixed']))
out.append('## False alarms corrected\n' + ns['FALSE_ALARMS'])
out.append('## Not claimed\n' + ns['LIMITS'])
if 'MUTATION' in ns:
    out.append('## Mutation sampling\n' + ns['MUTATION'])
out.append('## Planted bugs\n\n| bug | property | caught by | needs |\n|---|---|---|---|')
caught = json.load(open(HERE + '/notes/caught.json')) if os.path.exists(HERE + '/notes/caught.json') else {}
for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], caught.get(i, '?'), m['needs']))
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
os._exit(0)
