#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness/config.py (run: python3 tools/gen_manifest.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
import config
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = getattr(config, 'NOT_APPLICABLE', {})
m = dict(version=1, setup_cmd='./check setup', checks=[], not_applicable=[])
for p in props:
    c = config.CHECKS.get(p['id'])
    if not c:
        m['not_applicable'].append(dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet'))); continue
    m['checks'].append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
        technique='symbolic execution of the compiled LLVM IR of the real code, SMT solver (z3) decides every branch and assertion',
        level='model_checking',
        level_note='All values, choices and schedules within: ' + c['bounds'] + '. ' + config.NOTE[bool(c.get('model'))]))
m['notes'] = 'No hooks in /repo. See DESIGN.md for the engine, the model of Qt and the bounds.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import glob, re, html
d = open(V + '/DESIGN.md').read()
def put(tag, text):
    global d
    d = re.sub('(<!-- %s -->\n).*?(<!-- /%s -->)' % (tag, tag), lambda k: k.group(1) + text + k.group(2), d, flags=re.S)
def entries(c):
    return [e for s in c['src'] for e in re.findall(r'^HARNESS\((h_\w+)\)', open(V + '/harness/' + s).read(), re.M)]
put('bounds', ''.join('* **%s** (%s): %s.\n' % (k, ', '.join(entries(c)), c['bounds']) for k, c in sorted(config.CHECKS.items())))
kf = json.load(open(V + '/known_findings.json'))
put('fixed', ''.join('* %s\n' % f.replace('fixed: property=', '') for f in kf['fixed']))
try:
    caught = json.load(open(V + '/tools/caught.json'))
except OSError:
    caught = {}
rows = ''
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    s = f.split('/')[-2]; j = json.load(open(f))
    rows += '| %s | %s | %s | %s |\n' % (s, j['needs'].replace('|', '/'), j['what_it_breaks'].replace('|', '/'), caught.get(s, '?'))
put('seeds', '| id | needs | breaks | caught by |\n|---|---|---|---|\n' + rows)
open(V + '/DESIGN.md', 'w').write(d)
