#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between markers) from known_findings.json and seeded/*/meta.json."""
import json, os, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + '/DESIGN.md').read()
fx = '\n'.join('* %s `%s` %s' % (f['property'], f['commit'], f['what']) for f in json.load(open(H + '/known_findings.json'))['findings'])
sd = '\n'.join('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks'])
    for m in sorted(glob.glob(H + '/seeded/*/meta.json')) for d in [json.load(open(m))])
sd = '| seed | caught by | needs | breaks |\n|-|-|-|-|\n' + sd
for k, v in (('FIXES', fx), ('SEEDS', sd)):
    b, e = '<!-- %s -->' % k, '<!-- end %s -->' % k
    if '@@%s@@' % k in s: s = s.replace('@@%s@@' % k, b + '\n' + v + '\n' + e)
    else: s = re.sub(re.escape(b) + '.*?' + re.escape(e), lambda m: b + '\n' + v + '\n' + e, s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
