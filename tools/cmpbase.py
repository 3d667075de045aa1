import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']; g = json.load(open(sys.argv[1]))
m = [x for x in b if x not in g['passed']]
print('ok' if not m else 'MISSING ' + ','.join(m))
