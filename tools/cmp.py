"""python tools_cmp.py OUT.json - which of the stable tests did not pass"""
import json, sys
o = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
m = sorted(set(b['stable']) - set(o['passed']))
print('missing', len(m), m[:20])
sys.exit(bool(m))
