import json, sys
f = sys.argv[1] if len(sys.argv) > 1 else '/tmp/out.json'
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(f))
print("missing:", sorted(b-set(o['passed'])))
