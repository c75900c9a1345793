import json
r=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print("missing:", [x for x in b['stable'] if x not in set(r['passed'])])
