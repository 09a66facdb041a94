import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print(len(b['stable']),len(t['passed']),t['failed'], set(b['stable'])-set(t['passed']))
