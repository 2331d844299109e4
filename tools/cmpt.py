import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print(len(b['stable']), 'missing:', sorted(set(b['stable'])-set(t['passed']))[:20], 'failed', t['failed'][:10])
