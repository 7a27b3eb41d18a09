import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
bad=[x for x in b['stable'] if x not in t['passed']]
print(len(b['stable']), 'stable;', len(bad), 'not passing'); print("\n".join(bad[:40]))
