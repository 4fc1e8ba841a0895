import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open(sys.argv[1]))
m=[x for x in b if x not in set(t['passed'])]
print('stable not passing:',len(m)); print('\n'.join(m[:20])); sys.exit(bool(m))
