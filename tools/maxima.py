import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p)); print(p, e['coverage']['largest_deviations'])
