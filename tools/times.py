import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for e in d['coverage'].get('entries',[]): print({k:e[k] for k in e if k in('entry','paths','queries','solver_s','wall_s','asserts')})
