"""Show violations of one run grouped (development aid): show.py C01 [args]"""
import json, sys, glob, subprocess
for f in sorted(glob.glob('/verif/evidence/replay/%s-*.json' % sys.argv[1])):
    d=json.load(open(f)); print(f, d['key'], d['scenario'], d['seed'], d['msg']); print(json.dumps(d['detail'],indent=0)[:1800])
