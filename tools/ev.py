#!/usr/bin/env python3
import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for r in e['coverage']['runs']: print({k:r[k] for k in r if k in('harness','bounds','wall_s','paths','reasons','complete','incomplete')})
