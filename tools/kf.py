#!/usr/bin/env python3
"""kf.py PROPERTY ID fixed|known COMMIT|- TEXT: adds an entry to known-findings.json"""
import json, sys
p = '/verif/known-findings.json'
k = json.load(open(p))
prop, i, status, commit, text = sys.argv[1:6]
k = [x for x in k if x['id'] != i]
e = {"property": prop, "id": i, "status": status}
if status == 'fixed':
    e["commit"] = commit
    e["entry"] = "fixed: property=%s %s %s" % (prop, commit, text)
else:
    e["entry"] = "known: property=%s %s" % (prop, text)
k.append(e)
json.dump(k, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
