#!/usr/bin/env python3
"""Appends "fixed" entries: fixed.py PROPERTY COMMIT TEXT"""
import json, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
e = f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}'
if e not in k['fixed']:
    k['fixed'].append(e)
json.dump(k, open(p, 'w'), indent=1, ensure_ascii=False)
open(p, 'a').write('\n')
