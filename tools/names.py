#!/usr/bin/env python3
"""Writes astp/names.json from the current /repo (run only on the tree the rules are written against)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from astp.load import ast_path
from astp import canon
out = {'params': {}, 'fields': {}, 'funs': {}, 'vars': {}}
for u in ('unit.cpp', 'unit_scalar.cpp'):
    p = ast_path(u)
    s = canon.survey([json.loads(l) for l in open(p)])
    os.unlink(p)
    out['fields'].update(s['fields'])
    out['vars'].update(s['vars'])
    for q, v in s['params'].items():
        out['params'].setdefault(q, {}).update(v)
    for q, v in s['funs'].items():
        out['funs'].setdefault(q, [])
        out['funs'][q] += [x for x in v if x not in out['funs'][q]]
json.dump(out, open(canon.FILE, 'w'), sort_keys=True, indent=0)
