#!/usr/bin/env python3
"""Pretty-print a replay file."""
import json, sys
d = json.load(open(sys.argv[1]))
sp = d.pop('spec')
print(d['key'], d['message'])
print(d['traceback'][-1500:])
def pr(x, ind=0):
    for k, v in x.items():
        if isinstance(v, dict):
            print(' ' * ind + k + ':')
            pr(v, ind + 2)
        elif isinstance(v, list) and v and isinstance(v[0], list):
            print(' ' * ind + k + ':')
            for r in v:
                print(' ' * ind + '   ', r)
        else:
            print(' ' * ind + k + ':', v)
pr(sp)
