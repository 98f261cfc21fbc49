#!/usr/bin/env python3
"""usage: fixed.py PROP 'what failed' - records the last commit of /repo as a fix in known-findings.txt"""
import subprocess, sys
h = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h'], text=True).strip()
p = '/verif/known-findings.txt'
s = open(p).read().rstrip('\n').split('\n')
i = max(k for k, l in enumerate(s) if l.startswith('fixed:'))
s[i+1:i+1] = ["fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2])]
open(p, 'w').write('\n'.join(s) + '\n')
