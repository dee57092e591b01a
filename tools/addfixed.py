#!/usr/bin/env python3
"""tools/addfixed.py PID [since-commit]: append "fixed:" lines for all fix commits of /repo which are not yet listed."""
import subprocess, sys
pid = sys.argv[1]
kf = '/verif/known_findings.txt'
text = open(kf).read()
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
with open(kf, 'a') as f:
    for l in log.splitlines():
        h, s = l.split(' ', 1)
        if s.startswith('fix:') and f' {h} ' not in text and f' {h[:7]} ' not in text:
            f.write(f'fixed: property={pid} {h} {s[5:]}\n')
            print(h, s)
