#!/usr/bin/env python3
"""Writes the fixed: lines of KNOWN_FINDINGS.txt from the fix: commits of the
repository, keeping the finding: lines as they are."""
import os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
kf = os.path.join(os.path.dirname(here), 'KNOWN_FINDINGS.txt')
MAP = [l.rstrip('\n').split('\t') for l in open(os.path.join(here, 'fixed.map')) if l.strip()]
keep = [l for l in open(kf) if not l.startswith('fixed:')] if os.path.exists(kf) else []
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        p = [p for p, w in MAP if w in s]
        assert len(p) == 1, (s, p)
        out.append('fixed: property=%s %s %s\n' % (p[0], h, s[5:]))
open(kf, 'w').writelines(keep + out)
