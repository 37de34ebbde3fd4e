#!/usr/bin/env python3
"""Writes harness/props/ctors.go: every argument-less public constructor of the
SIP packages (run by hand when the library's public interface grows)."""
import glob, os, re
out = ['package props', '', '// Generated by tools/ctors.py.', '', 'import (']
pk = [('sip/address', 'address'), ('core', 'core'), ('sip/header', 'header'), ('sip/message', 'message')]
out += ['\t"github.com/use-go/gosips/%s"' % d for d, _ in sorted(pk)] + [')', '', 'var ctors = []struct {', '\tname string', '\tf    func() interface{}', '}{']
for d, p in pk:
    names = set()
    for f in glob.glob('/repo/%s/*.go' % d):
        if f.endswith('_test.go'): continue
        names |= set(re.findall(r'(?m)^func (New\w+)\(\) \*\w+ \{', open(f).read()))
    out += ['\t{"%s.%s", func() interface{} { return %s.%s() }},' % (p, n, p, n) for n in sorted(names)]
out += ['}', '']
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness/props/ctors.go'), 'w').write('\n'.join(out))
