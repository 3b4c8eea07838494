#!/usr/bin/env python3
"""Development-time only: list the flag accessors of the base tree (generated and hand-written) as
harness/src/flags.rs.  The result is committed; no check regenerates it."""
import re, sys
G, OUT = sys.argv[1], sys.argv[2]
R = '/repo/src'
out = []
def scan(path, only=None, helper=None):
    src = open(path).read()
    for m in re.finditer(r'^impl (\w+) \{\n(.*?)^\}', src, re.S | re.M):
        t, body = m.group(1), m.group(2)
        if only and t not in only: continue
        fl = []
        if helper:
            for g in re.finditer(r'pub fn (\w+)\(&?self\) -> bool \{\s*self\.flag\((\d+)\)', body):
                fl.append((helper[t], int(g.group(2)), g.group(1)))
        for g in re.finditer(r'pub fn (\w+)\(&self\) -> bool \{\s*self\.(\w+) & (\w+) != 0', body):
            fl.append((g.group(2), int(g.group(3), 0), g.group(1)))
        if not fl: continue
        for f, mask, n in fl:
            assert 'pub fn set_%s(&mut self, val: bool)' % n in body, (t, n)
        seen = {}
        for f, mask, n in fl:
            for m2, n2 in seen.get(f, []):
                if m2 & mask: print('overlap', t, f, n, n2, mask, m2)
            seen.setdefault(f, []).append((mask, n))
        out.append((t, fl))
scan(G + '/entities.rs'); scan(G + '/objects.rs'); scan(G + '/header.rs'); scan(G + '/tables.rs')
scan(R + '/block.rs', ['Block'], {'Block': 'flags'})
scan(R + '/class.rs', ['Class'], {'Class': 'proxy_capability_flags'})
scan(R + '/enums.rs', ['ViewMode'], {'ViewMode': 'flags'})
o = '//! Written by tools/mkflags.py: (field, bit, name, getter, setter) of every flag of every type.\n'
o += 'use dxf::entities::*;\nuse dxf::enums::*;\nuse dxf::objects::*;\nuse dxf::tables::*;\nuse dxf::*;\n\n'
o += 'pub struct Flag<T>(pub &\'static str, pub i64, pub &\'static str, pub fn(&T) -> bool, pub fn(&mut T, bool));\n\n'
for t, fl in out:
    q = {'Field': 'dxf::objects::Field'}.get(t, t)
    o += 'pub const %s: &[Flag<%s>] = &[\n' % (re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', t).upper(), q)
    for f, mask, n in fl:
        get = '%s::%s' % (q, n)
        if t == 'ViewMode': get = '|x| x.%s()' % n
        o += '    Flag("%s", %d, "%s", %s, %s::set_%s),\n' % (f, mask, n, get, q, n)
    o += '];\n'
open(OUT, 'w').write(o)
print(sum(len(f) for _, f in out), 'flags of', len(out), 'types', [t for t, _ in out])
