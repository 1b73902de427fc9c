#!/usr/bin/env python3
"""Print the table of units and their bounds, as declared in the harness, for DESIGN.md (sizes are in evidence/)."""
import re, glob
rows = []
for f in sorted(glob.glob('/verif/sym/harness/src/units/*.rs')):
    s = open(f).read()
    for m in re.finditer(r'Unit::new\(\s*"(C\d\d)",\s*"(\w+)",\s*\w+,\s*"((?:[^"\\]|\\.)*)"', s):
        p, u, b = m.groups()
        b = re.sub(r'\\\n\s*', '', b).replace('\\"', '"').replace('\\\\', '\\').replace('|', '\\|').replace('\n', ' ')
        rows.append((p, u, b))
print('| property | unit | bounds |')
print('|---|---|---|')
for p, u, b in sorted(rows, key=lambda r: r[0]):
    print('| %s | %s | %s |' % (p, u, b))
