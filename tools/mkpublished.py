#!/usr/bin/env python3
"""Writes spec/published.inc, the published tables as bit patterns, from the
reference copy the search uses (tools/finder/src/tables.rs)."""
import os, re, struct
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = re.sub(r'//[^\n]*', '', open(H + '/tools/finder/src/tables.rs').read())
out = '// the published tables, as bit patterns (tools/mkpublished.py)\n'
for name, short in (('RAW_ESTIMATE_DATA', 'raw'), ('BIAS_DATA', 'bias')):
    m = re.search(r'const %s: &\[&\[f64\]\] = &\[(.*?)\];' % name, t, re.S)
    rows = re.findall(r'&\[(.*?)\]', m[1], re.S)
    assert len(rows) == 15
    for i, r in enumerate(rows):
        b = [struct.unpack('<Q', struct.pack('<d', float(x)))[0] for x in re.findall(r'-?\d[\d.]*(?:e-?\d+)?', r)]
        out += 'closed spec fn pub_%s_%d() -> Seq<u64> { seq![%s] }\n' % (short, i, ','.join('%du64' % x for x in b))
    out += 'pub closed spec fn pub_%s(i: int) -> Seq<u64> { %s { Seq::empty() } }\n' % (short, ' '.join('if i == %d { pub_%s_%d() } else' % (i, short, i) for i in range(15)))
open(H + '/spec/published.inc', 'w').write(out)
