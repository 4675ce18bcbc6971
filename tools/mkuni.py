#!/usr/bin/env python3
"""Writes spec/Uni.tla: the letters and digits of Unicode above ASCII, as ranges."""
import os
import re
import sys

w = re.compile(r'\w')
ranges, start = [], None
for c in range(128, 0x110000):
    if w.match(chr(c)):
        if start is None:
            start = c
        last = c
    elif start is not None:
        ranges.append((start, last))
        start = None
if start is not None:
    ranges.append((start, last))
lines, line = [], ''
for a, b in ranges:
    item = '<<%d, %d>>, ' % (a, b)
    if len(line) + len(item) > 118:
        lines.append(line.rstrip())
        line = ''
    line += item
lines.append(line.rstrip(', '))
out = """-------------------------------- MODULE Uni ---------------------------------
(* Letters and digits of Unicode above ASCII (generated by tools/mkuni.py).   *)
LOCAL INSTANCE Naturals
WordRanges == {
  %s}
UniWord(c) == \\E r \\in WordRanges : r[1] <= c /\\ c <= r[2]
=============================================================================
""" % '\n  '.join(lines)
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Uni.tla'), 'w').write(out)
print(len(ranges), 'ranges')
