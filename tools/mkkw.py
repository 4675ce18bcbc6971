#!/usr/bin/env python3
"""Writes spec/Keywords.tla: the code points of every fixed text the specification uses, T("..").
Collects them from the T("...") uses in the other modules."""
import glob
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
words = set()
extra = ["SELECT", "FROM", "WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "OFFSET", "INTO", "FOR", "UNION", "INSERT",
         "REPLACE", "VALUES", "ON", "UPDATE", "SET", "DELETE", "AND", "OR", "NOT", "JOIN", "LEFT JOIN", "RIGHT JOIN",
         "FULL JOIN", "sql", "mysql", "postgresql", "sqlite", " UNION ", " UNION ALL ", "AVG", "COUNT", "MAX", "MIN",
         "SUM", "IGNORE", "SQL_CACHE", "SQL_NO_CACHE", "ALL", "DISTINCT", "DISTINCTROW", "HIGH_PRIORITY",
         "SQL_BIG_RESULT", "SQL_BUFFER_RESULT", "SQL_CALC_FOUND_ROWS", "SQL_SMALL_RESULT", "STRAIGHT_JOIN",
         "select_options", "columns", "tables", "where", "group_by", "having", "order_by", "limit", "into_outfile",
         "select_for_update", "keyword", "insert_options", "values", "on_duplicate_key_update",
         "on_conflict_do_update", "update_options", "delete_options", "references"]
words.update(extra + ["LEFT", "RIGHT", "FULL", "DO"])
for f in glob.glob(os.path.join(here, 'spec', '*.tla')):
    if f.endswith('Keywords.tla'):
        continue
    src = re.sub(r'\(\*.*?\*\)|\\\*[^\n]*', '', open(f).read(), flags=re.S)
    fn = '' if os.path.basename(f).startswith('MC_') else r'\b(?:T|W)\('
    for m in re.finditer(fn + r'"((?:[^"\\]|\\.)*)"', src):
        words.add(m.group(1).replace('\\\\', '\\').replace('\\"', '"'))
out = ['------------------------------ MODULE Keywords ------------------------------',
       '(* Generated by tools/mkkw.py: code points of the fixed texts.               *)',
       'EXTENDS TLC']
# in blocks: one long chain of @@ would need a deep stack
ws = sorted(words)
size = 24
blocks = [ws[i:i + size] for i in range(0, len(ws), size)]
for n, block in enumerate(blocks):
    out.append('Texts%d ==' % (n + 1))
    for i, w in enumerate(block):
        lit = w.replace('\\', '\\\\').replace('"', '\\"')
        out.append('  %s ("%s" :> <<%s>>)' % ('  ' if i == 0 else '@@', lit, ', '.join(str(ord(c)) for c in w)))
out.append('TextTable == ' + ' @@ '.join('Texts%d' % (n + 1) for n in range(len(blocks))))
out.append('T(s) == TextTable[s]')
out.append('=============================================================================')
open(os.path.join(here, 'spec', 'Keywords.tla'), 'w').write('\n'.join(out) + '\n')
