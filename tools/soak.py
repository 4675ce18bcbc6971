#!/opt/venv/bin/python
"""Soak: random programs beyond what the registered checks run (other seeds, other constants), all properties.
usage: soak.py ROUNDS [FIRST_SEED [PROPS..]].  Any difference between code and specification is printed, also those
no property speaks about.  Development only: not a registered check."""
import json
import os
import random
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import check
import execute
import profiles

POOL = ['.', '*', '', ' ', '\t', '\n', '\r', '\0', '\x1a', '\\', "'", '"', '`', "''", '""', '``', '%', '_', '%s', '%d', '{}', '{0}', 'None', 'NULL', 'null',
        'AND', ' AND ', ' OR ', 'ON', 'SET', 'FROM', ' AS ', 'AS', 'DESC', 'asc', 'Desc ', '(', ')', '()', ',', ', ', ';', '--', '/*', '*/', '#', '=', '!=', 'IN', 'IS NULL',
        r'\s+', r'\b', '[^a-z]', '.*', '^a$', 'é', 'ß', 'İ', 'K', '\u2028', '\ud7ff', '\U0001f600', 'x' * 40, 'a.b', 'a.b.c', '"a"', '`a`', '"a"."b"', '`a`.`b`', '"a".b',
        'select', 'count', 'distinct', 'utf8', 'ignore', 'on_conflict', 'value', 'columns', 'key', 'b', '0', '1', '01', '1.0', '-1', '1e5', 'True', 'true', 'nan', 'inf', '0x41', "X'41'",
        'mysql', 'sqlite', 'PostgreSQL', 'sql']
NUMS = [0, 1, 2, 3, 5, 7, 8, 10, 16, 20, 32, 50, 63, 64, 100, 127, 128, 255, 256, 999, 1000, 1024, 4096, 32767, 65535, 65536, 99999, 100000, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 10 ** 20, -1, -2, -128]


def main():
    rounds = int(sys.argv[1])
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1000
    props = sys.argv[3:] or sorted(profiles.GEN)
    base = json.load(open(os.path.join(check.HERE, 'baseline.json')))
    for s in range(seed, seed + rounds):
        for p in props:
            r = random.Random(s)
            new = (sorted(r.sample(NUMS, 4)), sorted(r.sample(POOL, 5)))
            progs = check.generate(p, s, 3000, (base['ints'], base['strs']), False, 'base')
            progs += check.generate(p, s, 3000, new, True, 'hot')
            recs = execute.fork_map(progs)
            work = os.path.join(check.OUT, 'soak-%s-%d' % (p, os.getpid()))
            os.makedirs(work, exist_ok=True)
            try:
                found, states = check.validate(p, recs, work, 'trace', 3000)
            finally:
                shutil.rmtree(work, ignore_errors=True)
            print('%d %s: %d programs, %d differences' % (s, p, len(recs), len(found)), flush=True)
            for f in found[:3]:
                print('   ', str(f)[:300])
                i = f['i'] if isinstance(f, dict) and 'i' in f else f[0] if isinstance(f, (tuple, list)) else None
                try:
                    for line in check.readable(recs[i])[-14:]:
                        print('       ', line[:300])
                except Exception as e:  # pylint: disable=broad-except
                    print(e)


main()
