#!/usr/bin/env python3
"""Writes the configuration files of the model checking modules."""
import glob, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(glob.glob(os.path.join(here, 'spec', 'MC_C*.tla'))):
    p = re.match(r'MC_(\w+)\.tla', os.path.basename(f)).group(1)
    with open(f[:-4] + '.cfg', 'w') as o:
        o.write('SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n')
        for c, d in (('Bes', 'Bes'), ('Limit', 'Limit'), ('Start', 'Start'), ('GInit', 'G'), ('Moves', 'Moves'), ('GStep', 'GStep'),
                     ('Fine', 'Fine')):
            o.write('  %s <- %s%s\n' % (c, p, d))
        last = re.search(r'^\w+AtEnd(?=\(x\) ==)', open(f).read(), re.M)
        o.write('  AtEnd <- %s\n' % (last.group(0) if last else 'NoLast'))
