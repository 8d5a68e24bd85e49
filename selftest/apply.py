#!/usr/bin/env python3
"""apply.py TITLE DIR: copies /repo to DIR and applies the variant with that title."""
import sys, os, glob, shutil
here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(glob.glob(os.path.join(here, 'variants_*.py'))):
    ns = {}
    exec(open(f).read(), ns)
    for v in ns['V']:
        if v[2] == sys.argv[1]:
            d = sys.argv[2]
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
            for g, old, new in v[3]:
                p = os.path.join(d, g); s = open(p).read(); assert old in s
                open(p, 'w').write(s.replace(old, new, 1))
