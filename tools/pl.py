#!/usr/bin/env python3
"""pl.py FILE...: plant each definition file tools/plants/ID.py"""
import os, runpy, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
for f in [a for a in sys.argv[1:] if not a.startswith('-')]:
    i = os.path.basename(f)[:-3]
    g = runpy.run_path(f)
    print('==', i)
    plant.main(i, g['EDITS'], dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), g.get('PKG', ''), g['DEMO'], g.get('LIB'))
