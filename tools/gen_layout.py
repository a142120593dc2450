#!/usr/bin/env python3
"""Record the stored form of every type of $VERIF_REPO (default /repo) as the baseline of P13."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/engine')
sys.setrecursionlimit(20000)
import facts_cache
from sa import core, layout
F = core.Facts(facts_cache.get(os.environ.get('VERIF_REPO', '/repo'))[0])
L = layout.Layout(F)
json.dump(dict(stored=L.stored(), text=L.text()), open(HERE + '/engine/data/layout.json', 'w'), indent=0, sort_keys=True)
