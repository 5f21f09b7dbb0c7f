#!/usr/bin/env python3
"""check.py PROPERTY: decides a property.  VERIF_TIER: quick (default) or thorough; VERIF_SEED: a number."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import tools
from core import Check
from props import ENGINE, API, SCRIPT


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        tools.build()
        c = Check(prop, tier, seed)
        if prop in API:
            c.api(*API[prop])
        elif prop in SCRIPT:
            families, n = SCRIPT[prop]
            for f, limit in families:
                c.script_family(f, limit)
            c.script_random(prop, n)
        else:
            p = ENGINE[prop]
            for f in p['families']:
                c.family(f)
                c.family(f + '+', limit=1000)
            for f in p.get('crossed', []):
                c.family(f)
            for tag, profile, n in p['random']:
                c.random(tag, profile, n)
        sys.exit(c.finish())
    except tools.ToolError as e:
        print('check could not be completed: %s' % e)
        sys.exit(2)


main()
