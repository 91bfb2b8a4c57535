#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import runner, props
prop = sys.argv[1]
tier = os.environ.get('VERIF_TIER', 'quick')
if '--tier' in sys.argv:
    tier = sys.argv[sys.argv.index('--tier') + 1]
if tier not in ('quick', 'thorough'):
    tier = 'quick'
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
sys.exit(runner.run(prop, props.PROPS[prop], tier, seed))
