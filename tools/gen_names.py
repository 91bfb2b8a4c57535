"""Writes specs/names.json: how the members of oqpi's classes are declared in the headers of /repo.
Used (engine/runner.py: adapt) to follow a private member the contracts mention that was merely given another name."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import runner
json.dump(runner.declarations('/repo/include'), open(V + '/specs/names.json', 'w'), indent=0)
