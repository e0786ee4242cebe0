"""Write /verif/MANIFEST.json from the registry."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS, NOTES
checks = []
for pid in sorted(k for k in PROPS if k.startswith('P')):
    note, level = NOTES[pid]
    checks.append(dict(property=pid, quick_cmd=f'python3 sim/check.py {pid} quick',
                       thorough_cmd=f'python3 sim/check.py {pid} thorough',
                       evidence_file=f'evidence/{pid}.json',
                       technique='deterministic simulation with fault injection: ' + note[0],
                       level=level, level_note=note[1]))
listed = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
claimed = {c['property'] for c in checks}
na = [dict(property=p, reason='check under construction') for p in listed if p not in claimed]
json.dump(dict(version=1, setup_cmd='python3 sim/setup.py',
               checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
