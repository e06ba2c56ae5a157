"""Write properties.jsonl and MANIFEST.json from tools/props.py (run from /verif)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS  # noqa: E402

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for d, _ in PROPS:
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': d['id'], 'quick_cmd': f"./run_check.sh {d['id']}",
                 'thorough_cmd': f"VERIF_TIER=thorough ./run_check.sh {d['id']}",
                 'technique': x['technique'], 'level': 'model_checking',
                 'level_note': x['level_note'],
                 'evidence_file': f"evidence/{d['id']}.json"} for d, x in PROPS],
     'not_applicable': [],
     'notes': 'No hooks in /repo: the checks drive the code through its public classes. Known '
              'findings and repaired defects are listed in KNOWN_FINDINGS.txt.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
