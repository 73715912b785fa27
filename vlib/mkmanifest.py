"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
import os
import subprocess
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib import plan  # noqa: E402

NOT_APPLICABLE = {}
TECH = 'TLA+ specification checked with TLC; traces of the real code validated against it'


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks = []
    na = []
    for p in props:
        pid = p['id']
        if pid in plan.TRACES or pid in plan.MODELS:
            checks.append({
                'property': pid,
                'quick_cmd': f'python3 check.py {pid}',
                'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {pid}',
                'technique': plan.TECHNIQUE.get(pid, TECH),
                'level': 'model_checking',
                'level_note': plan.NOTES.get(pid, plan.NOTE),
            })
        else:
            na.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, 'no check has been built for it yet')})
    hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=scheduling points'],
                           capture_output=True, text=True).stdout.split()
    m = {'version': 1, 'setup_cmd': 'python3 vlib/setup.py',
         'hooks': {'guard': 'stream_download_verif', 'enable': 'RUSTFLAGS="--cfg stream_download_verif"',
                   'source_commits': hooks},
         'checks': checks, 'not_applicable': na,
         'notes': 'TLA+ (TLC). See DESIGN.md. Replay a violation with: python3 check.py --replay <file>'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
