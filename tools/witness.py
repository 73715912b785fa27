#!/usr/bin/env python3
"""witness.py [BUG...]: for each way to break the design (Bugs in Core.tla), the behaviours in which TLC sees an
obligation broken, as schedules for the real code: witness/BUG.jsonl. Also shows that the obligations notice."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CONFIGS = ['CoreBatch', 'CoreCancel', 'CoreStallOne', 'CoreUnknown', 'CoreUnseek', 'CoreSeek', 'CoreRing', 'CoreFault', 'CoreRing3', 'CoreRingLong',
           'CoreLiveSeek', 'CoreLiveCancel', 'CoreLiveRing']
WANT = 4  # configurations with a witness


def tlc(bug, config, args, secs):
    with tempfile.TemporaryDirectory(prefix='witness') as d:
        with open(f'{SPEC}/{config}.cfg') as f:
            text = f.read().replace('Bug = "none"', f'Bug = "{bug}"')
        with open(f'{d}/x.cfg', 'w') as f:
            f.write(text)
        cmd = ['timeout', str(secs), 'java', '-Xmx3g', '-Xss16m', '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC', '-workers', '2',
               '-metadir', f'{d}/m', '-noGenerateSpecTE', '-config', f'{d}/x.cfg', '-dumpTrace', 'json', f'{d}/t.json', *args,
               f'{SPEC}/CoreMC.tla']
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=d)
        if not os.path.exists(f'{d}/t.json'):
            if r.returncode not in (0, 124):
                raise RuntimeError(f'{bug} {config}: {r.stdout[-2000:]}')
            return None, r.returncode == 124
        with open(f'{d}/t.json') as f:
            t = json.load(f)
    states = [s[1] for s in t['state']] if 'state' in t else [s[1] for s in t['counterexample']['state']]
    decs = [x for s in states[1:] for x in s['op'].split(';')]
    m = re.search(r'Error: (Invariant (\w+)|.*[Tt]emporal|Deadlock|.*)', r.stdout)
    kind = m.group(2) or ('Terminates' if 'emporal' in m.group(1) else m.group(1)) if m else '?'
    return {'bug': bug, 'model': config, 'broken': kind, 'bad': sorted(map(list, states[-1]['bad'])) if states[-1].get('bad') else [],
            'cfg': states[0]['s']['cfg'], 'decs': decs}, False


def one(bug):
    found, seen = [], set()
    safety = [c for c in CONFIGS if 'Live' not in c]
    for config in safety:  # random walks find most of them quickly ...
        w, _ = tlc(bug, config, ['-simulate', 'num=30000', '-depth', '120', '-seed', '1'], 15)
        if w:
            # ... and then the shortest behaviour
            s, late = tlc(bug, config, [], 90)
            found += [w] + [s] * bool(s)
            for k in (2, 3):
                w, _ = tlc(bug, config, ['-simulate', 'num=30000', '-depth', '120', '-seed', str(k)], 15)
                found += [w] * bool(w)
            seen.add(config)
        if len(seen) >= WANT:
            break
    for config in [] if seen else CONFIGS:
        w, late = tlc(bug, config, [], 240)
        if late:
            print(f'{bug} {config}: timed out', flush=True)
        if w:
            found.append(w)
            seen.add(config)
            break
    path = f'{ROOT}/witness/{bug}.jsonl'
    if found:
        with open(path, 'w') as f:
            f.writelines(json.dumps(w) + '\n' for w in found)
    print(f'{bug}: {len(found)} witnesses, {sorted(seen)}, {sorted({p for w in found for p, _ in w["bad"]})}, '
          f'{sorted({w["broken"] for w in found})}', flush=True)


def main():
    with open(f'{SPEC}/Core.tla') as f:
        t = f.read()
    bugs = sys.argv[1:] or re.findall(r'"(\w+)"', t[t.index('Bugs == {'):t.index('B(x) ==')])
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', 4))) as ex:
        for x in [ex.submit(one, b) for b in bugs]:
            x.result()


main()
