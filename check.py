#!/usr/bin/env python3
"""check.py <property> | check.py --replay <file>

Decides a property: model checks the design specification, records traces of the real code under
controlled schedules and checks each of them against the specification.
Exit 0: held on everything explored. Exit 1: VIOLATION. Exit 2: the check itself failed.
"""
import json
import os
import shutil
import sys
import threading
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import plan  # noqa: E402
from vlib.common import (JOBS, OUT, ROOT, Result, ToolError, build, die, log, parallel, tlc,  # noqa: E402
                         tlc_counts, workdir)

SEED = int(os.environ.get('VERIF_SEED') or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'


def known_findings(prop):
    res = []
    with open(os.path.join(ROOT, 'known-findings.txt')) as f:
        for line in f:
            if line.startswith('finding: '):
                x = json.loads(line[9:])
                if x['property'] == prop:
                    res.append(x)
    return res


def run_models(prop, wd, res):
    for module, config, bound in plan.models(prop, TIER):
        t0 = time.time()
        r = tlc(module, wd, config=config, workers=JOBS, heap='12g', timeout=3000 if TIER == 'thorough' else 800, ok=(0, 12, 13, 11))
        g, d = tlc_counts(r.stdout)
        res.generated += g
        res.distinct += d
        if r.returncode != 0:
            # The design specification doesn't depend on the code: this is an error of the check
            raise ToolError(f'the design model {config} breaks its invariants:\n{r.stdout[-4000:]}')
        res.exhaustive.append({'model': config, 'generated': g, 'distinct': d, 'constants': bound,
                               'wall_s': round(time.time() - t0, 1)})
        log(f'model {config}: {d} distinct states in {time.time() - t0:.0f} s')


# what the generated tests cover: field of a report -> name in the evidence
NOTES = [('transitions', 'design_transitions_replayed'), ('transitions_total', 'design_transitions'),
         ('in_step', 'behaviours_followed_step_by_step'), ('out_of_step', 'behaviours_out_of_step')]


def quietly(f, *args):
    try:
        f(*args)
    except Exception as e:  # noqa: BLE001
        log(f'note: {e}')


def run_traces(prop, wd, res):
    entries = plan.TRACES.get(prop, [])
    total = sum(w for *_, w in entries)
    jobs, fams = [], []
    rounds = 1 if TIER == 'quick' else 12
    for k in range(rounds):
        for n, (fam, profiles, weight) in enumerate(entries):
            build(fam.crate, fam.binary)
            shards = max(1, round(JOBS * weight / total))
            for s in range(shards):
                seed = ((SEED * 101 + k) * 37 + n) * 64 + s
                tag = f'{n}-{k}-{s}'
                count = plan.COUNTS.get(fam.name, plan.QUICK)
                args = ['--seed', seed, '--count', count, '--profiles', profiles, '--secs', 120]
                jobs.append(lambda fam=fam, tag=tag, args=args: fam.shard(wd, tag, args))
                fams.append(fam)
    for n, gen in enumerate(plan.GENERATED.get(prop, [])):
        if hasattr(gen, 'warm'):
            # the jobs that need it report what goes wrong
            threading.Thread(target=quietly, args=(gen.warm, wd, SEED, TIER), daemon=True).start()
        jobs.append(lambda gen=gen, n=n: gen(wd, SEED, TIER, n))
        fams.append(gen.fam)
    reps = [(fam, rep) for fam, r in zip(fams, parallel(jobs)) for rep in (r if isinstance(r, list) else [r])]
    for fam, rep in reps:
        res.add(fam, rep)
        if 'design' in rep and rep['design'] not in res.exhaustive:
            res.exhaustive.append(rep['design'])
        for field, name in NOTES:
            for k, v in rep.get(field, {}).items():
                t = res.notes.setdefault(name, {})
                t[k] = t.get(k, 0) + v
        if TIER == 'thorough' and not rep['bad']:
            for f in (rep['trace'], rep['trace'] + '.scen'):
                os.remove(f)


def reproduce(prop, wd, bad):
    """A violation counts when running its case again breaks the property again."""
    seen = {}
    for b in bad:
        seen.setdefault(b[1], []).append(b)
    picks = [bs[i] for i in range(3) for bs in seen.values() if i < len(bs)][:12]
    for n, (p, w, fam, case, lines) in enumerate(picks):
        for k in range(2):
            rep = fam.replay(wd, case, f'replay{n}-{k}')
            again = [b for b in rep['bad'] if b['p'] == prop]
            if again:
                return w, fam, case, lines, again[0]['w']
    return None


def report(prop, found):
    w, fam, case, lines, _ = found
    path = os.path.join(OUT, f'{prop}.replay.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'what': w, 'family': fam.name, 'case': case, 'trace': lines}, f, indent=1)
    log(f'{prop}: {w}')
    log(f'VIOLATION property={prop} replay={path}')


def check(prop):
    t0 = time.time()
    wd = workdir(prop)
    res = Result()
    run_models(prop, wd, res)
    run_traces(prop, wd, res)
    bad = [b for b in res.bad if b[0] == prop]
    known = known_findings(prop)
    for f in known:
        log(f'KNOWN-FINDING: property={prop} {f["what"]}')
    bad = [b for b in bad if not any(f['text'] == b[1] and all(b[3]['cfg'].get(k) == v for k, v in f['cfg'].items())
                                     for f in known)]
    found = reproduce(prop, wd, bad) if bad else None
    if bad and not found:
        log(f'note: {len(bad)} observations could not be reproduced and are not reported: {sorted({b[1] for b in bad})}')
    write_evidence(prop, res, bad, found, time.time() - t0)
    shutil.rmtree(wd, ignore_errors=True)
    if found:
        report(prop, found)
        return 1
    log(f'{prop}: held on {res.traces} traces, {res.distinct} distinct states, {time.time() - t0:.0f} s')
    return 0


def write_evidence(prop, res, bad, found, wall):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    samples = res.samples or [{'models': res.exhaustive}]
    cov = {
        'states': res.distinct,
        'transitions': res.generated,
        'traces_validated_against_impl': res.traces,
        'events_by_kind': dict(sorted(res.events.items())),
        'design_models': res.exhaustive,
        'unreproduced_observations': 0 if found else len(bad),
        'samples': samples,
    }
    cov.update(res.notes)
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
          'assumptions': plan.ASSUMPTIONS, 'wall_s': round(wall, 1), 'violations': 1 if found else 0}
    with open(os.path.join(d, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def replay(path):
    c = json.load(open(path))
    fam = plan.FAMILIES[c['family']]
    wd = workdir('replay')
    rep = fam.replay(wd, c['case'])
    print(open(rep['trace']).read())
    for b in rep['bad']:
        print(b)
    return 1 if any(b['p'] == c['property'] for b in rep['bad']) else 0


def main():
    try:
        if len(sys.argv) == 3 and sys.argv[1] == '--replay':
            return replay(sys.argv[2])
        if len(sys.argv) != 2:
            die(__doc__)
        return check(sys.argv[1])
    except ToolError as e:
        die(f'error: {e}')
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        die(f'error: {e}')


if __name__ == '__main__':
    sys.exit(main())
