#!/usr/bin/env python3
"""mutate.py OUT [FILE...]: inside a world (world.sh), changes the sources of /repo one place at a time and
records which properties the specification reports broken. Undone afterwards; nothing is committed."""
import json
import os
import re
import subprocess
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, plan  # noqa: E402

SRC = '/repo/crates/stream-download/src/'
CORE = [(plan.CORE, p, 220) for p in ('base,seek', 'seek,drain', 'ring', 'fault', 'cancel', 'stall', 'prefetch,batch', 'unseek,ring')]
STORE = [(plan.STORE, 'ring', 600), (plan.STORE, 'adapt', 600), (plan.STORE, 'flat', 600)]
HTTP = [(plan.HTTP, 'http', 500)] * 2
REG = [(plan.REGISTRY, 'registry', 1500)] * 2
PROC = [(plan.PROCESS, 'process', 150)] * 4 + [(plan.COMMANDS, 'commands', 800)] * 2
ADAPT = [(plan.ADAPTER, 'async', 800)]
LIFE = [(plan.LIFE, 'life', 1500)]
CONC = [(plan.CONC, 'conc', 500)]
SETT = [(plan.SETTINGS, 'settings', 200)]
WHAT = {
    'lib.rs': CORE + LIFE, 'source/mod.rs': CORE, 'source/handle.rs': CORE, 'settings.rs': CORE + SETT,
    'storage/mod.rs': CORE + STORE, 'storage/bounded.rs': STORE + CONC + CORE[:3], 'storage/adaptive.rs': STORE + CONC + CORE[:3],
    'storage/memory.rs': STORE + CONC + CORE[:2], 'storage/temp.rs': STORE,
    'http/mod.rs': HTTP, 'http/reqwest_client.rs': HTTP, 'http/reqwest_middleware_client.rs': HTTP,
    'registry/mod.rs': REG, 'registry/matcher.rs': REG,
    'process/mod.rs': PROC, 'process/command_builder.rs': PROC, 'process/ffmpeg.rs': PROC, 'process/yt_dlp.rs': PROC,
    'async_read.rs': ADAPT + LIFE,
    '/repo/crates/stream-download-opendal/src/lib.rs': [(plan.ADAPTER, 'opendal', 1500)] * 2,
}

OPS = [
    ('lt', r' < ', ' <= '), ('le', r' <= ', ' < '), ('gt', r' > ', ' >= '), ('ge', r' >= ', ' > '),
    ('eq', r' == ', ' != '), ('ne', r' != ', ' == '), ('and', r' && ', ' || '), ('or', r' \|\| ', ' && '),
    ('add', r' \+ ', ' - '), ('sub', r' - ', ' + '), ('addeq', r' \+= ', ' = '), ('min', r'\.min\(', '.max('), ('max', r'\.max\(', '.min('),
    ('true', r'\btrue\b', 'false'), ('false', r'\bfalse\b', 'true'),
    ('not', r'if !', 'if '), ('if', r'\bif (?!let|!)([^{]+) \{', r'if !(\1) {'),
    ('some', r'\bSome\((\w+)\)(?=[;,)]|$)', 'None'), ('sat', r'saturating_sub', 'wrapping_sub'),
    ('one', r'notify_one\(\)', 'notify_waiters()'), ('isnone', r'is_some_and', 'is_none_or'), ('isn', r'is_none_or', 'is_some_and'),
    ('start', r'\.start\b', '.end'), ('end', r'\.end\b', '.start'), ('seqcst', r'take_restart\(\)', 'take_restart() || true'),
    ('off', r'\b(position|pos|start|len|end)\b(?=\)|;|,)', r'(\1 + 1)'),
]


def mutants(path):
    lines = open(path).read().split('\n')
    skip = False
    depth = 0
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith('#[cfg(test)]'):
            break
        if re.match(r'(trace|debug|info|warn|error)!\(', t):
            depth = t.count('(') - t.count(')')
            skip = depth > 0
            continue
        if skip:
            depth += t.count('(') - t.count(')')
            skip = depth > 0
            continue
        if not t or t.startswith('//') or t.startswith('#') or t.startswith('use ') or 'impl' in t or t.startswith('pub fn') \
                or t.startswith('fn ') or '->' in t or '=> {' in t and 'if' not in t:
            continue
        for name, a, b in OPS:
            for k, m in enumerate(re.finditer(a, l)):
                new = l[:m.start()] + m.expand(b) + l[m.end():]
                if new != l:
                    yield i, f'{name}{k}', lines, new
        if t.endswith(';') and not t.startswith(('let ', 'return', 'use ', 'pub ', 'const ', 'type ', 'break', 'continue', '}', ')', '.')) \
                and t.count('(') == t.count(')'):
            yield i, 'del', lines, re.match(r'\s*', l).group(0) + '();'


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or list(WHAT)
    part, parts = (int(x) for x in os.environ.get('PART', '0/1').split('/'))
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(x)['id']) for x in open(out)}
    n = 0
    for f in files:
        path = f if f.startswith('/') else SRC + f
        if not os.path.exists(path):
            print('no', path)
            continue
        orig = open(path).read()
        for i, name, lines, new in list(mutants(path)):
            n += 1
            if n % parts != part or (f, i + 1, name) in done:
                continue
            t0 = time.time()
            with open(path, 'w') as h:
                h.write('\n'.join(lines[:i] + [new] + lines[i + 1:]))
            try:
                r = one(WHAT[f])
            finally:
                with open(path, 'w') as h:
                    h.write(orig)
            rec = {'id': [f, i + 1, name], 'old': lines[i].strip(), 'new': new.strip(), 't': round(time.time() - t0), **r}
            with open(out, 'a') as h:
                h.write(json.dumps(rec) + '\n')


def one(jobs):
    common._built.clear()
    wd = '/tmp/mutate'
    subprocess.run(['mkdir', '-p', wd], check=True)
    try:
        for fam in {j[0].name: j[0] for j in jobs}.values():
            common.build(fam.crate, fam.binary)
    except common.ToolError:
        return {'res': 'nobuild'}

    def job(n, fam, prof, count):
        out = f'{wd}/{fam.name}-{n}'
        try:
            fam.record(out, ['--seed', 1000 + n, '--count', count, '--profiles', prof, '--secs', 60], timeout=150)
            rep = common.fold(fam.module, out, wd, timeout=200)
        except common.ToolError as e:
            return [('TOOL', str(e)[-300:])]
        return [(b['p'], b['w']) for b in rep['bad']]
    res = common.parallel([lambda n=n, j=j: job(n, *j) for n, j in enumerate(jobs)])
    c = {}
    for p, w in [x for r in res for x in r]:
        c.setdefault(p, {}).setdefault(w, 0)
        c[p][w] += 1
    return {'res': 'caught' if c else 'missed', 'by': c}


main()
