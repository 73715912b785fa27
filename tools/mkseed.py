"""Writes a planted bug: seed(id, property, needs, breaks, [(file, old, new)], main, ...)."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = '/verif/seeded'
SRC = 'crates/stream-download/src/'


def seed(id, prop, needs, breaks, edits, main, kit=True, deps='', toml=None):
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], check=True, capture_output=True)
        subprocess.run(f'git -C /repo archive HEAD crates | tar -x -C {t}', shell=True, check=True)
        subprocess.run(['git', 'init', '-q', t], check=True)
        subprocess.run(f'cd {t} && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(t, f if f.startswith('crates') else SRC + f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', t, 'diff'], check=True, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'main.rs'), 'w').write(('mod kit;\n' if kit else '') + main)
    k = os.path.join(HERE, 'seedkit')
    if kit:
        shutil.copy(os.path.join(k, 'kit.rs'), d)
    shutil.copy(os.path.join(k, 'demo.sh'), d)
    s = toml or open(os.path.join(k, 'Cargo.toml.in')).read()
    open(os.path.join(d, 'Cargo.toml.in'), 'w').write(s + deps)
