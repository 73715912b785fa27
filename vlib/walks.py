"""Turns TLC's state graph into walks that take every transition at least once."""
import json
import random
import re
import threading
from collections import deque

from vlib.common import ToolError, tlc, tlc_counts

_graphs = {}
_guards = {}


def once(key, make):
    """make(), computed once however many jobs ask for it"""
    with _guards.setdefault(key, threading.Lock()):
        if key not in _graphs:
            _graphs[key] = make()
        return _graphs[key]


def graph(module, config, wd):
    """state -> {label -> next state}, as printed by the action constraint `Edges`"""
    def make():
        r = tlc(module, wd, config=config, workers=1)
        g, first = {}, None
        for x in re.findall(r'^"EDGE (.*)"$', r.stdout, re.M):
            e = json.loads(json.loads('"' + x + '"'))
            g.setdefault(e['a'], {})[e['o']] = e['b']
            first = first or e['a']
        if not first:
            raise ToolError(f'no transitions from {config}')
        return g, first, tlc_counts(r.stdout)
    return once((module, config), make)


def cases(module, config, wd):
    """The cases printed by the invariant `Cases`, and TLC's counts."""
    def make():
        r = tlc(module, wd, config=config, workers=1)
        # the same case may end in several states
        texts = sorted(set(re.findall(r'^"CASE (.*)"$', r.stdout, re.M)))
        cs = [json.loads(json.loads('"' + x + '"')) for x in texts]
        if not cs:
            raise ToolError(f'no cases from {config}')
        return cs, tlc_counts(r.stdout)
    return once(('cases', module, config), make)


def cover(g, first, seed, length=60):
    """Walks from `first` that together take every transition."""
    rng = random.Random(seed)
    todo = {a: sorted(es) for a, es in g.items()}
    for v in todo.values():
        rng.shuffle(v)
    left = sum(len(v) for v in todo.values())
    walks = []

    def nearest(s, budget):
        """labels leading to the nearest state with transitions left"""
        seen, q = {s: None}, deque([s])
        while q:
            a = q.popleft()
            if todo.get(a):
                path = []
                while seen[a]:
                    a, o = seen[a]
                    path.append(o)
                return path[::-1] if len(path) <= budget else None
            for o, b in g.get(a, {}).items():
                if b not in seen:
                    seen[b] = (a, o)
                    q.append(b)
        return None

    while left:
        s, walk = first, []
        while len(walk) < length:
            if todo.get(s):
                o = todo[s].pop()
                left -= 1
                walk.append(o)
                s = g[s][o]
                continue
            path = nearest(s, length - len(walk) - 1 if walk else 10_000)
            if path is None:
                break
            for o in path:
                walk.append(o)
                s = g[s][o]
        if not walk:
            break
        walks.append(walk)
    return walks


def write(path, cfgs, walks):
    with open(path, 'w') as f:
        for i, w in enumerate(walks):
            f.write(json.dumps({'cfg': cfgs[i], 'decs': w}) + '\n')


def schedules(module, config, wd, seed, limit=None):
    """Behaviours of the design that together take every transition, as (cfg, decisions); TLC's counts;
    transitions taken; transitions."""
    return once(('schedules', module, config, seed, limit), lambda: _schedules(module, config, wd, seed, limit))


def _schedules(module, config, wd, seed, limit):
    r = tlc(module, wd, config=config, workers=1, args=('-fp', '7'))
    g = {}
    for x in re.finditer(r'^"EDGE (.*)"$', r.stdout, re.M):
        e = json.loads(x.group(1).replace('\\"', '"').replace('\\\\', '\\'))
        g.setdefault(e['a'], []).append((e['o'], e['b']))
    if 'init' not in g:
        raise ToolError(f'no transitions from {config}')
    g = {a: sorted(set(es)) for a, es in g.items()}
    counts = tlc_counts(r.stdout)
    rng = random.Random(seed)
    todo = {a: rng.sample(es, len(es)) for a, es in g.items()}
    # states from which a transition is still to be taken
    parents, alive = {}, {}
    for a, es in g.items():
        for b in {b for _, b in es}:
            parents.setdefault(b, []).append(a)
        alive[a] = len({b for _, b in es if b in g and b != a})

    def dead(a):
        stack = [a]
        while stack:
            a = stack.pop()
            if todo[a] or alive[a] > 0 or alive[a] == -1:
                continue
            alive[a] = -1
            for p in parents.get(a, ()):
                if p != a:
                    alive[p] -= 1
                    stack.append(p)

    left, cases = sum(map(len, todo.values())), []
    total = left
    while left and (limit is None or len(cases) < limit):
        a, labels, fresh = 'init', [], 0
        while a in g and len(labels) < 400:
            if todo[a]:
                o, b = todo[a].pop()
                left -= 1
                fresh += 1
                if not todo[a]:
                    dead(a)
            else:
                es = [(o, b) for o, b in g[a] if b in g and (todo[b] or alive.get(b, -1) > 0)]
                if not es:
                    break
                o, b = rng.choice(es)
            labels.append(o)
            a = b
        if not fresh:
            break
        cases.append((json.loads(labels[0]), [d for o in labels[1:] for d in o.split(';')]))
    return cases, counts, total - left, total
