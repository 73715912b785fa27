"""What each check runs: scenario families with their profiles, and model checking of the design."""
import glob
import json
import os
import random

from vlib import walks
from vlib.common import ROOT, Family

CORE = Family('core', 'core', 'Trace')
STORE = Family('store', 'store', 'TraceStore')
CONC = Family('conc', 'store', 'TraceStore')

HTTP = Family('http', 'http', 'TraceHttp', 'harness_http', 'httpverif')
WEB = Family('web', 'web', 'TraceWeb', 'harness_http', 'httpverif')
REGISTRY = Family('registry', 'registry', 'TraceRegistry')
PROCESS = Family('process', 'process', 'TraceProcess')
COMMANDS = Family('commands', 'commands', 'TraceCommands')
ADAPTER = Family('adapter', 'adapter', 'TraceAdapter', 'harness_adapter', 'adapterverif')
LIFE = Family('life', 'life', 'TraceLife')
SETTINGS = Family('settings', 'settings', 'TraceSettings')

FAMILIES = {f.name: f for f in (CORE, STORE, CONC, HTTP, WEB, REGISTRY, PROCESS, COMMANDS, ADAPTER, LIFE, SETTINGS)}

# property -> [(family, profiles, share of the budget)]
TRACES = {
    'C01': [(CORE, 'base,seek,prefetch,batch,ring', 1)],
    'C02': [(CORE, 'base,seek,drain,ring,unseek', 1)],
    'C03': [(CORE, 'base,seek,prefetch,ring,cancel,fault', 1)],
    'C04': [(CORE, 'seek,seek,base,ring,unseek', 1)],
    'C05': [(CORE, 'seek,drain,prefetch,ring,base', 1)],
    'C06': [(CORE, 'drain,drain,seek,stall', 1)],
    'C07': [(CORE, 'fault', 1)],
    'C08': [(CORE, 'cancel', 7), (LIFE, 'life', 1)],
    'C09': [(CORE, 'fault,cancel,drain,base', 7), (LIFE, 'life', 1)],
    'C10': [(CORE, 'stall,stall,prefetch,cancel', 1)],
    'C11': [(CORE, 'prefetch,prefetch,seek', 1)],
    'C12': [(CORE, 'base,prefetch,ring,batch,drain', 1)],
    'C13': [(STORE, 'ring', 1)],
    'C14': [(CORE, 'ring', 1)],
    'C15': [(CORE, 'ring', 3), (STORE, 'ring,adapt', 1)],
    'C16': [(STORE, 'flat', 1)],
    'C17': [(STORE, 'adapt', 1)],
    'C18': [(REGISTRY, 'registry', 1)],
    'C19': [(REGISTRY, 'registry', 1)],
    'C20': [(HTTP, 'http', 1)],
    'C21': [(HTTP, 'http', 1)],
    'C22': [(PROCESS, 'process', 1)],
    'C23': [(ADAPTER, 'opendal', 1)],
    'C24': [(CORE, 'unseek', 6), (ADAPTER, 'async', 1)],
    'C25': [(COMMANDS, 'commands', 1)],
    'C26': [(CORE, 'batch', 1)],
    'C27': [(LIFE, 'life', 1)],
    'C28': [(SETTINGS, 'settings', 1)],
    'C29': [(CONC, 'conc', 1)],
    'C30': [(WEB, 'web', 1)],
}

# property -> [(module, config, bounds)] checked exhaustively
MODELS = {
    'C13': [('StoreModel', 'Ring', 'ring of 3, positions 0..8, operations up to 4 bytes, 2 byte values')],
    'C16': [('StoreModel', 'Flat', 'positions 0..5, operations up to 3 bytes, 2 byte values')],
    'C17': [('StoreModel', 'Ring', 'ring of 3, positions 0..8, operations up to 4 bytes, 2 byte values')],
    'C29': [('StoreConc', 'StoreConc', 'ring of 2, a read or seek and a write or seek at the same time after any 3 operations')],
}

# more in thorough runs
DEEP = {'C29': [('StoreConc', 'StoreConcDeep', 'as StoreConc, after any 4 operations')]}

BOUNDS = {
    'CoreSeek': 'length 3, prefetch 0 and 2, chunks of 1 and 2, 2 calls: reads of 1 and 2, seeks to 0..3',
    'CoreUnknown': 'unknown length (3), prefetch 0 and 2, 2 calls: reads of 1 and 2, seeks to 0 and 2',
    'CoreUnseek': 'no range support, length 3 known or not, prefetch 0 and 2, 2 calls: reads of 1 and 2, seeks to 0 and 2',
    'CoreRing': 'ring of 2, length 4 known or not, prefetch 0 and 1, 2 calls: reads of 1 and 2, absolute, relative and end seeks',
    'CoreRing3': 'ring of 2, length 5, 3 calls: reads of 1 and 2, seeks to 0, +2 and -1',
    'CoreRingLong': 'ring of 3, unknown length (5), 3 calls: reads of 1 and 2, seeks to 0, +2 and -1',
    'CoreFault': 'length 2, finish hook passing or failing, failing write or not, one chunk error, empty chunk or early '
                 'end, one failing or hanging call of the source, 2 calls: reads of 2, seeks to 0 and 2',
    'CoreCancel': 'length 2, cancellation anywhere, reader dropped or not, one failing or hanging call of the source, 2 calls',
    'CoreStall': 'length 2, prefetch 0, 1 and 2, up to 4 half retry timeouts, one chunk fault, one failing or hanging call, 1 call',
    'CoreStallOne': 'length 2, up to 4 half retry timeouts, one failing or hanging call of the source, 1 call',
    'CoreBatch': 'length 3, chunks of 1 and 3, batches of 1 and 2, storage accepting everything or 1 byte, prefetch 0 and 2, 1 call',
    'CoreLiveSeek': 'termination under fairness: length 2, prefetch 0 and 2, 2 calls',
    'CoreLiveRing': 'termination under fairness: ring of 2, length 5, 2 calls',
    'CoreLiveFault': 'termination under fairness: as CoreFault',
    'CoreLiveCancel': 'termination under fairness: as CoreCancel',
}
# property -> (design models of the core in quick runs, more in thorough runs, schedules)
DESIGN = {
    'C01': (['CoreUnknown'], ['CoreSeek', 'CoreRing', 'CoreUnseek', 'CoreBatch'], ['CoreGenSeek']),
    'C02': (['CoreSeek'], ['CoreUnknown', 'CoreRing', 'CoreUnseek'], ['CoreGenSeek']),
    'C03': (['CoreLiveSeek', 'CoreLiveRing'], ['CoreSeek', 'CoreRing', 'CoreLiveFault', 'CoreLiveCancel'], ['CoreGenRing']),
    'C04': (['CoreSeek'], ['CoreUnknown', 'CoreRing', 'CoreUnseek'], ['CoreGenSeek']),
    'C05': (['CoreSeek'], ['CoreUnknown', 'CoreRing', 'CoreUnseek'], ['CoreGenSeek']),
    'C06': (['CoreSeek', 'CoreLiveSeek'], ['CoreStall', 'CoreFault'], ['CoreGenSeek']),
    'C07': (['CoreFault'], ['CoreStall', 'CoreLiveFault'], ['CoreGenFault']),
    'C08': (['CoreCancel'], ['CoreLiveCancel'], ['CoreGenCancel']),
    'C09': (['CoreCancel'], ['CoreFault', 'CoreLiveFault', 'CoreLiveCancel'], ['CoreGenFault']),
    'C10': (['CoreStallOne'], ['CoreStall', 'CoreFault'], ['CoreGenStall']),
    'C11': (['CoreSeek'], ['CoreUnknown', 'CoreStall'], ['CoreGenSeek']),
    'C12': (['CoreUnknown', 'CoreBatch'], ['CoreSeek', 'CoreRing', 'CoreFault'], ['CoreGenBatch']),
    'C14': (['CoreRing'], ['CoreRing3', 'CoreRingLong', 'CoreLiveRing'], ['CoreGenRing', 'CoreGenAhead']),
    'C15': (['CoreRing'], ['CoreRing3', 'CoreRingLong'], ['CoreGenAhead']),
    'C24': (['CoreUnseek'], [], ['CoreGenUnseek']),
    'C26': (['CoreBatch'], ['CoreRing', 'CoreStall'], ['CoreGenBatch']),
}


def models(prop, tier):
    quick, more, _ = DESIGN.get(prop, ([], [], []))
    deep = DEEP.get(prop, []) if tier == 'thorough' else []
    return MODELS.get(prop, []) + deep + [('CoreMC', c, BOUNDS[c]) for c in quick + (more if tier == 'thorough' else [])]


# scenarios per shard
QUICK, THOROUGH = 1600, 20000
COUNTS = {'core': QUICK, 'store': 4000, 'http': 2500, 'registry': 5000, 'process': 700, 'commands': 2500, 'adapter': 6000, 'life': 3000,
          'settings': 300, 'conc': 800, 'web': 300}


def covering(fam, module, config, cfgs, prefix=()):
    """A test of the real code per transition of the design model, for each configuration."""
    def gen(wd, seed, tier, n=0):
        g, first, counts = walks.graph(module, config, wd)
        ws = walks.cover(g, first, seed)
        path = os.path.join(wd, f'{fam.name}-{config}-{n}.cases')
        walks.write(path, [c for c in cfgs for _ in ws], [[*prefix, *w] for w in ws] * len(cfgs))
        rep = fam.shard(wd, f'cover-{config}-{n}', ['--scenarios', path])
        rep['transitions'] = {config: sum(len(e) for e in g.values()) * len(cfgs)}
        rep['design'] = {'model': config, 'generated': counts[0], 'distinct': counts[1]}
        return rep
    gen.fam = fam
    return gen


def every(fam, module, config, part=0, parts=1, limit=None):
    """A test of the real code per case printed by the design model."""
    def gen(wd, seed, tier, n=0):
        cs, counts = walks.cases(module, config, wd)
        if limit and tier == 'quick':
            cs = random.Random(seed).sample(cs, min(limit, len(cs)))
        path = os.path.join(wd, f'{fam.name}-{config}-{n}.cases')
        with open(path, 'w') as f:
            f.writelines(json.dumps(c) + '\n' for c in cs[part::parts])
        rep = fam.shard(wd, f'every-{config}-{n}', ['--scenarios', path])
        rep['transitions'] = {config: len(cs[part::parts])}
        rep['design'] = {'model': config, 'generated': counts[0], 'distinct': counts[1]}
        return rep
    gen.fam = fam
    return gen


def scheduled(config, part, parts=8, limit=3600, module='CoreMC'):
    """Behaviours of the design model of the core, forced on the real code. What tokio chooses at random isn't
    controlled, so those that got out of step are tried again with other choices."""
    def gen(wd, seed, tier, n=0):
        cs, counts, taken, total = walks.schedules(module, config, wd, seed, limit if tier == 'quick' else None)
        rng = random.Random(seed * 64 + part)
        left = [(cfg, decs) for cfg, decs in cs[part::parts]]
        reps, steps, out = [], 0, 0
        for k in range(3):
            left = [({**cfg, 'rs': rng.randrange(1, 1 << 31)}, decs) for cfg, decs in left]
            path = os.path.join(wd, f'{config}-{part}-{k}.cases')
            walks.write(path, [c for c, _ in left], [d for _, d in left])
            rep = CORE.shard(wd, f'{config}-{part}-{k}', ['--scenarios', path])
            with open(rep['trace'] + '.scen') as f:
                did = [json.loads(x)['decs'][:len(d)] for x, (_, d) in zip(f, left)]
            for d, (_, want) in zip(did, left):
                steps += sum(a == b for a, b in zip(d, want))
            left = [c for d, c in zip(did, left) if d != c[1]]
            reps.append(rep)
            if not left:
                break
        reps[0]['in_step'] = {config: len(cs[part::parts]) - len(left)}
        reps[0]['out_of_step'] = {config: len(left)}
        if part == 0:
            reps[0]['transitions'] = {config: taken}
            reps[0]['transitions_total'] = {config: total}
        reps[0]['design'] = {'model': config, 'generated': counts[0], 'distinct': counts[1]}
        return reps
    gen.fam = CORE
    gen.warm = lambda wd, seed, tier: walks.schedules(module, config, wd, seed, limit if tier == 'quick' else None)
    return gen


def witnesses(part, parts=8, exact=4, near=8):
    """The behaviours that tell broken variants of the design from this one (tools/witness.py), and others near them."""
    def gen(wd, seed, tier, n=0):
        more = 1 if tier == 'quick' else 10
        cases = []
        for f in sorted(glob.glob(os.path.join(ROOT, 'witness', '*.jsonl'))):
            with open(f) as h:
                ws = [json.loads(x) for x in h]
            for w in ws:
                cases += [(w['cfg'], w['decs'], k >= exact * more) for k in range((exact + near) * more)]
        rng = random.Random(seed * 64 + part)
        cases = [({**cfg, 'rs': rng.randrange(1, 1 << 31)}, nearby(decs, rng) if vary else decs)
                 for cfg, decs, vary in cases[part::parts]]
        path = os.path.join(wd, f'witness-{part}.cases')
        walks.write(path, [c for c, _ in cases], [d for _, d in cases])
        return CORE.shard(wd, f'witness-{part}', ['--scenarios', path])
    gen.fam = CORE
    return gen


def nearby(decs, rng):
    """The same decisions but for a few: dropped, repeated, swapped or put elsewhere."""
    d = list(decs)
    for _ in range(rng.randint(1, 4)):
        i = rng.randrange(len(d)) if d else 0
        if not d:
            break
        k = rng.randrange(5)
        if k == 0:
            d.pop(i)
        elif k == 1:
            d.insert(i, rng.choice('DR'))
        elif k == 2:
            d.insert(i, rng.choice(decs))
        elif k == 3:
            j = rng.randrange(len(d))
            d[i], d[j] = d[j], d[i]
        else:
            d.insert(rng.randrange(len(d)), d.pop(i))
    return d


def store(kind, cap=2, cl=-1, accept=0, base=0):
    return {'kind': kind, 'cl': cl, 'cap': cap, 'accept': accept, 'place': 0, 'base': base}


# property -> scenario generators driven by the design model
GENERATED = {
    'C13': [covering(STORE, 'StoreModel', 'RingGen', [store('bmem'), store('btemp')]),
            covering(STORE, 'StoreModel', 'RingGen', [store('bmem', accept=1), store('bmem', cap=5, cl=2),
                                                store('bmem', cap=3, base=2 ** 32 - 3)])],
    'C16': [covering(STORE, 'StoreModel', 'FlatGen', [store('mem'), store('temp'), store('mem', cl=3)])],
    'C17': [covering(STORE, 'StoreModel', 'RingGen', [store('adapt'), store('adaptmt')]),
            covering(STORE, 'StoreModel', 'FlatGen', [store(k, 2, cl) for k in ('adapt', 'adaptmt') for cl in (0, 1, 2, 3)])],
}

HTTP_CONFIGS = [('Http', 4, 'bytes'), ('HttpPlain', 4, 'none'), ('HttpUnknown', None, 'bytes'),
                ('HttpBlind', None, 'none')]


def http_walks(pick):
    return [covering(HTTP, 'HttpModel', f'{name}Gen',
                     [{'client': c, 'ar': ar, 'cl': cl, 'ct': 0, 'xh': 0, 'url': 0}
                      for c in (['reqwest', 'middleware'] if pick == name else ['reqwest'])], ['new ok'])
            for name, cl, ar in HTTP_CONFIGS]


GENERATED['C20'] = http_walks('Http')
GENERATED['C21'] = http_walks('HttpPlain')
GENERATED['C18'] = GENERATED['C19'] = [every(REGISTRY, 'RegistryModel', c, k, 4)
                                       for c in ('RegistryDeep', 'RegistryWide') for k in range(4)]
GENERATED['C22'] = ([every(PROCESS, 'ProcessModel', 'ProcessOps', k, 3) for k in range(3)]
                    + [every(PROCESS, 'ProcessModel', 'ProcessPipes', k, 4, 3000) for k in range(4)]
                    + [every(PROCESS, 'ProcessModel', 'ProcessMissing')])
GENERATED['C23'] = [covering(ADAPTER, 'AdapterModel', config,
                             [{'kind': 'opendal', 'size': size, 'chunk': 2, 'ct': '', 'len': -1}], ['new ok'])
                    for config, size in (('AdapterGen', 5), ('AdapterEmptyGen', 0))]
GENERATED['C27'] = [every(LIFE, 'LifeModel', 'LifeGen', k, 8) for k in range(8)]
GENERATED['C28'] = [every(SETTINGS, 'SettingsModel', 'Settings', k, 8) for k in range(8)]
GENERATED['C29'] = [every(CONC, 'StoreConc', 'StoreConcGen', k, 8) for k in range(8)]
GENERATED['C30'] = [every(WEB, 'WebModel', f'{c}Gen', k, 8, 600) for c in ('Web', 'WebPlain', 'WebUnknown', 'WebBlind') for k in range(8)]
GENERATED['C25'] = [every(COMMANDS, 'CommandsModel', 'Commands', k, 4) for k in range(4)]

for _p, (_, _, _configs) in DESIGN.items():
    GENERATED[_p] = GENERATED.get(_p, []) + [scheduled(c, k, limit=3600 // len(_configs)) for c in _configs for k in range(8)]
    GENERATED[_p] += [witnesses(k) for k in range(8)]

ASSUMPTIONS = [
    'the scheduling points added behind cfg(stream_download_verif) and the calls of the source, the '
    'storage and the callbacks cover the places where the threads of the stream interact',
    'sequentially consistent memory: threads only switch at scheduling points',
    'virtual time: timers fire in order and only when the schedule advances the clock',
]

NOTE = ('Every event of every recorded execution of the real code is judged by the specification; executions come '
        'from controlled, seeded schedules, so this is not exhaustive for the code. Assumes sequentially consistent '
        'memory and that threads only interact at the scheduling points.')
NOTES = {'C30': 'Every event of every recorded execution of the real code is judged by the specification; executions combine calls and '
                'answers enumerated from the design model and random ones, in real time with real threads, so this is not '
                'exhaustive for the code.'}
TECHNIQUE = {}
