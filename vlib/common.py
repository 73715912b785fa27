"""Shared machinery: building the harness, running TLC, replaying and reporting."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
OUT = os.environ.get('VERIF_OUT', os.path.join(ROOT, 'out'))
JAR = '/opt/veriftools/tla/tla2tools.jar'
JOBS = 8


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    # cfg: the scheduling points in /repo, and seeds for tokio's random choices
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', RUSTFLAGS='--cfg stream_download_verif --cfg tokio_unstable')
    return e


_built = {}


def build(crate='harness', binary='sdverif'):
    """Builds a harness crate against /repo's working tree, returns the binary."""
    if crate in _built:
        return _built[crate]
    d = os.path.join(ROOT, crate)
    t0 = time.time()
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=d, env=env(),
                       capture_output=True, text=True, timeout=800)
    if r.returncode != 0:
        raise ToolError(f'building {crate} failed:\n{r.stdout}{r.stderr}'[-4000:])
    log(f'built {crate} in {time.time() - t0:.1f} s')
    _built[crate] = os.path.join(d, 'target', 'debug', binary)
    return _built[crate]


def log(msg):
    print(msg, flush=True)


def workdir(prop):
    d = os.path.join(OUT, prop)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


def run(cmd, timeout, cwd=None, extra=None):
    e = env()
    e.update(extra or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError(f'timed out after {timeout} s: {cmd}') from x


def tlc(module, wd, extra_env=None, config=None, args=(), workers=1, heap='3g', timeout=800, ok=(0,)):
    """Runs TLC in its own metadir, returns its output."""
    meta = os.path.join(wd, 'meta-' + re.sub(r'\W', '_', f'{config or module}{time.time_ns()}'))
    cmd = ['java', f'-Xmx{heap}', '-Xss16m', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4', '-cp', classpath(), 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', os.path.join(SPEC, (config or module) + '.cfg'), *args,
           os.path.join(SPEC, module + '.tla')]
    r = run(cmd, timeout, cwd=wd, extra=extra_env)
    shutil.rmtree(meta, ignore_errors=True)
    if r.returncode not in ok:
        raise ToolError(f'TLC failed ({r.returncode}) on {module}:\n{r.stdout[-3000:]}{r.stderr[-1000:]}')
    return r


def classpath():
    d = os.path.dirname(JAR)
    jars = [os.path.join(d, j) for j in sorted(os.listdir(d)) if j.endswith('.jar')]
    return ':'.join([JAR] + [j for j in jars if j != JAR])


def tlc_counts(out):
    """(generated, distinct) states of a TLC run."""
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(',', '')), int(d.replace(',', ''))


def fold(module, trace, wd, timeout=800):
    """Checks a trace file against a trace specification, returns its report."""
    r = tlc(module, wd, {'TRACE': trace}, timeout=timeout)
    m = re.search(r'^"REPORT (.*)"$', r.stdout, re.M)
    if not m:
        raise ToolError(f'no report from {module}:\n{r.stdout[-3000:]}')
    rep = json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))
    rep['generated'], rep['distinct'] = tlc_counts(r.stdout)
    return rep


def split_trace(path):
    """sid -> lines of its scenario"""
    res, cur = {}, None
    with open(path) as f:
        for line in f:
            line = line.rstrip('\n')
            if '"reset"' in line:
                e = json.loads(line)
                if e.get('e') == 'reset':
                    cur = res.setdefault(e['sid'], [])
            if cur is not None:
                cur.append(line)
    return res


def events(path):
    """number of events per kind"""
    n = {}
    rx = re.compile(r'"e":"(\w+)"')
    with open(path) as f:
        for line in f:
            m = rx.search(line)
            if m:
                n[m.group(1)] = n.get(m.group(1), 0) + 1
    return n


class Family:
    """A kind of scenario: a harness subcommand and the trace specification that judges it."""

    def __init__(self, name, sub, module, crate='harness', binary='sdverif'):
        self.name, self.sub, self.module, self.crate, self.binary = name, sub, module, crate, binary

    def record(self, out, args, timeout=800):
        b = build(self.crate, self.binary)
        r = run([b, self.sub, '--out', out, *map(str, args)], timeout)
        if r.returncode != 0:
            raise ToolError(f'{self.sub} {args} failed ({r.returncode}):\n{r.stdout[-1500:]}{r.stderr[-1500:]}')
        return out

    def shard(self, wd, tag, args):
        out = os.path.join(wd, f'{self.name}-{tag}')
        self.record(out, args)
        rep = fold(self.module, out, wd)
        rep['trace'] = out
        return rep

    def replay(self, wd, case, tag='replay'):
        """Runs one recorded case again, returns its report."""
        f = os.path.join(wd, f'{tag}.case')
        with open(f, 'w') as h:
            h.write(json.dumps(case) + '\n')
        return self.shard(wd, tag, ['--scenarios', f])


class Result:
    def __init__(self):
        self.bad = []          # (property, text, family, case, trace lines)
        self.generated = self.distinct = self.traces = 0
        self.events = {}
        self.samples = []
        self.notes = {}
        self.exhaustive = []

    def add(self, fam, rep):
        self.generated += rep['generated']
        self.distinct += rep['distinct']
        self.traces += rep['scenarios']
        for k, v in events(rep['trace']).items():
            k = f'{fam.name}.{k}'
            self.events[k] = self.events.get(k, 0) + v
        cases = None
        if rep['bad']:
            lines = split_trace(rep['trace'])
            cases = load_cases(rep['trace'])
            for b in rep['bad']:
                self.bad.append((b['p'], b['w'], fam, cases.get(b['sid']), lines.get(b['sid'], [])))
        if len(self.samples) < 3:
            cases = cases or load_cases(rep['trace'], 1)
            for c in list(cases.values())[:1]:
                self.samples.append({'family': fam.name, 'case': c})


def load_cases(trace, limit=None):
    res = {}
    with open(trace + '.scen') as f:
        for line in f:
            c = json.loads(line)
            res[c['sid']] = c
            if limit and len(res) >= limit:
                break
    return res


def parallel(jobs):
    """Runs callables, at most JOBS at a time; the first error wins."""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(j) for j in jobs]
        try:
            return [f.result() for f in futs]
        except BaseException:
            for f in futs:
                f.cancel()
            raise


def die(msg):
    print(msg, file=sys.stderr, flush=True)
    sys.exit(2)
