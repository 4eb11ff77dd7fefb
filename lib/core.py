"""Plumbing shared by all checks: building and driving the harness, running TLC,
known findings, evidence and the exit protocol."""
import fcntl, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, '.build')
BIN = os.path.join(BUILD, 'target', 'debug', 'ftml-harness')
SPEC = os.path.join(ROOT, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


def build():
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN='1.89.0', CARGO_NET_OFFLINE='true',
               CARGO_TARGET_DIR=os.path.join(BUILD, 'target'))
    env.pop('RUSTFLAGS', None)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=os.path.join(ROOT, 'harness'),
                           env=env, capture_output=True, text=True)
    if r.returncode:
        raise ToolError('harness does not build:\n' + r.stderr[-3000:])


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.quick = self.tier != 'thorough'
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, 'run', pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = os.path.join(BUILD, 'replay', pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.known = known(pid)
        self.known_seen = {}
        self.violations = []
        self.states = self.transitions = self.traces = self.evals = 0
        self.keys = set()
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.exhaustive = None

    def rng(self, salt=''):
        return random.Random(f'{self.seed}/{self.pid}/{salt}')

    # --- the code under test -------------------------------------------------
    def run(self, cases, timeout_ms=20000, stack_kb=8192, jobs=8):
        """Run cases through the harness; returns one result per case, in order.
        A process that dies takes down one case only: the culprit is identified
        from the progress log and the rest is run again without it."""
        self.evals += len(cases)
        results, todo = {}, list(range(len(cases)))
        attempt = 0
        while todo:
            attempt += 1
            fin = os.path.join(self.dir, 'in.ndjson')
            fout = os.path.join(self.dir, 'out.ndjson')
            prog = os.path.join(self.dir, 'progress')
            with open(fin, 'w') as f:
                for i in todo:
                    f.write(json.dumps(dict(cases[i], id=i)) + '\n')
            for p in (fout, prog):
                if os.path.exists(p):
                    os.remove(p)
            r = subprocess.run(['prlimit', f'--as={6 << 30}', BIN, fin, fout, str(jobs), str(timeout_ms), str(stack_kb)],
                               env=dict(os.environ, HARNESS_PROGRESS=prog), capture_output=True, text=True)
            if os.path.exists(fout):
                with open(fout) as f:
                    for line in f:
                        try:
                            o = json.loads(line)
                        except ValueError:
                            continue
                        results[o['id']] = o
            left = [i for i in todo if i not in results]
            if not left:
                break
            if r.returncode == 0:
                raise ToolError('the harness lost results')
            started = set()
            if os.path.exists(prog):
                with open(prog) as f:
                    started = {int(x) for x in f.read().split() if x.strip().isdigit()}
            suspects = [i for i in left if i in started] or left[:jobs]
            if jobs == 1 or len(suspects) == 1:
                results[suspects[0]] = dict(id=suspects[0], outcome='abort', stage='?', stages=[], cpu=0,
                                            message=(r.stderr or '')[-300:])
                todo = left[:]
                todo.remove(suspects[0])
            else:
                # find the culprit(s) among the suspects one by one
                for i in suspects:
                    with open(fin, 'w') as f:
                        f.write(json.dumps(dict(cases[i], id=i)) + '\n')
                    if os.path.exists(fout):
                        os.remove(fout)
                    r = subprocess.run(['prlimit', f'--as={6 << 30}', BIN, fin, fout, '1', str(timeout_ms), str(stack_kb)],
                                       env=dict(os.environ, HARNESS_PROGRESS=prog), capture_output=True, text=True)
                    got = None
                    if os.path.exists(fout):
                        with open(fout) as f:
                            for line in f:
                                got = json.loads(line)
                    results[i] = got or dict(id=i, outcome='abort', stage='?', stages=[], cpu=0, message=(r.stderr or '')[-300:])
                todo = [i for i in left if i not in results]
            if attempt > 5:
                for i in todo:
                    results.setdefault(i, dict(id=i, outcome='skipped', stage='', stages=[], cpu=0, message='too many aborts'))
                break
        return [results[i] for i in range(len(cases))]

    # --- the specification ---------------------------------------------------
    def tlc(self, module, env=None, traces=None, cfg=None, workers=8, timeout=int(os.environ.get("TLC_TIMEOUT", "850" if os.environ.get("VERIF_TIER") != "thorough" else "6000")), heap='10g', extra=(), simulate=0):
        """Run TLC (with simulate, that many random behaviours); returns (cases, rejects).  Any error TLC reports itself (an
        invariant of the specification, an evaluation error) is a ToolError."""
        e = dict(os.environ, **{k: str(v) for k, v in (env or {}).items()})
        if traces is not None and len(traces) > 1:
            # at most that much at a time, which is what the memory allows
            sizes = [len(json.dumps(t)) for t in traces]
            if sum(sizes) > CHUNK:
                cases, rejects, part, size = [], [], [], 0
                for t, n in zip(traces + [None], sizes + [0]):
                    if part and (t is None or size + n > CHUNK):
                        a, b = self.tlc(module, env, part, cfg, workers, timeout, heap, extra, simulate)
                        cases, rejects, part, size = cases + a, rejects + b, [], 0
                    part, size = part + [t], size + n
                return cases, rejects
        if traces is not None:
            path = os.path.join(self.dir, f'{module}.ndjson')
            with open(path, 'w') as f:
                for t in traces:
                    f.write(json.dumps(t) + '\n')
            e['TRACES'] = path
            if not traces:
                return [], []
        meta = os.path.join(self.dir, f'meta-{module}')
        if simulate:
            extra = ('-simulate', f'num={simulate}', '-depth', '500', '-seed', str(self.seed), *extra)
            workers = 1
        log = os.path.join(self.dir, f'{module}.log')
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-Dfile.encoding=UTF-8',
               '-Dstdout.encoding=UTF-8', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', meta, '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg', *extra, module + '.tla']
        with open(log, 'w') as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f'TLC ran out of time on {module}')
        shutil.rmtree(meta, ignore_errors=True)
        cases, rejects, other, stats = [], [], [], None
        with open(log) as f:
            for line in f:
                if line.startswith('"@@CASE '):
                    cases.append(json.loads(json.loads(line)[7:]))
                elif line.startswith('"@@REJECT '):
                    rejects.append(json.loads(json.loads(line)[9:]))
                else:
                    m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
                    if m:
                        stats = int(m.group(1)), int(m.group(2))
                    m = simulate and re.match(r'The number of states generated: (\d+)', line)
                    if m:
                        stats = int(m.group(1)), 0
                    other.append(line)
        text = ''.join(other)
        if r.returncode or ('Error:' in text if simulate else 'No error has been found' not in text) or not stats:
            i = text.find('Error:')
            raise ToolError(f'TLC on {module}: exit {r.returncode}\n' + text[i if i >= 0 else -2500:][:2500])
        self.states += stats[1]
        self.transitions += stats[0]
        if traces is not None:
            self.traces += len(traces)
        return cases, rejects

    # --- verdicts ----------------------------------------------------------------
    def seen(self, key):
        self.keys.add(key if isinstance(key, (str, int, tuple)) else json.dumps(key))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, why, case, detail=None, key=''):
        """Report, unless it is a listed finding.  key: what identifies it."""
        for k in self.known:
            if k['key'] and k['key'] in key:
                self.known_seen[k['key']] = k['text']
                return
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, f'{len(self.violations)}.json')
        if len(self.violations) < 20:
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'why': why, 'case': case, 'detail': detail}, f, indent=1)
        self.violations.append((why, path))

    def finish(self, level='model_checking', rule='', extra=None):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'evaluations': self.evals,
               'distinct_nontrivial': len(self.keys), 'rule': rule,
               'samples': [clip(s) for s in self.samples]}
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        cov.update(extra or {})
        ev = {'property': self.pid, 'tier': 'quick' if self.quick else 'thorough', 'seed': self.seed,
              'level': level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, text in self.known_seen.items():
            print(f'KNOWN-FINDING: property={self.pid} {text}')
        for why, path in self.violations[:10]:
            print(f'  {why}'[:400])
        if self.violations:
            print(f'VIOLATION property={self.pid} replay={self.violations[0][1]}')
            return 1
        print(f'{self.pid}: held; {self.states} states, {self.traces} traces, {self.evals} runs, '
              f'{ev["wall_s"]} s')
        return 0


CHUNK = 200 << 20


def clip(x, n=600):
    s = json.dumps(x, ensure_ascii=False)
    return x if len(s) <= n else s[:n] + '…'


def known(pid):
    out = []
    path = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) key=<(.*?)> (.*)', line)
                if m and m.group(1) == pid:
                    out.append({'key': m.group(2), 'text': m.group(3).strip()})
    return out


def cps(s):
    return [ord(c) for c in s]


def uncps(t):
    return ''.join(chr(c) for c in t)
