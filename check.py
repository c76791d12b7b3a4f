#!/usr/bin/env python3
"""Deterministic simulation checks for nestl.

  check.py PROPERTY            decide a property (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py replay FILE         run a replay file again
  check.py build [PROPERTY..]  only build
  check.py selftest [N]        same seed, separate processes, same execution (N seeds per target)
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NESTL_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
CXX = os.environ.get('SIM_CXX', 'g++-13' if shutil.which('g++-13') else 'g++')
JOBS = os.cpu_count() or 4
FLAGS = {
    'exc': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'nx':  ['-O1', '-fno-exceptions', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'opt': ['-O2', '-DNDEBUG'],
}
COMMON = ['-std=gnu++11', '-w', '-g0', '-pthread']

NAMES = ['', 'CAUSE', 'LIFE', 'MEM', 'VALID', 'STRONG', 'VEC', 'LIST', 'SET', 'OWN', 'WEAK', 'NOFAIL', 'CAP', 'BULK', 'THROWAPI', 'NEST', 'HUGE', 'ALGO', 'PARITY', 'ALLOC', 'RANGES', 'INDEP']
PROPS = {'C%02d' % i: i for i in range(1, 22)}
PARITY = 18
INDEP = 21

ALL = {
    'vector': {'exc': [0, 1, 2, 3, 4, 5, 6, 7, 8], 'nx': [3, 4, 6, 8], 'opt': [0, 3, 8]},
    'list':   {'exc': [0, 1, 2, 3, 4, 5, 6, 7, 8], 'nx': [3, 4, 6, 8], 'opt': [0]},
    'set':    {'exc': [0, 1, 2, 3, 4, 5, 6, 7, 8], 'nx': [3, 4, 5, 6, 8], 'opt': [0]},
    'shared': {'exc': [0, 1, 3, 4, 6],       'nx': [3, 4, 6], 'opt': [0]},
    'nested': {'exc': [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], 'nx': [3, 4, 6, 7, 8, 10], 'opt': [0]},
    'keyed':  {'exc': [0, 1, 2, 3, 4, 5],    'nx': [2, 3, 4, 5], 'opt': [0]},
    'tree':   {'exc': [0, 1, 2, 3, 4],       'nx': [3, 4],    'opt': [0]},
    'throw':  {'exc': [0, 1, 2, 3, 4, 5],    'nx': [], 'opt': [0]},
    'bulk':   {'exc': [0, 1, 2, 3],             'nx': [1, 3],    'opt': [0]},
    'alg':    {'exc': [0, 1, 2, 3, 4, 6, 8], 'nx': [3, 6, 8], 'opt': [0, 8]},
}
WORLDS = list(ALL)

def T(spec):
    """'vector:exc=0,1;nx=3 list:exc' -> targets; a world alone means everything of it"""
    out = []
    for w in spec.split():
        name, _, rest = w.partition(':')
        if not rest:
            rest = ';'.join(ALL[name])
        for part in rest.split(';'):
            cfg, _, vs = part.partition('=')
            for v in ([int(x) for x in vs.split(',')] if vs else ALL[name][cfg]):
                out.append((name, v, cfg))
    return out

# which simulated systems decide which property, in the quick tier; the thorough tier always takes every configuration
QUICK = {
    1:  'vector:exc=0,1,2,3;nx=3,4 list:exc=0,1,3;nx=3 set:exc=0,1;nx=3 shared:exc=0,1,3;nx=3 nested:exc=0,1,3;nx=4 keyed:exc=0,3 tree:exc=0,4 throw:exc=0,2 alg:exc=0,1 vector:exc=7 bulk:exc=2',
    2:  'vector:exc=0,2,3,5;nx=3 list:exc=0,2,3;nx=3 set:exc=0,2,3;nx=3 shared:exc=0,3;nx=3 nested:exc=0,1,2,6,9;nx=3 keyed:exc=0,3 tree:exc=0,1;nx=3 throw:exc=0,2 alg:exc=0,3 vector:exc=7 set:exc=7 bulk:exc=2',
    3:  'vector:exc=0,1,2,3;nx=3 list:exc=0,2,3;nx=3 set:exc=0,2,3,5;nx=3 shared:exc=0,1,3;nx=3 nested:exc=0,1,2,6;nx=3 keyed:exc=0,3 tree:exc=0,1;nx=3 throw:exc=0,2 bulk:exc=0;nx=3',
    4:  'vector:exc=0,2,3,5,8;nx=3,4;opt=0 list:exc=0,2,3;nx=3 set:exc=0,1,3;nx=3 shared:exc=0 nested:exc=0,1,2,3,9;nx=4 keyed:exc=0,3 tree:exc=0,3;nx=4 throw:exc=0,2 alg:exc=0 bulk:exc=0,1,2',
    5:  'vector:exc=0,2,3,5,8;nx=3,4;opt=0 list:exc=0,2,3;nx=3,4 set:exc=0,2,3;nx=3,4 shared:exc=0,3;nx=3 nested:exc=0,1,2,3;nx=3 keyed:exc=0,5;nx=4 tree:exc=0,1;nx=3 throw:exc=0,1,2,3 alg:exc=2 vector:exc=7 list:exc=7 bulk:exc=2',
    6:  'vector nested:exc=0,2,4,6,9;nx=4 tree:exc=0,2,3;nx=3 bulk:exc=0,1;nx=3',
    7:  'list nested:exc=1,3,5,7,10;nx=3 tree:exc=1,4;nx=4 throw:exc=2,3 bulk:exc=0,1;nx=3',
    8:  'set keyed bulk:exc=0,1;nx=3',
    9:  'shared nested:exc=6,7;nx=6,7 keyed:exc=2;nx=2',
    10: 'shared',
    11: 'vector:exc=0,2,3,6;nx=3,6 list:exc=0,2,3,6;nx=3 set:exc=0,2,3;nx=3 shared:exc=0,3;nx=3 nested:exc=0,1,2,6 keyed:exc=0,5 tree:exc=0,1 throw:exc=0,1,2,3 bulk:exc=0',
    12: 'vector nested:exc=0,2,4,6;nx=4 tree:exc=0,3 bulk:exc=0,2;nx=1',
    13: 'vector:exc=0,1,2,3,5,8;nx=3,4 list:exc=0,1,2,3;nx=3,4 set:exc=0,1,2,3;nx=3 nested:exc=0,1,2,3,4,5;nx=3 keyed:exc=0,3;nx=4 tree:exc=0,1,3;nx=4 alg:exc=0 throw:exc=0,2 bulk:exc=0,2;nx=3',
    14: 'throw',
    15: 'nested keyed tree alg:exc=0,3,4;nx=3 vector:exc=3,4;nx=3,4 list:exc=3,4;nx=3 set:exc=3;nx=3 shared:exc=3;nx=3 vector:exc=7 list:exc=7 set:exc=7',
    16: 'vector:exc=0,1,2,3,4,6,8;nx=3,4,6,8;opt=0,3',
    17: 'alg',
    18: '',
    19: 'vector:exc=0,1,3,5,6;nx=3,6 list:exc=0,1,3;nx=3 set:exc=0,1,3,5;nx=3,5 shared:exc=0,1,3,6;nx=3 throw:exc=0,2,4,5',
    20: 'alg',
    21: 'vector:exc=0,3,6,8;nx=3 list:exc=0,3,6;nx=3 set:exc=0,3,6;nx=3 shared:exc=0,3;nx=3 nested:exc=0,1,7;nx=3 keyed:exc=0 tree:exc=0,4 throw:exc=0,2 alg:exc=0',
}
PAIRS = [(w, v) for w in WORLDS for v in ALL[w]['nx'] if v in ALL[w]['exc']]
# runs per target in the quick tier; cheap worlds get more
QUICK_RUNS = {'vector': 8000, 'list': 8000, 'set': 5000, 'shared': 16000, 'nested': 7000, 'keyed': 5000, 'tree': 5000, 'throw': 8000, 'alg': 8000, 'bulk': 50}
THOROUGH_FACTOR = 40

def targets_of(pid, tier):
    if pid == PARITY:
        return [(w, v, c) for (w, v) in PAIRS for c in ('exc', 'nx')]
    q = T(QUICK[pid])
    if tier == 'quick':
        return q
    worlds = []
    for w, _, _ in q:
        if w not in worlds: worlds.append(w)
    return T(' '.join(worlds))

# ------------------------------------------------------------------------------------------------ building
def tree_files():
    fs = []
    for root, dirs, names in os.walk(os.path.join(REPO, 'nestl')):
        dirs.sort()
        fs += [os.path.join(root, n) for n in sorted(names)]
    fs += sorted(glob.glob(os.path.join(SIM, '*')))
    return fs

def build_key():
    h = hashlib.sha256()
    for f in tree_files():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh: h.update(fh.read())
    h.update(repr((CXX, FLAGS, COMMON)).encode())
    return h.hexdigest()[:20]

class Build:
    def __init__(self):
        self.root = os.path.join(HERE, 'build')
        os.makedirs(self.root, exist_ok=True)
        self.lock = open(os.path.join(self.root, '.lock'), 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        key = build_key()
        self.dir = os.path.join(self.root, key)
        for d in os.listdir(self.root):
            p = os.path.join(self.root, d)
            if os.path.isdir(p) and d != key: shutil.rmtree(p, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.errors = {}

    def cc(self, args, out):
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run([CXX] + args + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return r.stdout
        os.rename(tmp, out)
        return None

    def obj(self, name, cfg):
        return os.path.join(self.dir, '%s.%s.o' % (name, cfg))

    def exe(self, t):
        return os.path.join(self.dir, '%s.%d.%s' % t)

    def make(self, targets):
        cfgs = sorted({c for _, _, c in targets})
        inc = ['-I' + REPO, '-I' + SIM]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            base = {}
            for c in cfgs:
                for n in ('core', 'main'):
                    if not os.path.exists(self.obj(n, c)):
                        base[(n, c)] = ex.submit(self.cc, COMMON + FLAGS[c] + inc + ['-c', os.path.join(SIM, n + '.cpp')], self.obj(n, c))
            def one(t):
                w, v, c = t
                if os.path.exists(self.exe(t)): return None
                o = self.exe(t) + '.o'
                e = self.cc(COMMON + FLAGS[c] + inc + ['-DVARIANT=%d' % v, '-c', os.path.join(SIM, 'world_%s.cpp' % w)], o)
                if e: return e
                return o
            work = {t: ex.submit(one, t) for t in targets}
            for k, f in base.items():
                e = f.result()
                if e: raise SystemExit('the simulator itself does not compile:\n' + e[:4000])
            def link(t, o):
                w, v, c = t
                e = self.cc(['-pthread'] + FLAGS[c] + [o, self.obj('core', c), self.obj('main', c)], self.exe(t))
                os.unlink(o)
                return e
            links = {}
            for t, f in work.items():
                r = f.result()
                if r is None: continue
                if r.endswith('.o') and os.path.exists(r): links[t] = ex.submit(link, t, r)
                else: self.errors[t] = r
            for t, f in links.items():
                e = f.result()
                if e: self.errors[t] = e
        fcntl.flock(self.lock, fcntl.LOCK_UN)
        return [t for t in targets if t not in self.errors]

# ------------------------------------------------------------------------------------------------ running
ENV = {k: v for k, v in os.environ.items() if not k.startswith(('ASAN_', 'LD_PRELOAD', 'MALLOC_'))}

def exec_program(exe, text, scratch, flag=None):
    """-> (failed, tags, hash, message, stdout)"""
    fd, path = tempfile.mkstemp(dir=scratch, suffix='.prog')
    with os.fdopen(fd, 'w') as f: f.write(text)
    try:
        r = subprocess.run([exe, 'exec', path] + ([flag] if flag else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60, env=ENV)
        out = r.stdout
    except subprocess.TimeoutExpired:
        return (False, 0, '', 'timeout', '')
    finally:
        os.unlink(path)
    last = out.strip().splitlines()[-1] if out.strip() else ''
    m = re.match(r'FAIL tags=([0-9a-f]+) step=(\d+) hash=([0-9a-f]+) ?(.*)', last)
    if m: return (True, int(m.group(1), 16), m.group(3), m.group(4), out)
    m = re.match(r'PASS hash=([0-9a-f]+)', last)
    if m: return (False, 0, m.group(1), '', out)
    return (False, 0, '', 'no verdict: ' + last[:200], out)

def gen(exe, seed, focus):
    return subprocess.run([exe, 'gen', str(seed), '%x' % focus], stdout=subprocess.PIPE, text=True, check=True, env=ENV).stdout

def steps_of(text):
    lines = text.splitlines()
    return [l for l in lines if not l.startswith('step ')], [l for l in lines if l.startswith('step ')]

def join(head, steps):
    return '\n'.join(head + steps) + '\n'

def minimise(text, bad, limit=700, seconds=90):
    """smallest program found for which bad(text) still holds"""
    head, steps = steps_of(text)
    tries = [0]
    end = time.time() + seconds
    def ok(s):
        if tries[0] >= limit or time.time() > end: return False
        tries[0] += 1
        if bad(join(head, s)): return True
        # another program has other places to exchange the clients at
        line = next((k for k, l in enumerate(head) if l.startswith('schedule ')), None)
        if line is None: return False
        for rate in (200, 60, 16):
            h = head[:line] + ['schedule %s %d' % (head[line].split()[1], rate)] + head[line + 1:]
            tries[0] += 1
            if h != head and bad(join(h, s)): head[:] = h; return True
        return False
    n = 2
    while len(steps) >= 2:
        size = max(1, len(steps) // n)
        cut = False
        i = 0
        while i < len(steps):
            cand = steps[:i] + steps[i + size:]
            if cand and ok(cand): steps = cand; cut = True
            else: i += size
        if size == 1:
            if not cut: break
        else: n = min(len(steps), n * 2)
    for i in range(len(steps)):       # fewer faults, smaller numbers
        w = steps[i].split()
        j = 6
        while j < len(w):
            c = w[:j] + w[j + 1:]
            if not w[j].startswith('client=') and ok(steps[:i] + [' '.join(c)] + steps[i + 1:]): w = c
            else: j += 1
        for j in range(2, min(6, len(w))):
            for v in ('0', '1', '2', '5'):
                if w[j] == v: break
                c = w[:j] + [v] + w[j + 1:]
                if ok(steps[:i] + [' '.join(c)] + steps[i + 1:]): w = c; break
        steps = steps[:i] + [' '.join(w)] + steps[i + 1:]
    return join(head, steps)

def minimise_schedule(exe, text, bad, scratch, seconds=60):
    """replaces the seeded schedule by the list of the points where the clients are exchanged, as few as possible"""
    if not re.search(r'^schedule ', text, re.M): return text
    out = exec_program(exe, text, scratch, '-s')[4]
    m = re.search(r'^switches(( \d+)*)$', out, re.M)
    if not m: return text
    points = m.group(1).split()
    def put(ps): return re.sub(r'^(schedule .*)$', lambda x: x.group(1) + '\nswitches ' + ' '.join(ps), text, count=1, flags=re.M)
    end = time.time() + seconds
    if not bad(put(points)): return text
    n = 2
    while points and time.time() < end:
        size = max(1, len(points) // n)
        cut = False
        i = 0
        while i < len(points) and time.time() < end:
            cand = points[:i] + points[i + size:]
            if bad(put(cand)): points = cand; cut = True
            else: i += size
        if size == 1:
            if not cut: break
        else: n = min(len(points), n * 2)
    return put(points)

class Job:
    def __init__(self, target, first, count, stride, mask, focus, out):
        self.__dict__.update(locals())
        self.proc = None

def run_jobs(build, jobs, deadline, stop_on_found):
    """runs batches; returns list of (job, failure records)"""
    stop = threading.Event()
    def one(j):
        if stop.is_set() or time.time() > deadline: return j, None
        p = subprocess.Popen([build.exe(j.target), 'batch', str(j.first), str(j.count), str(j.stride), '%x' % j.mask, '%x' % j.focus, j.out],
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, start_new_session=True)
        while True:
            try: p.wait(0.3); break
            except subprocess.TimeoutExpired:
                if stop.is_set() or time.time() > deadline:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    p.wait()
                    return j, None
        if p.returncode: return j, 'batch ended with %d' % p.returncode
        recs = []
        try:
            for line in open(j.out + '.fails', errors='replace'):
                f = line.rstrip('\n').split('\t')
                recs.append((int(f[0]), int(f[1]), int(f[2], 16), f[3], f[4] if len(f) > 4 else ''))
        except OSError: pass
        if stop_on_found and any(r[2] & j.mask for r in recs): stop.set()
        return j, recs
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))

# ------------------------------------------------------------------------------------------------ known findings
def known_findings(prop):
    """lines  finding: property=<id> target=<world.variant.config or *> match=<regular expression over the failure text> what=<text>"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) target=(\S+) match=(.*?) what=(.*)$', l.strip())
            if m and m.group(1) == prop: out.append(m.groups()[1:])
    return out

def is_known(known, target, text):
    name = '%s.%d.%s' % target
    for t, rx, what in known:
        if t in ('*', name) and re.search(rx, text): return what
    return None

# ------------------------------------------------------------------------------------------------ replay files
def replay_path(prop, target, seed):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%s.%d.%s-%d.replay' % ((prop,) + target + (seed,)))

def write_replay(prop, target, seed, text, msg, hash_, kind='program', other=None, extra=''):
    path = replay_path(prop, target, seed)
    with open(path, 'w') as f:
        f.write('# property %s\n# kind %s\n# target %s.%d.%s\n' % ((prop, kind) + target))
        if other: f.write('# against %s.%d.%s\n' % other)
        f.write('# hash %s\n# violation %s\n%s' % (hash_, msg, extra))
        f.write(text)
    return path

def parse_target(s):
    w, v, c = s.split('.')
    return (w, int(v), c)

def replay(path):
    text = open(path).read()
    meta = dict(re.findall(r'^# (\w+) (.*)$', text, re.M))
    t = parse_target(meta['target'])
    targets = [t] + ([parse_target(meta['against'])] if 'against' in meta else [])
    b = Build()
    if meta['kind'] == 'compile':
        bad = not b.make(targets)
        print('\n'.join(b.errors.values())[:3000] or 'it compiles')
        if bad: print('VIOLATION property=%s replay=%s' % (meta['property'], path))
        return 1 if bad else 0
    if len(b.make(targets)) != len(targets):
        print('target does not compile against this tree'); return 2
    bit = 1 << PROPS[meta['property']]
    with tempfile.TemporaryDirectory(dir=b.root) as scratch:
        if meta['kind'] == 'history':
            first, count, stride, focus = meta['range'].split()
            run = run_jobs(b, [Job(t, int(first), int(count), int(stride), bit, int(focus, 16), os.path.join(scratch, 'h'))], time.time() + 600, True)
            recs = run[0][1] or []
            hit = [r for r in recs if r[2] & bit]
            print('\n'.join(r[4] for r in hit) or 'no violation')
            if hit: print('VIOLATION property=%s replay=%s' % (meta['property'], path))
            return 1 if hit else 0
        a = exec_program(b.exe(t), text, scratch)
        if meta['kind'] == 'parity':
            c = exec_program(b.exe(targets[1]), text, scratch)
            bad = differs(a, c)
            print('%s %s\n%s %s' % (meta['target'], describe(a), meta['against'], describe(c)))
        else:
            bad = a[0] and a[1] & bit
            print(describe(a))
            if bad: print('execution hash %s, recorded %s: %s' % (a[2], meta['hash'], 'identical' if a[2] == meta['hash'] else 'different'))
    if bad: print('VIOLATION property=%s replay=%s' % (meta['property'], path))
    else: print('no violation')
    return 1 if bad else 0

def describe(r): return ('FAIL %s' % r[3]) if r[0] else ('PASS %s' % r[2])
def differs(a, c): return (a[0] != c[0]) or (not a[0] and not c[0] and a[2] != c[2] and a[2] and c[2])

# ------------------------------------------------------------------------------------------------ deciding
REAL = ['nestl containers, smart pointers, algorithms, error classes, allocator_traits and nestl::allocator, compiled from the working tree',
        'C++ exception machinery of the toolchain']
STUB = ['heap: global operator new/delete and the allocator parameter (simulated, tracked, failing)',
        'element types, comparators, predicates and input streams (simulated, tracked, failing)',
        'operation error type in the sim-error variants']
STUB_DUET = ['thread scheduler: two real threads, of which one runs at a time; the simulator exchanges them at allocations, deallocations, constructions, uses and destructions of elements and at the boundaries of operations']

def selftest_hashes(build, targets, seeds, focus, scratch):
    jobs = [Job(t, seeds[0], len(seeds), 1, 0, focus, os.path.join(scratch, 'd%d.%d' % (i, k))) for i, t in enumerate(targets) for k in range(2)]
    run_jobs(build, jobs, time.time() + 300, False)
    bad = []
    for i in range(0, len(jobs), 2):
        a, b = (open(j.out + '.hash').read() for j in jobs[i:i + 2])
        if a != b: bad.append(jobs[i].target)
    return len(targets) * len(seeds), bad

def collect(jobs, scratch):
    tot = {'runs': 0, 'steps': 0, 'ops': 0, 'ops_failed': 0, 'sweeps': 0, 'fired': [0] * 7, 'probes': {}, 'ops_by_name': {}}
    sigs, hashes, faulted = set(), set(), 0
    for j in jobs:
        for f in glob.glob(j.out + '.stats.*'):
            try: d = json.load(open(f))
            except ValueError: continue
            for k in ('runs', 'steps', 'ops', 'ops_failed', 'sweeps'): tot[k] += d[k]
            for i in range(7): tot['fired'][i] += d['fired'][i]
            for k, v in d['probes'].items(): tot['probes'][k] = tot['probes'].get(k, 0) + v
            for k, v in d['op_count'].items(): tot['ops_by_name'][k] = tot['ops_by_name'].get(k, 0) + v
            for s in d['sigs']: sigs.add((j.target[0], s))
        try:
            for l in open(j.out + '.hash'):
                s = l.split()
                if len(s) == 3 and int(s[2]) > 0: faulted += 1; hashes.add((j.target[0], j.target[1], s[1]))
        except OSError: pass
    tot['distinct_faulted'] = len(hashes)
    tot['faulted_runs'] = faulted
    tot['sigs'] = len(sigs)
    return tot

def decide(prop):
    t0 = time.time()
    pid = PROPS[prop]
    bit = 1 << pid
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    build = Build()
    want = targets_of(pid, tier)
    targets = build.make(want)
    t_build = time.time() - t0
    for t, e in build.errors.items():
        first = next((l for l in e.splitlines() if 'error' in l), e[:300])
        print('target %s.%d.%s does not compile against this tree: %s' % (t + (first[:300],)))
    scratch = tempfile.mkdtemp(prefix='run.', dir=build.root)
    try:
        return _decide(prop, pid, bit, tier, seed, build, want, targets, scratch, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def _decide(prop, pid, bit, tier, seed, build, want, targets, scratch, t0, t_build):
    scale = 1 if tier == 'quick' else THOROUGH_FACTOR
    scale *= float(os.environ.get('SIM_SCALE', '1'))
    deadline = time.time() + (480 if tier == 'quick' else 6 * 3600)
    deadline = min(deadline, t0 + float(os.environ.get('SIM_SECONDS', '1e9')))
    base = seed * 10**9
    focus = bit
    jobs = []
    shards = 2 if tier == 'quick' else 16
    for k, t in enumerate(targets):
        runs = int(QUICK_RUNS[t[0]] * scale / (3 if pid == INDEP else 1))
        for s in range(shards):
            jobs.append(Job(t, base + s, runs // shards, shards, bit if pid != PARITY else 0, focus, os.path.join(scratch, 'j%d.%d' % (k, s))))
    jobs.sort(key=lambda j: (int(os.path.basename(j.out).split('.')[1]), j.target[0] not in ('nested', 'set')))
    t_run = time.time()
    results = run_jobs(build, jobs, deadline, pid != PARITY)
    t_search = time.time() - t_run
    broken = [r for _, r in results if isinstance(r, str)]
    unfinished = sum(1 for _, r in results if r is None)
    known = known_findings(prop)
    found, known_hit, unstable = [], {}, []
    other_failures = 0
    if pid != PARITY:
        cands = []
        for j, recs in results:
            if not isinstance(recs, list): continue
            for r in recs:
                if r[2] & bit: cands.append((j, r))
                else: other_failures += 1
        cands.sort(key=lambda c: (c[1][1], c[0].target, c[1][0]))
        for j, r in cands[:12]:
            what = is_known(known, j.target, r[4])
            if what: known_hit[what] = known_hit.get(what, 0) + 1; continue
            res = confirm(prop, bit, build, j, r, focus, scratch)
            if res: found.append(res); break
            unstable.append((j.target, r))
    else:
        found, unstable, other_failures = parity(prop, build, jobs, results, focus, scratch)
    tot = collect(jobs, scratch)
    # the same seeds in two further processes
    n_det, det_bad = selftest_hashes(build, targets, list(range(base, base + (40 if tier == 'quick' else 400))), focus, scratch) if targets and not found else (0, [])
    samples = []
    for t in (targets[0], targets[len(targets) // 2], targets[-1]) if targets else []:
        text = gen(build.exe(t), base + 3, focus)
        r = exec_program(build.exe(t), text, scratch)
        head, steps = steps_of(text)
        samples.append({'target': '%s.%d.%s' % t, 'program': head + steps[:14] + (['... %d more steps' % (len(steps) - 14)] if len(steps) > 14 else []), 'outcome': describe(r)})
    wall = time.time() - t0
    kinds = ['allocation failed at a chosen point', 'construction or copy failed at a chosen point', 'assignment failed at a chosen point', 'heap outage', 'heap quota exceeded', 'value that cannot be copied', 'impossible request']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': len(found),
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': tot['distinct_faulted'],
            'rule': 'One case is one simulated run: a seed determines a program of operations on several objects and every fault in it (swarm selection of operations weighted towards this property, single and repeated fault points, sweeps over all fault points of one operation, outages, quotas, uncopyable values). Non-trivial: at least one fault was really delivered to the library in the run; distinct: different hash over all observed results and states of the run.',
            'samples': samples,
            'seeds_per_hour': int(tot['runs'] / max(t_search, 0.01) * 3600),
            'simulated_steps': tot['steps'], 'simulated_operations': tot['ops'], 'operations_that_failed': tot['ops_failed'],
            'simulated_time': 'logical: %d operations (the library has no clock)' % tot['ops'],
            'faults_injected': dict(zip(kinds, tot['fired'])),
            'exhaustive_fault_sweep_attempts': tot['sweeps'],
            'distinct_states': tot['sigs'],
            'distinct_states_measure': 'distinct (operation, coarse shape of the objects, kinds and positions of the first three delivered faults)',
            'operations': tot['ops_by_name'],
            'probes': tot['probes'],
            'targets': ['%s.%d.%s' % t for t in targets],
            'targets_not_built': ['%s.%d.%s' % t for t in want if t not in targets],
            'batches_cut_short': unfinished,
            'runs_failing_other_properties': other_failures,
            'runs_repeated_in_separate_processes': n_det, 'repetitions_that_differed': len(det_bad),
            'components_real': REAL, 'components_stub': STUB + (STUB_DUET if pid == INDEP else []),
            'build_s': round(t_build, 1), 'search_s': round(t_search, 1),
        },
        'assumptions': [('two clients in threads of their own share no objects; exchanges happen at the seams only, one thread runs at a time' if pid == INDEP else 'single-threaded use, as the library documents no thread safety'), 'the error object is clear when an operation starts', 'destructors, deallocation and comparisons do not fail'],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for w, n in known_hit.items(): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    print('%s %s: %d runs, %d with faults (%d distinct), %d operations, faults %s, %d targets, build %.0fs, search %.0fs' % (
        prop, tier, tot['runs'], tot['faulted_runs'], tot['distinct_faulted'], tot['ops'], tot['fired'], len(targets), t_build, t_search))
    if found:
        for path, msg in found:
            print('  ' + msg)
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if broken: print('internal error: ' + broken[0]); return 2
    bad = uninstantiable(pid, build, want)
    if bad:
        t, err = bad
        msg = 'operations this property is about cannot be instantiated in %s.%d.%s' % t
        path = write_replay(prop, t, 0, ''.join('# | %s\n' % l for l in err.splitlines()[:40]), msg, '-', kind='compile')
        print('  ' + msg + ':\n' + '\n'.join(l for l in err.splitlines() if 'error' in l)[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if build.errors: print('no answer: %d of %d targets do not compile' % (len(build.errors), len(want))); return 2
    if unstable: print('no answer: a failure did not repeat: %s' % (unstable[0],)); return 2
    if det_bad: print('no answer: execution is not repeatable on %s' % (det_bad,)); return 2
    if not tot['runs'] or (pid != 18 and not tot['distinct_faulted']): print('no answer: nothing was explored'); return 2
    return 0

# properties that say what the operations of one world yield: that an operation of it cannot be instantiated violates them
FUNCTIONAL = {6: 'vector', 7: 'list', 8: 'set', 9: 'shared', 10: 'shared', 11: 'vector list set', 13: 'vector list set', 14: 'throw', 15: 'nested keyed tree', 17: 'alg', 20: 'alg'}

def uninstantiable(pid, build, want):
    for t, e in build.errors.items():
        inside = re.search(r'^%s/nestl/[^\n]*: error:' % re.escape(REPO), e, re.M)
        if not inside: continue
        if pid == PARITY:
            other = (t[0], t[1], 'nx' if t[2] == 'exc' else 'exc')
            if other in want and other not in build.errors: return t, e
        elif t[0] in FUNCTIONAL.get(pid, '').split(): return t, e
    return None

def confirm(prop, bit, build, j, r, focus, scratch):
    exe = build.exe(j.target)
    text = gen(exe, r[0], focus)
    a = exec_program(exe, text, scratch)
    if a[0] and a[1] & bit:
        b = exec_program(exe, text, scratch)
        if b[0] and b[1] & bit:
            bad = lambda t: (lambda x: x[0] and bool(x[1] & bit))(exec_program(exe, t, scratch))
            small = minimise_schedule(exe, minimise(text, bad), bad, scratch)
            c = exec_program(exe, small, scratch)
            d = exec_program(exe, small, scratch)
            if not (c[0] and c[1] & bit): small, c, d = text, a, b
            note = '' if c[2] == d[2] else '# note the failing execution depends on the content of corrupted memory\n'
            path = write_replay(prop, j.target, r[0], small, c[3], c[2], extra=note)
            return path, '%s.%d.%s seed %d: %s' % (j.target + (r[0], c[3]))
    # needs the history of earlier runs in the process: replay the range of seeds
    lo = j.first
    count = (r[0] - j.first) // j.stride + 1
    out = os.path.join(scratch, 'hist')
    def again(first, n):
        recs = run_jobs(build, [Job(j.target, first, n, j.stride, bit, focus, out)], time.time() + 120, True)[0][1]
        return isinstance(recs, list) and any(x[0] == r[0] and x[2] & bit for x in recs)
    if not again(lo, count): return None
    n = count
    step = n // 2
    while step >= 1:
        if n - step >= 1 and again(r[0] - (n - step - 1) * j.stride, n - step): n -= step
        else: step //= 2
    first = r[0] - (n - 1) * j.stride
    path = write_replay(prop, j.target, r[0], text, r[4], '-', kind='history', extra='# range %d %d %d %x\n' % (first, n, j.stride, focus))
    return path, '%s.%d.%s seeds %d..%d in one process: %s' % (j.target + (first, r[0], r[4]))

def parity(prop, build, jobs, results, focus, scratch):
    by = {}
    for (j, recs) in results:
        if not isinstance(recs, list): continue
        d = by.setdefault((j.target[0], j.target[1], int(j.first)), {})
        hs = {}
        for l in open(j.out + '.hash'):
            s = l.split()
            if len(s) == 3: hs[int(s[0])] = s[1]
        failed = {r[0] for r in recs}
        last = max([r[0] for r in recs], default=None) if len(recs) >= 60 else None
        d[j.target[2]] = (hs, failed, last)
    found, unstable, other = [], [], 0
    for (w, v, _), d in sorted(by.items()):
        if 'exc' not in d or 'nx' not in d: continue
        (he, fe, le), (hn, fn, ln) = d['exc'], d['nx']
        other += len(fe & fn)
        diff = []
        for s in sorted(set(he) | set(hn) | fe | fn):
            if (le and s > le) or (ln and s > ln): break
            if s in fe and s in fn: continue
            if s in fe or s in fn or he.get(s) != hn.get(s): diff.append(s)
        for s in diff[:4]:
            te, tn = (w, v, 'exc'), (w, v, 'nx')
            text = gen(build.exe(te), s, focus)
            def bad(t):
                return bool(differs(exec_program(build.exe(te), t, scratch), exec_program(build.exe(tn), t, scratch)))
            if not (bad(text) and bad(text)): unstable.append((te, s)); continue
            small = minimise(text, bad)
            a, b = exec_program(build.exe(te), small, scratch, '-s'), exec_program(build.exe(tn), small, scratch, '-s')
            at = next((x for x, y in zip(a[4].splitlines(), b[4].splitlines()) if x != y), '')
            msg = 'seed %d of %s.%d: with exceptions %s, without %s; first different step: %s' % (s, w, v, describe(a), describe(b), at)
            path = write_replay(prop, te, s, small, msg, a[2], kind='parity', other=tn)
            return [(path, msg)], unstable, other
    return found, unstable, other

def main(argv):
    if len(argv) == 2 and argv[1] in PROPS: return decide(argv[1])
    if len(argv) == 3 and argv[1] == 'replay': return replay(argv[2])
    if len(argv) >= 2 and argv[1] == 'build':
        ts = []
        for p in argv[2:] or list(PROPS):
            for t in targets_of(PROPS[p], 'quick'):
                if t not in ts: ts.append(t)
        b = Build()
        ok = b.make(ts)
        print('%d targets built, %d failed' % (len(ok), len(b.errors)))
        for t, e in b.errors.items(): print(t, e[:500])
        return 0 if not b.errors else 2
    if len(argv) >= 2 and argv[1] == 'selftest':
        n = int(argv[2]) if len(argv) > 2 else 200
        b = Build()
        ts = b.make(T(' '.join(WORLDS)))
        with tempfile.TemporaryDirectory(dir=b.root) as scratch:
            total, bad = selftest_hashes(b, ts, list(range(10**9, 10**9 + n)), 0, scratch)
        print('%d runs twice, differing targets: %s' % (total, bad))
        return 1 if bad else 0
    print(__doc__)
    return 2

if __name__ == '__main__':
    sys.exit(main(sys.argv))
