#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and runs the checks.

  run.py setup                     build everything
  run.py check Cxx                 search, confirm, minimise, report (VERIF_SEED, VERIF_TIER)
  run.py replay FILE               replay a violation in a fresh process
"""
import array, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
OUT = os.environ.get('VERIF_OUT', HERE)
CORES = 8
ENV = dict(os.environ, PYTHONHASHSEED='0', LC_ALL='C', PYTHONDONTWRITEBYTECODE='1',
           ASAN_OPTIONS='exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0:handle_segv=1:symbolize=1:max_malloc_fill_size=4096:malloc_fill_byte=90:quarantine_size_mb=16')
ENV.pop('PYTHONPATH', None)
CXX = 'g++'

# ------------------------------------------------------------------ build
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]

def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        files = [r] if os.path.isfile(r) else sorted(os.path.join(d, f) for d, _, fs in os.walk(r) for f in fs if not f.endswith(('.o', '.so', '.pyc')))
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode:
        sys.stderr.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd) if isinstance(cmd, list) else cmd, r.stdout[-6000:]))
        raise SystemExit(2)
    return r.stdout

def build(variants):
    """-> {variant: libdir holding simd and the engines}"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    src = tree_hash(os.path.join(REPO, 'src'), os.path.join(REPO, 'generate_include.py'))
    inc = tree_hash(os.path.join(REPO, 'include'))
    simh = {f: open(os.path.join(SIM, f), 'rb').read() for f in sorted(os.listdir(SIM)) if f.endswith(('.h', '.cc'))}
    heads = sha(*[simh[f] for f in simh if f.endswith('.h')])
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='b', dir=BUILD)
    jobs, out = [], {}

    def want(name, key, cmd):
        path = os.path.join(cache, key + name)
        if not os.path.exists(path):
            def go():
                t = os.path.join(tmp, key + name)
                sh([t if c == '@OUT' else c for c in cmd()])
                os.replace(t, path)
            if all(p != path for p, _ in jobs):
                jobs.append((path, go))
        else:
            os.utime(path)
        return path

    gi = os.path.join(BUILD, 'gi-' + sha(src))  # the header generated from src/, as the release script does it
    def generated():
        if not os.path.exists(os.path.join(gi, 'include', 'wisardpkg.hpp')):
            os.makedirs(os.path.join(tmp, 'gi', 'include'), exist_ok=True)
            shutil.copytree(os.path.join(REPO, 'src'), os.path.join(tmp, 'gi', 'src'))
            sh([sys.executable, os.path.join(REPO, 'generate_include.py')], cwd=os.path.join(tmp, 'gi'))
            shutil.rmtree(gi, ignore_errors=True)
            os.replace(os.path.join(tmp, 'gi'), gi)
    generated()
    pyinc = pyld = None
    base = ['-g1', '-w', '-fPIC', '-I' + SIM]
    lib = base + ['-shared', '-fvisibility=hidden', '-fno-gnu-unique']
    extra = {'normal': [], 'asan': ['-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS'], 'tsan': []}
    plan = {}
    for v in variants:
        sx = extra[v]
        objs = []
        for f in ('main', 'exec', 'seam', 'gen', 'race'):
            objs.append(want('.o', sha('o', heads, simh[f + '.cc'], ' '.join(sx)),
                             lambda f=f, sx=sx: [CXX, '-std=gnu++17', '-O1'] + base + sx + ['-c', os.path.join(SIM, f + '.cc'), '-o', '@OUT']))
        lx = extra[v] + (['-fsanitize=thread'] if v == 'tsan' else [])
        libs = {}
        def eng(name, std, header, key):
            def cmd():
                c = [CXX, '-std=' + std, '-O1'] + lib + lx + ['-DSIM_HEADER="%s"' % header, '-DSIM_NAME="%s"' % name]
                # instrumented for thread interleavings, but linked against the simulator's own hooks
                return c + [os.path.join(SIM, 'engine_cpp.cc'), '-o', '@OUT'] if v != 'tsan' else \
                    ['sh', '-c', 'set -e; o=$1.o; shift; "$@" -c -o "$o"; %s -shared -o "${o%%.o}" "$o"; rm "$o"' % CXX, 'sh', '@OUT'] + [x for x in c if x != '-shared'] + [os.path.join(SIM, 'engine_cpp.cc')]
            return want('-' + name + '.so', sha('lib', v, name, heads, simh['engine_cpp.cc'], key, ' '.join(lx)), cmd)
        libs['libsrc.so'] = eng('src', 'c++11', os.path.join(gi, 'include', 'wisardpkg.hpp'), src)
        libs['libhdr.so'] = eng('hdr', 'gnu++17', os.path.join(REPO, 'include', 'wisardpkg.hpp'), inc)
        if v == 'normal':
            def cmd():
                pi = sh([sys.executable, '-m', 'pybind11', '--includes']).split() if subprocess.run([sys.executable, '-c', 'import pybind11'], stderr=subprocess.DEVNULL).returncode == 0 else []
                ld = sh(['python3-config', '--embed', '--ldflags']).split()
                inc_ = sh(['python3-config', '--includes']).split()
                return [CXX, '-std=gnu++14', '-O1'] + lib + pi + inc_ + ['-DSIM_BIND="%s"' % os.path.join(REPO, 'src', 'wisard_bind.cc'), '-DSIM_NAME="py"', os.path.join(SIM, 'engine_py.cc')] + ld + ['-o', '@OUT']
            libs['libpy.so'] = want('-py.so', sha('py', heads, simh['engine_py.cc'], src), cmd)
        plan[v] = (objs, libs, sx)
    if jobs:
        with ThreadPoolExecutor(CORES) as ex:
            list(ex.map(lambda j: j[1](), jobs))
    for v, (objs, libs, sx) in plan.items():
        exe = os.path.join(cache, sha('exe', *objs) + '-simd')
        if not os.path.exists(exe):
            t = os.path.join(tmp, 'simd')
            sh([CXX] + objs + sx + ['-rdynamic', '-o', t, '-ldl', '-lpthread'])
            os.replace(t, exe)
        else:
            os.utime(exe)
        d = os.path.join(BUILD, 'v-%s-%s' % (v, sha(exe, *libs.values())))
        if not os.path.isdir(d):
            t = os.path.join(tmp, 'd-' + v)
            os.makedirs(t)
            for n, p in list(libs.items()) + [('simd', exe)]:
                os.link(p, os.path.join(t, n))
            os.replace(t, d)
        out[v] = d
    shutil.rmtree(tmp, ignore_errors=True)
    # forget old builds
    for pat, keep in (('v-', 12), ('gi-', 6)):
        ds = sorted((x for x in os.listdir(BUILD) if x.startswith(pat)), key=lambda x: os.stat(os.path.join(BUILD, x)).st_mtime)
        for x in ds[:-keep]:
            p = os.path.join(BUILD, x)
            if p not in out.values() and p != gi:
                shutil.rmtree(p, ignore_errors=True)
    fs = sorted((os.path.join(cache, x) for x in os.listdir(cache)), key=lambda x: os.stat(x).st_mtime)
    for x in fs[:-80]:
        os.unlink(x)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return out

# ------------------------------------------------------------------ running simd
VARIANTS = {'C07': ('asan', 'normal'), 'C17': ('asan', 'normal'), 'C08': ('tsan',)}
def variants_of(prop):
    return VARIANTS.get(prop, ('normal',))

def workers_of(prop):
    """-> [(variant, residue)], seeds are base + residue + 8 i"""
    if prop in ('C07', 'C17'):
        return [('asan', r) for r in (0, 1, 2, 4, 5, 6)] + [('normal', r) for r in (3, 7)]
    return [(variants_of(prop)[0], r) for r in range(8)]

def abnormal(rc):
    """the outcome of a process that did not end by itself"""
    if rc == 97: return {'kind': 'hang', 'msg': 'a call does not come back (or takes a number of steps out of all proportion to its input)'}
    if rc == 99: return {'kind': 'memory error', 'msg': 'invalid memory access (AddressSanitizer)'}
    if rc < 0:
        try: n = signal.Signals(-rc).name
        except ValueError: n = str(-rc)
        return {'kind': 'killed by ' + n, 'msg': 'the process is killed by %s during a library call' % n}
    return None

def run_file(libdir, path, timeout=120):
    """one fresh process -> (result or None, exit code, stderr)"""
    try:
        r = subprocess.run([os.path.join(libdir, 'simd'), 'run', path, libdir], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, -999, ''
    err = r.stderr.decode('utf-8', 'replace')
    a = abnormal(r.returncode)
    if a:
        m = re.search(r'ERROR: (AddressSanitizer: [^\n]*)', err)
        if m: a['msg'] = re.sub(r'0x[0-9a-f]+', '0x..', m.group(1))[:200]
        m = re.search(r'HANG ([^\n]*)', err)
        if m: a['msg'] = m.group(1)
        m = re.search(r'(terminate called[^\n]*(?:\n[^\n]*what\(\)[^\n]*)?|\w*: .*Assertion .*failed[^\n]*)', err)
        if m: a['msg'] += ': ' + m.group(1).replace('\n', ' ')[:200]
        return dict(a, viol=True, step=-1, hash=a['kind']), r.returncode, err
    if r.returncode not in (0, 1):
        return None, r.returncode, err
    for l in reversed(r.stdout.decode('utf-8', 'replace').split('\n')):
        if l.startswith('{'):
            try: return json.loads(l), r.returncode, err
            except ValueError: pass
    return None, 96, err

class Server:
    """executes candidate plans, each in a forked child"""
    def __init__(self, libdir):
        self.p = subprocess.Popen([os.path.join(libdir, 'simd'), 'serve', libdir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV)
    def run(self, cand):
        self.p.stdin.write((json.dumps(cand, separators=(',', ':')) + '\n').encode())
        self.p.stdin.flush()
        res = None
        while True:
            l = self.p.stdout.readline()
            if not l: raise RuntimeError('server died')
            l = l.decode('utf-8', 'replace').strip()
            if l.startswith('{'):
                try: res = json.loads(l)
                except ValueError: pass
            elif l.startswith('DONE '):
                rc = int(l[5:])
                a = abnormal(rc)
                if a: return dict(a, viol=True, step=-1)
                return res if rc in (0, 1) else None
    def close(self):
        try: self.p.stdin.close(); self.p.wait(5)
        except Exception: self.p.kill()

def same(res, kind):
    return bool(res) and res.get('viol') and res.get('kind') == kind

# ------------------------------------------------------------------ minimisation
class Minimiser:
    def __init__(self, libdir, kind, budget):
        self.servers = [Server(libdir) for _ in range(CORES)]
        self.pool = ThreadPoolExecutor(CORES)
        self.kind, self.end, self.tried = kind, time.time() + budget, 0
    def close(self):
        for s in self.servers: s.close()
        self.pool.shutdown()
    def time(self): return time.time() < self.end
    def first(self, cands):
        """the first candidate (in order) that still fails the same way"""
        for i in range(0, len(cands), CORES):
            if not self.time(): return None
            part = cands[i:i + CORES]
            self.tried += len(part)
            def one(k):
                try: return self.servers[k].run(part[k])
                except Exception: return None
            for c, r in zip(part, list(self.pool.map(one, range(len(part))))):
                if same(r, self.kind): return c
        return None
    def ddmin(self, items, wrap):
        n = 2
        while len(items) >= 1 and self.time():
            size = max(1, (len(items) + n - 1) // n)
            cuts = list(range(0, len(items), size))
            # large removals first, later steps first
            cands = [items[:c] + items[c + size:] for c in reversed(cuts)]
            got = self.first([wrap(c) for c in cands])
            if got is not None:
                items = self.unwrap(got)
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
        return items
    def plan(self, plan, step=-1):
        plan = json.loads(json.dumps(plan))
        if 0 <= step < len(plan['steps']):
            got = self.first([dict(plan, steps=plan['steps'][:step + 1])])
            if got: plan = got
        for _ in range(3):
            before = json.dumps(plan)
            self.unwrap = lambda p: p['steps']
            plan = dict(plan, steps=self.ddmin(plan['steps'], lambda s: dict(plan, steps=s)))
            plan = self.details(plan)
            if json.dumps(plan) == before or not self.time(): break
        return plan
    def edits(self, plan):
        """smaller variants of a plan, one change each"""
        out = []
        def put(path, fn):
            def make():
                p = json.loads(json.dumps(plan))
                o = p
                for k in path[:-1]: o = o[k]
                fn(o, path[-1])
                return p
            out.append(make)
        def pairs(st, path):
            for a, b in (('x', 'l'), ('x', None)):
                if isinstance(st.get(a), list) and (b is None or isinstance(st.get(b), list)):
                    n = len(st[a])
                    if b and len(st[b]) != n: continue
                    for size in {max(1, n // 2), 1}:
                        for c in range(0, n, size):
                            def fn(o, k, c=c, size=size, a=a, b=b):
                                del o[k][a][c:c + size]
                                if b: del o[k][b][c:c + size]
                            if n > size or n == 1: put(path, fn)
        def walk(o, path, depth):
            if isinstance(o, dict):
                if 'op' in o: pairs(o, path)
                for k in list(o):
                    if k in ('op', 'o', 'k'): continue
                    if k in ('f', 'opts', 'pre', 'el', 'b', 's', 'verbose', 'set', 'rngmode') or depth > 2 or (depth == 2 and k in ('e', 'p')):
                        def fn(d, kk): del d[kk]
                        put(path + [k], fn)
                    walk(o[k], path + [k], depth + 1)
            elif isinstance(o, list):
                if path and path[-1] in ('steps',):
                    pass
                elif not (path and path[-1] in ('x', 'l') and depth <= 3):
                    n = len(o)
                    for size in sorted({max(1, n // 2), max(1, n // 8), 1}, reverse=True):
                        for c in range(0, n, size):
                            def fn(d, kk, c=c, size=size): del d[kk][c:c + size]
                            put(path + [], fn) if path else None
                for i, e in enumerate(o): walk(e, path + [i], depth + 1)
            elif isinstance(o, bool): pass
            elif isinstance(o, int) and path and path[-1] in ('n', 'a', 'v', 'w', 'base', 'thr', 'lim', 'confidence', 'e', 'p', 'set') and o:
                for v in {0, 1, o // 2} - {o}:
                    def fn(d, kk, v=v): d[kk] = v
                    put(path, fn)
        walk({'steps': plan['steps']}, [], 0)
        return out
    def details(self, plan):
        pos = 0
        while self.time():
            es = self.edits(plan)
            if pos >= len(es): break
            done = False
            while pos < len(es) and self.time():
                part = []
                for m in es[pos:pos + CORES]:
                    try: part.append(m())
                    except Exception: part.append(None)
                part = [p for p in part if p is not None]
                got = self.first(part)
                if got is not None:
                    plan, done = got, True
                    break
                pos += CORES
            if not done: break
        return plan
    def sequence(self, plans, step):
        self.unwrap = lambda p: p['plans'][:-1]
        head, last = plans[:-1], plans[-1]
        head = self.ddmin(head, lambda h: {'plans': h + [last]})
        # then the steps of each remaining plan
        plans = head + [last]
        if 0 <= step < len(last['steps']):
            c = plans[:-1] + [dict(last, steps=last['steps'][:step + 1])]
            if self.first([{'plans': c}]): plans = c
        for i in range(len(plans)):
            self.unwrap = lambda p, i=i: p['plans'][i]['steps']
            st = self.ddmin(plans[i]['steps'], lambda s, i=i: {'plans': plans[:i] + [dict(plans[i], steps=s)] + plans[i + 1:]})
            plans[i] = dict(plans[i], steps=st)
        return plans

# ------------------------------------------------------------------ one check
class Search:
    def __init__(self, prop, tier, seed, secs):
        self.prop, self.tier, self.seed, self.secs = prop, tier, seed, secs
        self.libs = build(variants_of(prop))
        self.base = (seed % 90000) * 100_000_000 + (50_000_000 if tier == 'thorough' else 0)
        self.tmp = tempfile.mkdtemp(prefix='wisim-')
        self.stats, self.cands, self.stop = [], [], threading.Event()
        self.lock = threading.Lock()
        self.h, self.s = set(), set()
        self.errors = []
        self.nst = 0
        self.known = known(prop)
        self.knownhit = {}
    def close(self): shutil.rmtree(self.tmp, ignore_errors=True)
    def worker(self, k):
        variant, res = workers_of(self.prop)[k]
        lib = self.libs[variant]
        # state that outlives a run: some workers give every run, or every few, a process of its own
        fresh = 1 if k == 4 or (self.prop == 'C08' and k in (0, 1, 2)) else 6 if k == 5 else 0
        i, end = 0, time.time() + self.secs
        # `first` continues where a finding interrupted the batch
        while not self.stop.is_set():
            left = end - time.time()
            if left < 0.3: break
            self.nst += 1
            st = os.path.join(self.tmp, 'st%d-%d' % (k, self.nst))
            start = self.base + res + 8 * i
            p = subprocess.Popen([os.path.join(lib, 'simd'), 'batch', self.prop, str(start), '8', '-1', '%.2f' % left, lib, st],
                                 stdout=subprocess.PIPE, stderr=open(st + '.err', 'wb'), env=dict(ENV, SIM_FRESH=str(fresh)))
            lines = []
            t = threading.Thread(target=lambda: lines.extend(p.stdout.readlines()))
            t.start()
            try: p.wait(left + 60)
            except subprocess.TimeoutExpired: p.kill(); p.wait()
            t.join()
            viol = None
            for l in lines:
                l = l.decode('utf-8', 'replace')
                if l.startswith('VIOL '): viol = json.loads(l[5:])
                if l.startswith('STATS '):
                    with self.lock: self.stats.append(json.loads(l[6:]))
            with self.lock:
                for f, dst in (('.h', self.h), ('.s', self.s)):
                    try:
                        a = array.array('Q')
                        with open(st + f, 'rb') as fh: a.frombytes(fh.read())
                        dst.update(a)
                        os.unlink(st + f)
                    except (OSError, ValueError): pass
            if p.returncode == 0 and not viol: break
            if viol is None and p.returncode == -15 and self.stop.is_set(): break
            if viol is None:
                a = abnormal(p.returncode)
                try:
                    with open(st, 'rb') as fh: q = array.array('q', fh.read(24))
                except (OSError, ValueError): q = [0, 0, 0]
                err = open(st + '.err', 'rb').read().decode('utf-8', 'replace')
                if a is None or q[0] == 0:
                    self.errors.append('worker %d ended with %d: %s' % (k, p.returncode, err[-300:]))
                    if q[0] == 0: break
                viol = dict(a or {'kind': 'error', 'msg': 'exit %d' % p.returncode}, seed=q[0], step=-1)
                n = (q[0] - start) // 8
                self.stats.append({'runs': int(q[2]) + 1, 'ms': 0})
                if a is None:
                    i += n + 1
                    continue
            else:
                n = (viol['seed'] - start) // 8
            for e in self.known:
                if re.search(e['match'], viol['kind'] + ': ' + viol['msg']):
                    self.knownhit[e['text']] = self.knownhit.get(e['text'], 0) + 1
                    viol = None
                    break
            if viol:
                viol.update(variant=variant, start=start, index=int(n) if not fresh else int(n) % fresh)
                if fresh: viol['start'] = viol['seed'] - 8 * viol['index']
                with self.lock: self.cands.append(viol)
                if len(self.cands) >= 12: self.stop.set()
                self.stop.set()
            i += int(n) + 1
    def run(self):
        ts = [threading.Thread(target=self.worker, args=(k,)) for k in range(len(workers_of(self.prop)))]
        for t in ts: t.start()
        # a violation anywhere ends the search of the others
        while any(t.is_alive() for t in ts):
            time.sleep(0.05)
            if self.stop.is_set() and not getattr(self, 'killed', False):
                self.killed = True
                t0 = time.time()
                while any(t.is_alive() for t in ts) and time.time() - t0 < 1.0: time.sleep(0.02)
                subprocess.run(['pkill', '-TERM', '-P', str(os.getpid()), '-x', 'simd'], stderr=subprocess.DEVNULL)
        for t in ts: t.join()
        # processes stopped on purpose are no findings
        self.cands = [c for c in self.cands if c['kind'] != 'killed by SIGTERM']
    def write(self, obj, name):
        p = os.path.join(self.tmp, name)
        with open(p, 'w') as f: json.dump(obj, f, separators=(',', ':'))
        return p
    def twice(self, lib, obj, want=None):
        f = self.write(obj, 'c.json')
        a = run_file(lib, f)[0]
        if not a or not a.get('viol') or (want and a['kind'] != want): return None
        b = run_file(lib, f)[0]
        return a if b and b.get('viol') and b['kind'] == a['kind'] and b['hash'] == a['hash'] and b['step'] == a['step'] else None
    def gen(self, lib, seed):
        return json.loads(subprocess.run([os.path.join(lib, 'simd'), 'gen', self.prop, str(seed)], stdout=subprocess.PIPE, env=ENV, check=True).stdout)
    def confirm(self, c):
        """-> (replayable object, result, libdir) or None"""
        lib = self.libs[c['variant']]
        plan = self.gen(lib, c['seed'])
        r = self.twice(lib, plan)
        if r: return plan, r, lib
        # state that outlives a run: the plans executed before it in the same process belong to the history
        k = 1
        while True:
            m = min(k, c['index'])
            obj = {'prop': self.prop, 'batch': [c['start'] + 8 * (c['index'] - m), 8, m + 1]}
            r = self.twice(lib, obj)
            if r: return {'plans': [self.gen(lib, obj['batch'][0] + 8 * j) for j in range(m + 1)]} if m < 200 else obj, r, lib
            if m == c['index'] or k > 20000: return None
            k *= 4
    def minimise(self, obj, r, lib, budget):
        if 'batch' in obj: return obj, r
        mn = Minimiser(lib, r['kind'], budget)
        try:
            small = {'plans': mn.sequence(obj['plans'], r['step'])} if 'plans' in obj else mn.plan(obj, r['step'])
        finally:
            mn.close()
        self.tried = mn.tried
        r2 = self.twice(lib, small, r['kind'])
        return (small, r2) if r2 else (obj, r)

def known(prop):
    out = []
    try: lines = open(os.path.join(HERE, 'known_findings.txt')).read().split('\n')
    except OSError: return out
    for l in lines:
        m = re.match(r'open: property=(\S+) match=/(.*)/ (.*)', l)
        if m and m.group(1) == prop: out.append({'match': m.group(2), 'text': m.group(3)})
    return out

STUBS = {
    'real': ['all library sources under /repo/src (compiled from the working tree as the generated header, -std=c++11)',
             'the released single header /repo/include/wisardpkg.hpp (-std=gnu++17)'],
    'stub': ['file system and descriptors (in memory)', 'clock (time, clock_gettime, gettimeofday)', 'rand/srand/random/random_device',
             'heap limits and failures (operator new)', 'standard output and error buffers', 'thread scheduling (one thread runs at a time)'],
}

def describe(prop):
    return META.get(prop, {})

META = {}
try:
    META = json.load(open(os.path.join(HERE, 'meta.json')))
except OSError:
    pass

def total(stats, key): return sum(s.get(key, 0) for s in stats)
def merged(stats, key):
    o = {}
    for s in stats:
        for k, v in s.get(key, {}).items(): o[k] = o.get(k, 0) + v
    return dict(sorted(o.items()))

def selftest(s, n):
    """same seeds, two different partitions into processes: the histories have to be identical"""
    variant, res = workers_of(s.prop)[0]
    lib = s.libs[variant]
    st = os.path.join(s.tmp, 'self')
    def batch(start, stride, count, k):
        p = subprocess.run([os.path.join(lib, 'simd'), 'batch', s.prop, str(start), str(stride), str(count), '60', lib, st + str(k), 'hashes'],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(ENV, PYTHONHASHSEED=str(k)))
        o = {}
        for l in p.stdout.decode('utf-8', 'replace').split('\n'):
            if l.startswith('HASH '):
                j = json.loads(l[5:])
                o[j['seed']] = (j['r']['hash'], j['r']['calls'], j['r']['viol'])
        return o
    b = s.base + res
    with ThreadPoolExecutor(CORES) as ex:
        one = ex.submit(batch, b, 8, n, 1)
        parts = [ex.submit(batch, b + 8 * k, 8 * 5, (n - k + 4) // 5, 2 + k) for k in range(5)]
        a, c = one.result(), {}
        for p in parts: c.update(p.result())
    both = [k for k in a if k in c]
    return {'seeds': len(both), 'processes': 6, 'mismatches': sum(a[k] != c[k] for k in both)}

SLOW = ('C02', 'C03', 'C04', 'C08', 'C10')   # the widest spaces get more of the quick budget

def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    secs = float(os.environ.get('VERIF_SECS', '0')) or ((56 if prop in SLOW else 40) if tier == 'quick' else 600)
    print('property %s tier %s VERIF_SEED %d' % (prop, tier, seed), flush=True)
    s = Search(prop, tier, seed, secs)
    built = time.time() - t0
    try:
        rounds = 0
        found = None
        unconfirmed = []
        end = time.time() + secs
        while True:
            t1 = time.time()
            s.secs = max(3.0, end - t1)
            s.stop.clear(); s.killed = False; s.cands = []
            s.run()
            for c in sorted(s.cands, key=lambda c: c['index']):
                r = s.confirm(c)
                if r: found = (c, r); break
                unconfirmed.append(c)
            rounds += 1
            if found or not s.cands or time.time() > end or rounds >= 6: break
            s.base += 10_000_000
        wall = time.time() - t0
        for text, n in s.knownhit.items(): print('KNOWN-FINDING: property=%s %s (%d runs)' % (prop, text, n))
        for e in s.known:
            if e['text'] not in s.knownhit: print('KNOWN-FINDING: property=%s %s' % (prop, e['text']))
        rep = None
        if found:
            c, (obj, r, lib) = found
            small, r = s.minimise(obj, r, lib, 25 if tier == 'quick' else 120)
            os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
            rep = os.path.join(OUT, 'replays', '%s-%d.json' % (prop, c['seed']))
            doc = {'property': prop, 'seed': c['seed'], 'variant': c['variant'], 'kind': r['kind'], 'message': r['msg'], 'step': r['step'], 'hash': r['hash']}
            doc.update({'plan': small} if 'steps' in small else small)
            with open(rep, 'w') as f: json.dump(doc, f, indent=1)
        det = selftest(s, 60 if tier == 'quick' else 400) if not found else None
        evidence(s, prop, tier, seed, wall, built, found, unconfirmed, det, t0)
        if found:
            print('seed %d: %s: %s (step %s)' % (c['seed'], r['kind'], r['msg'], r['step']))
            for i, p in enumerate([small] if 'steps' in small else small.get('plans', [])):
                for k, x in enumerate(p['steps']):
                    print('  %s%d %s' % ('plan %d ' % i if 'plans' in small else '', k, json.dumps(x)[:400]))
            print('VIOLATION property=%s replay=%s' % (prop, rep))
            return 1
        print('%s: %d runs, %d distinct, held; %.1f s' % (prop, total(s.stats, 'runs'), len(s.h), time.time() - t0))
        if unconfirmed:
            print('ERROR: %d violations could not be reproduced: %s' % (len(unconfirmed), json.dumps(unconfirmed[:3])[:800]))
            return 2
        if s.errors and total(s.stats, 'runs') == 0:
            print('ERROR: ' + '; '.join(s.errors)[:1000])
            return 2
        if s.errors:
            print('ERROR: ' + '; '.join(s.errors)[:1000])
            return 2
        return 0
    finally:
        s.close()

def evidence(s, prop, tier, seed, wall, built, found, unconfirmed, det, t0):
    st = s.stats
    runs, ms = total(st, 'runs'), total(st, 'ms')
    m = describe(prop)
    variant, res = workers_of(prop)[0]
    samples = []
    for k in (0, 1):
        try:
            p = s.gen(s.libs[variant], s.base + res + 8 * k)
            samples.append({'seed': p['seed'], 'plan': json.dumps(p)[:1500]})
        except Exception: pass
    busy = max(0.001, ms / 1000.0 / CORES)
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': len(s.h),
        'rule': m.get('rule', 'one seeded run = one generated history of calls, faults, clocks and schedule; non-trivial: at least one answer of the library was compared with the reference model (or, for the robustness properties, the run executed its calls); distinct by the hash of everything the library answered and every simulated event'),
        'samples': samples,
        'simulated_runs_per_hour': int(runs / busy * 3600) if ms else 0,
        'seeds_per_hour': int(runs / busy * 3600) if ms else 0,
        'search_seconds': round(busy, 2),
        'library_calls': total(st, 'calls'),
        'comparisons_with_the_model': total(st, 'checks'),
        'simulated_events': total(st, 'events'),
        'simulated_time_s': round(total(st, 'simtime')),
        'runs_with_a_fault_fired': total(st, 'faulted'),
        'faults_fired': merged(st, 'fired'),
        'system_calls_simulated': merged(st, 'seen'),
        'rare_conditions_reached': merged(st, 'probes'),
        'distinct_schedules': len(s.s),
        'distinct_histories': len(s.h),
        'runs_abandoned': total(st, 'abandoned'),
        'abandoned_why': merged(st, 'why'),
        'components_real': STUBS['real'] + (['the Python extension module (pybind11 binding src/wisard_bind.cc) in an embedded interpreter'] if 'normal' in variants_of(prop) and prop != 'C14' else []),
        'components_stub': STUBS['stub'],
        'builds': list(variants_of(prop)),
        'determinism_selftest': det,
        'unconfirmed_candidates': len(unconfirmed),
        'build_s': round(built, 1),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': m.get('level', 'exploration'), 'coverage': cov,
          'assumptions': m.get('assumptions', []) + ['sampled executions: a clean batch is evidence, not proof',
                          'the simulated file system, heap, clock and scheduler behave as POSIX allows the real ones to'],
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if found else 0}
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    t = os.path.join(OUT, 'evidence', prop + '.json')
    with open(t + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
    os.replace(t + '.tmp', t)

def replay(path):
    doc = json.load(open(path))
    prop = doc.get('property', 'C01')
    lib = build([doc.get('variant', 'normal')])[doc.get('variant', 'normal')]
    r, rc, err = run_file(lib, path)
    if r and r.get('viol'):
        same_ = doc.get('kind') in (None, r['kind']) and doc.get('hash') in (None, r['hash'])
        print('%s: %s (step %s) %s' % (r['kind'], r['msg'], r['step'], 'exactly as recorded' if same_ else 'differs from the recording'))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(path)))
        return 1
    if r is None:
        print('ERROR exit %d %s' % (rc, err[-500:]))
        return 2
    print('no violation')
    return 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['setup']:
        build(['normal', 'asan', 'tsan'])
    elif a[:1] == ['check']:
        sys.exit(check(a[1]))
    elif a[:1] == ['replay']:
        sys.exit(replay(a[1]))
    else:
        print(__doc__)
        sys.exit(2)
