#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  vf.py check ID [--tier quick|thorough]
                            build what the check of property ID needs from /repo, run it, write evidence
  vf.py setup               prove that the framework itself builds and runs (used as setup_cmd)
  vf.py replay FILE         run again what a replay file describes

Exit status of check: 0 held on everything observed, 1 violated (VIOLATION line),
2 the check itself could not do its work.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
NCPU = os.cpu_count() or 4

CXX = 'g++-12' if shutil.which('g++-12') else 'g++'
# The heap monitor's page-guarded blocks end, not begin, at an aligned address: the compiler must not assume malloc's alignment
COMMON = ['-std=c++14', '-w', '-pthread', '-DVF=1', '-fno-builtin-malloc', '-fno-builtin-calloc', '-fno-builtin-realloc', '-fno-builtin-aligned_alloc']
VARIANTS = {
    # The flags of the repository's own release build, with the heap monitor
    'rel': dict(cxx=CXX, flags=['-Os', '-g1', '-DNDEBUG=1', '-fno-threadsafe-statics', '-fno-enforce-eh-specs'], heap=True),
    # As a user at a higher optimisation level would inline the headers
    'rel3': dict(cxx=CXX, flags=['-O3', '-g1', '-DNDEBUG=1', '-fno-threadsafe-statics'], heap=True),
    # Assertions on, AddressSanitizer and UndefinedBehaviorSanitizer
    'san': dict(cxx=CXX, flags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                                '-fno-sanitize=null,alignment,vptr,nonnull-attribute,pointer-overflow', '-fno-sanitize-recover=undefined',
                                '-fno-threadsafe-statics'], heap=False),
    'tsan': dict(cxx=CXX, flags=['-O1', '-g1', '-DNDEBUG=1', '-fsanitize=thread'], heap=False),
    # For valgrind memcheck: uninitialised values, and the accesses of inline assembly
    'val': dict(cxx=CXX, flags=['-O1', '-g1', '-DNDEBUG=1', '-fno-threadsafe-statics'], heap=False),
}


class HarnessError(Exception):
    pass


def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


class Builder:
    """Compiles /repo's current sources and harness modules; objects are cached by content."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.inc = os.path.join(BUILD, 'inc-' + sh256(REPO)[:8])
        os.makedirs(self.inc, exist_ok=True)
        l = os.path.join(self.inc, 'ustl')
        if not os.path.islink(l):
            try:
                os.symlink(REPO, l)
            except FileExistsError:
                pass
        self.extra = []
        if not os.path.exists(os.path.join(REPO, 'config.h')):
            self.extra = ['-I' + self._configure()]
        hdrs = sorted(f for f in os.listdir(REPO) if f.endswith('.h'))
        self.libsrc = sorted(f for f in os.listdir(REPO) if f.endswith('.cc'))
        if len(self.libsrc) < 5:
            raise HarnessError('no library sources in ' + REPO)
        h = hashlib.sha256()
        for f in hdrs:
            h.update(f.encode() + b'\0' + read(os.path.join(REPO, f)) + b'\0')
        self.repohdr = h.hexdigest()
        h = hashlib.sha256()
        for f in sorted(os.listdir(HARNESS)):
            if f.endswith('.h'):
                h.update(f.encode() + b'\0' + read(os.path.join(HARNESS, f)) + b'\0')
        self.vfhdr = h.hexdigest()
        self.pool = ThreadPoolExecutor(NCPU)

    def _configure(self):
        d = os.path.join(BUILD, 'conf')
        if not os.path.exists(os.path.join(d, 'config.h')):
            t = tempfile.mkdtemp(prefix='vfconf', dir=BUILD)
            c = os.path.join(t, 'r')
            shutil.copytree(REPO, c, symlinks=True, ignore=shutil.ignore_patterns('.git', '_build', '.o'))
            subprocess.run(['./configure', '--builddir=_build'], cwd=c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.makedirs(d, exist_ok=True)
            shutil.copy(os.path.join(c, 'config.h'), os.path.join(d, 'config.h'))
            shutil.rmtree(t)
        return d

    def _compile(self, src, variant, defs, key):
        v = VARIANTS[variant]
        obj = os.path.join(BUILD, 'o', key + '.o')
        if os.path.exists(obj):
            return obj
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = '%s.%d.tmp' % (obj, os.getpid())
        cmd = [v['cxx']] + COMMON + v['flags'] + ['-I' + self.inc, '-I' + HARNESS] + self.extra + defs + ['-c', src, '-o', tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise HarnessError('does not compile: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[:4000]))
        os.rename(tmp, obj)
        return obj

    def binary(self, variant, modules):
        """Returns a future-like callable that gives the path of the linked binary."""
        v = VARIANTS[variant]
        vkey = sh256(variant, v, CXX, COMMON)
        jobs = []
        for f in self.libsrc:
            p = os.path.join(REPO, f)
            jobs.append((p, [], sh256(vkey, self.repohdr, f, read(p))))
        core = ['vf.cc'] + (['heap.cc'] if v['heap'] else [])
        for f in core + modules:
            p = os.path.join(HARNESS, f)
            defs = ['-DVF_HEAP=1'] if (f == 'vf.cc' and v['heap']) else []
            defs += ['-DVF_VARIANT_%s=1' % variant]
            jobs.append((p, defs, sh256(vkey, self.repohdr, self.vfhdr, f, read(p), defs)))
        futs = [self.pool.submit(self._compile, p, variant, d, k) for p, d, k in jobs]

        def finish():
            objs = [f.result() for f in futs]
            key = sh256(*[o for o in objs])
            exe = os.path.join(BUILD, 'b', variant + '-' + key)
            if not os.path.exists(exe):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                tmp = '%s.%d.tmp' % (exe, os.getpid())
                cmd = [v['cxx']] + v['flags'] + ['-pthread', '-rdynamic', '-o', tmp] + objs + ['-ldl']
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    raise HarnessError('does not link: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[:4000]))
                os.rename(tmp, exe)
            return exe
        return finish


def trim_build():
    """Keeps the build directory from growing without bound."""
    for sub, keep in (('o', 1500), ('b', 60)):
        d = os.path.join(BUILD, sub)
        try:
            l = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
        except OSError:
            continue
        for _, f in l[:-keep]:
            try:
                os.unlink(os.path.join(d, f))
            except OSError:
                pass


class Run:
    """One process of a workload under one monitor."""

    def __init__(self, prop, exe, variant, mode, seed, tier, shard, nshards, scale, scratch, only=None, timeout=800, cases=None):
        self.prop, self.exe, self.variant, self.mode = prop, exe, variant, mode
        self.seed, self.tier, self.shard, self.nshards, self.scale = seed, tier, shard, nshards, scale
        self.only, self.timeout, self.budget = only, timeout, 0
        self.dir = tempfile.mkdtemp(prefix='r', dir=scratch)
        self.out = ''
        self.rc = None

    def argv(self):
        a = [self.exe, '--seed', str(self.seed), '--tier', self.tier]
        if self.only:
            a += ['--only', self.only]
        else:
            a += ['--shard', '%d/%d' % (self.shard, self.nshards), '--scale', repr(self.scale)]
            if self.budget:
                a += ['--budget', '%d' % self.budget]
        if self.mode == 'valgrind':
            a = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--show-mismatched-frees=no', '--track-origins=no',
                 '--partial-loads-ok=yes', '--show-realloc-size-zero=no', '--undef-value-errors=yes', '--max-stackframe=4000000', '--log-fd=1'] + a
        return a

    def env(self):
        e = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C', 'TZ': 'UTC', 'HOME': self.dir, 'TMPDIR': self.dir}
        if self.mode == 'guard':
            e['VF_HEAPMODE'] = 'guard'
        return e

    def run(self):
        cur = os.path.join(self.dir, 'cur')
        sigs = os.path.join(self.dir, 'sigs')
        sdir = os.path.join(self.dir, 's')
        os.makedirs(sdir, exist_ok=True)
        a = self.argv() + ['--cur', cur, '--sigs', sigs, '--scratch', sdir]
        t0 = time.time()
        p = subprocess.Popen(a, cwd=sdir, env=self.env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        timed = False
        try:
            out, _ = p.communicate(timeout=self.timeout)
        except subprocess.TimeoutExpired:
            timed = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, _ = p.communicate()
        self.wall = time.time() - t0
        self.rc = p.returncode
        self.timed = timed
        self.out = out.decode(errors='replace')
        self.sigs = set()
        try:
            b = read(sigs)
            self.sigs = {b[i:i + 8] for i in range(0, len(b), 8)}
        except OSError:
            pass
        try:
            self.cur = read(cur)[:256].split(b'\0')[0].decode()
        except OSError:
            self.cur = ''
        return self

    def outcome(self):
        """-> (done dict or None, list of (key, case, message), kind)"""
        fails = []
        for m in re.finditer(r'^VFFAIL key=(\S+) case=(\S+) seed=\d+ :: (.*)$', self.out, re.M):
            fails.append((m.group(1), m.group(2), m.group(3)))
        m = re.search(r'^VFDONE ran=(\d+) evals=(\d+) ops=(\d+) sigs=(\d+) fails=(\d+) left=(\d+)', self.out, re.M)
        done = dict(ran=int(m.group(1)), evals=int(m.group(2)), ops=int(m.group(3)), sigs=int(m.group(4)), fails=int(m.group(5)), left=int(m.group(6))) if m else None
        if self.rc == 0 and done:
            return done, fails, 'ok'
        if self.rc == 3:
            return done, fails, 'fail'
        if self.timed:
            return None, fails, 'timeout'
        if self.rc == 97:
            return None, fails, 'hang'
        if self.rc == 98:
            m = re.search(r'^VFHEAP key=(\S+) case=(\S+) seed=\d+ :: (.*)$', self.out, re.M)
            if m:
                fails.append((m.group(1), m.group(2), m.group(3)))
            return None, fails, 'memory'
        if self.rc == 99:
            m = re.search(r'(ERROR: \w+Sanitizer: [\w-]+|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n(]*|==\d+== [^\n]*)', self.out)
            what = m.group(1) if m else 'sanitizer report'
            k = re.sub(r'[^a-z]+', '-', re.sub(r'==\d+==', '', what.lower()).split('runtime error:')[-1].replace('error:', ''))[:50].strip('-')
            i = m.start() if m else max(0, len(self.out) - 1500)
            fails.append(('sanitizer:' + k, self.cur, what + ' :: ' + self.out[i:i + 1800].replace('\n', ' | ')))
            return None, fails, 'memory'
        if self.rc is not None and self.rc < 0 and self.rc != -9:
            nm = signal.Signals(-self.rc).name
            fails.append(('crash-' + nm, self.cur, 'the process died of ' + nm + ' :: ' + self.out[-600:].replace('\n', ' | ')))
            return None, fails, 'memory'
        if self.rc in (134, 139, 135, 136, 132):
            fails.append(('crash-rc%d' % self.rc, self.cur, 'the process crashed :: ' + self.out[-600:].replace('\n', ' | ')))
            return None, fails, 'memory'
        return None, fails, 'error'


def load_known():
    """known_findings.txt: '<property> | <key regex> | <case regex> | <text>' and 'fixed: ...' lines."""
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'):
                continue
            f = [x.strip() for x in l.split('|', 3)]
            if len(f) == 4:
                known.append(f)
    return known


def check(pid):
    sys.path.insert(0, VERIF)
    from plan import PLAN
    t0 = time.time()
    plan = PLAN[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    cap = 780 if tier == 'quick' else 7200
    b = Builder()
    bins = {}
    runs_cfg = [r for r in plan['runs'] if not r.get('quick_only' if tier == 'thorough' else 'thorough_only')]
    for r in runs_cfg:
        mods = r.get('modules', plan['modules'])
        bins[(r['variant'], tuple(mods))] = None
    for k in bins:
        bins[k] = b.binary(k[0], list(k[1]))
    exes = {k: f() for k, f in bins.items()}
    tbuild = time.time() - t0
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    os.chmod(scratch, 0o755)
    try:
        return check2(pid, plan, seed, tier, cap, runs_cfg, exes, scratch, t0, tbuild)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        trim_build()


def check2(pid, plan, seed, tier, cap, runs_cfg, exes, scratch, t0, tbuild):
    todo = []
    for r in runs_cfg:
        mods = r.get('modules', plan['modules'])
        exe = exes[(r['variant'], tuple(mods))]
        sc = r.get('scale', 1.0)
        if tier == 'thorough':
            sc = r.get('tscale', sc)
        ns = r.get('shards', NCPU)
        for s in range(ns):
            todo.append((r, Run(pid, exe, r['variant'], r.get('mode', 'canary'), seed, tier, s, ns, sc, scratch, only=r.get('only'), timeout=max(60, cap - (time.time() - t0)))))
    # On a slow machine the runs stop early, each after its share of the time, rather than not at all
    deadline = max(cap * 0.72, min(cap * 0.95, time.time() - t0 + 90))
    left = [len(todo)]
    lock = threading.Lock()
    def exec_run(x):
        with lock:
            waves = -(-left[0] // NCPU)
            left[0] -= 1
        now = time.time() - t0
        x[1].budget = max(8, (deadline - now) / waves)
        x[1].timeout = max(20, cap - now)
        x[1].run()
        return x
    with ThreadPoolExecutor(NCPU) as ex:
        done = list(ex.map(exec_run, todo))
    known = load_known()
    hits, viol, errors = {}, {}, []
    memonly = plan.get('memory_only')
    def note(r, run, key, case, msg):
        cname = case.split('#')[0]
        for k in known:
            if k[0] == pid and re.fullmatch(k[1], key) and re.fullmatch(k[2], cname):
                hits[k[3]] = hits.get(k[3], 0) + 1
                return
        viol.setdefault((key, cname), []).append((r, run, case, msg))
    detail, samples, sigs = [], [], set()
    tot = dict(evals=0, ops=0)
    percfg = {}
    for r, run in done:
        d, fails, kind = run.outcome()
        tag = '%s/%s' % (run.variant, run.mode)
        pc = percfg.setdefault(tag, dict(run=tag, processes=0, evaluations=0, operations=0, wall_s=0.0))
        pc['processes'] += 1
        pc['wall_s'] = round(pc['wall_s'] + run.wall, 2)
        if d:
            pc['evaluations'] += d['evals']
            pc['operations'] += d['ops']
            if d['left']:
                pc['cases_left_out_for_time'] = pc.get('cases_left_out_for_time', 0) + d['left']
            tot['evals'] += d['evals']
            tot['ops'] += d['ops']
        sigs |= run.sigs
        for m in re.finditer(r'^VFSLOW (\S+) (.*)$', run.out, re.M):
            if float(m.group(1)) > pc.get('slowest_case_s', 0):
                pc['slowest_case_s'], pc['slowest_case'] = float(m.group(1)), m.group(2)
        for m in re.finditer(r'^VFSAMPLE (.*)$', run.out, re.M):
            if len(samples) < 400:
                samples.append(m.group(1))
        if kind in ('hang', 'timeout'):
            # Time alone is no proof: the case has to exceed its limit again, alone
            if run.cur:
                again = Run(pid, run.exe, run.variant, run.mode, seed, tier, 0, 1, 1, scratch, only=run.cur, timeout=min(300, max(50, cap * 1.12 - (time.time() - t0)))).run()
                d2, f2, k2 = again.outcome()
                if k2 == 'timeout' and again.timeout < 200:
                    errors.append('%s: no time to repeat %s' % (tag, run.cur))
                elif k2 in ('hang', 'timeout'):
                    fails.append(('hang', run.cur, 'the case does not finish'))
                elif k2 == 'ok':
                    errors.append('%s: shard %d stopped for time in %s, which finishes alone' % (tag, run.shard, run.cur))
                else:
                    fails += f2
            else:
                errors.append('%s: timeout without a case' % tag)
        if kind == 'error':
            errors.append('%s: exit %s in %s: %s' % (tag, run.rc, run.cur, run.out[-1500:]))
        for key, case, msg in fails:
            if memonly and not re.match('heap-|sanitizer:|crash-|leak$', key):
                continue
            note(r, run, key, case, msg)
    for text, n in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s (observed %d times)' % (pid, text, n))
    rdir = os.path.join(VERIF, 'replays')
    nviol = 0
    for (key, cname), l in sorted(viol.items(), key=lambda x: x[0]):
        r, run, case, msg = l[0]
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s-%s.json' % (pid, cname or 'case', re.sub(r'[^A-Za-z0-9]+', '_', key)[:40]))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, key=key, case=case, seed=seed, tier=tier, variant=run.variant, mode=run.mode,
                           modules=r.get('modules', plan['modules']), message=msg, times=len(l), output=run.out[-6000:]), f, indent=1)
        nviol += 1
        if nviol <= 12:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s in %s [%s/%s, %d times]: %s' % (key, case, run.variant, run.mode, len(l), msg[:700]))
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=tot['ops'], distinct_nontrivial=len(sigs),
                            rule=plan['rule'], cases=tot['evals'],
                            monitors=list(percfg.values()), samples=samples[:24], build_s=round(tbuild, 2),
                            known_findings_observed=hits),
              assumptions=plan.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evp = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(evp + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(evp + '.tmp', evp)
    print('%s %s seed=%d: %d cases, %d operations monitored, %d distinct behaviours, %d violations, %.1f s (build %.1f)' %
          (pid, tier, seed, tot['evals'], tot['ops'], len(sigs), nviol, time.time() - t0, tbuild))
    for t in percfg.values():
        print('   %-18s processes=%-3d evaluations=%-8d operations=%-12d cpu_s=%-8.1f slowest case %.2f s %s' % (t['run'], t['processes'], t['evaluations'], t['operations'], t['wall_s'], t.get('slowest_case_s', 0), t.get('slowest_case', '')))
    if nviol:
        return 1
    if errors:
        print('CHECK ERROR: ' + '\n'.join(errors))
        return 2
    if tot['evals'] < plan.get('min_evals', 50) or tot['ops'] < 100 or len(sigs) < plan.get('min_sigs', 50):
        print('CHECK ERROR: the monitors observed too little')
        return 2
    return 0


# Monitors that must report each planted fault of harness/selftest_faults.cc: fault -> {(variant, mode)}
FAULTS = {
    'overrun': 'rel/canary rel/guard san/canary val/valgrind', 'underrun': 'rel/canary san/canary val/valgrind', 'overread': 'rel/guard san/canary val/valgrind',
    'freed': 'rel/canary rel/guard san/canary val/valgrind', 'double': 'rel/canary rel/guard san/canary', 'foreign': 'rel/canary san/canary',
    'leak': 'rel/canary rel/guard', 'borrowed': 'rel/canary san/canary', 'beyond': 'rel/canary san/canary', 'stack': 'san/canary', 'arith': 'san/canary',
    'shift': 'san/canary', 'uninit': 'val/valgrind', 'race': 'tsan/canary', 'model': 'rel/canary san/canary tsan/canary', 'throw': 'rel/canary san/canary', 'crash': 'rel/canary san/canary',
    'none': '',
}


def setup():
    b = Builder()
    exes = {v: b.binary(v, ['selftest.cc', 'selftest_faults.cc'])() for v in ('rel', 'san', 'tsan', 'val')}
    scratch = tempfile.mkdtemp(prefix='vf-setup-')
    try:
        def one(variant, mode, case):
            return case, variant, mode, Run('selftest', exes[variant], variant, mode, 1, 'quick', 0, 1, 1, scratch, only=case, timeout=300).run().outcome()
        jobs = [(v, m, 'selftest#%d' % i) for v, m in (('rel', 'canary'), ('rel', 'guard'), ('san', 'canary'), ('tsan', 'canary'), ('val', 'valgrind')) for i in range(2)]
        jobs += [('rel', 'canary', 'selftest_heap#0'), ('san', 'canary', 'selftest_heap#0')]
        good = len(jobs)
        for f, at in FAULTS.items():
            jobs += [tuple(x.split('/')) + ('fault_%s#0' % f,) for x in at.split()]
        jobs += [(v, m, 'fault_none#0') for v, m in (('rel', 'canary'), ('rel', 'guard'), ('san', 'canary'), ('tsan', 'canary'), ('val', 'valgrind'))]
        bad = 0
        with ThreadPoolExecutor(NCPU) as ex:
            for case, variant, mode, (done, fails, kind) in ex.map(lambda j: one(*j), jobs):
                quiet = not case.startswith('fault_') or case.startswith('fault_none')
                if quiet != (kind == 'ok' and not fails) or (not quiet and not fails):
                    bad += 1
                    print('SETUP ERROR: %s under %s/%s: %s %s' % (case, variant, mode, kind, fails[:1]))
        print('setup: %d planted faults seen by the monitors that must see them, %d clean runs quiet, %d wrong' % (len(jobs) - good - 5, good + 5, bad))
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    b = Builder()
    exe = b.binary(r['variant'], r['modules'])()
    scratch = tempfile.mkdtemp(prefix='vf-replay-')
    try:
        x = Run(r['property'], exe, r['variant'], r['mode'], r['seed'], r['tier'], 0, 1, 1, scratch, only=r['case']).run()
        print(x.out)
        print('exit status', x.rc)
        return 0 if x.rc == 0 else 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['check'] and len(a) in (2, 4):
            if len(a) == 4 and a[2] == '--tier':
                os.environ['VERIF_TIER'] = a[3]
            return check(a[1])
        if a[:1] == ['setup']:
            return setup()
        if a[:1] == ['replay'] and len(a) == 2:
            return replay(a[1])
        print(__doc__)
        return 2
    except HarnessError as e:
        print('CHECK ERROR:', e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
