#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the harness of a property from /repo's current working tree with the sanitizers it needs, runs it
sharded under a watchdog, and turns what the oracles and sanitizers observed into a verdict:
  exit 0  nothing violated the property, and something was observed
  exit 1  VIOLATION property=<id> replay=<path>
  exit 2  no answer (build failure, harness error, nothing observed, an unconfirmed hang)
"""
import sys, os, json, hashlib, subprocess, time, glob, re, fcntl, shutil, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VH_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS, FLAVORS

def log(*a):
    print(*a, flush=True)

def sources(area):
    s = sorted(glob.glob(REPO+'/src/*.cpp'))
    if area == 'rx':
        s += sorted(glob.glob(REPO+'/rx/rx*.cpp'))
    return [f for f in s if not f.endswith('_test.cpp')]

def tree_hash(extra):
    h = hashlib.sha256(repr(extra).encode())
    files = []
    for d in ('include', 'src', 'rx'):
        for f in glob.glob('%s/%s/**/*' % (REPO, d), recursive=True):
            if os.path.isfile(f) and f.rsplit('.', 1)[-1] in ('h', 'c', 'cpp', 'hpp', 'inc'):
                files.append(f)
    for f in sorted(files) + sorted(glob.glob(VERIF+'/harness/*')):
        h.update(f.encode()); h.update(b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()[:20]

class BuildError(Exception): pass

def build(harness, area, flavor):
    fl = FLAVORS[flavor]
    base = [fl['cxx']] + fl['flags'] + ['-std=c++17', '-DHAVE_PTHREADS', '-w', '-I'+REPO+'/include', '-I'+REPO+'/rx', '-I'+VERIF+'/harness']
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, '%s-%s-%s' % (harness, flavor, tree_hash((base, area))))
    exe = os.path.join(d, harness)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, '%s-%s-*' % (harness, flavor))):     # one tree at a time
            if old != d and not os.path.exists(os.path.join(old, 'keep')):
                shutil.rmtree(old, ignore_errors=True)
        srcs = [os.path.join(VERIF, 'harness', harness+'.cpp')] + sources(area)
        def one(i_s):
            i, s = i_s
            o = os.path.join(d, '%02d-%s.o' % (i, os.path.basename(s)))
            r = subprocess.run(base+['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return o, r, s
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(srcs)))
        for o, r, s in res:
            if r.returncode:
                raise BuildError('%s:\n%s' % (s, r.stdout.decode(errors='replace')[-3000:]))
        objs = [o for o, _, _ in res]
        if area == 'latch':     # from an archive: nothing of the library but what the harness needs, as its constructors might make a Latch
            ar = os.path.join(d, 'lib.a')
            subprocess.run(['ar', 'rcs', ar]+objs[1:], check=True); objs = [objs[0], ar]
        r = subprocess.run([fl['cxx']]+fl['flags']+objs+['-lpthread', '-o', exe+'.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError('link:\n'+r.stdout.decode(errors='replace')[-3000:])
        for o, _, _ in res:
            os.unlink(o)
        os.rename(exe+'.tmp', exe)
    return exe

ENV = dict(os.environ,
    LC_ALL='C.UTF-8',
    ASAN_OPTIONS='abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1:handle_abort=0:malloc_context_size=12',
    UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=86',
    TSAN_OPTIONS='halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0')

def limits(flavor):
    def f():
        import resource
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if flavor in ('heap', 'plain', 'valgrind'):
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f

class Shard:
    def __init__(self, exe, flavor, chk, args, wd, name):
        self.exe, self.flavor, self.chk, self.args, self.name = exe, flavor, chk, args, name
        self.cur = os.path.join(wd, name+'.cur'); self.stats = os.path.join(wd, name+'.stats'); self.err = os.path.join(wd, name+'.err')
        self.prefix = list(FLAVORS[flavor].get('run', []))
        self.start()
    def start(self):
        for f in (self.cur, self.stats):
            if os.path.exists(f): os.unlink(f)
        cmd = self.prefix + [self.exe, '--check', self.chk, '--cur', self.cur, '--stats', self.stats] + self.args
        self.cmd = cmd
        self.f = open(self.err, 'wb')
        self.p = subprocess.Popen(cmd, stdout=self.f, stderr=self.f, stdin=subprocess.DEVNULL, env=ENV, preexec_fn=limits(self.flavor), cwd=os.path.dirname(self.err))
        self.t_case = time.time(); self.last = None
    def case(self):
        try:
            b = open(self.cur, 'rb').read(1 << 16)
            b = b.split(b'\0', 1)[0]
            n, _, t = b.partition(b'\n')
            return int(n), t.decode(errors='replace')
        except Exception:
            return None, ''
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait()
    def stderr(self):
        try: return open(self.err, 'rb').read().decode(errors='replace')
        except OSError: return ''

def describe(rc, err):
    """classify an ending: (kind, summary); kind None if it is not evidence of a violation"""
    if rc == 0: return 'ok', ''
    m = re.search(r'^ORACLE-FAIL.*$', err, re.M)
    if m: return 'oracle', m.group(0)[:400]
    if 'HARNESS-ERROR' in err or rc == 4: return None, (re.search(r'HARNESS-ERROR.*', err) or [err[-300:]])[0][:300]
    m = re.search(r'(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer): [^\n]*', err)
    if m: return 'sanitizer', m.group(0)[:300]
    m = re.search(r'[^\n]*runtime error: [^\n]*', err)
    if m: return 'sanitizer', m.group(0)[:300]
    m = re.search(r'==\d+== (Invalid|Conditional|Use of|Syscall|Process terminating)[^\n]*', err)
    if m: return 'valgrind', m.group(0)[:300]
    m = re.search(r'[^\n]*Assertion [^\n]* failed[^\n]*', err)
    if m: return 'assert', m.group(0)[:300]
    if 'unexpected memory mapping' in err or 'failed to re-exec' in err.lower(): return None, 'sanitizer could not start'
    if rc in (-signal.SIGKILL,): return None, 'killed'
    if rc < 0:
        return 'signal', 'died of signal %d' % -rc
    if 'terminate called' in err: return 'abort', 'terminate called'
    return 'exit', 'exit code %d: %s' % (rc, err[-200:])

def main():
    a = sys.argv[1:]
    pid = None; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1); replay = None; jobs = 8
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--seed': seed = int(a.pop(0))
        elif x == '--replay': replay = a.pop(0)
        elif x == '--jobs': jobs = int(a.pop(0))
        elif x == '--setup':
            for t in ('g++', 'clang++', 'valgrind'):
                if not shutil.which(t): log('missing', t); return 2
            return 0
        else: pid = x
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if pid not in CHECKS:
        log('unknown property', pid); return 2
    C = CHECKS[pid]
    t0 = time.time()
    evdir = os.path.join(VERIF, 'evidence'); os.makedirs(evdir, exist_ok=True)
    wd = os.path.join(evdir, 'run', pid); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)

    if replay:
        R = json.load(open(replay))
        exe = build(R['harness'], R.get('area', C.get('area', 'core')), R['flavor'])
        p = subprocess.run(list(FLAVORS[R['flavor']].get('run', []))+[exe]+R['args']+['-v'], env=ENV)
        k, s = describe(p.returncode, '')
        log('replay ended with', p.returncode); return 0 if p.returncode == 0 else 1

    violations, problems, runs = [], [], []
    budget = C.get('budget', {}).get(tier, 240 if tier == 'quick' else 780)
    stall = C.get('stall', 60)
    for part in C['parts']:
        harness, flavor = part['harness'], part['flavor']
        chk = part.get('check', pid)
        try:
            exe = build(harness, part.get('area', C.get('area', 'core')), flavor)
        except BuildError as e:
            log('BUILD FAILED', e); problems.append('build failed'); break
        n = min(part.get('shards', 8), jobs)
        left = max(20, budget - (time.time()-t0)) * part.get('share', 1.0)
        common = ['--seed', str(seed), '--tier', tier]
        shards = [Shard(exe, flavor, chk, common+['--shard', '%d/%d' % (i, n), '--budget', str(int(left))], wd, '%s-%s-%d' % (chk.replace(':', '_'), flavor, i)) for i in range(n)]
        live = list(shards); restarts = {}
        def record(sh, kind, summary, case, text, err):
            single = ['--check', sh.chk]+common+['--case', str(case)] if case is not None else ['--check', sh.chk]+common
            # does it fail alone, too?
            alone = None
            if case is not None and kind != 'hang':
                try:
                    r = subprocess.run(sh.prefix+[exe]+single, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=120, preexec_fn=limits(flavor), cwd=wd)
                    alone = r.returncode
                except subprocess.TimeoutExpired:
                    alone = 'timeout'
            violations.append(dict(property=pid, harness=harness, area=part.get('area', C.get('area', 'core')), flavor=flavor, args=single if alone not in (0,) else ['--check', sh.chk]+sh.args,
                                   kind=kind, summary=summary, case=case, case_text=text[:20000], replayed_alone=alone, report=err[-12000:], tier=tier, seed=seed))
        while live:
            time.sleep(0.05)
            for sh in list(live):
                rc = sh.p.poll()
                now = time.time()
                if rc is None:
                    c = sh.case()[0]
                    if c != sh.last: sh.last, sh.t_case = c, now
                    elif now - sh.t_case > stall:
                        case, text = sh.case(); sh.kill(); live.remove(sh)
                        err = sh.stderr()
                        # confirm with the single case and much more time
                        hung = False
                        if case is not None:
                            one = Shard(exe, flavor, chk, common+['--case', str(case)], wd, sh.name+'-confirm')
                            te = time.time()+stall*2
                            while one.p.poll() is None and time.time() < te: time.sleep(0.1)
                            if one.p.poll() is None:
                                one.kill(); hung = True
                            elif one.p.returncode not in (0,):
                                k, s = describe(one.p.returncode, one.stderr())
                                if k: record(sh, k, s, case, text, one.stderr()); continue
                        if hung or (part.get('hang_is_history') or C.get('hang_is_history')):
                            if not hung and not restarts.get(sh.name):     # an interleaving: try the shard once more
                                restarts[sh.name] = 1; sh.start(); live.append(sh); continue
                            record(sh, 'hang', 'no progress for %d s' % stall, case, text, err)
                        elif not restarts.get(sh.name):
                            restarts[sh.name] = 1; sh.start(); live.append(sh)
                        else:
                            problems.append('unconfirmed hang in case %s' % case)
                    continue
                live.remove(sh); sh.f.close()
                err = sh.stderr()
                kind, summary = describe(rc, err)
                if kind == 'ok': continue
                if kind is None:
                    if restarts.get(sh.name, 0) < 3:
                        restarts[sh.name] = restarts.get(sh.name, 0)+1
                        if 'memory mapping' in err and shutil.which('setarch') and 'setarch' not in sh.prefix: sh.prefix = ['setarch', '-R']+sh.prefix
                        sh.start(); live.append(sh)
                    else:
                        problems.append('%s: %s' % (sh.name, summary))
                    continue
                case, text = sh.case()
                m = re.search(r'ORACLE-FAIL check=\S+ case=(-?\d+)', err)
                if m: case = int(m.group(1))
                record(sh, kind, summary, case, text, err)
            if violations and live:     # one is enough; let the others finish only briefly
                te = time.time()+5
                while time.time() < te and any(s.p.poll() is None for s in live): time.sleep(0.1)
                for s in live:
                    if s.p.poll() is None: s.kill()
                live = []
        for sh in shards:
            try: runs.append((part, json.load(open(sh.stats))))
            except Exception: pass
        if violations: break

    # known findings: probe each listed one, on its own input
    known = []
    if not violations:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if not m or m.group(1) != pid: continue
            part = C['parts'][0]
            try: exe = build(part['harness'], part.get('area', C.get('area', 'core')), part['flavor'])
            except BuildError: continue
            try:
                r = subprocess.run([exe, '--check', 'probe:'+m.group(2)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, preexec_fn=limits(part['flavor']), cwd=wd)
            except subprocess.TimeoutExpired:
                problems.append('probe timeout'); continue
            if r.returncode == 10:
                known.append(m.group(2)); log('KNOWN-FINDING: property=%s %s' % (pid, m.group(3).strip()))

    ev, distinct, cover, samples, cases = 0, set(), {}, [], 0
    for part, s in runs:
        cases += s['evaluations']; ev += max(s['evaluations'], s.get('observed', 0)); 
        for h in s['distinct']: distinct.add((part.get('check', pid), h))
        for k, v in s['cover'].items(): cover[k] = cover.get(k, 0)+v
        for x in s['samples']:
            if len(samples) < 6: samples.append(x)
    for k in C.get('must_see', []):
        if not violations and not problems and cover.get(k, 0) <= 0: problems.append('never observed: '+k)
    if not violations and not problems and (ev == 0 or not distinct): problems.append('nothing observed')
    json.dump(dict(property=pid, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=C['rule'], samples=samples or ['(none)'], cases=cases,
                      builds=['%s/%s' % (p['harness'], p['flavor']) for p in C['parts']], observed=cover,
                      known_findings_present=known, problems=problems),
        assumptions=C.get('assumptions', ['the compiler, C++ runtime and sanitizer runtimes are trusted', 'only the executions generated from this seed were observed']),
        wall_s=round(time.time()-t0, 2), violations=len(violations)), open(os.path.join(evdir, pid+'.json'), 'w'), indent=1)

    if violations:
        rd = os.path.join(evdir, 'replay'); os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(rd, '%s-%d.json' % (pid, i)); json.dump(v, open(path, 'w'), indent=1)
            log('%s: %s\n  case %s: %s' % (v['kind'], v['summary'], v['case'], v['case_text'][:1500]))
            log('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if problems:
        for p in problems: log('NO ANSWER:', p)
        return 2
    log('%s: held on %d oracle evaluations (%d cases, %d distinct non-trivial) in %.1fs' % (pid, ev, cases, len(distinct), time.time()-t0))
    shutil.rmtree(wd, ignore_errors=True)
    return 0

if __name__ == '__main__':
    sys.exit(main())
