#!/usr/bin/env python3
"""Decides one property of g3log by symbolic execution of the code in /repo.

usage: check.py <property> [--tier quick|thorough] [--job NAME] [--keep DIR]
Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": a counterexample was found and replayed.
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props
REPO = os.environ.get('G3_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++-18'; LINK = 'llvm-link-18'
IRFLAGS = '-std=c++17 -O1 -DNDEBUG -gline-tables-only -w -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -D_GLIBCXX_EXTERN_TEMPLATE=0'.split()
WRAP = ','.join('--wrap=' + s for s in 'write sigaction raise exit _exit abort backtrace backtrace_symbols getpid pthread_sigmask sigprocmask kill pthread_kill'.split())
GEN = {  # configurations of the generated header (what cmake would write)
    'default': '',
    'dynamic': '#define G3_DYNAMIC_LOGGING\n',
    'dynmax': '#define G3_DYNAMIC_MAX_MESSAGE_SIZE\n',
    'fullname': '#define G3_LOG_FULL_FILENAME\n',
    'nosig': '#define DISABLE_FATAL_SIGNALHANDLING\n',
    'dbg': '#define CHANGE_G3LOG_DEBUG_TO_DBUG\n',
}

def run(cmd, timeout=600, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try: o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, e = p.communicate(); return 124, o.decode('latin1'), e.decode('latin1')
    return p.returncode, o.decode('latin1'), e.decode('latin1')

class BuildError(Exception): pass

def sha(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def tree(*ds):
    r = []
    for d in ds:
        for b, _, fs in os.walk(d): r += [os.path.join(b, f) for f in fs]
    return r

def ensure_tools():
    """build the executor and the runtime model (neither depends on /repo)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        eng = tree(os.path.join(VERIF, 'engine')); key = sha(eng); stamp = os.path.join(BUILD, 'symx.key')
        if not (os.path.exists(os.path.join(BUILD, 'symx')) and os.path.exists(stamp) and open(stamp).read() == key):
            rc, o, e = run(['bash', os.path.join(VERIF, 'engine/build.sh'), BUILD], 900)
            if rc: raise BuildError('engine: ' + e[-2000:])
            open(stamp, 'w').write(key)
        mod = tree(os.path.join(VERIF, 'model')); key = sha(mod); stamp = os.path.join(BUILD, 'model.key')
        if not (os.path.exists(stamp) and open(stamp).read() == key):
            ps = []
            for f in ('rt', 'env_sym'):
                cmd = [CLANG] + [x for x in IRFLAGS if 'EXTERN' not in x] + ['-fno-access-control', '-U__OPTIMIZE__', '-fno-builtin', '-isystem', VERIF + '/model/include', '-I' + VERIF + '/model', '-emit-llvm', '-c', VERIF + '/model/%s.cpp' % f, '-o', BUILD + '/%s.bc' % f]
                ps.append(subprocess.Popen(cmd, stderr=subprocess.PIPE))
            for p in ps:
                e = p.communicate()[1]
                if p.returncode: raise BuildError('model: ' + e.decode()[-2000:])
            open(stamp, 'w').write(key)

def repo_sources():
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp') and 'windows' not in f)

class Ctx:
    def __init__(self, tmp, pool): self.tmp = tmp; self.pool = pool; self.memo = {}; self.lock = threading.Lock()
    def once(self, key, fn):
        with self.lock:
            f = self.memo.get(key)
            if f is None:
                f = cf.Future(); self.memo[key] = f; mine = True
            else: mine = False
        if mine:
            try: f.set_result(fn())
            except BaseException as e: f.set_exception(e)
        return f.result()
    def gen(self, cfg):
        d = os.path.join(self.tmp, 'gen_' + cfg, 'g3log')
        with self.lock:
            if not os.path.isdir(d):
                os.makedirs(d)
                body = '#pragma once\n' + GEN[cfg]
                body += '#define G3LOG_DEBUG %s\n' % ('DBUG' if cfg == 'dbg' else 'DEBUG')
                open(os.path.join(d, 'generated_definitions.hpp'), 'w').write(body)
        return os.path.dirname(d)
    def repo_bc(self, cfg, src):
        def go():
            o = os.path.join(self.tmp, '%s_%s.bc' % (cfg, os.path.basename(src)))
            rc, _, e = run([CLANG] + IRFLAGS + ['-isystem', VERIF + '/model/include', '-I' + REPO + '/src', '-I' + self.gen(cfg), '-emit-llvm', '-c', src, '-o', o], 300)
            if rc: raise BuildError('%s: %s' % (src, e[-3000:]))
            return o
        return self.once(('bc', cfg, src), go)
    def harness_bc(self, job):
        key = (job['file'], job['cfg'], tuple(sorted(job['D'].items())))
        def go():
            o = os.path.join(self.tmp, 'h_%s.bc' % hashlib.md5(repr(key).encode()).hexdigest()[:10])
            rc, _, e = run([CLANG] + [x for x in IRFLAGS if 'EXTERN' not in x] + ['-fno-access-control'] + ['-D%s=%s' % kv for kv in sorted(job['D'].items())] + ['-isystem', VERIF + '/model/include', '-I' + VERIF + '/model', '-I' + REPO + '/src', '-I' + self.gen(job['cfg']), '-emit-llvm', '-c', os.path.join(VERIF, 'harness', job['file']), '-o', o], 300)
            if rc: raise BuildError('%s: %s' % (job['file'], e[-3000:]))
            return o
        return self.once(('h',) + key, go)
    def linked(self, job):
        key = (job['file'], job['cfg'], tuple(sorted(job['D'].items())))
        def go():
            bcs = [self.repo_bc(job['cfg'], s) for s in repo_sources()]
            o = os.path.join(self.tmp, 'l_%s.bc' % hashlib.md5(repr(key).encode()).hexdigest()[:10])
            rc, _, e = run([LINK] + bcs + [BUILD + '/rt.bc', BUILD + '/env_sym.bc', self.harness_bc(job), '-o', o], 300)
            if rc: raise BuildError('link: ' + e[-3000:])
            return o
        return self.once(('l',) + key, go)
    # ---- native build (replay and validation of path witnesses)
    def nat_obj(self, cfg, src, D=(), extra=()):
        def go():
            o = os.path.join(self.tmp, 'n_%s.o' % hashlib.md5(repr((cfg, src, D, extra)).encode()).hexdigest()[:10])
            rc, _, e = run(['g++', '-std=c++17', '-O1', '-g', '-DNDEBUG', '-w', '-fsanitize=address', '-fno-access-control'] + list(extra) + ['-D%s=%s' % kv for kv in D] + ['-I' + VERIF + '/model', '-I' + REPO + '/src', '-I' + self.gen(cfg), '-c', src, '-o', o], 300)
            if rc: raise BuildError('native %s: %s' % (src, e[-2000:]))
            return o
        return self.once(('n', cfg, src, D, extra), go)
    def native(self, job):
        D = tuple(sorted(job['D'].items())); key = ('nat', job['file'], job['cfg'], D, job['entry'])
        def go():
            objs = [self.nat_obj(job['cfg'], os.path.join(VERIF, 'harness', job['file']), D)]
            objs += [self.nat_obj('default', VERIF + '/model/native.cpp', (('ENTRY', job['entry']),)), self.nat_obj('default', VERIF + '/model/env_nat.cpp')]
            objs += [self.nat_obj(job['cfg'], s) for s in repo_sources()]
            o = os.path.join(self.tmp, 'nat_' + hashlib.md5(repr(key).encode()).hexdigest()[:10])
            rc, _, e = run(['g++', '-fsanitize=address'] + objs + ['-Wl,' + WRAP, '-rdynamic', '-ldl', '-pthread', '-o', o], 300)
            if rc: raise BuildError('native link: ' + e[-2000:])
            return o
        return self.once(key, go)
    def native_run(self, job, cefile):
        exe = self.native(job); sc = tempfile.mkdtemp(dir=self.tmp)
        env = dict(os.environ, SX_SCRATCH=sc, ASAN_OPTIONS='detect_leaks=0:exitcode=99:handle_segv=1:allow_user_segv_handler=0:handle_abort=0')
        rc, o, e = run([exe, cefile], 90, env=env, cwd=sc)
        shutil.rmtree(sc, ignore_errors=True)
        return rc, o, e

def write_ce(path, inputs, schedule=()):
    with open(path, 'w') as f:
        for k, v in inputs: f.write('%s %s\n' % (k, v))
        if schedule: f.write('schedule %s\n' % ','.join(map(str, schedule)))

def known_findings(pid):
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) job=(\S+) match=/(.*?)/ (.*)$', l.strip())
            if m and m.group(1) == pid: r.append(dict(job=m.group(2), rx=re.compile(m.group(3)), what=m.group(4)))
    return r

def run_job(ctx, job, tier, pid):
    r = dict(job=job['name'], file=job['file'], entry=job['entry'], config=job['cfg'], defines=job['D'], bounds=job.get('bounds', ''))
    t0 = time.time()
    bc = ctx.linked(job)
    out = os.path.join(ctx.tmp, 'out_%s.json' % job['name'])
    base = [os.path.join(BUILD, 'symx'), bc, '--entry', job['entry'], '--repo', REPO + '/', '--max-mem', str(job.get('mem', 5000)), '--cross', 'cvc5 --tlimit=4000', '--cross-time', '8' if tier == 'quick' else '120'] + job['args']
    if job.get('seedless') is None: pass
    rc, o, e = run(base + ['--out', out, '--max-time', str(job['time'])], job['time'] + 120)
    try: d = json.load(open(out))
    except Exception: r.update(status='inconclusive', why='executor ended with %d %s' % (rc, e[-300:]), wall=time.time() - t0); return r
    r['d'] = d; r['confirmed'] = []; r['unconfirmed'] = []
    for i, v in enumerate(d['violations']):
        ce = os.path.join(ctx.tmp, 'ce_%s_%d.txt' % (job['name'], i)); write_ce(ce, v['inputs'], v['schedule']); v['ce'] = ce
        how = None
        # 1. deterministic concrete re-execution (fixed inputs, fixed schedule)
        o2 = out + '.re'; run(base + ['--out', o2, '--max-time', '120', '--ce', ce], 200)
        try: d2 = json.load(open(o2)); same = [x for x in d2['violations'] if x['kind'] == v['kind'] and x['msg'][:40] == v['msg'][:40]]
        except Exception: same = []
        v['reexecuted'] = bool(same)
        threaded = bool(v['schedule']); nat = None
        if job.get('native', True):
            tries = 1
            for _ in range(tries):
                try:
                    rc3, o3, e3 = ctx.native_run(job, ce)
                    nat = ('REPLAY-REPRODUCED' in o3) or 'AddressSanitizer' in e3 or rc3 in (99, 124, -14, -6, -11, -8)
                    v['native_rc'] = rc3; v['native_output'] = (o3[-1500:] + ('\n' + '\n'.join(e3.splitlines()[:25]) if rc3 not in (0, 1) else '')).strip()
                except BuildError as x: v['native_output'] = 'native build failed: %s' % x
                if nat: break
        v['native'] = nat
        # sequential counterexamples must reproduce in the compiled code; schedules are confirmed by re-execution of the recorded schedule
        ok = (same or (v['kind'] in ('nontermination', 'livelock') and v.get('native_rc') in (124, -14))) and (nat if (nat is not None and not threaded) else True)
        (r['confirmed'] if ok else r['unconfirmed']).append(v)
    # validation of the encoding: path witnesses are run through the compiled real code
    val = 0; mism = []
    if job.get('native', True) and not d['violations']:
        n = job.get('validate', 3 if tier == 'quick' else 8)
        for k, s in enumerate(d['samples'][-n:] if n else []):
            ce = os.path.join(ctx.tmp, 'w_%s_%d.txt' % (job['name'], k)); write_ce(ce, list(s['inputs'].items()))
            try: rc3, o3, e3 = ctx.native_run(job, ce)
            except BuildError as x: mism.append(str(x)[-300:]); break
            if 'REPLAY-NOT-REPRODUCED' in o3 and rc3 == 0: val += 1
            else: mism.append(dict(inputs=s['inputs'], rc=rc3, out=o3[-300:], err=e3[:600]))
    r['validated'] = val; r['mismatch'] = mism
    r['missing_reach'] = [k for k in job['reach'] if k not in d['reach']]
    if 'done' in r['missing_reach'] and not d['violations'] and not d['inconclusive'] and job.get('native', True):   # all runs explored, none finishes: does the compiled code hang?
        ce = os.path.join(ctx.tmp, 'hang_%s.txt' % job['name']); write_ce(ce, [])
        try: rc3, o3, e3 = ctx.native_run(job, ce)
        except BuildError: rc3 = None
        if rc3 in (124, -14): v = dict(kind='livelock', msg='no run finishes: the threads wait in loops that nothing ends', inputs=[], schedule=[], loc='', stack=[], notes=[], ce=ce, reexecuted=False, native=True, native_output='time limit'); d['violations'].append(v); r['confirmed'].append(v)
    r['wall'] = time.time() - t0
    if r['confirmed']: r['status'] = 'violated'
    elif d['inconclusive'] or r['unconfirmed']: r['status'] = 'inconclusive'
    elif 'done' in r['missing_reach'] or len(r['missing_reach']) == len(job['reach']): r['status'] = 'vacuous'
    elif r['missing_reach']: r['status'] = 'inconclusive'; r['why'] = 'scenarios not reached: %s' % r['missing_reach']
    else: r['status'] = 'held'
    return r

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--job'); ap.add_argument('--keep'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args(); pid = a.property; t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    tmp = a.keep or tempfile.mkdtemp(prefix='g3chk_'); os.makedirs(tmp, exist_ok=True)
    results = []; fatal = None
    try:
        ensure_tools()
        jobs = [j for j in props.jobs(pid, a.tier) if not a.job or j['name'] == a.job]
        with cf.ThreadPoolExecutor(16) as pool, cf.ThreadPoolExecutor(8) as cpool:
            ctx = Ctx(tmp, pool)
            pre = [cpool.submit(ctx.repo_bc, c, s) for c in sorted({j['cfg'] for j in jobs}) for s in repo_sources()]
            pre += [cpool.submit(ctx.harness_bc, j) for j in jobs]
            if any(j.get('native', True) for j in jobs):
                for j in jobs:
                    if j.get('native', True): cpool.submit(ctx.nat_obj, j['cfg'], os.path.join(VERIF, 'harness', j['file']), tuple(sorted(j['D'].items())))
                for c in sorted({j['cfg'] for j in jobs if j.get('native', True)}):
                    for s in repo_sources(): cpool.submit(ctx.nat_obj, c, s)
                cpool.submit(ctx.nat_obj, 'default', VERIF + '/model/env_nat.cpp')
            for f in pre: f.result()
            with cf.ThreadPoolExecutor(props.PAR) as jp:
                results = list(jp.map(lambda j: run_job(ctx, j, a.tier, pid), jobs))
    except BuildError as e: fatal = 'build: ' + str(e)
    rc = 0; findings = known_findings(pid); nviol = 0
    if fatal: print('ERROR', fatal); rc = 2
    repdir = os.path.join(VERIF, 'evidence', 'replay'); seen_findings = set()
    for r in results:
        for v in r.get('confirmed', []):
            text = ' | '.join([v['kind'], v['msg'], v['loc']] + v['stack'])
            hit = [f for f in findings if f['job'] == r['job'] and f['rx'].search(text)]
            if hit: seen_findings.add(hit[0]['what']); continue
            os.makedirs(repdir, exist_ok=True); rp = os.path.join(repdir, '%s_%s_%d.json' % (pid, r['job'], nviol))
            json.dump(dict(property=pid, job=r['job'], harness=r['file'], entry=r['entry'], config=r['config'], defines=r['defines'], kind=v['kind'], message=v['msg'], location=v['loc'], stack=v['stack'], inputs=v['inputs'], schedule=v['schedule'], notes=v['notes'], reexecuted=v['reexecuted'], native_reproduced=v['native'], native_output=v.get('native_output')), open(rp, 'w'), indent=1)
            print('%s: %s: %s at %s' % (r['job'], v['kind'], v['msg'], v['loc']))
            for s in v['stack'][:8]: print('    ' + s)
            print('    inputs: ' + ', '.join('%s=%s' % (k, x) for k, x in v['inputs'][:40]))
            if v['schedule']: print('    schedule: ' + ','.join(map(str, v['schedule'][:80])))
            print('VIOLATION property=%s replay=%s' % (pid, rp)); nviol += 1; rc = 1
        if r['status'] == 'vacuous' and rc == 0: print('ERROR vacuous harness %s: never reached %s' % (r['job'], r['missing_reach'])); rc = 2
    for f in findings:
        if f['what'] in seen_findings: print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    # ---- evidence
    ds = [r['d'] for r in results if 'd' in r]
    sm = lambda k: sum(int(d[k]) for d in ds)
    fn = {}
    for d in ds:
        for n, f, l, c, t in d['functions']:
            k = '%s:%d %s' % (f, l, n); o = fn.get(k, [0, 0]); fn[k] = [max(o[0], c), max(o[1], t)]
    cov = dict(
        states=sm('paths') + sm('distinct_sched_states') if ds else 0,
        transitions=sm('forks') + sm('sched_points') if ds else 0,
        traces_validated_against_impl=sum(r.get('validated', 0) for r in results) + sum(1 for r in results for v in r.get('confirmed', []) if v.get('native')),
        samples=[dict(job=r['job'], **r['d']['samples'][-1]) for r in results if 'd' in r and r['d']['samples']][:8],
        exhaustive=bool(results) and all(r['status'] == 'held' for r in results),
        bounds={r['job']: r['bounds'] for r in results},
        paths=sm('paths'), path_conditions_completed=sm('completed'), distinct_schedule_states=sm('distinct_sched_states'), instructions_executed=sm('instructions'),
        assertions_checked=sm('assert_queries'), assertions_proved=sm('assert_proved'), memory_safety_checks=sm('mem_checks'),
        solver_queries=sm('solver_queries'), solver_sat=sm('solver_sat'), solver_unsat=sm('solver_unsat'), solver_unknown=sm('solver_unknown'), solver_answers_from_cache=sm('solver_cached') + sm('solver_model_hits'),
        solver_seconds=round(sum(d['solver_time'] for d in ds), 3), second_solver_checked=sm('cross_checked'), second_solver_disagreed=sm('cross_disagree'),
        functions_encoded={k: '%d/%d lines' % tuple(v) for k, v in sorted(fn.items())},
        jobs=[dict(job=r['job'], status=r['status'], config=r['config'], defines=r['defines'], wall_s=round(r.get('wall', 0), 2), paths=r['d']['paths'] if 'd' in r else 0, max_schedule_length=r['d']['max_schedule'] if 'd' in r else 0, reached=r['d']['reach'] if 'd' in r else {}, assertions=r['d']['asserts'] if 'd' in r else {}, inconclusive=(r['d']['inconclusive'] if 'd' in r else {'executor': r.get('why', '')}), witnesses_validated=r.get('validated', 0), witness_mismatches=r.get('mismatch', []), unconfirmed=[dict(kind=v['kind'], msg=v['msg'], loc=v['loc'], native=v['native'], reexecuted=v['reexecuted']) for v in r.get('unconfirmed', [])]) for r in results],
        known_findings=sorted(seen_findings))
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking', coverage=cov, assumptions=props.ASSUME + P.get('assume', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for r in results:
        d = r.get('d', {})
        print('%-28s %-12s %6.1fs paths=%s states=%s asserts=%s queries=%s validated=%s%s' % (r['job'], r['status'], r.get('wall', 0), d.get('paths'), d.get('distinct_sched_states'), d.get('assert_queries'), d.get('solver_queries'), r.get('validated'), (' INCONCLUSIVE ' + json.dumps(d.get('inconclusive', r.get('why')))[:300]) if r['status'] == 'inconclusive' else ''))
        for m in r.get('mismatch', [])[:2]: print('   witness mismatch:', str(m)[:700])
        for v in r.get('unconfirmed', []): print('   unconfirmed:', v['kind'], v['msg'], v['loc'], 're-executed=%s native=%s' % (v['reexecuted'], v['native']), (v.get('native_output') or '')[:400], v['inputs'][:30], v['stack'][:6])
    print('%s %s tier=%s wall=%.1fs' % (pid, 'VIOLATED' if rc == 1 else 'ERROR' if rc else 'ok', a.tier, time.time() - t0))
    if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)
if __name__ == '__main__': main()
