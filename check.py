#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE
Runs the monitored executables for one property; exit 0 held, 1 violated, 2 the check itself failed."""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import build as B, plans as P   # noqa: E402

NPAR = int(os.environ.get('VERIF_JOBS', '8'))
HARD = 400     # s; a run this long is abandoned without a verdict, the hang monitor inside decides much earlier
ENV = {
    'asan': {'ASAN_OPTIONS': 'detect_leaks=1:abort_on_error=0:exitcode=98:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1:strict_string_checks=1:quarantine_size_mb=64',
             'UBSAN_OPTIONS': 'print_stacktrace=1', 'LSAN_OPTIONS': 'exitcode=97'},
    'tsan': {'TSAN_OPTIONS': 'exitcode=96:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4'},
}


class Result:
    def __init__(self, kind, scen, params, rc, out, wall):
        self.kind, self.scen, self.params, self.rc, self.out, self.wall = kind, scen, params, rc, out, wall
        self.stats, self.samples, self.trace, self.done = {}, [], None, False
        self.verdict, self.key, self.text = 'ok', '', ''
        for line in out.splitlines():
            if line.startswith('STAT '):
                f = line.split()
                if len(f) == 3:
                    self.stats[f[1]] = self.stats.get(f[1], 0) + int(f[2])
            elif line.startswith('SAMPLE '):
                self.samples.append(line[7:])
            elif line.startswith('TRACE '):
                self.trace = line[6:].strip()
            elif line == 'DONE':
                self.done = True
            elif line.startswith('VIOL ') and self.verdict == 'ok':
                k, _, t = line[5:].partition(' | ')
                self.verdict, self.key, self.text = 'viol', k, t
            elif line.startswith('INTERNAL ') and self.verdict == 'ok':
                self.verdict, self.key, self.text = 'internal', 'internal', line
        if self.verdict != 'ok':
            return
        if rc == 0 and self.done:
            return
        s = re.search(r'SUMMARY: (.*)', out)
        summary = s.group(1)[:300] if s else ''
        if rc == 'stopped':
            self.verdict = 'stopped'
        elif rc == 'timeout':
            self.verdict, self.key, self.text = 'internal', 'timeout', 'no verdict within %d s' % HARD
        elif 'LeakSanitizer' in out and 'ERROR: LeakSanitizer' in out:
            self.verdict, self.key, self.text = 'viol', 'leak', 'memory is never released: ' + summary + ' ' + leak_site(out)
        elif 'ThreadSanitizer' in out:
            self.verdict, self.text = 'viol', summary or 'ThreadSanitizer report'
            self.key = 'race' if 'data race' in summary or 'race on' in summary else 'thread-error'
        elif 'AddressSanitizer' in out or 'runtime error:' in out:
            m = re.search(r'runtime error: (.*)', out)
            self.verdict, self.key, self.text = 'viol', 'memory', (m.group(0) + ' ' if m else '') + summary
        elif isinstance(rc, int) and rc < 0:
            self.verdict, self.key, self.text = 'viol', 'crash', 'the process was killed by signal %s' % signal.Signals(-rc).name
        elif rc == -9:
            self.verdict, self.key, self.text = 'internal', 'killed', 'killed'
        else:
            self.verdict, self.key, self.text = 'viol' if rc == 97 else 'internal', 'exit', 'unexpected end, exit code %s, finished=%s: %s' % (rc, self.done, out[-300:].replace('\n', ' | '))
        if rc == -9:
            self.verdict = 'internal'


def leak_site(out):
    fs = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', out)
    return ' <- '.join('%s' % f for f, p in fs if '/harness/' not in p and 'sanitizer' not in p and '_interceptors' not in p and f not in ('malloc', 'calloc', 'realloc'))[:200]


RUNLOCK, RUNNING, STOPPED = threading.Lock(), set(), threading.Event()


def stop_all():
    """a violation was found: the runs still going cannot change the verdict"""
    STOPPED.set()
    with RUNLOCK:
        for p in list(RUNNING):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def run_one(kind, scen, params, scratch):
    exe = EXE[kind]
    cmd = [exe, scen]
    for k, v in params.items():
        cmd += ['--' + k, str(v)]
    env = dict(os.environ, VT_SCRATCH=scratch, **ENV[kind])
    t = time.time()
    if STOPPED.is_set():
        return Result(kind, scen, params, 'stopped', '', 0)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd=scratch)
    with RUNLOCK:
        RUNNING.add(p)
    if STOPPED.is_set():
        stop_all()
    try:
        out, _ = p.communicate(timeout=HARD)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = 'timeout'
    with RUNLOCK:
        RUNNING.discard(p)
    if STOPPED.is_set() and rc == -9:
        rc = 'stopped'
    return Result(kind, scen, params, rc, out.decode('utf-8', 'replace'), time.time() - t)


EXE = {}


def load_known():
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return json.load(fh).get('known', [])


def counts(prop, r):
    """does this verdict concern the property?"""
    if r.key == 'race':
        return prop in P.RACES
    if r.key == 'leak':
        return prop in P.LEAKS
    if r.key == 'descriptor-leak':
        return prop in P.FDLEAK
    return True


def write_evidence(prop, tier, seed, wall, cov, violations, assumptions):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}
    p = os.path.join(HERE, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(e, f, indent=1)
    os.rename(p + '.tmp', p)


def violation(prop, r):
    d = os.path.join(HERE, 'build', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s.json' % (prop, r.scen, r.params.get('seed', 0)))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'kind': r.kind, 'scenario': r.scen, 'params': r.params, 'key': r.key, 'text': r.text, 'output_tail': r.out[-6000:]}, f, indent=1)
    print('%s: %s %s [%s] %s' % (prop, r.kind, r.scen, r.key, r.text[:600]))
    print('VIOLATION property=%s replay=%s' % (prop, path))


def replay(path):
    with open(path) as f:
        j = json.load(f)
    if j.get('kind') == 'gen':
        from vlib import gencheck
        return gencheck.replay(j)
    EXE[j['kind']] = B.build(j['kind'])
    for n in range(20):
        scratch = tempfile.mkdtemp(prefix='vtr')
        try:
            r = run_one(j['kind'], j['scenario'], j['params'], scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print('try %d: %s %s %s' % (n, r.verdict, r.key, r.text[:300]))
        if r.verdict == 'viol':
            print(r.out[-4000:])
            return 1
    return 0


def runtime_check(prop, tier, seed, t0):
    kinds = sorted({k for k, _, _ in P.PLAN[prop]})
    try:
        for k in kinds:
            EXE[k] = B.build(k, optional_ok=prop not in ('C10', 'C11'))
    except B.BuildError as e:
        print('build failed:\n' + str(e)[:3000])
        return 2
    known = []
    for k in load_known():
        if k['property'] == prop:
            from vlib import findings
            if findings.reproduce(k['id']):
                known.append(k['id'])
                print('KNOWN-FINDING: property=%s %s' % (prop, k['fails']))
    budget = float(os.environ.get('VERIF_BUDGET', '240' if tier == 'quick' else '900'))
    scratch = tempfile.mkdtemp(prefix='vts')
    for k in kinds:   # other builds may prune the cache meanwhile
        EXE[k] = shutil.copy(EXE[k], os.path.join(scratch, 'h-' + k))
    results, bad, lock = [], [], threading.Lock()
    errors = []
    state = {'stop': False, 'retry': 0}
    it = P.runs(prop, seed, tier)

    def worker():
        try:
            work()
        except Exception:
            errors.append(traceback.format_exc())
            with lock:
                state['stop'] = True

    def work():
        while True:
            with lock:
                if state['stop'] or time.time() - t0 > budget:
                    return
                j = next(it, None)
            if j is None:
                return
            r = run_one(*j, scratch)
            if r.verdict == 'stopped':
                return
            if r.verdict == 'internal' and r.key != 'timeout':
                again = [run_one(*j, scratch) for _ in range(2)]
                r = next((x for x in again if x.verdict != 'internal'), again[-1])
                if r.verdict == "stopped":
                    return
            with lock:
                results.append(r)
                if r.verdict == 'viol' and counts(prop, r):
                    bad.append(r)
                    state['stop'] = True
                    stop_all()
    try:
        ths = [threading.Thread(target=worker) for _ in range(NPAR)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # a scenario that never gets as far as judging anything, every time, says that the library does not work at all
    internal = [r for r in results if r.verdict == 'internal']
    ok = [r for r in results if r.verdict == 'ok']
    total, perscen = {}, {}
    for r in results:
        s = perscen.setdefault(r.kind + ':' + r.scen, {'runs': 0, 'held': 0})
        s['runs'] += 1
        s['held'] += r.verdict == 'ok'
        for k, v in r.stats.items():
            total.setdefault(r.scen, {}).setdefault(k, 0)
            total[r.scen][k] += v
    traces = {(r.kind, r.scen, r.trace) for r in ok if r.trace}
    other = sorted({r.scen + ': ' + r.key + ': ' + r.text[:160] for r in results if r.verdict == 'viol' and not counts(prop, r)})
    samples = []
    for r in sorted(ok, key=lambda r: (r.scen, r.params['seed'])):
        if r.samples and len(samples) < 12 and sum(1 for s in samples if s['scenario'] == r.scen) < 3:
            samples.append({'scenario': r.scen, 'instrumentation': r.kind, 'params': r.params, 'observed': r.samples[:2], 'trace': r.trace})
    cov = {'evaluations': len(results), 'distinct_nontrivial': len(traces),
           'rule': 'one evaluation is one execution of a workload scenario with parameters, schedule perturbation and fault injection drawn from VERIF_SEED; it is counted as '
                   'distinct and non-trivial when it ran to its end with every monitor attached and the hash over the order in which threads made monitored steps '
                   '(handler runs, completed calls, received events, operations) and over what they observed was not seen before',
           'samples': samples, 'runs_by_scenario': perscen, 'observed': total, 'not_concerning_this_property': other, 'known_findings_reproduced': known, 'without_verdict': [r.scen + ' ' + r.text[:200] for r in internal][:5]}
    write_evidence(prop, tier, seed, time.time() - t0, cov, len(bad), [
        'Linux, clang 18 sanitizers, the socket link; the C11 thread functions of the library are mapped to pthreads',
        'executions are sampled, not enumerated'])
    if bad:
        violation(prop, bad[0])
        return 1
    if errors:
        print('%s: the check itself failed:\n%s' % (prop, errors[0]))
        return 2
    broken = [r for r in internal if r.key != 'timeout']
    if broken and len(broken) * 4 >= len(results):
        violation(prop, broken[0])
        return 1
    if internal:
        print('%s: %d of %d runs gave no verdict: %s' % (prop, len(internal), len(results), internal[0].text[:300]))
        if len(internal) * 10 > len(results):
            return 2
    vac = [s + '.' + k for s in total for k in P.MUST.get(s, []) if not total[s].get(k)]
    if vac or not results:
        print('%s: monitors observed nothing for %s' % (prop, ', '.join(vac)))
        return 2
    print('%s: held on %d executions (%d distinct), %.1f s' % (prop, len(results), len(traces), time.time() - t0))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.prop in ('C01', 'C15'):
        from vlib import gencheck
        return gencheck.check(a.prop, a.tier, seed, t0)
    return runtime_check(a.prop, a.tier, seed, t0)


if __name__ == '__main__':
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(main())
