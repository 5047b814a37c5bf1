#!/usr/bin/env python3
"""Decide one property on /repo's working tree.

    check.py ID [--tier quick|thorough]     explore; rewrite evidence/ID.json
    check.py ID --replay FILE               repeat a reported violation

Exit status 0: the property held on everything explored; 1: it is broken, and
a line "VIOLATION property=ID replay=PATH" was printed; other: the check
itself failed.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from mc import lib  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable
STALL = 150      # seconds without progress of a worker: it hangs
GRACE = 60       # seconds for the other workers once one found something
LIMIT = 800      # seconds for the exploration of a quick check
CLEAN_ENV = {
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
    'PYTHONNOUSERSITE': '1', 'ZOPE_INTERFACE_STRICT_IRO': '1',
    'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '1',
}


class CheckError(Exception):
    pass


def build(scratch, need_c):
    """Copy the sources and compile the extensions; return the src path."""
    src = os.path.join(scratch, 'src')
    shutil.copytree(os.path.join(REPO, 'src'), src,
                    ignore=shutil.ignore_patterns(
                        '*.so', '__pycache__', '*.pyc', '*.egg-info'))
    if not need_c:
        return src
    cfg = json.loads(subprocess.check_output([PY, '-c', (
        'import sysconfig, json; v = sysconfig.get_config_var;'
        'print(json.dumps([sysconfig.get_path("include"), v("EXT_SUFFIX"),'
        ' v("CC") or "gcc"]))')], env=CLEAN_ENV))
    include, suffix, cc = cfg
    cc = (cc.split() or ['gcc'])[0]
    if not shutil.which(cc):
        cc = 'gcc'
    procs = []
    pkg = os.path.join(src, 'zope', 'security')
    for name in ('_proxy', '_zope_security_checker'):
        cmd = [cc, '-shared', '-fPIC', '-O1', '-g', '-fwrapv',
               '-fno-strict-aliasing', '-w',
               '-I', os.path.join(REPO, 'include', 'zope.proxy'),
               '-I', os.path.join(REPO, 'include'),
               '-I', pkg, '-I', include,
               os.path.join(pkg, name + '.c'),
               '-o', os.path.join(pkg, name + suffix)]
        procs.append((name, subprocess.Popen(
            cmd, env=CLEAN_ENV, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT)))
    for name, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            raise CheckError('compiling %s failed:\n%s'
                             % (name, out.decode(errors='replace')))
    return src


class Worker:
    def __init__(self, prop, job, n, scratch, src, seed, replay=None):
        self.job = job
        base = os.path.join(scratch, 'w%d' % n)
        self.out, self.beacon = base + '.out', base + '.beacon'
        self.err = base + '.err'
        spec = dict(property=prop, job=job, out=self.out, beacon=self.beacon,
                    src=src, repo=REPO)
        if replay is not None:
            spec['replay'] = replay
        with open(base + '.job', 'w') as f:
            json.dump(spec, f)
        tmp = base + '.tmp'
        os.mkdir(tmp)
        env = dict(CLEAN_ENV, PYTHONPATH=src + os.pathsep + HERE,
                   VERIF_SEED=str(seed), TMPDIR=tmp, HOME=tmp)
        env.update(lib.MODES[job['mode']])
        env.update(job.get('environ', {}))
        if 'VERIF_MAXV' in os.environ:
            env['VERIF_MAXV'] = os.environ['VERIF_MAXV']
        self.proc = subprocess.Popen(
            [PY, '-m', 'mc.worker', base + '.job'], env=env, cwd=tmp,
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
            stderr=open(self.err, 'wb'), start_new_session=True)
        self.progress, self.since = -1, time.monotonic()
        self.hung = False

    def poll(self):
        if self.proc.poll() is not None:
            self.kill()
            return True
        n, _ = lib.Beacon.read(self.beacon)
        now = time.monotonic()
        if n != self.progress:
            self.progress, self.since = n, now
        elif now - self.since > STALL:
            self.hung = True
            self.kill()
            self.proc.wait()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def result(self):
        stderr = ''
        try:
            with open(self.err, 'rb') as f:
                stderr = f.read()[-6000:].decode(errors='replace')
        except OSError:
            pass
        try:
            with open(self.out) as f:
                res = json.load(f)
        except (OSError, ValueError):
            res = None
        if res is None:
            _, case = lib.Beacon.read(self.beacon)
            rc = self.proc.returncode
            if self.hung:
                what = 'no progress for %d s (hang)' % STALL
            elif rc is not None and rc < 0:
                what = 'interpreter killed by signal %d' % -rc
            elif 'imported the wrong tree' in stderr:
                raise CheckError(stderr)
            else:
                what = 'worker ended with status %s' % rc
            if rc == -signal.SIGKILL and not self.hung:
                raise CheckError('worker was killed (out of memory?)')
            return dict(job=self.job, states=0, transitions=0, traces=0,
                        outcomes={}, samples=[], extra={}, capped=None,
                        crashed=True, violations=[dict(
                            case=case, job=self.job, fingerprint=what,
                            message=what + '\n' + stderr)])
        if res['error']:
            res['violations'].append(dict(
                case=res['current'], job=self.job,
                fingerprint='unexpected exception',
                message='unexpected exception\n' + res['error']))
        return res


def run_jobs(prop, jobs, scratch, src, seed, replay=None, log=None):
    todo = collections.deque(enumerate(jobs))
    running, results = [], {}
    ncpu = min(8, os.cpu_count() or 1)
    # Once something was found, the others need not be waited for forever: it
    # may have made them very slow.
    deadline = None
    if replay is None and jobs[0]['tier'] == 'quick':
        deadline = time.monotonic() + LIMIT
    try:
        while todo or running:
            if deadline is not None and time.monotonic() > deadline:
                break
            while todo and len(running) < ncpu:
                n, job = todo.popleft()
                running.append((n, Worker(prop, job, n, scratch, src, seed,
                                          replay)))
            time.sleep(0.02)
            for item in list(running):
                n, w = item
                if w.poll():
                    running.remove(item)
                    results[n] = w.result()
                    if replay is None and any(
                            v['fingerprint'] not in w.job['known']
                            for v in results[n]['violations']):
                        soon = time.monotonic() + GRACE
                        deadline = min(deadline or soon, soon)
                    if log:
                        r = results[n]
                        print('  job %s: %d traces, %.1fs' % (
                            {k: v for k, v in w.job.items() if k != 'known'},
                            r['traces'], time.monotonic() - log), flush=True)
    finally:
        for n, w in running:
            w.kill()
    for n, job in [(n, w.job) for n, w in running] + list(todo):
        results[n] = dict(job=job, states=0, transitions=0, traces=0,
                          outcomes={}, samples=[], extra={}, violations=[],
                          capped='stopped before its end', unfinished=True)
    return [results[n] for n in sorted(results)]


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except OSError:
        return {}
    return {e['fingerprint']: e['what'] for e in data.get('findings', [])
            if e['property'] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', choices=('quick', 'thorough'),
                    default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--verbose', '-v', action='store_true')
    args = ap.parse_args()
    prop = args.property.upper()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    start = time.monotonic()
    mod = importlib.import_module('mc.props.' + prop.lower())
    known = known_findings(prop)

    scratch = tempfile.mkdtemp(prefix='mc-%s-' % prop)
    try:
        if args.replay:
            with open(args.replay) as f:
                v = json.load(f)
            job = dict(v['job'], known=sorted(known))
            src = build(scratch, True)
            results = run_jobs(prop, [job], scratch, src, seed,
                               replay=v['case'])
        else:
            jobs = [dict(j, tier=args.tier, known=sorted(known))
                    for j in mod.jobs(args.tier)]
            src = build(scratch, any('pure' not in j['mode'] for j in jobs))
            results = run_jobs(prop, jobs, scratch, src, seed,
                               log=start if args.verbose else None)
        violations = [v for r in results for v in r['violations']]
        if not args.replay and hasattr(mod, 'combine') and not any(
                r.get('unfinished') for r in results):
            violations.extend(mod.combine(results))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    seen_known = sorted({v['fingerprint'] for v in violations
                         if v['fingerprint'] in known})
    for fp in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[fp]))
    violations = [v for v in violations if v['fingerprint'] not in known]

    if not args.replay:
        write_evidence(mod, prop, args.tier, seed, results, violations, start)
    if not violations:
        total = sum(r['traces'] for r in results)
        print('%s: held on %d executions (%d jobs, %.1fs)%s' % (
            prop, total, len(results), time.monotonic() - start,
            ' (the time ran out)' if any(r.get('unfinished')
                                         for r in results) else ''))
        return 0
    if args.verbose:
        seen = collections.Counter()
        for v in violations:
            seen[v['fingerprint']] += 1
            if seen[v['fingerprint']] == 1:
                print('  - %s: %s\n    %s' % (
                    v['fingerprint'], v['message'][-1500:],
                    json.dumps(v['case'])[:600]))
        print(seen)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    v = min(violations, key=lambda v: len(json.dumps(v['case'])))
    v['property'] = prop
    v['job'] = {k: x for k, x in v['job'].items() if k != 'known'}
    digest = hashlib.sha1(json.dumps([v['case'], v['job']]).encode())
    path = os.path.join(rdir, '%s-%s.json' % (prop, digest.hexdigest()[:10]))
    with open(path, 'w') as f:
        json.dump(v, f, indent=1)
    print('case: %s' % json.dumps(v['case'])[:2000])
    print('job: %s' % json.dumps(v['job']))
    print(v['message'][-4000:])
    print('%d violations in all' % len(violations))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def write_evidence(mod, prop, tier, seed, results, violations, start):
    outcomes = collections.Counter()
    for r in results:
        outcomes.update(r['outcomes'])
    samples = []
    for r in results:
        for s in r['samples'][:1]:
            samples.append(dict(job=r['job'], sample=s))
    if not samples:
        samples = [dict(job=r['job'], current=r.get('current'))
                   for r in results]
    coverage = dict(
        states=sum(r['states'] for r in results),
        transitions=sum(r['transitions'] for r in results),
        traces_validated_against_impl=sum(r['traces'] for r in results),
        distinct_outcomes=len(outcomes),
        outcomes=dict(outcomes.most_common(60)),
        samples=samples[:8],
        exhaustive=not any(r['capped'] for r in results) and not violations,
        bounds=mod.bounds(tier),
        jobs=len(results),
    )
    extra = collections.Counter()
    for r in results:
        for k, n in r['extra'].items():
            if isinstance(n, int):
                extra[k] += n
    coverage.update(extra)
    caps = [r['capped'] for r in results if r['capped']]
    if caps:
        coverage['caps_hit'] = caps
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=coverage, assumptions=list(mod.ASSUMPTIONS),
              wall_s=round(time.monotonic() - start, 2),
              violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.rename(path + '.tmp', path)


if __name__ == '__main__':
    try:
        code = main()
    except CheckError as e:
        print('check failed: %s' % e, file=sys.stderr)
        code = 2
    sys.exit(code)
