#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--case SUBSTRING] [--jobs N] [--verbose]
   check.py --replay FILE        runs one counterexample on the real package
   check.py --list"""
import argparse
import hashlib
import json
import os
import re
import select
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
PY = sys.executable


class Server:
    """a subprocess that runs jobs on the real package, one at a time"""

    def __init__(self, repo, preload=None):
        self.error = None
        self.ready = False
        self.job = None
        self.buf = b''
        self.proc = subprocess.Popen([PY, os.path.join(HERE, 'engine', 'server.py'), repo], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, start_new_session=True,
                                     env=dict(os.environ, LD_PRELOAD=preload) if preload else None)
        self.fd = self.proc.stdout.fileno()

    def idle(self):
        return self.ready and self.job is None

    def send(self, job):
        self.job = job
        try:
            self.proc.stdin.write(json.dumps({k: job[k] for k in ('case', 'env', 'slack', 'exact') if k in job}).encode() + b'\n')
            self.proc.stdin.flush()
        except OSError as e:
            self.error = str(e)

    def feed(self):
        """-> list of finished (job, result)"""
        d = os.read(self.fd, 1 << 16)
        if not d:
            self.error = self.error or 'the replay server ended'
            self.ready = True
            return self.flush()
        self.buf += d
        *lines, self.buf = self.buf.split(b'\n')
        out = []
        for ln in lines:
            r = json.loads(ln)
            if not self.ready:
                self.ready = True
                self.error = r['ready']
            else:
                out.append((self.job, r))
                self.job = None
        return out

    def flush(self):
        if self.job is None:
            return []
        j, self.job = self.job, None
        return [(j, dict(status='error', failures=[], why=self.error))]

    def stop(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.proc.wait()


class Worker:
    """a forked process that explores one case"""

    def __init__(self, case, seed, scale):
        from engine import symctx
        self.case, self.t0 = case, time.time()
        self.limit = case.opts['timeout'] * scale + 15
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                f = os.fdopen(w, 'w')

                def emit(d):
                    f.write(json.dumps(d) + '\n')
                    f.flush()

                try:
                    symctx.run_case(case, emit, seed, scale)
                except BaseException as e:
                    emit(dict(t='crash', why=f'{type(e).__name__}: {e}', tb=traceback.format_exc(limit=-8)))
                f.close()
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r
        self.buf = b''
        self.msgs = []
        self.closed = False

    def feed(self):
        d = os.read(self.fd, 1 << 16)
        if not d:
            self.closed = True
            return
        self.buf += d
        *lines, self.buf = self.buf.split(b'\n')
        for ln in lines:
            self.msgs.append(json.loads(ln))

    def finish(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)
        os.close(self.fd)


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def slug(x):
    return re.sub(r'[^A-Za-z0-9_.-]+', '_', x)[:80]


def show_env(env):
    out = {}
    for k, v in env.items():
        if isinstance(v, list):
            a, b = int(v[0]), int(v[1])
            out[k] = a if b == 1 else a / b
        else:
            out[k] = v
    return out


def replay(path):
    from engine import realpkg
    with open(path) as f:
        d = json.load(f)
    from engine import crandlib
    repo, tmp = realpkg.prepare()
    pre = crandlib.build()
    s = Server(repo, pre)
    try:
        while not s.ready:
            s.feed()
        r = dict(status='error', failures=[], why=s.error)
        if s.error is None:
            s.send(d)
            got = []
            while not got:
                got = s.feed()
            r = got[0][1]
    finally:
        s.stop()
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
        if pre:
            os.unlink(pre)
    print(json.dumps(dict(case=d['case'], inputs=show_env(d['env']), result=r), indent=1))
    return 1 if r['status'] == 'fail' else 0 if r['status'] == 'ok' else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default='')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--no-replay', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    from engine import setup_path  # noqa
    from engine import registry
    if a.list:
        for k, c in registry.load().items():
            print(c.opts['tier'], k)
        return 0
    return Check(a).run()


class Check:
    def __init__(self, a):
        self.a = a
        self.prop, self.tier = a.prop, a.tier
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()

    def run(self):
        from engine import loader, realpkg, registry
        self.tmp = self.preload = None
        self.servers = []
        prep = {}
        try:
            prep['repo'], self.tmp = realpkg.prepare()
        except Exception as e:
            prep['error'] = str(e)
        self.jobs, self.sent = [], {}
        try:
            cases = registry.load_for(self.prop)
            cases = [c for c in cases.values() if (self.tier == 'thorough' or c.opts['tier'] == 'quick')
                     and self.a.case in c.key]
            if not cases:
                print('no cases for', self.prop)
                return 2
            if prep.get('error'):
                print('INCONCLUSIVE: ' + prep['error'])
            else:
                n = max(1, min(3, len(cases)))
                from engine import crandlib
                self.preload = crandlib.build()
                self.servers = [Server(prep['repo'], self.preload) for _ in range(n)]
            imp = None
            try:
                loader.install()
                import copulae  # noqa
                import copulae.special  # noqa
                import copulae.stats  # noqa
                loader.executed(clear=True)
            except Exception as e:
                imp = f'{type(e).__name__}: {e}'
                print('INCONCLUSIVE: the package could not be loaded symbolically: ' + imp)
                traceback.print_exc()
            if imp:
                return 2
            return self.explore(cases)
        finally:
            for s in self.servers:
                s.stop()
            if self.tmp:
                shutil.rmtree(self.tmp, ignore_errors=True)
            if self.preload and os.path.exists(self.preload):
                os.unlink(self.preload)

    def explore(self, cases):
        scale = 1.0 if self.tier == 'quick' else 6.0
        todo = sorted(cases, key=lambda c: -c.opts['timeout'])
        running, res = [], {}
        self.answers = []
        t_end = None
        while True:
            while todo and len(running) < self.a.jobs:
                running.append(Worker(todo.pop(0), self.seed, scale))
            for s in self.servers:
                if self.jobs and s.idle() and s.error is None:
                    s.send(self.jobs.pop(0))
            alive = [s for s in self.servers if s.error is None]
            if not todo and not running:
                t_end = t_end or time.time()
                if not alive or not self.jobs and all(s.job is None for s in alive) or time.time() - t_end > 240:
                    break
            rd = select.select([w.fd for w in running] + [s.fd for s in alive], [], [], .5)[0]
            for s in alive:
                if s.fd in rd:
                    self.answers += s.feed()
            for w in list(running):
                if w.fd in rd:
                    k = len(w.msgs)
                    w.feed()
                    for m in w.msgs[k:]:
                        self.submit(w.case, m)
                late = time.time() - w.t0 > w.limit
                if w.closed or late:
                    w.finish()
                    running.remove(w)
                    if late and not w.closed:
                        w.msgs.append(dict(t='crash', why=f'time limit {w.limit:.0f} s', tb=''))
                    res[w.case.key] = (w.case, w.msgs, time.time() - w.t0)
        for s in self.servers:
            self.answers += s.flush()
        for j in self.jobs:
            self.answers.append((j, dict(status='error', failures=[],
                                         why=next((s.error for s in self.servers if s.error), 'not run'))))
        return self.report(res, cases)

    def submit(self, case, m):
        if m['t'] != 'path' or self.a.no_replay or not self.servers:
            return
        for lab, env, goal, exact in m['cex']:
            self.put(dict(kind='cex', case=case.key, label=lab, env=env, goal=goal, exact=exact,
                          slack=1000.0 if lab.endswith('(undecided)') else 1.0))
        for env in m['witness']:
            self.put(dict(kind='witness', case=case.key, env=env, slack=1000.0))

    def put(self, job):
        # at most this many replays of one kind per case
        k = job['case'], job['kind']
        self.sent[k] = self.sent.get(k, 0) + 1
        if self.sent[k] <= 40:
            self.jobs.append(job)

    def report(self, res, cases):
        known = [k for k in known_findings() if k['property'] == self.prop]
        tot = dict(paths=0, transitions=0, obligations=0, proved=0, undecided=0, refuted=0, queries=0, solver_s=0.0)
        funcs, incon, samples, detail = set(), [], [], {}
        bycase = {}
        for job, r in self.answers:
            bycase.setdefault(job['case'], []).append((job, r))
        violations, found, spurious, valid, errors = [], [], [], 0, []
        for key, (case, msgs, wall) in sorted(res.items()):
            d = dict(paths=0, paths_without_point=0, proved=0, undecided=0, refuted=0, unsupported=0, wall_s=round(wall, 2))
            labels = {}
            ended = None
            for m in msgs:
                if m['t'] == 'path':
                    d['paths'] += 1
                    d['paths_without_point'] += bool(m.get('empty'))
                    for lab, v, new in m['obs']:
                        tot['obligations'] += new
                        if new:
                            d[v] += 1
                            tot[v] += 1
                        if v == 'undecided':
                            labels.setdefault(lab, 0)
                            labels[lab] += 1
                    if m['err'] is not None:
                        d['unsupported'] += 1
                        incon.append(f'{key}: {m["err"][0]}: {m["err"][1]}')
                        if self.a.verbose:
                            print(key, m['err'][1], m['err'][2])
                elif m['t'] == 'done':
                    ended = m
                    tot['paths'] += m['paths']
                    tot['transitions'] += m['transitions']
                    tot['queries'] += m['stats']['queries']
                    tot['solver_s'] += m['stats']['solver_s']
                    funcs.update(f for f in m['functions'])
                    d['complete'] = m['complete']
                    if not m['complete']:
                        incon.append(f'{key}: not all paths explored ({m["reason"]})')
                else:
                    incon.append(f'{key}: {m["why"]}')
                    if self.a.verbose:
                        print(m.get('tb'))
            for lab, n in labels.items():
                incon.append(f'{key}: undecided: {lab}' + (f' (on {n} paths)' if n > 1 else ''))
            if ended is None and not any(m['t'] == 'crash' for m in msgs):
                incon.append(f'{key}: the exploration ended without a result')
            if ended is not None and d['paths'] == 0:
                incon.append(f'{key}: no feasible path')
            rep = dict(ok=0, fail=0, other=0)
            ncex = 0
            for job, r in bycase.get(key, []):
                if r['status'] == 'ok':
                    rep['ok'] += 1
                    if job['kind'] == 'witness':
                        valid += 1
                    elif not job['label'].endswith('(undecided)'):
                        spurious.append((key, job['label'], show_env(job['env'])))
                elif r['status'] == 'fail':
                    rep['fail'] += 1
                    ncex += 1
                    bad = []
                    for lab, det in r['failures']:
                        k = next((k for k in known if k['case'] == key and re.fullmatch(k['label'], lab)), None)
                        if k is not None:
                            if k not in found:
                                found.append(k)
                        else:
                            bad.append((lab, det))
                    if bad:
                        violations.append((key, job, bad))
                else:
                    rep['other'] += 1
                    if job['kind'] == 'cex' and r['status'] != 'error' and not job['label'].endswith('(undecided)'):
                        incon.append(f'{key}: refuted, and not decided by a replay ({r.get("why")}): {job["label"]} '
                                     f'at {show_env(job["env"])}')
                    if self.a.verbose:
                        print(key, job['kind'], job.get('label'), job['env'], r['status'], r.get('why'))
                    if r['status'] == 'error':
                        errors.append((key, r.get('why')))
            d['replayed'] = rep
            detail[key] = d
            if self.a.verbose:
                print(key, d)
            w = next((j for j, r in bycase.get(key, []) if j['kind'] == 'witness' and r['status'] == 'ok'), None)
            if w is not None and len(samples) < 12:
                samples.append(dict(case=key, inputs=show_env(w['env'])))
        for key, lab, env in spurious[:20]:
            incon.append(f'{key}: refuted on the encoding but not by the real code: {lab} at {env}')
        for key, why in errors[:5]:
            incon.append(f'{key}: replay failed to run: {why}')
        rdir = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for key, job, bad in violations:
            if key in seen:
                continue
            seen.add(key)
            name = slug(f'{key}-{hashlib.sha1(json.dumps(job["env"], sort_keys=True).encode()).hexdigest()[:6]}') + '.json'
            path = os.path.join(rdir, name)
            with open(path, 'w') as f:
                json.dump(dict(case=key, env=job['env'], slack=job['slack'], exact=job.get('exact'), failures=bad, inputs=show_env(job['env']),
                               property=self.prop, how=f'python check.py --replay {path}'), f, indent=1)
            print(f'{key}: {bad[0][0]}: {bad[0][1]}'[:1500])
            print(f'  inputs {show_env(job["env"])}')
            print(f'VIOLATION property={self.prop} replay={path}')
        for k in found:
            print(f'KNOWN-FINDING: property={self.prop} {k["what"]}')
        incon = list(dict.fromkeys(incon))
        for x in incon[:40]:
            print('INCONCLUSIVE', x[:400])
        wall = time.time() - self.t0
        ok_cases = sum(1 for k, d in detail.items() if d['proved'])
        print(f'{self.prop} {self.tier}: {len(res)} cases, {tot["paths"]} paths, {tot["proved"]}/{tot["obligations"]} '
              f'obligations proved, {tot["undecided"]} undecided, {tot["refuted"]} refuted, {valid} witnesses replayed, '
              f'{tot["queries"]} queries, {tot["solver_s"]:.1f} s solver, {wall:.1f} s')
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(
                      states=tot['paths'], transitions=tot['transitions'], traces_validated_against_impl=valid,
                      samples=samples or [dict(case=c.key) for c in cases[:3]],
                      explanation='states = symbolic execution paths of the real code explored to their end; transitions = '
                                  'branch decisions the solver left open; traces = solver/domain points of those paths run '
                                  'on the real package',
                      obligations=tot['obligations'], discharged=tot['proved'], undecided_obligations=tot['undecided'],
                      solver_queries=tot['queries'], solver_seconds=round(tot['solver_s'], 2),
                      functions_encoded=sorted(funcs), cases=detail,
                      bounds={c.name: ' '.join(c.opts['bounds'].split()) for c in cases},
                      inconclusive=incon),
                  assumptions=ASSUMPTIONS, wall_s=round(wall, 2), violations=len(seen))
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if seen:
            return 1
        if tot['proved'] == 0 and not found:
            print('INCONCLUSIVE nothing was decided')
            return 2
        return 0


ASSUMPTIONS = [
    'arithmetic is exact real arithmetic: rounding, overflow and underflow of float64 are outside the encoding',
    'numpy, scipy, pandas, statsmodels and scikit-learn are replaced by models (engine/npshim.py, engine/shims.py); '
    'special functions are uninterpreted with the axioms listed in DESIGN.md',
    'float literals are read as the shortest decimal they print as',
]

if __name__ == '__main__':
    sys.exit(main())
