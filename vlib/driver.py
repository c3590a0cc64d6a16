"""Run the generated-input search for one property and report.

    driver.py <PROPERTY-ID> [quick|thorough]
    driver.py --replay <file>

exit 0: held on everything explored; 1: violated (a VIOLATION line is printed); 2: the check itself
could not do its work.
"""

import glob
import hashlib
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from vlib import boot  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
NWORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
BUDGET = {'quick': float(os.environ.get('VERIF_QUICK_S', '38')), 'thorough': float(os.environ.get('VERIF_THOROUGH_S', '600'))}
HANG = {'quick': 100.0, 'thorough': 150.0}


def log(*a):
    print(*a, flush=True)


def module_of(prop):
    c = glob.glob(os.path.join(HERE, 'props', prop.lower() + '_*.py'))
    if len(c) != 1:
        log(f'ERROR no unique module for property {prop}')
        raise SystemExit(2)
    return 'props.' + os.path.basename(c[0])[:-3]


class Died(Exception):
    pass


class Hang(Exception):
    pass


class Worker:
    def __init__(self, prop, module, scratch, env, tag):
        self.dir = os.path.join(scratch, f'w{tag}')
        os.makedirs(self.dir, exist_ok=True)
        self.err = open(os.path.join(scratch, f'w{tag}.err'), 'ab')
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(HERE, 'vlib', 'worker.py'), prop, module, self.dir],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env, start_new_session=True,
        )
        self.q = queue.Queue()
        threading.Thread(target=self._pump, daemon=True).start()
        self.ready = False

    def _pump(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)

    def get(self, timeout):
        try:
            line = self.q.get(timeout=max(0.1, timeout))
        except queue.Empty:
            raise Hang from None
        if line is None:
            raise Died
        return json.loads(line)

    def wait_ready(self):
        if not self.ready:
            r = self.get(240)
            self.subs = r['subs']
            self.ready = True

    def ask(self, task, timeout):
        self.wait_ready()
        cur = os.path.join(self.dir, 'current.json')
        if os.path.exists(cur):
            os.unlink(cur)
        try:
            self.p.stdin.write((json.dumps(task) + '\n').encode())
            self.p.stdin.flush()
        except OSError:
            raise Died from None
        return self.get(timeout)

    def current(self):
        try:
            with open(os.path.join(self.dir, 'current.json')) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.p.wait(10)
        except Exception:  # noqa: BLE001
            pass
        self.err.close()


class Session:
    def __init__(self, prop):
        self.prop, self.module = prop, module_of(prop)
        self.scratch = tempfile.mkdtemp(prefix='vf_' + prop + '_')
        self.ntag = 0
        self.lock = threading.Lock()
        self.workers = []
        boot.add_hypothesis(self.scratch)
        env = dict(os.environ)
        env.update(
            VF_HYP=os.path.join(self.scratch, 'hypdeps'),
            NUMBA_CACHE_DIR=env.get('VERIF_NUMBA_CACHE', os.path.join(self.scratch, 'numba')),
            NUMBA_NUM_THREADS=env.get('NUMBA_NUM_THREADS', '4'),
            TMPDIR=os.path.join(self.scratch, 'tmp'),
            HOME=os.path.join(self.scratch, 'tmp'),
            PYTHONPATH='',
            MALLOC_PERTURB_='192',  # fresh and freed memory has recognisable contents
        )
        env.pop('PYTHONSTARTUP', None)
        os.makedirs(env['TMPDIR'])
        self.env = env

    def warm(self):
        """Compile acoular's numba kernels once, from the current tree, into the scratch cache."""
        os.makedirs(os.path.join(self.scratch, 'warm'))
        for k in range(3):
            r = subprocess.run(
                [sys.executable, '-c', f'import sys; sys.path.insert(0, {REPO!r}); import acoular; print(acoular.__file__)'],
                cwd=os.path.join(self.scratch, 'warm'), env=self.env, capture_output=True, text=True, timeout=600,
            )
            if r.returncode == 0 and r.stdout.strip().split('\n')[-1].startswith(REPO + os.sep):
                return
            log('ERROR cannot import acoular from', REPO, r.returncode, r.stdout[-500:], r.stderr[-1500:])
            time.sleep(1 + k)
        raise SystemExit(2)

    def worker(self):
        with self.lock:
            self.ntag += 1
            w = Worker(self.prop, self.module, self.scratch, self.env, self.ntag)
            self.workers.append(w)
        return w

    def close(self):
        for w in self.workers:
            w.kill()
        if os.environ.get('VERIF_KEEP'):
            log('kept', self.scratch)
        else:
            shutil.rmtree(self.scratch, ignore_errors=True)

    # -- decide a single case in a process of its own -------------------------------------------
    def decide_case(self, sub, case, tries=1, timeout=120):
        w = self.worker()
        try:
            w.wait_ready()
            for _ in range(tries):
                r = w.ask({'kind': 'case', 'sub': sub, 'case': case}, timeout)
                if r['status'] != 'ok':
                    break
            return r
        except Died:
            return {'status': 'crash', 'msg': f'the process dies (status {w.p.poll()}) on this input'}
        except Hang:
            return {'status': 'hang', 'msg': f'no answer within {timeout} s on this input'}
        finally:
            w.kill()

    def decide_task(self, task, timeout):
        w = self.worker()
        try:
            w.wait_ready()
            return w.ask(task, timeout)
        except (Died, Hang):
            return {}
        finally:
            w.kill()


def save_replay(prop, sub, payload):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}-{sub}.json')
    with open(p, 'w') as f:
        json.dump({'property': prop, 'sub': sub, **payload}, f, indent=1)
    return p


def known_for(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    s = Session(prop)
    try:
        s.warm()
        twarm = time.time() - t0
        return _search(s, prop, tier, seed, t0, twarm)
    finally:
        s.close()


def _search(s, prop, tier, seed, t0, twarm):
    # the sub-checks are described by the module itself; import it here too (without acoular work)
    w0 = s.worker()
    w0.wait_ready()
    r = subprocess.run(
        [sys.executable, '-c',
         'import sys,os,json; sys.dont_write_bytecode=True; sys.path.insert(0,%r); sys.path.append(os.environ["VF_HYP"]);'
         'sys.path.insert(0,%r);import importlib; from vlib import core; importlib.import_module(%r);'
         'print("@@"+json.dumps([[k,v.quick,v.thorough,v.rule,v.shards] for k,v in core.REGISTRY[%r].items()]))'
         % (HERE, REPO, s.module, prop)],
        cwd=os.path.join(s.scratch, 'warm'), env=s.env, capture_output=True, text=True, timeout=300)
    if r.returncode:
        log('ERROR', r.stderr[-2000:])
        raise SystemExit(2)
    subs = json.loads(r.stdout.split('@@')[-1])
    only = os.environ.get('VERIF_SUB')
    if only:
        subs = [x for x in subs if x[0] in only.split(',')]
    subs = [x for x in subs if x[1]]  # the others only re-run the inputs of known findings
    tasks = []
    for name, nq, nt, _rule, shards in subs:
        n = nq if tier == 'quick' else nt
        n = max(1, int(n * float(os.environ.get('VERIF_SCALE', '1'))))
        if tier != 'quick':
            shards = max(shards, 4)
        shards = max(1, min(shards, n))
        for sh in range(shards):
            h = hashlib.sha256(f'{seed}/{prop}/{name}/{sh}/{tier}'.encode()).hexdigest()
            tasks.append({'kind': 'run', 'sub': name, 'seed': int(h[:12], 16), 'n': -(-n // shards), 'shard': sh})
    # one shard of every sub-check first, the further shards afterwards
    tasks.sort(key=lambda t: t['shard'])
    pending = list(tasks)
    lock = threading.Lock()
    results, problems, found = [], [], []
    stop = threading.Event()
    deadline = time.time() + BUDGET[tier]

    def confirm(t, res):
        v = res['violation']
        r = s.decide_case(t['sub'], v['case'], tries=10)
        if r['status'] in ('violation', 'crash', 'hang'):
            return {'case': v['case'], 'msg': r['msg']}
        r2 = s.decide_task({**t, 'deadline': time.time() + 60}, 240)
        if r2.get('violation'):
            return {'task': {k: t[k] for k in ('sub', 'seed', 'n')}, 'case_in_history': v['case'], 'msg': r2['violation']['msg']}
        problems.append(f'{t["sub"]}: a failure was seen but reproduces neither alone nor in sequence: {v["msg"][:300]}')
        return None

    def loop(w):
        while not stop.is_set():
            with lock:
                if not pending:
                    return
                left = len(pending)
                t = pending.pop(0)
            now = time.time()
            share = (deadline - now) * min(NWORKERS, len(tasks)) / left * 1.3
            t['deadline'] = max(min(deadline, now + max(share, 4.0)), now + 2.5)
            try:
                res = w.ask(t, t['deadline'] - now + HANG[tier])
            except (Died, Hang) as e:
                cur = w.current()
                w.kill()
                if stop.is_set():
                    return
                if cur is None:
                    problems.append(f'{t["sub"]}: worker {type(e).__name__} before the first case')
                else:
                    r = s.decide_case(cur['sub'], cur['case'], timeout=60)
                    if r['status'] in ('crash', 'hang', 'violation'):
                        with lock:
                            found.append((t, {'case': cur['case'], 'msg': r['msg']}))
                        stop.set()
                        return
                    problems.append(f'{t["sub"]}: worker {type(e).__name__}, not reproduced on its last case')
                w = s.worker()
                continue
            with lock:
                results.append(res)
            if res['harness']:
                problems.append(f'{t["sub"]}: {res["harness"]["msg"]} CASE {json.dumps(res["harness"]["case"])[:1500]}')
            if res['violation']:
                c = confirm(t, res)
                if c:
                    with lock:
                        found.append((t, c))
                    stop.set()

    # known findings: the committed witnesses
    known_lines = []
    for k in known_for(prop):
        if only and k['sub'] not in only.split(','):
            continue
        r = s.decide_case(k['sub'], k['case'])
        if r['status'] in ('violation', 'crash', 'hang'):
            known_lines.append(f'KNOWN-FINDING: property={prop} {k["what"]}')
        else:
            known_lines.append(f'note: known finding no longer reproduces ({r["status"]} {r["msg"][:200]}): {k["what"]}')
    for ln in known_lines:
        log(ln)
    deadline = time.time() + BUDGET[tier]
    n = max(1, min(NWORKERS, len(tasks)))
    ws = [w0] + [s.worker() for _ in range(n - 1)]
    th = [threading.Thread(target=_guard(loop, problems), args=(w,), daemon=True) for w in ws]
    for x in th:
        x.start()
    for x in th:
        while x.is_alive():
            x.join(0.2)
            if stop.is_set() and found:
                break
        if stop.is_set() and found:
            break

    # -- report ------------------------------------------------------------------------------
    per = {}
    rules = {x[0]: x[3] for x in subs}
    samples = []
    for r in list(results):
        d = per.setdefault(r['sub'], {'evaluations': 0, 'distinct': 0, 'nontrivial': set(), 'discarded': 0, 'labels': {}, 'not_run_for_time': 0})
        d['evaluations'] += r['evals']
        d['distinct'] += r['distinct']
        d['discarded'] += r['discards']
        d['nontrivial'].update(r['nontrivial'])
        d['not_run_for_time'] += r['truncated']
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        if sum(1 for x in samples if x['sub'] == r['sub']) < 2:
            samples += [{'sub': r['sub'], 'case': c} for c in r['samples'][:1]]
    for d in per.values():
        d['nontrivial'] = len(d['nontrivial'])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(d['evaluations'] for d in per.values()),
            'distinct_nontrivial': sum(d['nontrivial'] for d in per.values()),
            'rule': 'cases are drawn by seeded hypothesis strategies; per sub-check, a case counts as non-trivial when: '
            + '; '.join(f'{k}: {v}' for k, v in rules.items()),
            'samples': samples or [{'note': 'no non-trivial case was run'}],
            'per_subcheck': per,
            'known_findings': known_lines,
            'problems': problems,
            'compile_s': round(twarm, 1),
        },
        'assumptions': ['numpy/scipy/h5py as installed are trusted as oracles',
                        'floating point: results are compared within stated tolerances that admit reordering of sums'],
        'wall_s': round(time.time() - t0, 1),
        'violations': len(found),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for k, d in sorted(per.items()):
        log(f'  {k}: {d["evaluations"]} cases, {d["nontrivial"]} non-trivial, {d["discarded"]} discarded, '
            f'{d["not_run_for_time"]} cut, {json.dumps(d["labels"]) if os.environ.get("VERIF_VERBOSE") else ""}')
    for p in problems:
        log('PROBLEM', p)
    log(f'{prop} {tier} seed={seed}: {ev["coverage"]["evaluations"]} cases, {ev["coverage"]["distinct_nontrivial"]} non-trivial, '
        f'{len(found)} violations, {ev["wall_s"]} s (compile {twarm:.0f} s)')
    if found:
        t, c = found[0]
        p = save_replay(prop, t['sub'], c)
        log(f'violated by {t["sub"]}: {c["msg"]}')
        log('case: ' + json.dumps(c.get('case', c.get('task')))[:3000])
        log(f'VIOLATION property={prop} replay={p}')
        return 1
    hard = [p for p in problems]
    if hard and not results:
        return 2
    if any(r['harness'] for r in results):
        return 2
    return 0


def _guard(fn, problems):
    def g(w):
        try:
            fn(w)
        except Exception as e:  # noqa: BLE001
            problems.append(f'driver thread: {type(e).__name__} {e}')

    return g


def replay(path):
    with open(path) as f:
        d = json.load(f)
    s = Session(d['property'])
    try:
        s.warm()
        if 'task' in d:
            r = s.decide_task({'kind': 'run', **d['task'], 'deadline': time.time() + 300}, 600)
            r = {'status': 'violation' if r.get('violation') else 'ok', 'msg': str(r.get('violation'))}
        else:
            r = s.decide_case(d['sub'], d['case'], tries=10)
        log(r['status'], r['msg'])
        if r['status'] in ('violation', 'crash', 'hang'):
            log(f'VIOLATION property={d["property"]} replay={os.path.abspath(path)}')
            return 1
        return 0 if r['status'] in ('ok', 'discard') else 2
    finally:
        s.close()


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    if not a:
        log(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return run(a[0].upper(), 'thorough' if tier == 'thorough' else 'quick')


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
