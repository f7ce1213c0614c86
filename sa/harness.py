"""Building the program dump from /repo's working tree, running analyses in worker processes."""
import os
import sys
import subprocess
import tempfile
import shutil
import time
import json
import multiprocessing as mp
import traceback
import resource

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MQTT_REPO', '/repo')
DRIVER = os.path.join(HERE, 'build/driver/debug/mirdump')


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def build_driver():
    src = os.path.join(HERE, 'driver/src/main.rs')
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
        return
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, 'build/driver'))
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=os.path.join(HERE, 'driver'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout)
        raise SystemExit(2)


def dump(repo=None):
    """compile the crate's library with the MIR dumping driver -> path of the dump"""
    repo = repo or REPO
    build_driver()
    sysr = sysroot()
    tmp = tempfile.mkdtemp(prefix='mqttsa')
    out = os.path.join(tmp, 'dump.json')
    env = dict(os.environ)
    env.update(MIRDUMP_OUT=out, MIRDUMP_CRATE='mqttbytes', MIRDUMP_RUSTC=sysr + '/bin/rustc',
               LD_LIBRARY_PATH=sysr + '/lib', RUSTC_WORKSPACE_WRAPPER=DRIVER,
               CARGO_TARGET_DIR=os.path.join(tmp, 't'), CARGO_INCREMENTAL='0',
               RUSTFLAGS='--cfg v5 -Zmir-opt-level=0 -Coverflow-checks=on -Awarnings -Zquery-dep-graph')
    lock = os.path.join(repo, 'Cargo.lock')
    had = open(lock, 'rb').read() if os.path.exists(lock) else None
    r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline'], cwd=repo, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    now = open(lock, 'rb').read() if os.path.exists(lock) else None
    if now != had:
        if had is None:
            os.remove(lock)
        else:
            open(lock, 'wb').write(had)
    shutil.rmtree(os.path.join(tmp, 't'), ignore_errors=True)
    if not os.path.exists(out):
        sys.stderr.write(r.stdout[-4000:])
        shutil.rmtree(tmp, ignore_errors=True)
        sys.stderr.write('cannot build the program dump\n')
        raise SystemExit(2)
    return out


PROG = None


def load(repo=None):
    global PROG
    from prog import Prog
    d = os.environ.get('MQTT_DUMP')
    if d:
        PROG = Prog(d)
        return PROG
    d = dump(repo)
    try:
        PROG = Prog(d)
    finally:
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    return PROG


class Finding:
    """one violation: a construct in the source and what is wrong there"""
    def __init__(self, key, what, fn='', line=0, stack=(), cond=None):
        self.key, self.what, self.fn, self.line = key, what, fn, line
        self.stack, self.cond = list(stack), cond

    def d(self):
        return {'key': self.key, 'what': self.what, 'fn': self.fn, 'line': self.line,
                'stack': self.stack, 'cond': self.cond}


class Report:
    """what one analysis covered and found; picklable"""
    def __init__(self, name):
        self.name = name
        self.findings = []
        self.obligations = []       # (fn, kind, what, line) -> bool
        self.fns = set()
        self.unmodelled = set()
        self.samples = []
        self.info = {}
        self.wall = 0

    def ob(self, ok, key, what, fn='', line=0, stack=(), cond=None):
        self.obligations.append((key, bool(ok)))
        if not ok:
            self.findings.append(Finding(key, what, fn, line, stack, cond).d())
        return ok

    def absorb(self, eng, prefix=''):
        self.fns |= eng.fns
        self.unmodelled |= set(eng.unmodelled)


def _worker(job, q):
    name, fn, args, limit = job
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4600 << 20, 4600 << 20))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 << 20)
    t = time.time()

    def go():
        try:
            r = fn(*args)
            if r is None:
                r = Report(name)
            r.wall = time.time() - t
            q.put((name, r, None))
        except BaseException:
            q.put((name, None, traceback.format_exc()))
    th = threading.Thread(target=go)
    th.start()
    th.join()


def pmap(jobs, nproc=8, limit=600, overall=3000):
    """jobs: [(name, fn, args)] -> {name: Report or Exception text}"""
    ctx = mp.get_context('fork')
    todo = sorted(jobs, key=lambda j: -j[0].count('Some'))     # the largest first
    out = {}
    run = {}
    t0 = time.time()
    while todo or run:
        if time.time() - t0 > overall:
            for n, (p, q, t) in run.items():
                p.kill()
                p.join()
                out[n] = 'not finished within the time of the check'
            for n, _, _ in todo:
                out[n] = 'not started within the time of the check'
            break
        while todo and len(run) < nproc:
            name, fn, args = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_worker, args=((name, fn, args, limit), q))
            p.start()
            run[name] = (p, q, time.time())
        time.sleep(0.02)
        for n, (p, q, t) in list(run.items()):
            if not q.empty():
                nm, r, err = q.get()
                out[n] = r if err is None else err
                p.join(5)
                if p.is_alive():
                    p.kill()
                del run[n]
            elif not p.is_alive():
                if not q.empty():
                    continue
                out[n] = 'worker ended without a result (exit %s)' % p.exitcode
                del run[n]
            elif time.time() - t > limit:
                p.kill()
                p.join()
                out[n] = 'time limit of %d s' % limit
                del run[n]
    return out
