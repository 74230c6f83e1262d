"""Batch runner: every simulated run happens in its own forked process, so a run
is a pure function of its scenario document and the code under test."""
import collections
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import env, steps

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = float(os.environ.get("DST_RUN_TIMEOUT", "60"))


class Outcome(object):
    """What one simulated run reports back (picklable)."""
    def __init__(self):
        self.viol = []              # (class_key, message)
        self.digest = ""            # digest of the event history
        self.sig = ""               # coarse signature of what was exercised
        self.faults = collections.Counter()
        self.stats = collections.Counter()
        self.sim_time = 0.0
        self.switches = 0
        self.order = ""
        self.nontrivial = False
        self.evals = 0
        self.steps = 0
        self.lines = None
        self.error = None           # harness error text
        self.wall = 0.0
        self.timeout = False
        self.repro = {}             # class_key -> smaller scenario that should show the same violation
        self.sigs = None            # signatures, when one run covers several


def _child(prop, scn, wfd):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    t = time.monotonic()
    steps.begin_process()
    mon = getattr(sys, "monitoring", None)
    if mon is not None:
        mon.restart_events()
    try:
        out = prop.run(scn)
    except BaseException:
        out = Outcome()
        out.error = traceback.format_exc()
    out.wall = time.monotonic() - t
    out.steps = steps.STATE["total"] + steps.STATE["n"]
    out.lines = steps.STATE["lines"]
    data = pickle.dumps(out)
    data = struct.pack("<Q", len(data)) + data
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])


def run_forked(prop, scn, timeout=None):
    timeout = timeout or RUN_TIMEOUT
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            _child(prop, scn, wfd)
        except BaseException:
            try:
                traceback.print_exc()
            except BaseException:
                pass
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    buf = b""
    end = time.monotonic() + timeout
    out = None
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                out = Outcome()
                out.timeout = True
                out.wall = timeout
                break
            r, _, _ = select.select([rfd], [], [], left)
            if not r:
                continue
            chunk = os.read(rfd, 1 << 16)
            if not chunk:
                break
            buf += chunk
    finally:
        os.close(rfd)
        _, status = os.waitpid(pid, 0)
    if out is None:
        if len(buf) >= 8 and len(buf) - 8 == struct.unpack("<Q", buf[:8])[0]:
            out = pickle.loads(buf[8:])
        else:
            out = Outcome()
            out.error = "run process died (status %r)" % (status,)
    return out


def scenario(prop, seed, i, tier):
    rng = random.Random("%s:%s:%d" % (seed, prop.id, i))
    scn = prop.gen(rng, i, tier)
    scn["prop"] = prop.id
    scn["index"] = i
    scn["seed"] = seed
    # documents are exactly what a replay file holds
    return json.loads(json.dumps(scn))


def _worker(prop, seed, tier, nextidx, n, q, stop, deadline):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while not stop.is_set() and time.monotonic() < deadline:
        with nextidx.get_lock():
            i = nextidx.value
            nextidx.value += 1
        if i >= n:
            break
        try:
            scn = scenario(prop, seed, i, tier)
        except Exception:
            out = Outcome()
            out.error = "generator: " + traceback.format_exc()
            q.put((i, out))
            continue
        q.put((i, run_forked(prop, scn)))
    q.put((None, None))


def run_batch(prop, seed, tier, n, workers, seconds, max_viol=40, on_result=None, excused=None):
    ctx = multiprocessing.get_context("fork")
    nextidx = ctx.Value("l", 0)
    stop = ctx.Event()
    q = ctx.Queue()
    t0 = time.monotonic()
    deadline = t0 + seconds
    procs = [ctx.Process(target=_worker, args=(prop, seed, tier, nextidx, n, q, stop, deadline), daemon=False)
             for _ in range(workers)]
    for p in procs:
        p.start()
    live = workers
    res = {}
    nviol = 0
    while live:
        i, out = q.get()
        if i is None:
            live -= 1
            continue
        res[i] = out
        if on_result is not None:
            on_result(i, out)
        if any(excused is None or not excused(k, m) for k, m in out.viol):
            nviol += 1
            if nviol >= max_viol:
                stop.set()
    for p in procs:
        p.join()
    return res, time.monotonic() - t0


# ---------------------------------------------------------------- minimiser
def _has(out, key):
    return any(k == key for k, _ in out.viol)


def _candidates(prop, scn):
    # a simplifier that stumbles ends the minimisation, it does not lose the violation
    try:
        for c in prop.simplify(scn):
            yield c
    except Exception as e:
        print("  note: simplifier stopped: %r" % e)


def minimise(prop, scn, key, seconds=60.0, workers=8):
    """Greedy delta-debugging on the scenario document, keeping the violation class."""
    end = time.monotonic() + seconds
    cur = scn
    tried = 0
    ctx = multiprocessing.get_context("fork")

    def size(s):
        return len(json.dumps(s))

    def test_many(cands):
        # evaluate a batch in parallel; return index of first reproducing candidate
        qs = ctx.Queue()

        def body(j, s):
            try:
                o = run_forked(prop, s, timeout=20)
                qs.put((j, _has(o, key)))
            except BaseException:
                qs.put((j, False))
        ps = [ctx.Process(target=body, args=(j, s)) for j, s in enumerate(cands)]
        for p in ps:
            p.start()
        got = dict(qs.get() for _ in ps)
        for p in ps:
            p.join()
        for j in range(len(cands)):
            if got.get(j):
                return j
        return None
    improved = True
    seen = {json.dumps(cur, sort_keys=True)}
    while improved and time.monotonic() < end:
        improved = False
        batch = []
        for cand in _candidates(prop, cur):
            if time.monotonic() > end:
                break
            if cand is None:
                continue
            try:
                cand = json.loads(json.dumps(cand))
            except (TypeError, ValueError):
                continue
            s = json.dumps(cand, sort_keys=True)
            if s in seen:
                continue
            seen.add(s)
            batch.append(cand)
            if len(batch) == workers:
                tried += len(batch)
                j = test_many(batch)
                if j is not None:
                    cur = batch[j]
                    improved = True
                    batch = []
                    break
                batch = []
        if batch and time.monotonic() < end:
            tried += len(batch)
            j = test_many(batch)
            if j is not None:
                cur = batch[j]
                improved = True
    return cur, tried


def replay_fresh(path, hashseed="0"):
    """Replay a file in a fresh interpreter; returns (violation keys, digest)."""
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = hashseed
    p = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), "--json", path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=180)
    try:
        d = json.loads(p.stdout.decode().strip().splitlines()[-1])
        return d
    except Exception:
        return {"keys": [], "digest": None, "error": p.stderr.decode()[-2000:]}
