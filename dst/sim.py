"""The simulated world: client threads that call dfols.solve against simulated
black boxes, one running at a time, scheduled on a discrete-event clock; fault
injection; recording.  A run is a pure function of its scenario document."""
import hashlib
import heapq
import json
import logging
import os
import random
import re
import struct
import sys
import threading
import time

from . import env, steps
from .steps import SimStuck
from .env import np, dfols
from .problems import Problem, set_projector, reg_value, reg_prox, reg_lipschitz

TLS = threading.local()


def cur():
    st = getattr(TLS, "stack", None)
    return st[-1] if st else None


class SimFault(Exception):
    """User exception with an identity, injected from a callback."""


class _UserBase(BaseException):
    """A BaseException the user's code may raise."""


EXC_TYPES = {
    "SimFault": SimFault, "ValueError": ValueError, "RuntimeError": RuntimeError, "OverflowError": OverflowError,
    "FloatingPointError": FloatingPointError, "ZeroDivisionError": ZeroDivisionError, "AssertionError": AssertionError,
    "LinAlgError": np.linalg.LinAlgError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
    "OSError": OSError, "StopIteration": StopIteration, "TypeError": TypeError, "IndexError": IndexError,
    "TimeoutError": TimeoutError, "UserBase": _UserBase,
}

# ------------------------------------------------------------------ hooks
HOOKS = {}       # name -> list of callables, installed per property check


def add_hook(name, fn):
    HOOKS.setdefault(name, []).append(fn)


def clear_hooks():
    HOOKS.clear()


_LOGRE = re.compile(r"Function eval (\d+) at point (\d+)")


class _LogSink(logging.Handler):
    def emit(self, record):
        c = cur()
        if c is None:
            return
        try:
            msg = record.getMessage()
        except Exception as e:  # a formatting failure in the library's logging is swallowed by logging itself
            c.log_errors.append(repr(e))
            return
        m = _LOGRE.search(msg)
        if m:
            c.log_evals.append((int(m.group(1)), int(m.group(2))))
        elif msg.startswith("Soft restart [currently"):
            c.soft_begun += 1
            c.marks.append(("soft", len(c.evals)))
        elif msg.startswith("Restarting from finish point"):
            c.hard_begun += 1
            c.marks.append(("hard", len(c.evals)))
            c.stuck = 0
        elif "shift" in msg:
            pass


_SINK = _LogSink(level=logging.INFO)
_lg = logging.getLogger("dfols")
_lg.handlers[:] = [_SINK]
_lg.propagate = False
_lg.setLevel(logging.INFO)


# ------------------------------------------------------------- seams (patched)
class Seams(object):
    installed = False
    lib = {}


STUCK_LIMIT = {"fit": 3000, "proj": 20000000, "la": 60000}


def _tick(kind, amount=1):
    c = cur()
    if c is not None:
        c.ticks[kind] = c.ticks.get(kind, 0) + amount
        if c.ticks[kind] > STUCK_LIMIT[kind]:
            raise SimStuck("%s calls since last evaluation: %d" % (kind, c.ticks[kind]))


def install():
    """Install the pass-through wrappers once per process."""
    if Seams.installed:
        return
    Seams.installed = True
    steps.install()
    import scipy.linalg as LA
    orig_st, orig_svd, orig_qr = LA.solve_triangular, LA.svd, LA.qr

    def _la_fault(c, what, key):
        spec = c.spec.get("la")
        if not spec:
            return False
        # sticky: the same factor fails every time (like a genuinely singular matrix)
        h = hashlib.blake2b(key + str(spec["seed"]).encode() + what.encode(), digest_size=8).digest()
        if struct.unpack("<Q", h)[0] / 2.0 ** 64 < spec["p"] and len(c.evals) >= spec.get("after", 0):
            c.fault_count["la_" + what] = c.fault_count.get("la_" + what, 0) + 1
            return True
        return False

    def solve_triangular(a, b, *args, **kw):
        c = cur()
        if c is not None and not c.in_harness:
            _tick("la")
            if _la_fault(c, "solve", np.ascontiguousarray(a).tobytes()):
                raise LA.LinAlgError("simulated: singular matrix")
        return orig_st(a, b, *args, **kw)

    def svd(a, *args, **kw):
        c = cur()
        if c is not None and not c.in_harness and isinstance(a, np.ndarray):
            _tick("la")
            if _la_fault(c, "svd", np.ascontiguousarray(a).tobytes()):
                raise LA.LinAlgError("simulated: SVD did not converge")
        return orig_svd(a, *args, **kw)

    LA.solve_triangular = solve_triangular
    LA.svd = svd
    env.patch_everywhere(orig_st, solve_triangular)
    env.patch_everywhere(orig_svd, svd)

    # adversarial-but-legal draws from the global generator
    orig_normal = np.random.normal

    def normal(*args, **kw):
        out = orig_normal(*args, **kw)
        c = cur()
        if c is not None:
            c.rng_draws += 1
            if c.rng_mode == "axis" and isinstance(out, np.ndarray) and out.size > 1:
                # nearly axis-aligned: dominated by one coordinate (legal, unlikely)
                flat = out.reshape(-1) * 1e-9
                flat[c.rng_draws % flat.size] = 1.0 if (c.rng_draws // 3) % 2 else -1.0
                c.fault_count["rng_axis"] = c.fault_count.get("rng_axis", 0) + 1
                return flat.reshape(out.shape) if out.ndim == 1 else np.eye(*out.shape)[np.roll(np.arange(out.shape[0]), c.rng_draws)] + out * 1e-9
            if c.rng_mode == "same" and isinstance(out, np.ndarray) and out.ndim == 1:
                out = np.ones(out.shape) + out * 1e-6
                c.fault_count["rng_same"] = c.fault_count.get("rng_same", 0) + 1
        return out
    np.random.normal = normal
    env.patch_everywhere(orig_normal, normal)

    # once-per-iteration observation point
    from dfols.model import Model
    if hasattr(Model, "interpolate_mini_models_svd"):
        orig_fit = Model.interpolate_mini_models_svd

        def fit(self, *a, **k):
            c = cur()
            if c is None or c.in_harness:
                return orig_fit(self, *a, **k)
            _tick("fit")
            c.fits += 1
            for h in HOOKS.get("prefit", ()):
                h(c, self)
            ret = orig_fit(self, *a, **k)
            c.in_harness = True
            try:
                for h in HOOKS.get("fit", ()):
                    h(c, self, ret)
            finally:
                c.in_harness = False
            return ret
        fit.__name__ = "interpolate_mini_models_svd"
        fit.__wrapped__ = orig_fit
        Model.interpolate_mini_models_svd = fit


# ----------------------------------------------------------------- client
_DFOLS_DIR = os.path.dirname(os.path.abspath(dfols.__file__))


def eval_path():
    """Call path (function names and lines inside dfols) from which the black box is being evaluated.
    Used to aim faults at rarely used evaluation sites and to measure which sites were reached."""
    f = sys._getframe(2)
    out = []
    while f is not None:
        code = f.f_code
        fn = code.co_filename
        if fn.startswith(_DFOLS_DIR):
            out.append((code.co_name, f.f_lineno))
        elif code.co_name in ("run", "objfun") and fn == __file__:
            break
        f = f.f_back
    return tuple(reversed(out))


class Client(object):
    def __init__(self, world, spec, idx, depth=0):
        self.world = world
        self.spec = spec
        self.idx = idx
        self.depth = depth
        self.evals = []         # dict per call
        self.log_evals = []
        self.log_errors = []
        self.ns_calls = []      # (evals so far, delta, rho, iter, nruns, returned)
        self.marks = []
        self.soft_begun = 0
        self.hard_begun = 0
        self.fits = 0
        self.ticks = {}
        self.stuck = 0
        self.fault_count = {}
        self.rng_draws = 0
        self.rng_mode = spec.get("rng_mode")
        self.soln = None
        self.exc = None
        self.injected_exc = None
        self.after_exc_calls = 0
        self.violations = []    # raised by online hooks
        self.obs = {}           # scratch for hooks
        self.in_harness = False
        self.arg_errors = []
        self.children = []
        self.started = self.finished = None
        self.sim_calls = 0
        self._build()

    # -- arguments handed to solve
    def _build(self):
        s = self.spec
        self.problem = Problem(s["problem"])
        cfg = s["config"]
        self.x0 = np.array(cfg["x0"], dtype=(int if cfg.get("int_x0") else float))
        self.lo = self.hi = None
        self.bounds_arg = None
        if cfg.get("bounds") is not None:
            bl, bu = cfg["bounds"]
            self.lo = np.array(bl, dtype=float) if bl is not None else None
            self.hi = np.array(bu, dtype=float) if bu is not None else None
            self.bounds_arg = (self.lo, self.hi)
        self.sets = cfg.get("sets") or []
        self.proj_calls = 0
        self.reg = cfg.get("reg")
        self.noise = s.get("noise")
        self.faults = {}
        self.fault_all = None
        self.fault_from = []
        self.site_faults = {}
        self.paths = {}         # call path of an evaluation -> times seen
        self.path_index = {}
        self.dips = {}          # x -> residuals (a dipped point keeps its value)
        self.best_ssq = None
        for f in s.get("faults", ()):
            if f["at"] == "all":
                self.fault_all = f
            elif f["at"] == "from":
                self.fault_from.append((int(f["k"]), f))
            elif f["at"] == "site":
                self.site_faults[(int(f["site"]), int(f.get("occ", 1)))] = f
            else:
                self.faults[int(f["at"])] = f
        self.perturb = {int(p["at"]): p for p in s.get("perturb", ())}
        self.lat = random.Random(s.get("latency_seed", 0))
        self.nested = {int(p["at"]): p["client"] for p in s.get("nested", ())}
        self.outbuf = None
        self.sentinel_f = ("argf", 1.5)
        self.user_params = dict(cfg["user_params"]) if cfg.get("user_params") is not None else None
        self.projs = [self._wrap_proj(set_projector(sp), j) for j, sp in enumerate(self.sets)] if self.sets else None
        # callers that keep their argument objects and pass the very same ones to several calls
        g = s.get("share")
        if g is not None:
            o = self.world.shared.setdefault(g, self)
            if o is not self:
                self.x0, self.lo, self.hi, self.bounds_arg, self.user_params, self.projs = o.x0, o.lo, o.hi, o.bounds_arg, o.user_params, o.projs
        g = s.get("share_sets")
        if g is not None and g in self.world.shared:
            self.projs = self.world.shared[g].projs

    def objfun(self, x, *args):
        if cur() is not self:
            # called from a context that is not this client's solve (harness bug)
            raise AssertionError("objfun called outside its client")
        w = self.world
        k = len(self.evals) + 1
        self.ticks = {}
        steps.reset_eval()
        if args != self.exp_argsf:
            self.arg_errors.append("argsf at eval %d" % k)
        if self.injected_exc is not None:
            self.after_exc_calls += 1
        xc = np.array(x, dtype=float, copy=True)
        rec = {"k": k, "x": xc, "t": w.now, "ns": len(self.ns_calls), "fault": None}
        path = eval_path()
        rec["path"] = path
        pi = self.path_index.setdefault(path, len(self.path_index) + 1)
        self.paths[path] = self.paths.get(path, 0) + 1
        r = np.array(self.problem(xc), dtype=float)
        nz = self.noise
        if nz:
            g = random.Random("%s:%d" % (nz["seed"], k))
            e = np.array([g.gauss(0, 1) for _ in range(len(r))])
            if nz["kind"] == "add":
                r = r + nz["level"] * e
            else:
                r = r * (1.0 + nz["level"] * e)
            self.fault_count["noise"] = self.fault_count.get("noise", 0) + 1
        dipped = self.dips.get(xc.tobytes()) if self.dips else None
        if dipped is not None:
            r = dipped.copy()
        f = self.faults.get(k) or self.site_faults.get((pi, self.paths[path])) or self.fault_all
        if f is None:
            f = next((q for k0, q in self.fault_from if k >= k0), None)
        exc = None
        if f is not None:
            rec["fault"] = f["kind"]
            self.fault_count[f["kind"]] = self.fault_count.get(f["kind"], 0) + 1
            kd = f["kind"]
            j = int(f.get("j", 0)) % len(r)
            if kd == "nan":
                r[:] = np.nan
            elif kd == "pnan":
                r[j] = np.nan
            elif kd == "inf":
                r[:] = np.inf
            elif kd == "pinf":
                r[j] = np.inf
            elif kd == "ninf":
                r[:] = -np.inf
            elif kd == "pninf":
                r[j] = -np.inf
            elif kd == "mix":
                r[:] = np.inf
                r[j] = np.nan
            elif kd == "big":
                r[:] = 1e200
            elif kd == "pbig":
                r[j] = -1e200
            elif kd == "mag":
                # a very large (or very small) but finite vector
                r = np.where(r < 0, -1.0, 1.0) * 10.0 ** float(f.get("e", 100.0))
            elif kd == "pmag":
                r[j] = (-1.0 if r[j] > 0 else 1.0) * 10.0 ** float(f.get("e", 100.0))
            elif kd == "spike":
                r = r * 1e6 + 1e3
            elif kd == "dip":
                # an unexpectedly good value; the black box stays a function of x
                q = float(np.dot(r, r))
                if self.best_ssq is not None and q > 0.0 and dipped is None:
                    r = r * np.sqrt(float(f.get("factor", 0.5)) * min(self.best_ssq, q) / q)
                    self.dips[xc.tobytes()] = r.copy()
            elif kd == "exc":
                T = EXC_TYPES[f.get("exc", "SimFault")]
                exc = T("injected at eval %d" % k)
            else:
                raise KeyError(kd)
        rec["r"] = r.copy()
        with np.errstate(all="ignore"):
            q = float(np.dot(r, r))
        if q == q and (self.best_ssq is None or q < self.best_ssq):
            self.best_ssq = q
        self.evals.append(rec)
        w.log_event(self, "eval", k, xc, r)
        p = self.perturb.get(k)
        if p is not None:
            kd = p["kind"]
            self.fault_count["rng_" + kd] = self.fault_count.get("rng_" + kd, 0) + 1
            if kd == "draw":
                np.random.uniform(size=int(p.get("n", 3)))
                np.random.normal(size=int(p.get("n", 3))) if not self.rng_mode else None
            else:
                np.random.seed(int(p.get("n", 0)))
        nested = self.nested.get(k)
        if nested is not None and self.depth < 2:
            child = Client(w, nested, "%s/%d" % (self.idx, k), self.depth + 1)
            self.children.append(child)
            w.all_clients.append(child)
            self.fault_count["nested_solve"] = self.fault_count.get("nested_solve", 0) + 1
            child.run()
        w.yield_point(self)
        if exc is not None:
            self.injected_exc = exc
            raise exc
        if self.spec.get("reuse_buffer"):
            if self.outbuf is None:
                self.outbuf = np.empty(len(r))
            self.outbuf[:] = r
            return self.outbuf
        return r

    def _nsamples(self, delta, rho, iter_, nruns):
        spec = self.spec["config"]["nsamples"]
        k = spec["kind"]
        if k == "const":
            v = spec["v"]
        elif k == "rho":
            v = spec["v"] if rho < spec["thr"] else 1
        elif k == "nruns":
            v = 1 + spec["v"] * int(nruns)
        elif k == "iter":
            v = 1 + (int(iter_) * spec["a"] + spec["v"]) % spec["m"]
        elif k == "seq":
            v = spec["vals"][len(self.ns_calls) % len(spec["vals"])]
        else:
            raise KeyError(k)
        self.ns_calls.append((len(self.evals), float(delta), float(rho), int(iter_), int(nruns), v))
        return v

    def _watch_ns(self, delta, rho, iter_, nruns):
        self.ns_calls.append((len(self.evals), float(delta), float(rho), int(iter_), int(nruns), 1))
        return 1

    def _h(self, x, *args):
        if args != self.exp_argsh:
            self.arg_errors.append("argsh")
        return reg_value(self.reg, x)

    def _prox(self, x, u, *args):
        if args != self.exp_argsprox:
            self.arg_errors.append("argsprox")
        return reg_prox(self.reg, np.asarray(x, dtype=float), u)

    def kwargs(self):
        cfg = self.spec["config"]
        kw = {}
        self.exp_argsf = tuple(cfg.get("argsf", ()))
        self.exp_argsh = tuple(cfg.get("argsh", ()))
        self.exp_argsprox = tuple(cfg.get("argsprox", ()))
        if self.exp_argsf:
            kw["argsf"] = self.exp_argsf
        if self.bounds_arg is not None:
            kw["bounds"] = self.bounds_arg
        if self.sets:
            kw["projections"] = self.projs
        if self.reg:
            kw["h"] = self._h
            kw["prox_uh"] = self._prox
            kw["lh"] = cfg.get("lh", reg_lipschitz(self.reg, len(self.x0)))
            if self.exp_argsh:
                kw["argsh"] = self.exp_argsh
            if self.exp_argsprox:
                kw["argsprox"] = self.exp_argsprox
        for key in ("npt", "rhobeg", "rhoend", "maxfun"):
            if cfg.get(key) is not None:
                kw[key] = cfg[key]
        if cfg.get("nsamples") is not None:
            kw["nsamples"] = self._nsamples
        elif self.spec.get("record_ns"):
            kw["nsamples"] = self._watch_ns
        if self.user_params is not None:
            kw["user_params"] = self.user_params
        if cfg.get("has_noise"):
            kw["objfun_has_noise"] = True
        if cfg.get("scaling"):
            kw["scaling_within_bounds"] = True
        if not cfg.get("do_logging", True):
            kw["do_logging"] = False
        for key, v in (cfg.get("kw_over") or {}).items():
            kw[key] = v
        return kw

    def _wrap_proj(self, proj, j):
        def p(x):
            _tick("proj")
            c = cur() or self
            c.proj_calls += 1
            out = proj(np.asarray(x, dtype=float))
            for h in HOOKS.get("proj", ()):
                h(c, j, x, out)
            return out
        return p

    def run(self):
        st = getattr(TLS, "stack", None)
        if st is None:
            st = TLS.stack = []
        st.append(self)
        self.started = self.world.now
        try:
            kw = self.kwargs()
            self.kw = kw
            for h in HOOKS.get("start", ()):
                h(self)
            call = self.spec.get("call") or dfols.solve
            self.soln = call(self.objfun, self.x0, **kw)
        except SimStuck as e:
            self.exc = e
        except BaseException as e:
            if isinstance(e, WallTimeout):
                raise
            self.exc = e
        finally:
            st.pop()
            self.finished = self.world.now
        self.world.log_event(self, "end", len(self.evals), None, None)

    def events(self):
        return self.evals


class WallTimeout(BaseException):
    pass


class World(object):
    def __init__(self, scn):
        self.scn = scn
        self.now = 0.0
        self.seq = 0
        self.all_clients = []
        self.shared = {}
        self.threads = []
        self.digest = hashlib.blake2b(digest_size=16)
        self.switches = 0
        self.sched = random.Random("sched:%s" % scn.get("sched_seed", 0))
        self.inline = len(scn["clients"]) == 1
        self.order = hashlib.blake2b(digest_size=8)

    def log_event(self, client, what, k, x, r):
        d = self.digest
        d.update(("%s|%s|%d|" % (client.idx, what, k)).encode())
        if x is not None:
            d.update(x.tobytes())
        if r is not None:
            d.update(r.tobytes())

    # -- scheduling
    def _latency(self, client):
        m = client.spec.get("lat_mean", 1.0)
        v = client.lat.expovariate(1.0 / m)
        if client.lat.random() < 0.03:
            v += 50.0 * m   # a stalled evaluator
            client.fault_count["stall"] = client.fault_count.get("stall", 0) + 1
        return v

    def yield_point(self, client):
        lat = self._latency(client)
        if self.inline:
            self.now += lat
            return
        top = client
        self.seq += 1
        th = getattr(TLS, "thread", None)
        with self.lock:
            heapq.heappush(self.queue, (self.now + lat, self.seq, th))
        # hand the baton to the scheduler and wait for our turn
        th["waiting"] = True
        self.main_sem.release()
        th["sem"].acquire()
        if th.get("kill"):
            raise SimStuck("world torn down")

    def run(self):
        install()
        steps.begin_run()
        # a projected subproblem may legally use 100 n^2 iterations of (sets x sweeps) each
        steps.STATE["limit"] = steps.LIMIT * (8 if '"sets"' in json.dumps(self.scn["clients"]) else 1)
        np.random.seed(int(self.scn.get("rng_seed", 0)) % (2 ** 32))
        for i, cs in enumerate(self.scn["clients"]):
            self.all_clients.append(Client(self, cs, str(i)))
        tops = list(self.all_clients)
        if self.inline:
            tops[0].run()
        elif self.scn.get("sched") == "serial":
            self.inline = True
            for c in tops:
                c.run()
        else:
            self._run_threads(tops)
        return self

    def _run_threads(self, tops):
        self.lock = threading.Lock()
        self.queue = []
        self.main_sem = threading.Semaphore(0)
        ths = []
        for i, c in enumerate(tops):
            th = {"sem": threading.Semaphore(0), "done": False, "client": c}

            def body(th=th, c=c):
                TLS.thread = th
                TLS.stack = []
                th["sem"].acquire()
                try:
                    if not th.get("kill"):
                        c.run()
                except BaseException as e:
                    th["error"] = e
                finally:
                    th["done"] = True
                    self.main_sem.release()
            t = threading.Thread(target=body, daemon=True)
            th["t"] = t
            t.start()
            ths.append(th)
            self.seq += 1
            heapq.heappush(self.queue, (self.sched.uniform(0, 3.0), self.seq, th))
        last = None
        try:
            while self.queue:
                # among events due within a small window the seeded scheduler picks
                t, s, th = heapq.heappop(self.queue)
                if self.queue and self.sched.random() < 0.2:
                    t2, s2, th2 = heapq.heappop(self.queue)
                    heapq.heappush(self.queue, (t, s, th))
                    t, s, th = t2, s2, th2
                self.now = max(self.now, t)
                if th is not last:
                    self.switches += 1
                    last = th
                self.order.update(th["client"].idx.encode())
                th["sem"].release()
                self.main_sem.acquire()
                if th.get("error") is not None:
                    raise th["error"]
        except BaseException:
            for th in ths:
                th["kill"] = True
                th["sem"].release()
            raise
        for th in ths:
            th["t"].join(10)


def run_scenario(scn):
    return World(scn).run()
