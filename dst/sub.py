"""Seams around the internal solvers (sub-problem solvers, projection routine, direction generators).

Three sources of calls are judged by the same oracles:
 (a) the real calls made by simulated solves,
 (b) the same calls with the arguments damaged by the simulator ("model faults": a zero, scaled or parallel gradient,
     a rank-deficient / zero / indefinite Hessian, a radius off by many decades, bounds snapped to the iterate),
 (c) generated calls, listed in the scenario either by seed or literally (what a minimised replay holds)."""
import collections
import copy
import hashlib
import inspect
import json
import random

from . import env, sim, steps
from .base import WorldProp, client_sig, merge_world
from .env import np, dfols
from .problems import set_projector
from .runner import Outcome

SUBHOOKS = {}      # function name -> callable(c, name, args, ret, err, orig)
_installed = {}


def _wrap(name, orig):
    sig = inspect.signature(orig)

    def wrapper(*a, **k):
        c = sim.cur()
        hook = SUBHOOKS.get(name)
        if hook is None or c is None or c.in_harness:
            return orig(*a, **k)
        try:
            b = sig.bind(*a, **k)
        except TypeError:
            return orig(*a, **k)
        args = {key: (v.copy() if isinstance(v, np.ndarray) else v) for key, v in b.arguments.items()}
        return hook(c, name, args, lambda **over: orig(*a, **dict(k, **over)) if not over else orig(**dict(b.arguments, **over)), orig)
    wrapper.__name__ = name
    wrapper.__wrapped__ = orig
    return wrapper


def seam(modname, name):
    """Install (once) a pass-through wrapper for dfols.<modname>.<name>; returns the original."""
    key = (modname, name)
    if key not in _installed:
        mod = getattr(dfols, modname)
        orig = getattr(mod, name, None)
        if orig is None:
            raise AttributeError("dfols.%s has no %s" % (modname, name))
        _installed[key] = orig
        env.patch_everywhere(orig, _wrap(name, orig))
    return _installed[key]


def tolist(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.floating, np.integer)):
        return v.item()
    return v


class Unsupported(Exception):
    """The routine's signature changed: generated calls cannot be made, the real ones are still judged."""


class Synth(object):
    """Stands in for a client while a generated call runs (RNG mode, step accounting)."""
    def __init__(self, world, rng_mode=None):
        self.world = world
        self.idx = "synth"
        self.spec = {}
        self.evals = []
        self.ticks = {}
        self.fault_count = {}
        self.rng_draws = 0
        self.rng_mode = rng_mode
        self.in_harness = True      # the wrappers stay out of the way
        self.obs = {}
        self.log_errors = []
        self.log_evals = []
        self.marks = []


class SubProp(WorldProp):
    """A property of internal routines: simulated solves plus damaged and generated calls."""
    p_world = 0.6             # fraction of scenarios which contain a simulated solve
    synth_count = 60
    insitu_cap = 400
    seams = ()
    rule = ("a case is one simulated world: at most one client solving a generated problem (with faults) whose internal calls are "
            "judged in place and re-issued with damaged arguments, plus a seeded list of generated calls. Non-trivial: at least one "
            "call was judged. Distinct: by the class of the calls judged (routine, active-set/degeneracy class, outcome).")

    def gen(self, rng, i, tier):
        if rng.random() < self.p_world:
            scn = WorldProp.gen(self, rng, i, tier)
        else:
            scn = {"v": 1, "rng_seed": rng.randrange(2 ** 31), "sched_seed": 0, "clients": []}
        scn["mut_seed"] = rng.randrange(10 ** 9)
        scn["synth"] = {"seed": rng.randrange(10 ** 9), "count": self.synth_count}
        return scn

    # ---- to be provided
    def gen_case(self, rng):
        raise NotImplementedError

    def run_case(self, case, out):
        """Run one literal call; returns (list of (key, msg), signature, digest bytes)."""
        raise NotImplementedError

    def setup(self, out, scn):
        """Install the hooks for the real calls."""

    # ---- driver
    def note(self, out, key, msg, case=None):
        out.viol.append((key, msg))
        if case is not None:
            out.repro.setdefault(key, {"v": 1, "rng_seed": 0, "sched_seed": 0, "clients": [], "mut_seed": 0, "cases": [case]})

    def run(self, scn):
        out = Outcome()
        out.repro = {}
        self.sigs = collections.Counter()
        self.mut = random.Random("mut:%s" % scn.get("mut_seed", 0))
        self.nchecked = 0
        sim.install()
        sim.clear_hooks()
        SUBHOOKS.clear()
        for mod, name in self.seams:
            seam(mod, name)
        self.dig = hashlib.blake2b(digest_size=16)
        self.setup(out, scn)
        w = sim.World(scn)
        if scn["clients"]:
            w.run()
            merge_world(out, w)
            for c in w.all_clients:
                for k, m in list(c.violations) + list(self.check_client(c, w, out) or ()):
                    out.viol.append((k, m + " [client %s]" % c.idx))
        SUBHOOKS.clear()
        cases = list(scn.get("cases") or ())
        sy = scn.get("synth")
        if sy:
            for j in range(sy["count"]):
                rng = random.Random("synth:%s:%d" % (sy["seed"], j))
                cases.append(json.loads(json.dumps(self.gen_case(rng))))
        steps.STATE["limit"] = steps.LIMIT
        for case in cases:
            c = Synth(w, case.get("rng_mode"))
            steps.reset_eval()
            np.random.seed(int(case.get("np_seed", 0)))
            st = getattr(sim.TLS, "stack", None)
            if st is None:
                st = sim.TLS.stack = []
            st.append(c)
            try:
                v, sig, dig = self.run_case(case, out)
            except Unsupported as e:
                v, sig, dig = [], "unsupported", b""
                out.stats["generated calls not possible: signature of %s" % e] += 1
            finally:
                st.pop()
            out.faults.update(c.fault_count)
            self.sigs[sig] += 1
            self.dig.update(dig)
            for k, m in v:
                self.note(out, k, m + " [generated call]", case)
            out.stats["generated calls judged"] += 1
            out.nontrivial = True
        if self.nchecked:
            out.nontrivial = True
        w.digest.update(self.dig.digest())
        out.digest = w.digest.hexdigest()
        out.sig = "|".join(sorted(self.sigs))[:300] if not w.all_clients else client_sig(w.all_clients[0])
        out.sigs = set(self.sigs) or None
        return out

    def check_client(self, c, w, out):
        return []

    def guarded(self, fn):
        """Call the routine; exceptions are returned, a hang becomes an exception."""
        try:
            return fn(), None
        except (sim.WallTimeout, KeyboardInterrupt):
            raise
        except BaseException as e:
            if isinstance(e, steps.SimStuck):
                steps.reset_eval()
            return None, e

    def call(self, f, *a, **k):
        """guarded() for a generated call; raises Unsupported if the routine no longer takes such arguments."""
        try:
            inspect.signature(f).bind(*a, **k)
        except TypeError:
            raise Unsupported(f.__name__)
        return self.guarded(lambda: f(*a, **k))

    def simplify(self, scn):
        if scn.get("cases"):
            for cand in self.simplify_case(scn["cases"][0]):
                s = copy.deepcopy(scn)
                s["cases"] = [cand]
                yield s
            return
        if scn.get("synth"):
            s = copy.deepcopy(scn)
            s.pop("synth")
            if s["clients"]:
                yield s
            if scn["clients"]:
                s = copy.deepcopy(scn)
                s["clients"] = []
                yield s
            return
        for s in WorldProp.simplify(self, scn):
            yield s

    def simplify_case(self, case):
        """Round numbers, drop dimensions where the arguments are plain arrays."""
        args = case["args"]
        n = case.get("n")
        if n and n > 1:
            for j in range(n):
                a = {}
                for k, v in args.items():
                    if isinstance(v, list) and len(v) == n and k in self.vector_args:
                        v = v[:j] + v[j + 1:]
                    elif isinstance(v, list) and len(v) == n and k in self.matrix_args:
                        v = [row[:j] + row[j + 1:] for i, row in enumerate(v) if i != j]
                    elif k == "sets" and v:
                        a = None
                        break
                    a[k] = v
                if a is not None:
                    yield dict(case, args=a, n=n - 1)
        if len(args.get("sets") or ()) > 1:
            for j in range(len(args["sets"])):
                yield dict(case, args=dict(args, sets=args["sets"][:j] + args["sets"][j + 1:]))
        for k, v in args.items():
            if k in self.vector_args:
                for i in range(len(v)):
                    for nv in (0.0, 1.0, -1.0, float("%.2g" % v[i])):
                        if nv != v[i] and v[i] not in (0.0, 1.0, -1.0):
                            yield dict(case, args=dict(args, **{k: v[:i] + [nv] + v[i + 1:]}))
            elif k in self.scalar_args and isinstance(v, float):
                for nv in (1.0, float("%.2g" % v)):
                    if nv != v and v != 1.0:
                        yield dict(case, args=dict(args, **{k: nv}))
            elif k in self.matrix_args:
                for f in (lambda z: 0.0, lambda z: float("%.2g" % z)):
                    nv = [[f(z) for z in row] for row in v]
                    if nv != v:
                        yield dict(case, args=dict(args, **{k: nv}))

    vector_args = ()
    matrix_args = ()
    scalar_args = ()


def arr(v):
    return np.array(v, dtype=float)


def digest_of(*vals):
    h = hashlib.blake2b(digest_size=8)
    for v in vals:
        if isinstance(v, np.ndarray):
            h.update(np.ascontiguousarray(v, dtype=float).tobytes())
        else:
            h.update(repr(v).encode())
    return h.digest()


def projectors(sets):
    return [set_projector(s) for s in sets]
