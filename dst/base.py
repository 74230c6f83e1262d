"""Common machinery of the per-property classes: how a world is made, run, observed and summarised."""
import collections
import copy
import hashlib
import json
import math
import random

from . import env, gen, oracle as O, sim, steps
from .env import np, dfols
from .gen import Profile
from .runner import Outcome

REAL = ["dfols.solver", "dfols.controller", "dfols.model", "dfols.trust_region", "dfols.util", "dfols.params",
        "dfols.diagnostic_info", "NumPy/SciPy/pandas"]
STUB = ["residual function (simulated black box with latency and faults)", "projections / h / prox / nsamples callbacks",
        "client threads and their schedule (seeded, one at a time)", "foreign users of NumPy's global generator"]


def bucket(v, edges=(0, 1, 2, 3, 5, 10, 20, 50, 100, 200, 500, 1000)):
    b = 0
    for e in edges:
        if v >= e:
            b = e
    return b


def client_sig(c):
    cfg = c.spec["config"]
    up = cfg.get("user_params") or {}
    feats = []
    b = cfg.get("bounds")
    feats.append("b%d" % (0 if not b else 1 if b[0] is None or b[1] is None else 2))
    for k in ("scaling", "sets", "reg", "nsamples", "has_noise", "npt"):
        if cfg.get(k):
            feats.append(k)
    feats += sorted(k for k in up if not k.startswith(("logging", "model", "tr_radius")))
    if c.soln is not None:
        end = "%s:%s" % (getattr(c.soln, "flag", None), str(getattr(c.soln, "msg", ""))[:45])
    else:
        end = type(c.exc).__name__
    hist = "s%d h%d e%s" % (min(c.soft_begun, 4), min(c.hard_begun, 4), bucket(len(c.evals)))
    fl = ",".join(sorted(c.fault_count))
    return "|".join([c.problem.kind, ",".join(feats), end, hist, fl])


def merge_world(out, w):
    out.sim_time += w.now
    out.switches += w.switches
    out.order = w.order.hexdigest() if len(w.scn["clients"]) > 1 and not w.inline else out.order
    for c in w.all_clients:
        out.evals += len(c.evals)
        for p, q in getattr(c, "paths", {}).items():
            out.stats["evaluated from " + ">".join(f for f, _ in p[1:] if f not in ("eval_objfun", "evaluate_objective", "eval_least_squares_with_regularisation"))] += q
        out.faults.update(c.fault_count)
        if c.injected_exc is not None:
            out.stats["aborted clients"] += 1
        end = type(c.exc).__name__ if c.exc is not None else "flag %s" % getattr(c.soln, "flag", None)
        out.stats["end: " + end] += 1
        if c.soft_begun:
            out.stats["soft restarts"] += c.soft_begun
        if c.hard_begun:
            out.stats["hard restarts"] += c.hard_begun


class WorldProp(object):
    id = None
    level = "exploration"
    quick_runs = 1000
    thorough_runs = 200000
    rule = ("a case is one simulated world: a JSON document with 1-3 client threads, each calling dfols.solve on a generated "
            "problem/configuration, plus schedule, latencies and fault plan. Non-trivial: at least one client made >= 2 "
            "evaluations and its oracle ran. Distinct: by problem kind, enabled features, exit flag/message, restart counts, "
            "size bucket and fault kinds that fired.")
    assumptions = ["callbacks are deterministic functions of their arguments (plus the injected noise and faults)",
                   "sampling: a clean batch is evidence, not proof"]
    components = {"real": REAL, "stub": STUB}
    profile = Profile()
    technique = "deterministic simulation with fault injection (seeded schedules, faults and configurations; history oracle)"
    level_note = ("Seeded search over simulated executions of the real solver, checked against the recorded history. "
                  "A pass means no violation in the explored runs; it is not a proof.")

    # ending sweep: the same world again with its end moved to a chosen evaluation
    p_sweep = 0.0
    n_sweep = 2
    sweep_kinds = ("cut", "small", "dip", "dipcut", "dipsmall")

    def gen(self, rng, i, tier):
        scn = gen.gen_world(rng, self.pick_profile(rng, i), config_hook=self.config_hook, problem_fn=self.problem_fn)
        self.add_sweep(scn, i)
        return scn

    def add_sweep(self, scn, i):
        if self.p_sweep:
            r2 = random.Random("sweep:%s:%s:%d" % (self.id, scn.get("rng_seed"), i))
            if r2.random() < self.p_sweep:
                scn["sweep"] = {"n": self.n_sweep, "seed": r2.randrange(10 ** 6)}

    problem_fn = None

    def pick_profile(self, rng, i):
        return self.profile

    def config_hook(self, rng, spec, n, m):
        pass

    def install_hooks(self):
        sim.clear_hooks()

    def check_client(self, c, w, out):
        raise NotImplementedError

    def check_world(self, w, out):
        pass

    def run(self, scn):
        out = Outcome()
        w = self.run_one(scn, out)
        self.check_world(w, out)
        out.digest = w.digest.hexdigest()
        out.sig = client_sig(w.all_clients[0])
        if scn.get("sweep"):
            dg = hashlib.blake2b(out.digest.encode(), digest_size=16)
            for what, lit in self.sweep_docs(scn, w):
                n0 = len(out.viol)
                w2 = self.run_one(lit, out, " (%s)" % what)
                out.stats["ending sweep: " + what.split(" ")[0]] += 1
                dg.update(w2.digest.digest())
                for k, m in out.viol[n0:]:
                    out.repro.setdefault(k, lit)
            out.digest = dg.hexdigest()
        return out

    def run_one(self, scn, out, note=""):
        self.install_hooks()
        w = sim.run_scenario(scn)
        merge_world(out, w)
        for c in w.all_clients:
            v = list(c.violations) + list(self.check_client(c, w, out) or ())
            for k, m in v:
                out.viol.append((k, m + " [client %s]%s" % (c.idx, note)))
            if len(c.evals) >= 2:
                out.nontrivial = True
        return w

    def sweep_docs(self, scn, w):
        """The same world with its end (or an unexpectedly good value) moved to an evaluation made
        from a call path chosen uniformly among those reached: a spent budget, an objective that
        becomes sufficiently small, a dip, or a dip that ends the run in one of these ways."""
        rng = random.Random("sweep:%s" % scn["sweep"]["seed"])
        c = next(q for q in w.all_clients if q.idx == "0")
        if len(c.evals) < 2:
            return
        by = collections.OrderedDict()
        for e in c.evals:
            by.setdefault(e["path"], []).append(e["k"])
        best, improving, before = None, [], {}
        for e in c.evals:
            v = O.obj_of(c, e["x"], e["r"])
            before[e["k"]] = best
            if v == v and (best is None or v < best):
                if best is not None and math.isfinite(best):
                    improving.append((e["k"], v, best))
                best = v
        paths = list(by)
        imp = {}
        for k, v, b in improving:
            imp[k] = (v, b)
        rare = [q for q in paths if any("restart" in fn for fn, _ in q)]
        for _ in range(int(scn["sweep"]["n"])):
            kind = rng.choice(self.sweep_kinds)
            lit = copy.deepcopy({k: v for k, v in scn.items() if k != "sweep"})
            sp = lit["clients"][0]
            up = dict(sp["config"].get("user_params") or {})
            ks = by[rng.choice(rare if rare and rng.random() < 0.35 else paths)]
            if kind == "small":
                cand = [p for p in paths if any(k in imp for k in by[p])]
                if not cand:
                    kind = "cut"
                else:
                    ks = [k for k in by[rng.choice(cand)] if k in imp]
            if rng.random() < 0.5:
                # first sample of a point
                first = [q for q in ks if q < 2 or not np.array_equal(c.evals[q - 1]["x"], c.evals[q - 2]["x"])]
                ks = first or ks
            k = rng.choice(ks[:3] + ks[-2:] + [rng.choice(ks)])
            if kind == "small":
                v, b = imp[k]
                u = rng.choice([0.0, 0.5, rng.random()])
                self.set_small(rng, c, up, v + u * (b - v))
            if kind in ("dip", "dipcut", "dipsmall"):
                fac = rng.choice([0.9, 0.5, 0.01])
                sp["faults"] = [f for f in sp.get("faults") or () if isinstance(f["at"], str) or f["at"] < k] + [{"at": k, "kind": "dip", "factor": fac}]
                if kind == "dipsmall":
                    b = before[k]
                    if b is None or not math.isfinite(b) or c.reg:
                        kind = "dip"
                    else:
                        self.set_small(rng, c, up, b * (fac + 1.0) / 2.0)
            if kind in ("cut", "dipcut"):
                sp["config"]["maxfun"] = k if rng.random() < 0.8 or kind == "dipcut" else k + 1
            sp["config"]["user_params"] = up or None
            yield "%s at evaluation %d" % (kind, k), lit

    def set_small(self, rng, c, up, v):
        f0 = O.f_at_x0(c)
        if rng.random() < 0.4 and f0 is not None and math.isfinite(f0) and f0 > v > 0:
            up["model.rel_tol"] = v / f0
            up["model.abs_tol"] = 0.0
        else:
            up["model.abs_tol"] = max(0.0, v)

    def simplify(self, scn):
        return gen.simplify_candidates(scn)
