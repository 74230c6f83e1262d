"""Properties of the call interface: C07 (well-formed results, input errors), C19 (reproducibility, caller data), C20 (JSON, printing)."""
import contextlib
import copy
import hashlib
import io
import json
import math

from . import gen, oracle as O, sim
from .base import Profile, WorldProp, bucket, client_sig, dfols, np
from .paramtable import TABLE
from .problems import gen_problem, r6
from .runner import Outcome

INF = float("inf")


# ------------------------------------------------------------------------ C07
def bad_value(rng, key, npt):
    return rng.choice(bad_values(key, npt))


def bad_values(key, npt):
    """Values outside the documented type/range of a parameter."""
    t, none_ok, lo, hi, _ = TABLE[key]
    lo, hi = [{"npt": npt, "npt-1": npt - 1}.get(v, v) for v in (lo, hi)]
    cands = [("type", "abc"), ("type", [1.0]), ("type", {"a": 1})]
    if not none_ok:
        cands.append(("none", None))
    if t == "bool":
        cands += [("type", 1), ("type", 0.0), ("type", "True")]
    elif t == "int":
        cands += [("type", 1.5), ("type", float(max(lo or 0, 1))), ("type", True)]
        if lo is not None:
            cands += [("low", lo - 1), ("low", lo - 1000)] * 2
        if hi is not None:
            cands += [("high", hi + 1), ("high", hi + 1000)] * 2
    else:
        cands += [("type", True), ("type", "0.5")]
        if lo is None or lo <= 1:
            cands += [("type", 1)]
        cands += [("nan", float("nan"))]
        if lo is not None:
            cands += [("low", float(np.nextafter(float(lo), -np.inf))), ("low", float(lo) - 0.5), ("low", -1e10)] * 2
        if hi is not None:
            cands += [("high", float(np.nextafter(float(hi), np.inf))), ("high", float(hi) + 0.5), ("high", 1e10)] * 2
    return cands


def good_value(rng, key, npt, m):
    t, none_ok, lo, hi, excl = TABLE[key]
    lo, hi = [{"npt": npt, "npt-1": npt - 1}.get(v, v) for v in (lo, hi)]
    if none_ok and rng.random() < 0.15:
        return None
    if t == "bool":
        return rng.random() < 0.5
    if t == "int":
        q = rng.random()
        if q < 0.35:
            return lo
        if hi is not None:
            return hi if q < 0.6 else rng.randint(lo, hi)
        return lo + (1 if q < 0.5 else rng.randint(0, 5) if q < 0.9 else rng.randint(20, 1000))
    cands = []
    for v in (lo, hi):
        if v is not None and float(v) not in excl:
            cands += [float(v), float(v)]
    l = float(lo) if lo is not None else -1.0
    if hi is not None:
        cands += [l + (hi - l) * rng.random(), l + (hi - l) * 10 ** rng.uniform(-12, 0), hi - (hi - l) * 10 ** rng.uniform(-12, 0)]
    else:
        cands += [l + 10 ** rng.uniform(-12, 0), l + 10 ** rng.uniform(-2, 2), l + 10 ** rng.uniform(0, 8)]
    v = float(rng.choice(cands))
    return v if v not in excl else 0.5 * (l + (hi if hi is not None else l + 1.0))


CONTRADICTIONS = [
    {"growing.safety.full_geom_step": True, "growing.safety.reduce_delta": True},
    {"growing.full_rank.use_full_rank_interp": True, "growing.perturb_trust_region_step": True},
    {"noise.quit_on_noise_level": True, "noise.additive_noise_level": 0.1, "noise.multiplicative_noise_level": 0.1},
    {"growing.reset_rho": True, "growing.reset_delta": False},
]


class C07(WorldProp):
    id = "C07"
    quick_runs = 1200
    thorough_runs = 200000
    profile = Profile(p_faults=0.3, p_sets=0.05, p_reg=0.03, npt_max="big", p_smallbudget=0.6, maxfun_cap=80, p_nolog=0.1, p_nested=0.05,
                      p_multi=0.25, p_la=0.08, nmax=4)
    rule = ("a case is one simulated world: client 0 has a valid argument set (all options, faults), an in-range/boundary value for several "
            "documented parameters, one invalid argument/parameter/contradiction, or an unknown name; other clients run normally beside it. "
            "Non-trivial: the solve call returned or raised and the oracle judged it. Distinct: by mutation (key and class), exit, features.")

    def gen(self, rng, i, tier):
        if i % 8 == 5:
            return self.gen_sweep(rng, i)
        scn = gen.gen_world(rng, self.profile)
        c = scn["clients"][0]
        c.pop("aborting", None)
        if c.get("faults") and any(f["kind"] == "exc" for f in c["faults"]):
            c.pop("faults")
        cfg = c["config"]
        n = len(cfg["x0"])
        npt = cfg.get("npt") or n + 1
        m = 1
        q = rng.random()
        cfg["maxfun"] = min(cfg["maxfun"], 60)
        if rng.random() < 0.03:
            cfg.setdefault("kw_over", {})["print_progress"] = True
        if q < 0.22:
            c["mut"] = ["valid"]
            if rng.random() < 0.5 and cfg.get("sets"):
                cfg["npt"] = rng.randint(n + 1, 2 * n + 2)
        elif q < 0.5:
            up = cfg["user_params"] = dict(cfg.get("user_params") or {})
            keys = [rng.choice(sorted(TABLE)) for _ in range(rng.choice([1, 1, 2, 4]))]
            if rng.random() < 0.5:
                keys.append("logging.save_diagnostic_info")
            for k in keys:
                up[k] = good_value(rng, k, npt, m)
            self.consistent(up, n, npt)
            c["mut"] = ["inrange"] + sorted(set(keys))
            c["mutkeys"] = sorted(set(keys))
        elif q < 0.72:
            up = cfg["user_params"] = dict(cfg.get("user_params") or {})
            # cycle through the table so that every key is hit in every batch
            keys = sorted(TABLE)
            k = keys[i % len(keys)]
            cls, v = bad_value(rng, k, npt)
            up[k] = v
            c["mut"] = ["badparam", k, cls]
            c["expect"] = "input"
        elif q < 0.76:
            up = cfg["user_params"] = dict(cfg.get("user_params") or {})
            k = rng.choice(["foo", "", "tr_radius", "tr_radius.eta3", "General.safety_step_thresh", "model.abs_tol ", "restarts.use_restart", "rhobeg", "npt"]) \
                if rng.random() < 0.7 else rng.choice(sorted(TABLE)) + rng.choice(["x", ".", "_"])
            up[k] = rng.choice([1, 0.5, True, None, "a"])
            c["mut"] = ["unknown", k]
            c["expect"] = "unknown"
        elif q < 0.82:
            up = cfg["user_params"] = dict(cfg.get("user_params") or {})
            con = rng.choice(CONTRADICTIONS)
            up.update(con)
            c["mut"] = ["contradiction", sorted(con)[0]]
            c["expect"] = "input"
        else:
            c["mut"] = ["badarg", self.bad_arg(rng, cfg, n)]
            c["expect"] = "input"
        return scn

    NSLICE = 6

    def gen_sweep(self, rng, i):
        """One base call; every value just outside (input error) and on (accepted) the documented range of one
        sixth of the parameters, and every pair of contradictory options."""
        q = Profile(p_faults=0.0, p_sets=0.0, p_reg=0.0, p_multi=0.0, p_nested=0.0, p_la=0.0, nmax=3, p_nsamples=0.0, p_restart=0.0, p_growing=0.0,
                    p_regression=0.0, p_random_init=0.0, p_trparams=0.0, p_tol=0.0, p_slow=0.0, p_misc=0.0, p_noise=0.0, p_diag=0.0)
        scn = gen.gen_world(rng, q)
        cfg = scn["clients"][0]["config"]
        cfg["user_params"] = None
        cfg["maxfun"] = rng.choice([6, 10, 14])
        scn["clients"][0].pop("aborting", None)
        scn["psweep"] = {"slice": (i // 8) % self.NSLICE}
        return scn

    def sweep_worlds(self, scn):
        cfg = scn["clients"][0]["config"]
        n = len(cfg["x0"])
        npt = cfg.get("npt") or n + 1
        sl = scn["psweep"].get("slice")
        muts = []
        for key in sorted(TABLE)[sl::self.NSLICE]:
            t, none_ok, lo, hi, excl = TABLE[key]
            lo, hi = [{"npt": npt, "npt-1": npt - 1}.get(v, v) for v in (lo, hi)]
            seen = []
            for cls, v in bad_values(key, npt):
                if repr(v) not in seen:
                    seen.append(repr(v))
                    muts.append((["badparam", key, cls], {key: v}, "input"))
            good = [True, False] if t == "bool" else [v if t == "int" else float(v) for v in (lo, hi) if v is not None and v not in excl]
            if t == "int" and lo is not None and (hi is None or lo + 1 <= hi):
                good.append(lo + 1)
            if none_ok:
                good.append(None)
            for v in good:
                up = {key: v}
                self.consistent(up, n, npt)
                muts.append((["inrange", key], up, None))
            muts.append((["unknown", key + "_"], {key + "_": 1}, "unknown"))
        for con in CONTRADICTIONS:
            muts.append((["contradiction", sorted(con)[0]], con, "input"))
        for mut, up, exp in muts:
            lit = copy.deepcopy({k: v for k, v in scn.items() if k != "psweep"})
            c = lit["clients"][0]
            c["config"]["user_params"] = up
            c["mut"] = mut
            if exp:
                c["expect"] = exp
            yield lit

    @staticmethod
    def consistent(up, n, npt):
        if up.get("growing.safety.full_geom_step") and up.get("growing.safety.reduce_delta"):
            up["growing.safety.reduce_delta"] = False
        if up.get("growing.perturb_trust_region_step"):
            up["growing.full_rank.use_full_rank_interp"] = False
        if up.get("growing.full_rank.use_full_rank_interp"):
            up["growing.perturb_trust_region_step"] = False
        if up.get("growing.reset_rho"):
            up["growing.reset_delta"] = True
        if up.get("noise.additive_noise_level") is not None and up.get("noise.multiplicative_noise_level") is not None:
            up.pop("noise.multiplicative_noise_level")
        if up.get("init.run_in_parallel") or (npt > (n + 1) * (n + 2) // 2 and "init.random_initial_directions" in up):
            up["init.random_initial_directions"] = True
        if up.get("tr_radius.alpha1", 0.0) > 0.95:
            # legal, but asks for log(rhobeg/rhoend)/log(1/alpha1) reductions of rho: any step limit would be arbitrary
            up["tr_radius.alpha1"] = 0.95
        for k, cap in (("dykstra.max_iters", 150), ("func_tol.max_iters", 100), ("sfista.max_iters_scaling", 10.0)):
            if k in up:   # legal iteration limits of any size, but the run has to end within our own step limit
                up[k] = min(up[k], cap)

    @staticmethod
    def bad_arg(rng, cfg, n):
        kw = cfg.setdefault("kw_over", {})
        kind = rng.choice(["rhobeg<=0", "rhoend<=0", "rhoend>=rhobeg", "npt", "npt", "maxfun", "narrow", "narrow", "crossed", "shape", "lh", "lh", "prox", "scaled-rhobeg",
                           "npt-too-many"])
        if kind == "rhobeg<=0":
            kw["rhobeg"] = rng.choice([0.0, -1.0, -1e-12, float("nan")])
        elif kind == "rhoend<=0":
            kw["rhoend"] = rng.choice([0.0, -1e-8, -1.0, float("nan")])
        elif kind == "rhoend>=rhobeg":
            rb = O_rhobeg(cfg)
            kw["rhobeg"] = rb
            kw["rhoend"] = rb * rng.choice([1.0, 1.0000001, 2.0, 1e6])
        elif kind == "npt":
            kw["npt"] = rng.choice([n, n, 1, 0, -1, n - 1])
        elif kind == "npt-too-many":
            kw["npt"] = (n + 1) * (n + 2) // 2 + rng.randint(1, 4)
            up = cfg["user_params"] = dict(cfg.get("user_params") or {})
            up["init.random_initial_directions"] = False
            up.pop("init.run_in_parallel", None)
        elif kind == "maxfun":
            kw["maxfun"] = rng.choice([0, -1, -100])
        elif kind in ("narrow", "crossed", "shape"):
            cfg.pop("scaling", None)
            cfg.pop("int_x0", None)
            rb = O_rhobeg(cfg)
            kw["rhobeg"] = rb
            cfg["rhoend"] = min(cfg.get("rhoend") or 1e-8, rb * 0.1)
            x0 = [float(v) for v in cfg["x0"]]
            lo = [v - 2 * rb * rng.uniform(0, 1) for v in x0]
            hi = [v + 4 * rb for v in lo]
            j = rng.randrange(n)
            if kind == "narrow":
                if cfg.get("sets"):
                    cfg.pop("sets")   # the gap rule is for bounds without projections
                hi[j] = lo[j] + 2 * rb * rng.choice([0.999999, 0.5, 1e-6])
            elif kind == "crossed":
                hi[j] = lo[j] - rb * rng.choice([1.0, 1e-3, 100.0])
            else:
                if rng.random() < 0.5:
                    lo = lo + [lo[-1]]
                else:
                    hi = hi[:-1] if n > 1 and rng.random() < 0.5 else hi + [hi[-1]]
            cfg["bounds"] = [lo, hi]
        elif kind in ("lh", "prox"):
            if not cfg.get("reg"):
                gen.gen_reg(rng, cfg, n)
            if kind == "lh":
                kw["lh"] = rng.choice([None, 0.0, -1.0, -1e-10, float("nan")])
            else:
                kw["prox_uh"] = None
        elif kind == "scaled-rhobeg":
            cfg.pop("sets", None)
            x0 = [float(v) for v in cfg["x0"]]
            cfg["bounds"] = [[v - rng.uniform(0, 3) for v in x0], [v + rng.uniform(0.1, 3) for v in x0]]
            cfg["scaling"] = True
            kw["rhobeg"] = rng.choice([0.5000001, 0.75, 5.0])
        return kind

    def run(self, scn):
        if scn.get("psweep"):
            return self.run_sweep(scn)
        if any((c["config"].get("kw_over") or {}).get("print_progress") for c in scn["clients"]):
            with contextlib.redirect_stdout(io.StringIO()):
                return super().run(scn)
        return super().run(scn)

    def run_sweep(self, scn):
        out = Outcome()
        out.sigs = set()
        dg = hashlib.blake2b(digest_size=16)
        for lit in self.sweep_worlds(scn):
            n0 = len(out.viol)
            w = self.run_one(lit, out)
            out.stats["parameter sweep: calls"] += 1
            c = w.all_clients[0]
            out.sigs.add("|".join(map(str, c.spec["mut"])) + "|%s" % getattr(c.soln, "flag", type(c.exc).__name__))
            dg.update(w.digest.digest())
            for k, m in out.viol[n0:]:
                out.repro.setdefault(k, lit)
        out.digest = dg.hexdigest()
        out.nontrivial = True
        out.sig = "sweep"
        return out

    def check_world(self, w, out):
        out.nontrivial = True
        c = w.all_clients[0]
        out.sig = "|".join(map(str, c.spec.get("mut", ["?"]))) + "|" + client_sig(c)

    def check_client(self, c, w, out):
        exp = c.spec.get("expect")
        if exp == "unknown":
            if not isinstance(c.exc, ValueError):
                return [("C07:unknown-name", "unknown parameter %r: %s instead of ValueError"
                         % (c.spec["mut"][1], "returned flag %s" % c.soln.flag if c.soln is not None else repr(c.exc)))]
            if c.evals:
                return [("C07:evals", "%d evaluations before the ValueError" % len(c.evals))]
            out.stats["unknown names"] += 1
            return []
        v = O.check_wellformed(c)
        out.stats["results judged"] += 1
        if exp == "input" and c.soln is not None:
            out.stats["invalid inputs"] += 1
            if c.soln.flag != O.INPUT_ERROR:
                v.append(("C07:not-reported", "invalid input %r accepted: flag %s (%s)" % (c.spec["mut"], c.soln.flag, c.soln.msg)))
            elif c.evals:
                v.append(("C07:evals", "input error after %d evaluations" % len(c.evals)))
        if exp is None and c.soln is not None and c.soln.flag == O.INPUT_ERROR:
            v.append(("C07:valid-rejected", "valid input rejected: %s (%s)" % (c.soln.msg, c.spec.get("mut"))))
        return v


def O_rhobeg(cfg):
    if cfg.get("rhobeg") is not None:
        return float(cfg["rhobeg"])
    if cfg.get("scaling"):
        return 0.1
    return 0.1 * max(max(abs(float(v)) for v in cfg["x0"]), 1.0)


# ------------------------------------------------------------------------ C19
def snapshot(a):
    if isinstance(a, np.ndarray):
        return (a.dtype.str, a.shape, a.tobytes())
    return repr(a)


def same_value(a, b):
    if a is None or b is None:
        return a is b
    if hasattr(a, "columns"):
        if list(a.columns) != list(b.columns) or len(a) != len(b):
            return False
        for col in a.columns:
            for u, v in zip(a[col].tolist(), b[col].tolist()):
                if isinstance(u, (list, np.ndarray)):
                    if not np.array_equal(np.asarray(u), np.asarray(v), equal_nan=True):
                        return False
                elif not (u == v or (u is None and v is None) or (isinstance(u, float) and isinstance(v, float) and math.isnan(u) and math.isnan(v))):
                    return False
        return True
    if isinstance(a, np.ndarray):
        return np.asarray(a).shape == np.asarray(b).shape and np.asarray(a).tobytes() == np.asarray(b).tobytes()
    if isinstance(a, float) or isinstance(b, float):
        return float(a).hex() == float(b).hex() if not (math.isnan(a) and math.isnan(b)) else True
    return a == b


FIELDS = ("x", "resid", "obj", "jacobian", "nf", "nx", "nruns", "flag", "msg", "xmin_eval_num", "jacmin_eval_nums", "diagnostic_info")


class C19(WorldProp):
    id = "C19"
    quick_runs = 600
    thorough_runs = 100000
    profile = Profile(p_growing=0.0, p_random_init=0.0, p_sets=0.12, p_reg=0.02, p_faults=0.15, p_diag=0.3, maxfun_cap=150, p_multi=0.0, p_nested=0.0,
                      p_la=0.0, p_rngmode=0.0, p_perturb=0.0, nmax=5)
    rule = ("a case is one simulated world in which the same call is made 2-3 times (twins: equal arguments and black box, different states of the "
            "global generator, foreign draws, schedules, neighbours, nested solves and adversarial draws) plus optional unrelated clients. "
            "Non-trivial: at least two twins made >= 2 evaluations and were compared byte for byte. Distinct: by features, exit, size bucket.")
    assumptions = WorldProp.assumptions + ["options that use random directions are not generated: random initial directions, growing, momentum steps, "
                                           "increasing npt with restarts, npt > (n+1)(n+2)/2"]

    def config_hook(self, rng, spec, n, m):
        cfg = spec["config"]
        up = cfg.get("user_params")
        if up is not None:
            for k in [k for k in up if k.startswith(("growing.", "init."))] + ["regression.momentum_extra_steps", "restarts.increase_npt",
                                                                             "restarts.increase_npt_amt", "restarts.hard.increase_ndirs_initial_amt", "restarts.max_npt"]:
                up.pop(k, None)

    def gen(self, rng, i, tier):
        scn = gen.gen_world(rng, self.profile, config_hook=self.config_hook)
        base = scn["clients"][0]
        twins = []
        for t in range(rng.choice([2, 2, 3])):
            c = copy.deepcopy(base)
            c["twin"] = 1
            c["latency_seed"] = rng.randrange(10 ** 6)
            c["reuse_buffer"] = rng.random() < 0.3
            if rng.random() < 0.7:
                c["perturb"] = [{"at": rng.randint(1, 40), "kind": rng.choice(["draw", "seed"]), "n": rng.randrange(1, 20)} for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.4:
                c["rng_mode"] = rng.choice(["axis", "same"])
            if rng.random() < 0.4:
                c["readonly"] = True
            if t and rng.random() < 0.25:
                inner = gen.gen_client(rng, Profile(nmax=3, maxfun_cap=30, p_random_init=0.5, p_growing=0.4, p_faults=0.0))
                inner["config"]["maxfun"] = min(inner["config"].get("maxfun") or 30, 30)
                c["nested"] = [{"at": rng.randint(1, 12), "client": inner}]
            twins.append(c)
        others = []
        for _ in range(rng.choice([0, 0, 1])):
            o = gen.gen_client(rng, Profile(nmax=4, maxfun_cap=60, p_random_init=0.4, p_growing=0.4))
            if rng.random() < 0.3:
                o["faults"] = [{"at": rng.randint(1, 12), "kind": "exc", "exc": "SimFault"}]
            others.append(o)
        share = rng.random() < 0.4
        if share:
            # a caller that keeps its argument objects and passes the same ones again (and, in between, the
            # same list of projections with other bounds)
            for c in twins:
                c["share"] = 1
            if base["config"].get("sets") and rng.random() < 0.7:
                o = copy.deepcopy(base)
                o["share_sets"] = 1
                o["config"]["maxfun"] = rng.choice([5, 12, 20])
                x0 = o["config"]["x0"]
                if o["config"].get("bounds") is None or rng.random() < 0.5:
                    w = [rng.choice([0.0, 0.3, 1.0, 3.0]) for _ in x0]
                    o["config"]["bounds"] = [[float(t) - v for t, v in zip(x0, w)], [float(t) + max(v, 0.5) for t, v in zip(x0, w)]]
                    if o["config"].get("rhobeg") is None or o["config"]["rhobeg"] > 0.1:
                        o["config"]["rhobeg"] = 0.1
                else:
                    o["config"].pop("bounds")
                    o["config"].pop("scaling", None)
                twins.insert(1, o)
        scn["clients"] = twins + others
        scn.pop("sched", None)
        if rng.random() < (0.6 if share else 0.3):
            scn["sched"] = "serial"
        return scn

    def install_hooks(self):
        sim.clear_hooks()

        def start(c):
            c.obs["before"] = (snapshot(c.x0), snapshot(c.lo), snapshot(c.hi), snapshot(c.user_params))
            if c.spec.get("readonly"):
                for a in (c.x0, c.lo, c.hi):
                    if a is not None:
                        a.flags.writeable = False
        sim.add_hook("start", start)

    def check_client(self, c, w, out):
        v = []
        b = c.obs.get("before")
        if b is not None:
            out.stats["argument sets compared"] += 1
            for what, old, new in zip(("x0", "lower bounds", "upper bounds", "user_params"), b,
                                      (snapshot(c.x0), snapshot(c.lo), snapshot(c.hi), snapshot(c.user_params))):
                if old != new:
                    v.append(("C19:modified", "the caller's %s was modified" % what))
        if c.exc is not None and c.exc is not c.injected_exc and c.spec.get("readonly"):
            v.append(("C19:readonly", "with read-only inputs solve raised %s: %s" % (type(c.exc).__name__, c.exc)))
        return v

    def check_world(self, w, out):
        tw = [c for c in w.all_clients if c.spec.get("twin")]
        # (a minimised replay may have simplified one of the twins only: those are not the same call any more)
        tw = [c for c in tw if all(c.spec.get(k) == tw[0].spec.get(k) for k in ("problem", "config", "faults"))]
        out.nontrivial = False
        if len(tw) < 2:
            return
        a = tw[0]
        for b in tw[1:]:
            out.stats["twins compared"] += 1
            if len(a.evals) >= 2:
                out.nontrivial = True
            k = next((j for j in range(min(len(a.evals), len(b.evals))) if a.evals[j]["x"].tobytes() != b.evals[j]["x"].tobytes()), None)
            if k is not None or len(a.evals) != len(b.evals):
                out.viol.append(("C19:sequence", "two calls with the same arguments differ at evaluation %s (of %d and %d): %r vs %r"
                                 % ("end" if k is None else k + 1, len(a.evals), len(b.evals),
                                    None if k is None else a.evals[k]["x"].tolist(), None if k is None else b.evals[k]["x"].tolist())))
                return
            if (a.exc is None) != (b.exc is None) or (a.exc is not None and type(a.exc) is not type(b.exc)):
                out.viol.append(("C19:outcome", "same arguments, one call ended with %r, the other with %r" % (a.exc, b.exc)))
                return
            if a.soln is not None and b.soln is not None:
                for f in FIELDS:
                    if not same_value(getattr(a.soln, f), getattr(b.soln, f)):
                        out.viol.append(("C19:result", "same arguments and evaluations, but %s differs: %r vs %r" % (f, getattr(a.soln, f), getattr(b.soln, f))))
                        return


# ------------------------------------------------------------------------ C20
def equal_exact(a, b):
    """bit-exact equality of plain data / arrays, None and NaN identified"""
    if isinstance(a, np.generic):
        a = a.item()
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind == "f":
            return bool(np.array_equal(a, b, equal_nan=True)) and bool(np.all(np.signbit(a[~np.isnan(a)]) == np.signbit(b[~np.isnan(b)])))
        return bool(np.array_equal(a, b))
    na = a is None or (isinstance(a, float) and math.isnan(a))
    nb = b is None or (isinstance(b, float) and math.isnan(b))
    if na or nb:
        return na and nb
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b and (a != 0 or math.copysign(1, a) == math.copysign(1, b))
    return type(a) is type(b) and a == b


def plain(d, path="dict"):
    """first non-plain value in a nested structure"""
    if d is None or type(d) in (bool, int, float, str):
        return None
    if type(d) is dict:
        for k, v in d.items():
            if type(k) not in (str, int):
                return "%s: key %r" % (path, k)
            q = plain(v, "%s[%r]" % (path, k))
            if q:
                return q
        return None
    if type(d) in (list, tuple):
        for j, v in enumerate(d):
            q = plain(v, "%s[%d]" % (path, j))
            if q:
                return q
        return None
    return "%s is %s" % (path, type(d).__name__)


def check_roundtrip(s, what="result"):
    v = []
    try:
        t0 = str(s)
    except Exception as e:
        return [("C20:print", "str(%s) raised %s: %s" % (what, type(e).__name__, e))]
    for rep in (True, False):
        tag = "replace_nan=%s" % rep
        try:
            d = s.to_dict(replace_nan=rep) if not rep else s.to_dict()
        except Exception as e:
            return v + [("C20:to-dict", "to_dict(%s) raised %s: %s" % (tag, type(e).__name__, e))]
        q = plain(d)
        if q:
            v.append(("C20:plain", "to_dict(%s) holds non-plain data: %s" % (tag, q)))
        try:
            text = json.dumps(d, allow_nan=not rep)
        except Exception as e:
            return v + [("C20:json", "json.dumps (%s) raised %s: %s" % (tag, type(e).__name__, e))]
        try:
            s2 = type(s).from_dict(json.loads(text))
        except Exception as e:
            return v + [("C20:from-dict", "from_dict (%s) raised %s: %s" % (tag, type(e).__name__, e))]
        for f in FIELDS:
            a, b = getattr(s, f), getattr(s2, f)
            if f == "diagnostic_info" and a is not None and b is not None:
                if list(a.columns) != list(b.columns):
                    v.append(("C20:table", "%s: columns %r became %r" % (tag, list(a.columns), list(b.columns))))
                    break
                if list(a.index) != list(b.index):
                    v.append(("C20:table", "%s: index %r became %r" % (tag, list(a.index)[:5], list(b.index)[:5])))
                    break
                bad = None
                for col in a.columns:
                    for i, (p, q) in enumerate(zip(a[col].tolist(), b[col].tolist())):
                        if not equal_exact(p, q):
                            bad = (col, i, p, q)
                            break
                    if bad:
                        break
                if bad:
                    v.append(("C20:table", "%s: table[%r][%d]=%r became %r" % ((tag,) + bad)))
                    break
            elif f == "diagnostic_info":
                if (a is None) != (b is None):
                    v.append(("C20:table", "%s: diagnostic_info %r became %r" % (tag, type(a), type(b))))
            elif f in ("x", "resid", "jacobian", "jacmin_eval_nums"):
                if a is not None:
                    a = np.asarray(a)
                if not equal_exact(a, b):
                    v.append(("C20:field", "%s: field %s=%r became %r" % (tag, f, a, b)))
            elif not equal_exact(a, b):
                v.append(("C20:field", "%s: field %s=%r became %r" % (tag, f, a, b)))
        try:
            t2 = str(s2)
        except Exception as e:
            return v + [("C20:print", "str of the reloaded %s raised %s: %s" % (what, type(e).__name__, e))]
        if t2 != t0:
            l0, l2 = t0.splitlines(), t2.splitlines()
            j = next((j for j in range(min(len(l0), len(l2))) if l0[j] != l2[j]), min(len(l0), len(l2)))
            v.append(("C20:text", "%s: str differs at line %d: %r vs %r" % (tag, j, l0[j:j + 1], l2[j:j + 1])))
        if v:
            return v
    return v


def synth_value(rng):
    q = rng.random()
    if q < 0.1:
        return float("nan")
    if q < 0.17:
        return rng.choice([INF, -INF])
    if q < 0.25:
        return rng.choice([0.0, -0.0, 5e-324, 1.7976931348623157e308, -1e-300])
    return rng.gauss(0, 1) * 10 ** rng.randint(-10, 10)


class C20(WorldProp):
    id = "C20"
    quick_runs = 700
    thorough_runs = 100000
    profile = Profile(p_faults=0.35, p_sets=0.04, p_reg=0.02, p_diag=0.6, p_smallbudget=0.4, maxfun_cap=120, p_la=0.1, p_multi=0.15, p_nested=0.03,
                      fault_kinds=["nan", "pnan", "inf", "pinf", "ninf", "mix", "big", "pbig", "spike", "mag", "pmag"])
    rule = ("a case is one simulated world whose results (every exit route, with faults, budgets and sizes beyond the printing thresholds) are "
            "converted, serialised with strict and lax JSON, reloaded, compared bit for bit and printed; some of the real results are "
            "then damaged with NaN/None/infinite fields. Non-trivial: a result with a solution was converted. Distinct: by exit, missing fields, "
            "sizes relative to the thresholds, table present.")

    def gen(self, rng, i, tier):
        if i % 5 == 4:
            return self.gen_large(rng)
        scn = gen.gen_world(rng, self.profile, config_hook=self.config_hook)
        scn["synth"] = rng.randrange(10 ** 6)
        return scn

    def config_hook(self, rng, spec, n, m):
        up = spec["config"].get("user_params") or {}
        if up.get("logging.save_diagnostic_info"):
            if rng.random() < 0.3:
                up["logging.save_xk"] = True
            if rng.random() < 0.3:
                up["logging.save_rk"] = True

    def gen_large(self, rng):
        """sizes around and beyond the printing thresholds (100 residuals, 200 Jacobian entries, 100 evaluation numbers)"""
        shape = rng.choice([(1, 99), (1, 100), (1, 101), (2, 99), (2, 100), (2, 101), (10, 20), (10, 19), (14, 15), (3, 150), (99, 4), (98, 3), (100, 3), (101, 2), (20, 120)])
        n, m = shape
        A = [[round(rng.gauss(0, 1), 3) for _ in range(n)] for _ in range(m)]
        spec = {"problem": {"kind": "linear", "A": A, "b": [round(rng.gauss(0, 2), 3) for _ in range(m)]},
                "config": {"x0": [round(rng.gauss(0, 1), 3) for _ in range(n)], "maxfun": rng.choice([1, 2, n, n + 1, n + 2, n + 6]), "rhobeg": 0.5, "rhoend": 1e-4,
                           "user_params": {"logging.save_diagnostic_info": rng.random() < 0.5}}}
        if rng.random() < 0.3:
            spec["faults"] = [{"at": rng.randint(1, n + 2), "kind": rng.choice(["nan", "pnan", "inf"]), "j": 0}]
        return {"v": 1, "rng_seed": rng.randrange(2 ** 31), "sched_seed": 1, "clients": [spec], "synth": rng.randrange(10 ** 6)}

    def check_client(self, c, w, out):
        if not O.ok_soln(c):
            return []
        s = c.soln
        out.stats["results round-tripped"] += 1
        v = check_roundtrip(s)
        if v:
            return v
        # damaged copies of the real result
        import random
        rng = random.Random("%s:%s" % (w.scn.get("synth", 0), c.idx))
        for _ in range(3):
            t = copy.deepcopy(s)
            did = []
            for f in rng.sample(["x", "resid", "obj", "jacobian", "jacmin_eval_nums", "diagnostic_info", "nruns", "msg", "table"], rng.randint(1, 3)):
                did.append(f)
                if f in ("x", "resid"):
                    a = np.array(getattr(t, f), dtype=float)
                    a[rng.randrange(len(a))] = synth_value(rng)
                    setattr(t, f, a)
                elif f == "obj":
                    t.obj = rng.choice([synth_value(rng), float(np.float64(synth_value(rng)))])
                elif f == "jacobian":
                    if rng.random() < 0.4 or t.jacobian is None:
                        t.jacobian = None
                    else:
                        a = np.array(t.jacobian, dtype=float)
                        a[rng.randrange(a.shape[0]), rng.randrange(a.shape[1])] = synth_value(rng)
                        t.jacobian = a
                elif f == "jacmin_eval_nums":
                    t.jacmin_eval_nums = None
                elif f == "diagnostic_info":
                    t.diagnostic_info = None
                elif f == "nruns":
                    t.nruns = rng.randint(1, 50)
                elif f == "msg":
                    t.msg = rng.choice(["", "Warning (\"quoted\"): \u00fcml\u00e4ut \\ \n second line", "NaN", "Infinity", "None"])
                elif f == "table" and t.diagnostic_info is not None and len(t.diagnostic_info):
                    col = rng.choice([q for q in t.diagnostic_info.columns if t.diagnostic_info[q].dtype.kind == "f"] or [None])
                    if col is not None:
                        t.diagnostic_info.loc[t.diagnostic_info.index[rng.randrange(len(t.diagnostic_info))], col] = synth_value(rng)
            out.stats["damaged results round-tripped"] += 1
            v = check_roundtrip(t, "result with damaged %s" % "+".join(sorted(did)))
            if v:
                return [(k.replace("C20:", "C20:damaged-"), m) for k, m in v]
        return []

    def check_world(self, w, out):
        c = w.all_clients[0]
        out.nontrivial = any(O.ok_soln(q) for q in w.all_clients)
        if O.ok_soln(c):
            s = c.soln
            out.sig = "%s|%s|jac%s|tab%s|r%d|J%d|e%d|f%s" % (s.flag, s.msg[:40], s.jacobian is None, s.diagnostic_info is None, len(s.resid) >= 100,
                                                           np.size(s.jacobian) >= 200 if s.jacobian is not None else 2,
                                                           len(s.jacmin_eval_nums) >= 100 if s.jacmin_eval_nums is not None else 2, math.isfinite(s.obj))


ALL = [C07(), C19(), C20()]
