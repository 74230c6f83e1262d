"""Properties decided against reference optima: C05, C06."""
import math

from . import gen, oracle as O, sim
from .base import Profile, WorldProp, np
from .problems import gen_matrix, r6, solve_regularised


def _lin_problem(rng, n, cond_max, m=None):
    m = m or rng.choice([n, n, n + 1, n + 2, 2 * n, 2 * n + 3])
    A = gen_matrix(rng, m, n, 10.0 ** rng.uniform(0, math.log10(cond_max)))
    A = r6(A)
    style = rng.random()
    if style < 0.35:   # zero residual
        xt = np.array([rng.gauss(0, 1) for _ in range(n)])
        b = r6(np.array(A).dot(xt))
    elif style < 0.9:
        b = r6([rng.gauss(0, 2) for _ in range(m)])
    else:
        xt = np.array([rng.gauss(0, 1) for _ in range(n)])
        b = r6(np.array(A).dot(xt) + 1e-3 * np.array([rng.gauss(0, 1) for _ in range(m)]))
    return {"kind": "linear", "A": A, "b": b}


def lsq_reference(A, b, lo, hi):
    """Global minimum of |Ax-b|^2 over the box, with an a-posteriori KKT certificate."""
    import scipy.optimize
    if lo is None and hi is None:
        x = np.linalg.lstsq(A, b, rcond=None)[0]
    else:
        n = A.shape[1]
        l = np.full(n, -np.inf) if lo is None else np.where(np.asarray(lo) <= -1e19, -np.inf, lo)
        u = np.full(n, np.inf) if hi is None else np.where(np.asarray(hi) >= 1e19, np.inf, hi)
        x = scipy.optimize.lsq_linear(A, b, bounds=(l, u), method="bvls", tol=1e-14, max_iter=500).x
        x = np.minimum(np.maximum(x, l), u)
    r = A.dot(x) - b
    f = float(r.dot(r))
    # certificate: f* >= f - |projected gradient step| bound; use the strongly convex lower bound
    g = 2 * A.T.dot(r)
    if lo is not None or hi is not None:
        at_l = (x <= l + 1e-12 * (1 + np.abs(l))) if lo is not None else np.zeros(len(x), bool)
        at_u = (x >= u - 1e-12 * (1 + np.abs(u))) if hi is not None else np.zeros(len(x), bool)
        pg = np.where(at_l, np.minimum(g, 0), np.where(at_u, np.maximum(g, 0), g))
    else:
        pg = g
    smin = float(np.linalg.svd(A, compute_uv=False)[-1])
    gap = float(pg.dot(pg)) / (4 * smin * smin)   # f(x) - f* <= |pg|^2 / (2 mu), mu = 2 smin^2
    return x, f, gap


def _default_budget(scn):
    for c in scn["clients"]:
        for q in [c] + [x["client"] for x in c.get("nested", ())]:
            q["config"].pop("maxfun", None)
    return scn


class C05(WorldProp):
    id = "C05"
    quick_runs = 4000
    profile = Profile(kinds=["linear"], p_bounds=0.7, p_onesided=0.15, p_scaling=0.35, p_npt=0.2, p_restart=0.0, p_noise=0.0, p_nsamples=0.0,
                      p_growing=0.0, p_regression=0.0, p_random_init=0.0, p_diag=0.15, p_trparams=0.0, p_smallbudget=0.0,
                      p_slow=0.0, p_misc=0.0, p_offset=0.0, p_tol=0.0, p_perturb=0.4, p_multi=0.25, p_nested=0.1, p_rngmode=0.15,
                      p_intx0=0.03, nmax=6)
    rule = ("a case is one simulated world of 1-3 clients (plus nested solves) on generated linear least-squares problems with full column "
            "rank; compared with an independent bounded solution carrying a KKT certificate. Non-trivial: the certificate was good "
            "enough to judge. Distinct: by shape, bounds, scaling, exit, number of active bounds and size bucket.")

    def gen(self, rng, i, tier):
        def prob():
            n = gen.pick(rng, [(1, 1), (3, 2), (3, 3), (2, 4), (2, 5), (1, 6), (1, 8)])
            return n
        return _default_budget(gen.gen_world(rng, self.profile, config_hook=self.config_hook,
                                             problem_fn=lambda r: _lin_problem(r, prob(), 1e2 if r.random() < 0.8 else 5e2)))

    def config_hook(self, rng, spec, n, m):
        cfg = spec["config"]
        cfg.pop("maxfun", None)
        cfg.pop("rhoend", None)
        cfg.pop("has_noise", None)
        up = {k: v for k, v in (cfg.get("user_params") or {}).items() if k.startswith("logging.")}
        cfg["user_params"] = up or None
        spec.pop("faults", None)
        spec["problem"].pop("off", None)
        b = cfg.get("bounds")
        if not cfg.get("scaling") and spec["problem"]["kind"] == "linear" and rng.random() < 0.35:
            self.far_start(rng, spec, n)
        if cfg.get("scaling"):
            # keep the conditioning of the scaled problem moderate
            lo, hi = b
            w = [h - l for l, h in zip(lo, hi)]
            wm = max(w)
            cfg["bounds"] = [lo, [l + max(h - l, wm / 20.0) for l, h in zip(lo, hi)]]

    @staticmethod
    def far_start(rng, spec, n):
        """A start far from the solution compared with rhobeg (many radius increases and base shifts), boxes around or away from
        the unconstrained minimiser."""
        cfg = spec["config"]
        A, b = np.array(spec["problem"]["A"]), np.array(spec["problem"]["b"])
        xs = [float(t) for t in np.linalg.lstsq(A, b, rcond=None)[0]]
        cfg["rhobeg"] = r6(10 ** rng.uniform(-2, 0))
        if cfg.get("bounds"):
            lo, hi, x0 = [], [], []
            for t in xs:
                l = r6(t - 10 ** rng.uniform(-1, 1) * rng.choice([-1.0, 1.0, 1.0, 2.0]))
                h = r6(l + max(2.5 * cfg["rhobeg"], 10 ** rng.uniform(0.3, 2)))
                lo.append(l)
                hi.append(h)
                x0.append(r6(l + (h - l) * rng.random()))
            bl, bu = cfg["bounds"]
            cfg["bounds"] = [lo if bl is not None else None, hi if bu is not None else None]
            cfg["x0"] = x0
        else:
            R = 10 ** rng.uniform(0, 2.5)
            cfg["x0"] = r6([t + R * rng.gauss(0, 1) for t in xs])

    def check_client(self, c, w, out):
        if c.injected_exc is not None or any(e["fault"] for e in c.evals):
            return []   # only here to interfere with the others
        if c.exc is not None:
            return [("C05:raised", "solve raised %s: %s" % (type(c.exc).__name__, c.exc))]
        if c.spec["problem"]["kind"] != "linear":
            return []
        s = c.problem.scale
        A, b = s * c.problem.A, s * c.problem.b
        sv = np.linalg.svd(A, compute_uv=False)
        if A.shape[0] < A.shape[1] or sv[-1] <= 0 or sv[0] / sv[-1] > 1e4:
            return []
        scaled = bool(c.spec["config"].get("scaling") and c.lo is not None and c.hi is not None)
        if scaled:
            sv2 = np.linalg.svd(A * (c.hi - c.lo), compute_uv=False)
            if sv2[0] / sv2[-1] > 1e4:
                return []
        x, f, gap = lsq_reference(A, b, c.lo, c.hi)
        if not gap <= 1e-7 * (1 + f):
            out.stats["reference not certified"] += 1
            return []
        out.stats["optima compared"] += 1
        if not O.ok_soln(c):
            return [("C05:flag", "no solution: flag %s, %s" % (c.soln.flag, c.soln.msg))]
        v = [(k.replace("C01", "C05"), m_) for k, m_ in O.check_bounds(c, "C05")]
        have = float(c.soln.obj)
        if not have <= f + 1e-6 * (1 + f):
            v.append(("C05:gap", "obj=%r but the minimum is %r (excess %.3g), flag %s %s, nf=%s" % (have, f, have - f, c.soln.flag, c.soln.msg, c.soln.nf)))
        if c.soln.flag != 0:
            v.append(("C05:success", "flag %s: %s (obj %r, minimum %r, nf %s)" % (c.soln.flag, c.soln.msg, have, f, c.soln.nf)))
        return v


class C06(WorldProp):
    id = "C06"
    quick_runs = 300
    thorough_runs = 20000
    profile = Profile(kinds=["linear"], p_bounds=0.5, p_onesided=0.15, p_scaling=0.0, p_npt=0.15, p_restart=0.0, p_noise=0.0, p_nsamples=0.0,
                      p_growing=0.0, p_regression=0.0, p_random_init=0.0, p_diag=0.1, p_trparams=0.0, p_smallbudget=0.0, p_slow=0.0,
                      p_misc=0.0, p_offset=0.0, p_tol=0.0, p_perturb=0.4, p_multi=0.1, p_nested=0.05, p_reg=0.0)

    def gen(self, rng, i, tier):
        return _default_budget(gen.gen_world(rng, self.profile, config_hook=self.config_hook,
                                             problem_fn=lambda r: _lin_problem(r, gen.pick(r, [(1, 1), (3, 2), (3, 3), (1, 4)]), 20.0)))

    def config_hook(self, rng, spec, n, m):
        cfg = spec["config"]
        cfg.pop("maxfun", None)
        cfg.pop("rhoend", None)
        cfg.pop("has_noise", None)
        cfg["rhobeg"] = cfg.get("rhobeg")
        cfg["user_params"] = None
        spec["problem"].pop("off", None)
        spec.pop("faults", None)
        cfg["reg"] = {"type": gen.pick(rng, [(4, "l1"), (2, "l2"), (2, "wl1"), (1, "asym"), (2, "linf"), (2, "group")]), "lam": r6(10 ** rng.uniform(-1.5, 0.7))}
        if cfg["reg"]["type"] in ("wl1", "asym"):
            cfg["reg"]["w"] = r6([10 ** rng.uniform(-1, 0.5) for _ in range(n)])
            cfg["reg"]["c"] = r6([rng.choice([0.0, rng.gauss(0, 1)]) for _ in range(n)])
        if rng.random() < 0.5:
            cfg["argsh"] = ["hh", 1.0]
        if rng.random() < 0.5:
            cfg["argsprox"] = ["pp", 2.0]
        cfg["rhoend"] = gen.pick(rng, [(3, 1e-8), (2, 1e-5), (2, 1e-6)])

    def install_hooks(self):
        sim.clear_hooks()
        sim.add_hook("fit", lambda c, model, ret: c.obs.setdefault("fk", []).append(float(model.objopt())))

    def check_world(self, w, out):
        c = w.all_clients[0]
        if c.reg:
            out.sig += "|" + c.reg["type"] + ("|rhoend %g" % (c.spec["config"].get("rhoend") or 1e-8))

    @staticmethod
    def really_slow(c):
        """the documented slow-progress rule (20n iterations below 1e-4 in log(objective)) does hold at the end"""
        fk = c.obs.get("fk", [])
        k = 20 * len(c.x0)
        return len(fk) >= k and fk[-1] > 0 and math.log(fk[-k]) - math.log(fk[-1]) < 2e-4 * (k + 5)

    def check_client(self, c, w, out):
        if c.injected_exc is not None or any(e["fault"] for e in c.evals):
            return []   # only here to interfere with the others
        if c.exc is not None:
            return [("C06:raised", "solve raised %s: %s" % (type(c.exc).__name__, c.exc))]
        v = [("C06:args", m) for k, m in O.check_args(c)]
        s = c.problem.scale
        A, b = s * c.problem.A, s * c.problem.b
        lo = c.lo if c.lo is not None else (np.full(len(c.x0), -1e20) if c.hi is not None else None)
        hi = c.hi if c.hi is not None else (np.full(len(c.x0), 1e20) if c.lo is not None else None)
        x, F = solve_regularised(A, b, c.reg, lo, hi, c.evals[0]["x"])
        out.stats["optima compared"] += 1
        if not O.ok_soln(c):
            return v + [("C06:flag", "no solution: flag %s, %s" % (c.soln.flag, c.soln.msg))]
        v += O.check_bounds(c, "C06")
        have = float(c.soln.obj)
        if not have <= F + 1e-3 * (1 + F):
            v.append(("C06:gap", "obj=%r but the minimum is at most %r, flag %s %s, nf=%s" % (have, F, c.soln.flag, c.soln.msg, c.soln.nf)))
        if c.soln.flag == 2 and have <= F + 1e-4 * (1 + F) and self.really_slow(c):
            v.append(("C06:slow-converged", "flag %s: %s although converged (obj %r, minimum %r, nf %s)"
                      % (c.soln.flag, c.soln.msg, have, F, c.soln.nf)))
        elif c.soln.flag != 0:
            v.append(("C06:success", "flag %s: %s (obj %r, minimum %r, nf %s)" % (c.soln.flag, c.soln.msg, have, F, c.soln.nf)))
        return v


ALL = [C05(), C06()]
