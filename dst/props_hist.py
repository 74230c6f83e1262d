"""Properties decided over recorded evaluation histories: C03, C04, C08, C10, C11, C18."""
import copy

from . import gen, oracle as O, sim
from .base import Profile, WorldProp, merge_world, client_sig, np, dfols
from .runner import Outcome


# ------------------------------------------------- what the run would return if it stopped now
def _unscaled(c, model, x):
    x = np.asarray(x, dtype=float)
    sc = getattr(model, "scaling_changes", None)
    if sc is not None:
        return np.minimum(np.maximum(sc[0] + x * sc[1], sc[0]), c.hi) if c.hi is not None else sc[0] + x * sc[1]
    return x


def _watch_fit(c, model, ret):
    """Record the pending result at every iteration (cheap; judged after the run)."""
    try:
        x, r, obj, jac, ns, num, jnums = model.get_final_results()[:7]
        sc = getattr(model, "scaling_changes", None)
        J = np.array(jac, dtype=float) if jac is not None and jnums is not None else None
        if J is not None and sc is not None:
            J = J / sc[1]
        c.obs.setdefault("watch", []).append((len(c.evals), _unscaled(c, model, x), np.array(r, dtype=float), float(obj), num,
                                              J, None if jnums is None else np.array(jnums)))
    except Exception as e:   # the model's layout changed: the final-result oracle still applies
        c.obs["watch_off"] = repr(e)


class PrefixProp(WorldProp):
    """The pending result is examined at every iteration of the run.  An anomaly is reported only
    if the same world, with the budget cut right there, really returns a wrong result: changing
    maxfun changes nothing before the cut."""
    max_reruns = 3
    p_sweep = 0.6

    def install_hooks(self):
        sim.clear_hooks()
        sim.add_hook("fit", _watch_fit)

    def check_pending(self, c, w, rec, pts):
        raise NotImplementedError

    def check_final(self, c):
        raise NotImplementedError

    def check_client(self, c, w, out):
        v = self.check_final(c)
        recs = c.obs.get("watch", ())
        out.stats["pending results examined"] += len(recs)
        if v or "/" in str(c.idx) or not recs:
            return v
        pts = O.points(c)
        if pts is None:
            return v
        bad = []
        for rec in recs:
            if self.check_pending(c, w, rec, pts):
                bad.append(rec[0])
        if not bad:
            return v
        out.stats["anomalies re-run with a cut budget"] += 1
        tried = set()
        for nev in bad[:self.max_reruns] + bad[-1:]:
            for extra in (0, 1, 2):
                mf = nev + extra
                if mf in tried or mf > O.maxfun_of(c):
                    continue
                tried.add(mf)
                s = copy.deepcopy(w.scn)
                s["clients"][int(c.idx)]["config"]["maxfun"] = mf
                sim.clear_hooks()
                w2 = sim.run_scenario(s)
                c2 = next(q for q in w2.all_clients if q.idx == c.idx)
                v2 = self.check_final(c2)
                if v2:
                    return [(k, m + " (same run with maxfun=%d)" % mf) for k, m in v2]
        out.stats["anomalies without a wrong result"] += 1
        return v


class C03(PrefixProp):
    id = "C03"
    profile = Profile(p_faults=0.2, p_la=0.12, p_reg=0.03, p_sets=0.04, p_nsamples=0.35, p_noise=0.3, p_restart=0.5,
                      p_smallbudget=0.35, p_scaling=0.3, p_slow=0.15, p_tol=0.25)

    def check_final(self, c):
        return O.check_returned(c)

    def check_pending(self, c, w, rec, pts):
        return O.check_evaluated(c, rec[1], rec[2], rec[3], rec[4], pts=pts)


class C04(PrefixProp):
    id = "C04"
    profile = Profile(p_noise=0.0, p_nsamples=0.0, p_faults=0.3, p_la=0.15, p_sets=0.05, p_reg=0.03, p_restart=0.55, p_hard=0.45,
                      p_slow=0.15, p_tol=0.2, p_random_init=0.2, p_smallbudget=0.35)

    def check_final(self, c):
        return O.check_best(c)

    def check_pending(self, c, w, rec, pts):
        if not O.deterministic(c):
            return []
        pre = c.obs.get("prefix")
        if pre is None:
            pre, b = [], None
            for e in c.evals:
                v = O.obj_of(c, e["x"], e["r"])
                if v == v and (b is None or v < b):
                    b = v
                pre.append(b)
            c.obs["prefix"] = pre
        b = pre[rec[0] - 1] if rec[0] else None
        tol = O.proj_tol(c) * c.reg["lam"] * len(c.x0) if c.sets and c.reg else 0.0
        if b is not None and not rec[3] <= b + 1e-10 * abs(b) + tol and c.hard_begun == 0:
            return [("C04:pending", "")]
        return []


class C11(PrefixProp):
    id = "C11"
    quick_runs = 1000
    profile = Profile(kinds=["linear", "linear", "sin", "sin", "quad", "rosen", "exp", "powell"], p_scaling=0.45, p_npt=0.5,
                      p_restart=0.5, p_faults=0.1, p_la=0.08, p_regression=0.3, p_noise=0.15, p_nsamples=0.2,
                      p_smallbudget=0.25, p_growing=0.15, p_offset=0.25)

    def check_final(self, c):
        return O.check_jacobian(c)

    def check_pending(self, c, w, rec, pts):
        if rec[5] is None or rec[6] is None or c.sets:
            return []
        out = O.check_jac(c, rec[5], rec[6], pts=pts)
        return out

    def check_client(self, c, w, out):
        v = PrefixProp.check_client(self, c, w, out)
        if c.obs.pop("jac_checked", 0):
            out.stats["clients with a Jacobian compared"] += 1
        sk = c.obs.get("jac_skip")
        if sk:
            out.stats["jacobian skipped: " + sk] += 1
        return v


# ------------------------------------------------------------------------ C10
def _wrap_soft(c_get):
    C = dfols.controller.Controller
    if not hasattr(C, "soft_restart") or getattr(C.soft_restart, "_dst", False):
        return
    orig = C.soft_restart

    def soft_restart(self, *a, **k):
        ret = orig(self, *a, **k)
        c = sim.cur()
        if c is not None:
            c.obs["soft_done"] = c.obs.get("soft_done", 0) + (1 if ret is None else 0)
        return ret
    soft_restart._dst = True
    C.soft_restart = soft_restart


class C10(WorldProp):
    id = "C10"
    p_sweep = 0.7
    n_sweep = 4
    sweep_kinds = ("cut", "cut", "small", "small", "dipcut", "dipsmall", "dip")
    profile = Profile(p_restart=0.7, p_hard=0.45, p_tol=0.35, p_slow=0.2, p_faults=0.25, p_la=0.1, p_noise=0.25, p_reg=0.02,
                      p_sets=0.03, p_smallbudget=0.2, p_nsamples=0.3,
                      fault_kinds=["nan", "pnan", "inf", "pinf", "ninf", "mix", "big", "pbig", "spike", "mag", "pmag"])

    def config_hook(self, rng, spec, n, m):
        cfg = spec["config"]
        up = dict(cfg.get("user_params") or {})
        if rng.random() < 0.6:
            up["logging.save_diagnostic_info"] = True
        cfg["user_params"] = up or None
        # nsamples callback that only watches rho (it always asks for one sample)
        if cfg.get("nsamples") is None and rng.random() < 0.7:
            spec["record_ns"] = True
        if up.get("restarts.use_restarts") and rng.random() < 0.6:
            cfg["rhoend"] = min(rng.choice([1e-1, 1e-2, 3e-2]), 0.2 * (cfg.get("rhobeg") or 0.1))
            up["restarts.max_unsuccessful_restarts"] = rng.choice([1, 1, 2, 3])
            cfg["maxfun"] = rng.choice([100, 200, 400])

    def install_hooks(self):
        sim.clear_hooks()
        _wrap_soft(None)

    def check_client(self, c, w, out):
        if c.soln is not None:
            out.stats["flag %s: %s" % (c.soln.flag, str(c.soln.msg).split(":")[-1].strip()[:40])] += 1
        return O.check_flag(c)


# ------------------------------------------------------------------------ C18
def _c18_start(c):
    c.obs["rhobeg"] = O.rhobeg_of(c)


def _c18_fit(c, model, ret):
    try:
        ok = bool(ret[0])
    except Exception:
        return
    c.obs["fits"] = c.obs.get("fits", 0) + 1
    if ok:
        c.obs["fits_ok"] = c.obs.get("fits_ok", 0) + 1
        c.obs.setdefault("fit_nev", []).append((len(c.evals), ok))


class C18(WorldProp):
    id = "C18"
    p_sweep = 0.4
    profile = Profile(p_diag=1.0, p_restart=0.6, p_hard=0.4, p_growing=0.3, p_trparams=0.3, p_regression=0.2, p_reg=0.03, p_sets=0.03,
                      p_faults=0.15, p_la=0.08, p_noise=0.15, p_nsamples=0.15, p_smallbudget=0.15, p_slow=0.1)

    def config_hook(self, rng, spec, n, m):
        cfg = spec["config"]
        up = cfg["user_params"] = dict(cfg.get("user_params") or {})
        up["logging.save_diagnostic_info"] = True
        up["logging.save_poisedness"] = rng.random() < 0.25 and not spec.get("la")
        for k in ("logging.save_xk", "logging.save_rk"):
            if rng.random() < 0.3:
                up[k] = rng.random() < 0.8
        if rng.random() < 0.15:
            spec["rough"] = True    # large multiplicative changes: drive delta up
            up["tr_radius.gamma_inc"] = 50.0
            up["tr_radius.gamma_inc_overline"] = 100.0
            spec["problem"]["scale"] = 1e-3

    def install_hooks(self):
        sim.clear_hooks()
        sim.add_hook("start", _c18_start)
        sim.add_hook("fit", _c18_fit)

    def check_client(self, c, w, out):
        di = getattr(c.soln, "diagnostic_info", None) if c.soln is not None else None
        if di is not None:
            out.stats["diagnostic rows checked"] += len(di)
        return O.check_table(c)


# ------------------------------------------------------------------------ C08
EXC_NAMES = ["SimFault", "SimFault", "ValueError", "RuntimeError", "OverflowError", "FloatingPointError", "ZeroDivisionError",
             "AssertionError", "LinAlgError", "KeyboardInterrupt", "MemoryError", "OSError", "StopIteration", "TypeError",
             "IndexError", "TimeoutError", "UserBase"]


class C08(WorldProp):
    """One run = one base world; the fault of this run is placed at every evaluation in turn."""
    id = "C08"
    quick_runs = 300
    thorough_runs = 40000
    profile = Profile(p_faults=0.0, p_restart=0.45, p_hard=0.4, p_growing=0.25, p_nsamples=0.15, p_noise=0.1, p_reg=0.06, p_sets=0.04,
                      p_smallbudget=0.0, p_multi=0.06, p_nested=0.0, p_diag=0.3, p_random_init=0.2, maxfun_cap=60)
    rule = ("a case is one simulated world crossed with one fault kind: the base execution is repeated with the fault placed at each of "
            "its evaluations in turn (all of the first 14, then a seeded choice) and at all evaluations. Non-trivial: at least two "
            "faulted executions completed. Distinct: by problem kind, enabled features, outcome and fault kinds.")

    def config_hook(self, rng, spec, n, m):
        cfg = spec["config"]
        cfg["maxfun"] = min(cfg.get("maxfun") or 40, rng.choice([15, 25, 40, 60]))
        if (cfg.get("reg") or cfg.get("sets")):
            cfg["maxfun"] = min(cfg["maxfun"], 15)
        spec["problem"].pop("none", None)
        if rng.random() < 0.1:
            up = cfg["user_params"] = dict(cfg.get("user_params") or {})
            up["interpolation.throw_error_on_nans"] = True

    def gen(self, rng, i, tier):
        scn = WorldProp.gen(self, rng, i, tier)
        kind = rng.choice(["nan", "pnan", "inf", "pinf", "ninf", "pninf", "mix", "big", "pbig", "spike", "exc", "nan", "pinf", "big",
                           "mag", "mag", "mag", "pmag"])
        f = {"kind": kind, "j": rng.randrange(8), "seed": rng.randrange(10 ** 6), "limit": 22 if tier == "quick" else 60}
        if kind == "exc":
            f["exc"] = rng.choice(EXC_NAMES)
        if kind in ("mag", "pmag"):
            f["e"] = gen.mag_exponent(rng)
        scn["sweep"] = f
        return scn

    def check_client(self, c, w, out):
        return O.check_survival(c)

    def run(self, scn):
        import random
        out = Outcome()
        self.install_hooks()
        sw = scn.get("sweep")
        base = copy.deepcopy(scn)
        base.pop("sweep", None)
        w = sim.run_scenario(base)
        merge_world(out, w)
        out.sig = client_sig(w.all_clients[0])
        dig = [w.digest.hexdigest()]
        for c in w.all_clients:
            out.viol += [(k, m + " [no fault, client %s]" % c.idx) for k, m in O.check_survival(c)]
        ne = len(w.all_clients[0].evals)
        if sw and not out.viol:
            ks = list(sw["ks"]) if sw.get("ks") else None
            if ks is None:
                g = random.Random(sw["seed"])
                ks = list(range(1, min(ne, 14) + 1))
                rest = list(range(15, ne + 1))
                g.shuffle(rest)
                ks += sorted(rest[:max(0, sw["limit"] - len(ks))])
                if sw["kind"] != "exc":
                    ks.append("all")
                    # and from some evaluation onwards
                    ks += ["f%d" % k for k in sorted(g.sample(range(2, ne + 1), min(sw.get("nfrom", 6), max(0, ne - 1))))]
            done = 0
            for k in ks:
                s = copy.deepcopy(base)
                f = {"at": k, "kind": sw["kind"], "j": sw["j"]}
                if isinstance(k, str) and k != "all":
                    f["at"], f["k"] = "from", int(k[1:])
                for a in ("exc", "e"):
                    if a in sw:
                        f[a] = sw[a]
                s["clients"][0]["faults"] = [f]
                w2 = sim.run_scenario(s)
                merge_world(out, w2)
                dig.append(w2.digest.hexdigest())
                done += 1
                for c in w2.all_clients:
                    out.viol += [(kk, m + " [%s at evaluation %s, client %s]" % (sw.get("exc", sw["kind"]), k, c.idx))
                                 for kk, m in O.check_survival(c)]
                if out.viol:
                    break
            out.stats["faulted executions"] += done
            out.nontrivial = done >= 2
            out.sig += "|" + sw["kind"] + sw.get("exc", "")
        import hashlib
        out.digest = hashlib.blake2b("".join(dig).encode(), digest_size=16).hexdigest()
        return out

    def simplify(self, scn):
        sw = scn.get("sweep")
        if sw and not sw.get("ks"):
            for k in ["all"] + list(range(1, 41)) + ["f%d" % k for k in range(2, 31)]:
                s = copy.deepcopy(scn)
                s["sweep"]["ks"] = [k]
                yield s
        for s in gen.simplify_candidates(scn):
            yield s
            if s is not None and sw and sw.get("ks") and sw["ks"] != ["all"] and s.get("sweep"):
                k0 = sw["ks"][0]
                pre, k0 = ("f", int(k0[1:])) if isinstance(k0, str) else ("", int(k0))
                for dk in (-1, -2, -3):
                    if k0 + dk >= 1:
                        s2 = copy.deepcopy(s)
                        s2["sweep"]["ks"] = ["f%d" % (k0 + dk) if pre else k0 + dk]
                        yield s2


ALL = [C03(), C04(), C08(), C10(), C11(), C18()]
