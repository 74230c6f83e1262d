"""Scenario generation (swarm style: each run enables its own random subset of
features, sizes and fault kinds)."""
import math
import random

import numpy as np

from .problems import gen_problem, gen_sets, r6

SMOOTH = ["linear", "sin", "sin", "quad", "rosen", "exp", "powell"]
ALLKINDS = SMOOTH + ["kink", "const", "step"]
BIG = 1e20


def pick(rng, table):
    """table: list of (weight, value)"""
    tot = sum(w for w, _ in table)
    u = rng.random() * tot
    for w, v in table:
        u -= w
        if u <= 0:
            return v
    return table[-1][1]


class Profile(object):
    """What a property's scenario family may contain (probabilities)."""
    def __init__(self, **kw):
        self.nmax = 5
        self.kinds = ALLKINDS
        self.cond_max = 1e3
        self.p_bounds = 0.6
        self.p_onesided = 0.25
        self.p_scaling = 0.3
        self.p_sets = 0.0
        self.p_reg = 0.0
        self.p_npt = 0.35
        self.npt_max = "2n+1"
        self.p_restart = 0.35
        self.p_hard = 0.4
        self.p_noise = 0.2
        self.p_nsamples = 0.2
        self.p_growing = 0.2
        self.p_regression = 0.2
        self.p_random_init = 0.15
        self.p_diag = 0.2
        self.p_trparams = 0.15
        self.p_smallbudget = 0.25
        self.p_slow = 0.1
        self.p_misc = 0.25
        self.p_offset = 0.2
        self.p_perturb = 0.3
        self.p_multi = 0.2
        self.p_nested = 0.08
        self.p_faults = 0.0
        self.p_la = 0.0
        self.p_buf = 0.2
        self.p_abort_neighbour = 0.3
        self.p_nolog = 0.0
        self.p_intx0 = 0.03
        self.p_tol = 0.15
        self.maxfun_cap = 400
        self.p_rngmode = 0.1
        self.fault_kinds = ["nan", "pnan", "inf", "pinf", "ninf", "mix", "big", "pbig", "spike", "dip", "dip", "mag", "pmag"]
        for k, v in kw.items():
            if not hasattr(self, k):
                raise KeyError(k)
            setattr(self, k, v)


def gen_geometry(rng, n, prof, scaling_ok=True):
    """x0, bounds, rhobeg with gap >= 2*rhobeg; many placements of x0."""
    cfg = {}
    mode = "none"
    if rng.random() < prof.p_bounds:
        mode = "one" if rng.random() < prof.p_onesided else "both"
    scaling = mode == "both" and rng.random() < prof.p_scaling and scaling_ok
    ctr = [rng.gauss(0, 1) * pick(rng, [(6, 1.0), (2, 5.0), (1, 100.0)]) for _ in range(n)]
    if rng.random() < 0.15:
        ctr = [round(c) for c in ctr]
    rhobeg = None
    if rng.random() < 0.5:
        rhobeg = r6(10 ** rng.uniform(-2, 0.3))
    if mode == "none":
        cfg["x0"] = r6([c + rng.gauss(0, 1) for c in ctr])
        cfg["rhobeg"] = rhobeg
        return cfg, ctr
    if scaling:
        rb = rhobeg = min(rhobeg if rhobeg is not None else 0.1, 0.5) if rng.random() < 0.7 else None
        rb = rb if rb is not None else 0.1
        widths = [10 ** rng.uniform(-2, 2) for _ in range(n)]
    else:
        if rhobeg is None and rng.random() < 0.6:
            rhobeg = r6(10 ** rng.uniform(-2, 0))
        rb = rhobeg if rhobeg is not None else None
        wmul = [pick(rng, [(2, 2.0), (3, rng.uniform(2.0, 4.0)), (3, rng.uniform(4, 50))]) for _ in range(n)]
        if rb is None:
            # default rhobeg = 0.1*max(|x0|,1): keep the gap generous
            widths = [0.1 * (max(abs(c) for c in ctr) * 2 + 5.0) * w for c, w in zip(ctr, wmul)]
        else:
            widths = [rb * w for w in wmul]
    lo, hi, x0 = [], [], []
    for i in range(n):
        c = ctr[i]
        w = widths[i]
        s = rng.random()
        l = c - w * s
        if rng.random() < 0.5:
            l = r6(l)
        h = l + w
        l = float(l)
        h = float(h)
        unb = rng.random()
        if not scaling and mode == "both" and unb < 0.12:
            h = BIG
        elif not scaling and mode == "both" and unb < 0.2:
            l = -BIG
        # placement of x0
        p = rng.random()
        span = w
        if p < 0.35:
            x = l + span * rng.random() if l > -BIG else h - span * rng.random()
        elif p < 0.45:
            x = l if l > -BIG else c
        elif p < 0.55:
            x = h if h < BIG else c
        elif p < 0.62:
            x = l + span * 10 ** rng.uniform(-14, -1) if l > -BIG else c
        elif p < 0.69:
            x = h - span * 10 ** rng.uniform(-14, -1) if h < BIG else c
        elif p < 0.75:
            x = float(np.nextafter(l, h)) if l > -BIG else c
        elif p < 0.81:
            x = float(np.nextafter(h, l)) if h < BIG else c
        elif p < 0.86:
            x = (l - span * 10 ** rng.uniform(-14, 1)) if l > -BIG else c
        elif p < 0.91:
            x = (h + span * 10 ** rng.uniform(-14, 1)) if h < BIG else c
        elif p < 0.955:
            x = l + 0.01 * (rb or 0.1) * pick(rng, [(1, 1.0), (1, 0.999), (1, 1.001)]) if l > -BIG else c
        else:
            x = h - 0.01 * (rb or 0.1) * pick(rng, [(1, 1.0), (1, 0.999), (1, 1.001)]) if h < BIG else c
        lo.append(l)
        hi.append(h)
        x0.append(float(x))
    # enforce the documented gap in floating point
    if rb is None:
        rb = 0.1 * max(max(abs(v) for v in x0), 1.0)
    if not scaling:
        for i in range(n):
            while hi[i] - lo[i] < 2.0 * rb:
                hi[i] = float(np.nextafter(hi[i] + max(0.0, (2 * rb - (hi[i] - lo[i]))), np.inf))
    cfg["x0"] = x0
    if mode == "one":
        if rng.random() < 0.5:
            cfg["bounds"] = [lo, None]
        else:
            cfg["bounds"] = [None, hi]
    else:
        cfg["bounds"] = [lo, hi]
    if scaling:
        cfg["scaling"] = True
    cfg["rhobeg"] = rhobeg
    return cfg, ctr


def gen_config(rng, prof, n, m):
    regular = True
    has_sets = rng.random() < prof.p_sets
    cfg, ctr = gen_geometry(rng, n, prof, scaling_ok=not has_sets)
    up = {}
    if has_sets:
        cen = [float(c) for c in ctr]
        if cfg.get("bounds"):
            cen = []
            bl, bu = cfg["bounds"]
            for i in range(n):
                l = bl[i] if bl is not None and bl[i] > -BIG else None
                h = bu[i] if bu is not None and bu[i] < BIG else None
                if l is not None and h is not None:
                    cen.append(0.5 * (l + h))
                elif l is not None:
                    cen.append(l + 1.0)
                elif h is not None:
                    cen.append(h - 1.0)
                else:
                    cen.append(float(ctr[i]))
        cfg["sets"] = gen_sets(rng, n, cen)
        cfg["centre"] = r6(cen)
        cfg["bounds"] = cfg.get("bounds")
        if rng.random() < 0.15:
            up["dykstra.d_tol"] = 10 ** rng.randint(-12, -6) * 1.0
        if rng.random() < 0.15:
            up["dykstra.max_iters"] = rng.choice([5, 20, 50, 150, 200])
        if rng.random() < 0.1:
            up["matrix_rank.r_tol"] = 10 ** rng.randint(-14, -8) * 1.0
        if rng.random() < 0.5:
            cfg["x0"] = r6([c + rng.gauss(0, 0.2) for c in cen])
    # the less usual options are tried together with projections as well, but less often
    plain = not has_sets or rng.random() < 0.35
    # interpolation set size
    if plain and rng.random() < prof.p_npt:
        full = (n + 1) * (n + 2) // 2
        hi = (2 * n + 1 if rng.random() < 0.75 else full) if prof.npt_max == "2n+1" else full + 2
        cfg["npt"] = rng.randint(n + 1, max(n + 1, min(hi, full) if prof.npt_max == "2n+1" else hi))
    npt = cfg.get("npt") or n + 1
    # radii
    rb = cfg.get("rhobeg")
    rb_eff = rb if rb is not None else 0.1
    if rng.random() < 0.6:
        cfg["rhoend"] = pick(rng, [(4, 1e-8), (3, 1e-5), (3, 1e-3), (1, 1e-2)])
        if cfg["rhoend"] >= rb_eff:
            cfg["rhoend"] = rb_eff * 1e-2
    # budget
    if rng.random() < prof.p_smallbudget:
        cfg["maxfun"] = pick(rng, [(2, rng.randint(1, n + 2)), (2, rng.randint(n + 1, 3 * n + 6)), (2, rng.randint(10, 60))])
    else:
        cfg["maxfun"] = rng.randint(min(30, prof.maxfun_cap // 2), prof.maxfun_cap)
    # noise and averaging
    noise = None
    if rng.random() < prof.p_noise:
        noise = {"kind": rng.choice(["add", "mul"]), "level": 10 ** rng.randint(-6, -1) * 1.0, "seed": rng.randrange(10 ** 6)}
        if rng.random() < 0.6:
            cfg["has_noise"] = True
            if rng.random() < 0.5:
                key = "noise.additive_noise_level" if noise["kind"] == "add" else "noise.multiplicative_noise_level"
                up[key] = float(noise["level"])
    elif rng.random() < 0.08:
        cfg["has_noise"] = True
    if cfg.get("has_noise") and rng.random() < 0.2:
        up["noise.quit_on_noise_level"] = rng.choice([True, False])
        if rng.random() < 0.4:
            up["noise.scale_factor_for_quit"] = rng.choice([0.1, 0.5, 2.0])
    if rng.random() < prof.p_nsamples:
        cfg["nsamples"] = pick(rng, [
            (3, {"kind": "const", "v": rng.randint(2, 5)}),
            (2, {"kind": "rho", "thr": 10 ** rng.uniform(-4, -1), "v": rng.randint(2, 6)}),
            (1, {"kind": "nruns", "v": rng.randint(1, 2)}),
            (2, {"kind": "iter", "a": rng.randint(1, 3), "v": rng.randint(0, 3), "m": rng.randint(2, 5)}),
            (2, {"kind": "seq", "vals": [rng.randint(0, 4) for _ in range(rng.randint(2, 6))]})])
    # restarts
    if rng.random() < prof.p_restart and "restarts.use_restarts" not in up:
        up["restarts.use_restarts"] = True
        up["restarts.max_unsuccessful_restarts"] = rng.randint(1, 4)
    restarting = up.get("restarts.use_restarts") or cfg.get("has_noise")
    if restarting:
        if rng.random() < 0.5:
            up["restarts.rhoend_scale"] = pick(rng, [(3, 1.0), (2, 0.1), (2, 0.5), (1, 2.0)])
        if rng.random() < prof.p_hard:
            up["restarts.use_soft_restarts"] = False
            if rng.random() < 0.5:
                up["restarts.hard.use_old_rk"] = rng.choice([True, False])
            if rng.random() < 0.3:
                up["restarts.hard.increase_ndirs_initial_amt"] = rng.randint(0, 3)
        else:
            if rng.random() < 0.5:
                up["restarts.soft.num_geom_steps"] = rng.randint(0, n + 3)
            if rng.random() < 0.4:
                up["restarts.soft.move_xk"] = rng.choice([True, False])
        if rng.random() < 0.3 and plain:
            up["restarts.increase_npt"] = True
            up["restarts.increase_npt_amt"] = rng.randint(1, 3)
            up["restarts.max_npt"] = npt + rng.randint(0, n + 3)
        if rng.random() < 0.3:
            up["restarts.auto_detect"] = rng.choice([True, False])
        if rng.random() < 0.3:
            up["restarts.auto_detect.history"] = rng.randint(3, 12)
            if rng.random() < 0.5:
                up["restarts.auto_detect.min_chgJ_slope"] = 0.0
                up["restarts.auto_detect.min_correl"] = 0.0
        if rng.random() < 0.15:
            up["restarts.soft.max_fake_successful_steps"] = rng.randint(1, 6)
        if cfg.get("rhoend", 1e-8) < 1e-4 and rng.random() < 0.7:
            cfg["rhoend"] = min(1e-3, rb_eff * 0.05)
    # growing
    if rng.random() < prof.p_growing and npt > 2 and plain:
        up["growing.ndirs_initial"] = rng.randint(1, npt - 1)
        if rng.random() < 0.5:
            up["growing.num_new_dirns_each_iter"] = rng.randint(0, 2)
        if rng.random() < 0.3:
            up["growing.delta_scale_new_dirns"] = rng.choice([0.1, 0.5, 1.0])
        if rng.random() < 0.3:
            up["growing.do_geom_steps"] = True
        if rng.random() < 0.3:
            up["growing.reset_delta"] = True
            if rng.random() < 0.5:
                up["growing.reset_rho"] = True
        if rng.random() < 0.3:
            up["growing.gamma_dec"] = rng.choice([0.5, 0.8, 0.98])
        if rng.random() < 0.3:
            up["growing.full_rank.use_full_rank_interp"] = False
            if rng.random() < 0.7:
                up["growing.perturb_trust_region_step"] = True
        elif rng.random() < 0.25:
            up["growing.full_rank.scale_factor"] = rng.choice([1e-3, 1e-2, 0.1, 1.0])
            if rng.random() < 0.5:
                up["growing.full_rank.min_sing_val"] = rng.choice([1e-8, 1e-3, 0.1])
            if rng.random() < 0.5:
                up["growing.full_rank.svd_scale_factor"] = rng.choice([0.1, 0.9])
            if rng.random() < 0.5:
                up["growing.full_rank.svd_max_jac_cond"] = rng.choice([10.0, 1e4, 1e8])
        q = rng.random()
        if q < 0.15:
            up["growing.safety.do_safety_step"] = False
        elif q < 0.3:
            up["growing.safety.reduce_delta"] = True
        elif q < 0.45:
            up["growing.safety.full_geom_step"] = True
    # regression extras
    if rng.random() < prof.p_regression and plain:
        up["regression.num_extra_steps"] = rng.randint(1, 3)
        if rng.random() < 0.4:
            up["regression.momentum_extra_steps"] = True
        if restarting and rng.random() < 0.4:
            up["regression.increase_num_extra_steps_with_restart"] = rng.randint(1, 2)
    if rng.random() < prof.p_random_init and plain:
        up["init.random_initial_directions"] = True
        if rng.random() < 0.4:
            up["init.random_directions_make_orthogonal"] = False
        if rng.random() < 0.35:
            up["init.run_in_parallel"] = True
    if rng.random() < prof.p_trparams:
        if rng.random() < 0.5:
            up["tr_radius.gamma_dec"] = rng.choice([0.25, 0.5, 0.9, 0.98])
        if rng.random() < 0.5:
            up["tr_radius.alpha1"] = rng.choice([0.1, 0.5, 0.9])
            up["tr_radius.alpha2"] = rng.choice([0.5, 0.9, 0.95])
        if rng.random() < 0.3:
            up["tr_radius.gamma_inc"] = rng.choice([1.5, 2.0, 5.0])
            up["tr_radius.gamma_inc_overline"] = rng.choice([2.0, 4.0, 8.0])
        if rng.random() < 0.2:
            up["tr_radius.eta1"] = rng.choice([0.01, 0.1, 0.25])
            up["tr_radius.eta2"] = rng.choice([0.7, 0.9])
    if rng.random() < prof.p_slow:
        up["slow.history_for_slow"] = rng.randint(1, 5)
        up["slow.thresh_for_slow"] = rng.choice([1e-4, 1e-2, 0.5])
        up["slow.max_slow_iters"] = rng.randint(1, 6)
    if rng.random() < prof.p_tol:
        up["model.abs_tol"] = rng.choice([0.0, 1e-12, 1e-6, 1e-2, 1.0])
        if rng.random() < 0.5:
            up["model.rel_tol"] = rng.choice([1e-20, 1e-6, 1e-2, 0.5])
    if rng.random() < prof.p_misc:
        q = rng.random()
        if q < 0.4:
            up["general.rounding_error_constant"] = rng.choice([0.1, 1e-3, 1.0, 10.0, 1e4])
        elif q < 0.6:
            up["general.safety_step_thresh"] = rng.choice([0.1, 0.5, 0.9])
        elif q < 0.8:
            up["interpolation.precondition"] = False
        else:
            up["general.check_objfun_for_overflow"] = False
    if rng.random() < prof.p_diag:
        up["logging.save_diagnostic_info"] = True
        up["logging.save_poisedness"] = rng.random() < 0.3
    if prof.p_reg and rng.random() < prof.p_reg:
        gen_reg(rng, cfg, n)
        up["func_tol.max_iters"] = rng.choice([20, 50])
        if rng.random() < 0.2:
            up["func_tol.tr_step"] = rng.choice([0.5, 0.95])
        if rng.random() < 0.2:
            up["func_tol.criticality_measure"] = rng.choice([1e-2, 0.1, 1.0])
        if rng.random() < 0.2:
            up["sfista.max_iters_scaling"] = rng.choice([1.0, 3.0])
        cfg["maxfun"] = min(cfg["maxfun"], 60)
        if cfg.get("rhoend", 1e-8) < 1e-4:
            cfg["rhoend"] = 1e-3 if rb_eff > 2e-3 else rb_eff * 0.1
    if has_sets:
        cfg["maxfun"] = min(cfg["maxfun"], 120)
    if rng.random() < prof.p_intx0 and not cfg.get("sets"):
        xi = [int(round(v)) for v in cfg["x0"]]
        if max(abs(v) for v in xi) < 1000 and (cfg.get("bounds") is None or cfg.get("rhobeg") is not None or cfg.get("scaling")):
            cfg["x0"] = xi
            cfg["int_x0"] = True
    if rng.random() < prof.p_nolog:
        cfg["do_logging"] = False
    if rng.random() < 0.1:
        cfg["argsf"] = ["tag", 2.5]
    cfg["user_params"] = up if (up or rng.random() < 0.5) else None
    fix_growing_consistency(cfg, n, m)
    return cfg, ctr, noise


def gen_reg(rng, cfg, n, lam=None):
    cfg["reg"] = {"type": rng.choice(["l1", "l1", "l2", "l2", "wl1", "linf", "group"]), "lam": r6(lam if lam is not None else 10 ** rng.uniform(-2, 1))}
    if cfg["reg"]["type"] == "wl1":
        cfg["reg"]["w"] = r6([10 ** rng.uniform(-1, 0.5) for _ in range(n)])
        cfg["reg"]["c"] = r6([rng.choice([0.0, rng.gauss(0, 1)]) for _ in range(n)])
    if rng.random() < 0.4:
        cfg["argsh"] = ["hh", 1.0]
    if rng.random() < 0.4:
        cfg["argsprox"] = ["pp", 2.0]


def fix_growing_consistency(cfg, n, m):
    """Avoid option combinations the documentation calls contradictory."""
    up = cfg.get("user_params") or {}
    if up.get("init.run_in_parallel") and not up.get("init.random_initial_directions"):
        up.pop("init.run_in_parallel")
    if up.get("growing.perturb_trust_region_step"):
        up["growing.full_rank.use_full_rank_interp"] = False
    if up.get("growing.reset_rho"):
        up["growing.reset_delta"] = True


def mag_exponent(rng):
    return r6(rng.choice([rng.uniform(5, 60), rng.uniform(60, 160), rng.uniform(60, 160), rng.uniform(140, 308), rng.uniform(-320, -20)]))


def gen_faults(rng, kinds, maxfun, n):
    out = _gen_faults(rng, kinds, maxfun, n)
    for f in out:
        if f["kind"] in ("mag", "pmag"):
            f["e"] = mag_exponent(rng)
    return out


def _gen_faults(rng, kinds, maxfun, n):
    out = []
    style = rng.random()
    base = rng.choice(kinds)
    if rng.random() < 0.25:     # at the first/second evaluation made from the q-th distinct call path
        for _ in range(rng.randint(1, 3)):
            out.append({"at": "site", "site": rng.randint(2, 9), "occ": rng.choice([1, 1, 1, 2, 3]), "kind": rng.choice(kinds), "j": rng.randrange(8)})
        return out
    if style < 0.6:
        ks = [fault_index(rng, maxfun, n)]
    elif style < 0.85:
        ks = sorted({fault_index(rng, maxfun, n) for _ in range(rng.randint(2, 4))})
    elif style < 0.95:
        k0 = fault_index(rng, maxfun, n)
        ks = list(range(k0, k0 + rng.randint(2, 8)))
    else:
        if rng.random() < 0.6:   # the black box breaks down for good
            return [{"at": "from", "k": fault_index(rng, maxfun, n), "kind": base, "j": rng.randrange(8)}]
        return [{"at": "all", "kind": base, "j": rng.randrange(8)}]
    for k in ks:
        out.append({"at": k, "kind": base if rng.random() < 0.7 else rng.choice(kinds), "j": rng.randrange(8)})
    return out


def fault_index(rng, maxfun, n):
    q = rng.random()
    if q < 0.3:
        return rng.randint(1, n + 2)
    if q < 0.6:
        return rng.randint(1, 3 * n + 8)
    return rng.randint(1, max(1, min(maxfun, 80)))


def gen_client(rng, prof, config_hook=None, problem=None):
    n = pick(rng, [(1, 1), (3, 2), (3, 3), (2, 4), (1, 5), (1, 6)])
    n = min(n, prof.nmax)
    pspec = problem or gen_problem(rng, n, prof.kinds, cond_max=prof.cond_max)
    if "A" in pspec:
        n = len(pspec["A"][0])
    m = len(pspec["b"]) if "b" in pspec else 2 * n
    cfg, ctr, noise = gen_config(rng, prof, n, m)
    if pspec["kind"] == "exp" and n < 2:
        pspec = gen_problem(rng, n, ["sin"])
    if rng.random() < prof.p_offset or max(abs(c) for c in ctr) > 20:
        pspec["off"] = r6(ctr)
    spec = {"problem": pspec, "config": cfg}
    if noise:
        spec["noise"] = noise
    if rng.random() < prof.p_buf:
        spec["reuse_buffer"] = True
    if rng.random() < prof.p_perturb:
        spec["perturb"] = [{"at": rng.randint(1, 30), "kind": rng.choice(["draw", "seed"]), "n": rng.randrange(1, 20)}
                           for _ in range(rng.randint(1, 3))]
    if rng.random() < prof.p_rngmode:
        spec["rng_mode"] = rng.choice(["axis", "same"])
    if prof.p_faults and rng.random() < prof.p_faults:
        spec["faults"] = gen_faults(rng, prof.fault_kinds, cfg["maxfun"], n)
    if prof.p_la and rng.random() < prof.p_la:
        spec["la"] = {"seed": rng.randrange(10 ** 6), "p": rng.choice([0.02, 0.05, 0.2]), "after": rng.choice([0, n + 2, 15])}
        if cfg.get("user_params"):
            cfg["user_params"]["logging.save_poisedness"] = False
    spec["latency_seed"] = rng.randrange(10 ** 6)
    spec["lat_mean"] = rng.choice([0.1, 1.0, 1.0, 10.0])
    if config_hook is not None:
        config_hook(rng, spec, n, m)
    return spec


def gen_world(rng, prof, config_hook=None, problem_fn=None, extra=None):
    def problem():
        return problem_fn(rng) if problem_fn else None
    scn = {"v": 1, "rng_seed": rng.randrange(2 ** 31), "sched_seed": rng.randrange(10 ** 6)}
    clients = [gen_client(rng, prof, config_hook, problem())]
    if rng.random() < prof.p_multi:
        for _ in range(rng.randint(1, 2)):
            c = gen_client(rng, prof, config_hook, problem())
            if rng.random() < prof.p_abort_neighbour:
                c["faults"] = [{"at": rng.randint(1, 12), "kind": "exc", "exc": "SimFault"}]
                c["aborting"] = True
            clients.append(c)
        if rng.random() < 0.25:
            scn["sched"] = "serial"
            rng.shuffle(clients)
    if rng.random() < prof.p_nested:
        inner = gen_client(rng, prof, config_hook, problem())
        inner["config"]["maxfun"] = min(inner["config"].get("maxfun") or 30, 30)
        if rng.random() < 0.2:
            inner["faults"] = [{"at": rng.randint(1, 8), "kind": "nan"}]
            inner["aborting"] = True
        clients[0]["nested"] = [{"at": rng.randint(1, 15), "client": inner}]
    scn["clients"] = clients
    return scn


def simplify_candidates(scn):
    """Smaller scenarios to try while minimising (generator of deep-copied dicts)."""
    import copy

    def edit(fn):
        s = copy.deepcopy(scn)
        try:
            if fn(s) is False:
                return None
        except (KeyError, IndexError, TypeError):
            return None
        return s
    nc = len(scn["clients"])
    if scn.get("sweep"):
        yield edit(lambda s: s.pop("sweep") and None)
    if nc > 1:
        for i in range(nc):
            yield edit(lambda s: s["clients"].__setitem__(slice(0, None), [s["clients"][i]]))
        for i in range(nc):
            yield edit(lambda s: s["clients"].pop(i) and None)
        if scn.get("sched") != "serial":
            yield edit(lambda s: s.__setitem__("sched", "serial"))
    for ci in range(nc):
        c = scn["clients"][ci]
        if c.get("nested"):
            yield edit(lambda s: s["clients"][ci].pop("nested") and None)
            yield edit(lambda s: s["clients"].__setitem__(slice(0, None), [s["clients"][ci]["nested"][0]["client"]]))
        for key in ("faults", "perturb"):
            for j in range(len(c.get(key) or ())):
                yield edit(lambda s: s["clients"][ci][key].pop(j) and None)
        for key in ("rng_mode", "reuse_buffer", "la", "noise"):
            if c.get(key):
                yield edit(lambda s: s["clients"][ci].pop(key) and None)
        cfg = c["config"]
        for key in ("nsamples", "reg", "sets", "scaling", "has_noise", "npt", "argsf", "argsh", "argsprox", "int_x0"):
            if cfg.get(key):
                yield edit(lambda s: s["clients"][ci]["config"].pop(key) and None)
        if len(cfg.get("sets") or ()) > 1:
            for j in range(len(cfg["sets"])):
                yield edit(lambda s: s["clients"][ci]["config"]["sets"].pop(j) and None)
        for key in list(cfg.get("user_params") or ()):
            yield edit(lambda s: s["clients"][ci]["config"]["user_params"].pop(key) and None)
        mf = cfg.get("maxfun")
        if mf and mf > 1:
            for v in sorted({mf // 2, (3 * mf) // 4, mf - 1, mf - max(1, mf // 10)}):
                if 1 <= v < mf:
                    yield edit(lambda s: s["clients"][ci]["config"].__setitem__("maxfun", v))
        if cfg.get("rhoend") and cfg["rhoend"] < 1e-3:
            yield edit(lambda s: s["clients"][ci]["config"].__setitem__("rhoend", 1e-3))
        p = c["problem"]
        if p.get("off"):
            yield edit(lambda s: s["clients"][ci]["problem"].pop("off") and None)
        if p.get("scale"):
            yield edit(lambda s: s["clients"][ci]["problem"].pop("scale") and None)
        if p["kind"] in ("sin", "quad"):
            yield edit(lambda s: s["clients"][ci]["problem"].__setitem__("kind", "linear"))
        if cfg.get("bounds") and cfg["bounds"][0] is not None and cfg["bounds"][1] is not None:
            yield edit(lambda s: s["clients"][ci]["config"]["bounds"].__setitem__(0, None))
            yield edit(lambda s: s["clients"][ci]["config"]["bounds"].__setitem__(1, None))
        if cfg.get("bounds"):
            yield edit(lambda s: s["clients"][ci]["config"].pop("bounds") and None)
        if "A" in p and len(p["A"]) > 1:
            def droprow(s):
                q = s["clients"][ci]["problem"]
                for k in ("A", "b", "B"):
                    if k in q:
                        q[k] = q[k][:-1]
            yield edit(droprow)
        if "A" in p and len(p["A"][0]) > 1:
            def dropcol(s):
                q = s["clients"][ci]["problem"]
                f = s["clients"][ci]["config"]
                for k in ("A", "B"):
                    if k in q:
                        q[k] = [row[:-1] for row in q[k]]
                if q.get("off"):
                    q["off"] = q["off"][:-1]
                f["x0"] = f["x0"][:-1]
                if f.get("bounds"):
                    f["bounds"] = [b[:-1] if b is not None else None for b in f["bounds"]]
                if f.get("sets"):
                    return False
                f["npt"] = None
                (f.get("user_params") or {}).pop("growing.ndirs_initial", None)
            yield edit(dropcol)
