"""Checks over recorded histories.  Each function returns a list of
(class_key, message)."""
import math

from .env import np
from .problems import reg_value, set_distance

EPS = 2.0 ** -52
DOC_FLAGS = {"EXIT_SUCCESS": 0, "EXIT_MAXFUN_WARNING": 1, "EXIT_SLOW_WARNING": 2, "EXIT_FALSE_SUCCESS_WARNING": 3,
             "EXIT_TR_INCREASE_WARNING": 5, "EXIT_INPUT_ERROR": -1, "EXIT_TR_INCREASE_ERROR": -2,
             "EXIT_LINALG_ERROR": -3, "EXIT_EVAL_ERROR": -4}
INPUT_ERROR = -1


def ok_soln(c):
    return c.soln is not None and getattr(c.soln, "flag", INPUT_ERROR) != INPUT_ERROR and c.soln.x is not None


def obj_of(c, x, r):
    with np.errstate(all="ignore"):
        v = float(np.dot(r, r))
        if c.reg:
            v += reg_value(c.reg, x)
    return v


def maxfun_of(c):
    mf = c.spec["config"].get("maxfun")
    n = len(c.x0)
    return mf if mf is not None else min(100 * (n + 1), 1000)


def deterministic(c):
    """no noise, no sample averaging"""
    return not c.noise and (c.spec["config"].get("nsamples") is None)


def xscale(c):
    m = 1.0
    for e in c.evals:
        v = e["x"]
        if np.all(np.isfinite(v)):
            m = max(m, float(np.max(np.abs(v))))
    return m


def points(c):
    """evaluation point number -> list of records (needs one log line per call)"""
    out = {}
    if len(c.log_evals) < len(c.evals):
        return None
    for rec, (i, j) in zip(c.evals, c.log_evals):
        out.setdefault(j, []).append(rec)
    return out


# ------------------------------------------------------------------------ C01
def check_bounds(c, key="C01"):
    out = []
    if c.bounds_arg is None:
        return out
    for e in c.evals:
        x = e["x"]
        if c.lo is not None and not np.all(x >= c.lo):
            i = int(np.argmin(np.where(x >= c.lo, 0, -1)))
            out.append((key + ":eval-below", "evaluation %d: x[%d]=%r < lower=%r" % (e["k"], i, float(x[i]), float(c.lo[i]))))
            break
        if c.hi is not None and not np.all(x <= c.hi):
            i = int(np.argmin(np.where(x <= c.hi, 0, -1)))
            out.append((key + ":eval-above", "evaluation %d: x[%d]=%r > upper=%r" % (e["k"], i, float(x[i]), float(c.hi[i]))))
            break
    if ok_soln(c):
        x = np.asarray(c.soln.x)
        if c.lo is not None and not np.all(x >= c.lo):
            out.append((key + ":soln", "soln.x=%r below lower=%r" % (x.tolist(), c.lo.tolist())))
        if c.hi is not None and not np.all(x <= c.hi):
            out.append((key + ":soln", "soln.x=%r above upper=%r" % (x.tolist(), c.hi.tolist())))
    return out


# ------------------------------------------------------------------------ C02
def check_budget(c):
    out = []
    mf = maxfun_of(c)
    ne = len(c.evals)
    if ne > mf:
        out.append(("C02:overrun", "%d calls of the residual function, maxfun=%d" % (ne, mf)))
    if c.injected_exc is None and ok_soln(c):
        if c.soln.nf != ne:
            out.append(("C02:nf", "soln.nf=%r but %d calls were made" % (c.soln.nf, ne)))
    if c.spec["config"].get("do_logging", True):
        le = c.log_evals
        exp = ne - 1 if c.injected_exc is not None else ne
        if len(le) != exp:
            out.append(("C02:log-count", "%d evaluations logged, %d calls made" % (len(le), exp)))
            return out
        for q, (i, j) in enumerate(le):
            if i != q + 1:
                out.append(("C02:eval-number", "call %d was logged as evaluation %d" % (q + 1, i)))
                break
        prev = 0
        for q, (i, j) in enumerate(le):
            if j not in (prev, prev + 1) or j < 1:
                out.append(("C02:point-number", "call %d: point number %d follows %d" % (q + 1, j, prev)))
                break
            prev = j
        else:
            if c.injected_exc is None and ok_soln(c) and c.soln.nx != prev:
                out.append(("C02:nx", "soln.nx=%r but last point number is %d" % (c.soln.nx, prev)))
        pts = {}
        for rec, (i, j) in zip(c.evals, le):
            pts.setdefault(j, []).append(rec)
        nums = sorted(pts)
        for a, j in enumerate(nums):
            recs = pts[j]
            for r in recs[1:]:
                if r["x"].tobytes() != recs[0]["x"].tobytes():
                    out.append(("C02:same-x", "point %d sampled at different x (calls %d and %d)" % (j, recs[0]["k"], r["k"])))
                    break
            # samples asked for
            if c.spec["config"].get("nsamples") is None:
                want = {1}
            else:
                first = recs[0]["k"]
                before = [v for v in c.ns_calls if v[0] < first]
                if not before:
                    continue
                want = {max(1, before[-1][5])}
                prevfirst = pts[nums[a - 1]][0]["k"] if a else 0
                for v in before:
                    if v[0] >= prevfirst:
                        want.add(max(1, v[5]))
            if len(recs) not in want:
                if a == len(nums) - 1 and (ne >= mf or c.injected_exc is not None) and len(recs) < max(want):
                    continue
                out.append(("C02:samples", "point %d was sampled %d times, callback asked for %s" % (j, len(recs), sorted(want))))
                break
    if c.spec["config"].get("nsamples") is None and c.injected_exc is None and ok_soln(c) and c.soln.nx != c.soln.nf:
        out.append(("C02:nx-nf", "no averaging but nx=%r, nf=%r" % (c.soln.nx, c.soln.nf)))
    return out


# ------------------------------------------------------------------------ C03
def close_resid(a, b, scale):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        return False
    if not np.any(fa):
        return True
    return bool(np.all(np.abs(a[fa] - b[fa]) <= 1e-11 * scale + 1e-300))


def proj_tol(c):
    tol = (c.spec["config"].get("user_params") or {}).get("dykstra.d_tol", 1e-10)
    return 20.0 * math.sqrt((len(c.sets) + 1) * max(tol, 1e-10))


def check_evaluated(c, x, resid, obj, num, prefix="C03", what="soln", pts=None):
    out = []
    pts = points(c) if pts is None else pts
    if pts is None:
        return out
    x = np.asarray(x, dtype=float)
    if num is None or int(num) not in pts:
        out.append((prefix + ":number", "%s names evaluation point %r; points are 1..%d" % (what, num, max(pts) if pts else 0)))
        return out
    recs = pts[int(num)]
    xe = recs[0]["x"]
    if c.sets:
        tol = proj_tol(c)
    else:
        tol = 1e-12 * xscale(c)
    if not np.all(np.abs(x - xe) <= tol):
        out.append((prefix + ":x", "%s x=%r is not evaluation point %d, x=%r" % (what, x.tolist(), num, xe.tolist())))
        return out
    rs = np.array([r["r"] for r in recs])
    with np.errstate(all="ignore"):
        mean = np.mean(rs, axis=0)
        fin = rs[np.isfinite(rs)]
        scale = max(1e-300, float(np.max(np.abs(fin))) if fin.size else 1.0)
    if not close_resid(resid, mean, scale):
        out.append((prefix + ":resid", "%s resid=%r, mean of the %d samples at point %d is %r"
                    % (what, np.asarray(resid).tolist(), len(recs), num, mean.tolist())))
        return out
    want = obj_of(c, x, np.asarray(resid, dtype=float))
    have = float(obj)
    if math.isfinite(want) != math.isfinite(have) or \
            (math.isfinite(want) and abs(want - have) > 1e-9 * max(abs(want), 1e-300) + (1e-9 * reg_value(c.reg, x) if c.reg else 0.0)
             + (proj_tol(c) * 10 * (c.reg["lam"] if c.reg else 0.0) * len(x) if c.sets else 0.0)):
        out.append((prefix + ":obj", "%s obj=%r but sumsq(resid)+h(x)=%r" % (what, have, want)))
    return out


def check_returned(c):
    if not ok_soln(c):
        return []
    s = c.soln
    return check_evaluated(c, s.x, s.resid, s.obj, s.xmin_eval_num)


# ------------------------------------------------------------------------ C04
def best_seen(c, upto=None):
    best = None
    for e in c.evals[:upto]:
        v = obj_of(c, e["x"], e["r"])
        if not math.isnan(v) and (best is None or v < best[0]):
            best = (v, e["k"])
    return best


def check_best(c):
    if not ok_soln(c) or not deterministic(c):
        return []
    b = best_seen(c)
    if b is None:
        return []
    have = float(c.soln.obj)
    tol = 1e-10 * abs(b[0]) if math.isfinite(b[0]) else 0.0
    if c.sets and c.reg:
        tol += proj_tol(c) * c.reg["lam"] * len(c.x0)
    if math.isnan(have) or have > b[0] + tol:
        return [("C04:lost", "soln.obj=%r but evaluation %d had objective %r" % (have, b[1], b[0]))]
    # the objective really attained at the returned point
    pts = points(c)
    num = getattr(c.soln, "xmin_eval_num", None)
    if pts is not None and num is not None and int(num) in pts:
        e = pts[int(num)][0]
        v = obj_of(c, e["x"], e["r"])
        if np.allclose(e["x"], np.asarray(c.soln.x, dtype=float), rtol=1e-6, atol=1e-6 * xscale(c)) and not v <= b[0] + tol:
            return [("C04:lost-x", "the returned point is evaluation point %d with objective %r but evaluation %d had %r"
                     % (int(num), v, b[1], b[0]))]
    return []


# ------------------------------------------------------------------------ C09
def check_sets(c):
    """every evaluated point: box exact; within sqrt(p*tol) of each set unless
    it is the output of a capped (not converged) projection."""
    out = []
    if not c.sets:
        return out
    up = c.spec["config"].get("user_params") or {}
    tol = up.get("dykstra.d_tol", 1e-10)
    p = len(c.sets) + 1
    lim = math.sqrt(p * tol)
    capped = c.obs.get("capped", [])
    for e in c.evals:
        x = e["x"]
        if c.lo is not None and not np.all(x >= c.lo) or c.hi is not None and not np.all(x <= c.hi):
            out.append(("C09:box", "evaluation %d violates the bound box: x=%r" % (e["k"], x.tolist())))
            break
        for j, sp in enumerate(c.sets):
            d = set_distance(sp, x)
            if d > lim * (1 + 1e-9) + 1e-12 * max(1.0, float(np.max(np.abs(x)))):
                if any(np.all(np.abs(x - y) <= 1e-9 * max(1.0, float(np.max(np.abs(x))))) for y in capped):
                    c.obs["capped_eval"] = c.obs.get("capped_eval", 0) + 1
                    continue
                out.append(("C09:set", "evaluation %d is at distance %.3g from set %d (%s); sqrt(p*tol)=%.3g; x=%r"
                            % (e["k"], d, j, sp["type"], lim, x.tolist())))
                return out
    return out


# ------------------------------------------------------------------------ C10
def f_at_x0(c):
    if not c.evals:
        return None
    pts = points(c)
    recs = pts[1] if pts and 1 in pts else c.evals[:1]
    with np.errstate(all="ignore"):
        return obj_of(c, recs[0]["x"], np.mean(np.array([r["r"] for r in recs]), axis=0))


def rhoend_of(c):
    return c.spec["config"].get("rhoend") or 1e-8


def rhobeg_of(c):
    cfg = c.spec["config"]
    if cfg.get("rhobeg") is not None:
        return float(cfg["rhobeg"])
    if cfg.get("scaling") and c.lo is not None and c.hi is not None and not c.sets:
        return 0.1
    return 0.1 * max(float(np.max(np.abs(np.asarray(c.x0, dtype=float)))), 1.0)


def check_flag(c):
    out = []
    if not ok_soln(c):
        return out
    s = c.soln
    up = c.spec["config"].get("user_params") or {}
    restarts_on = up.get("restarts.use_restarts", bool(c.spec["config"].get("has_noise")))
    soft = up.get("restarts.use_soft_restarts", True)
    if s.flag == 0 and not math.isfinite(float(s.obj)):
        out.append(("C10:success-nonfinite", "success (%s) with obj=%r" % (s.msg, s.obj)))
    if s.flag == 0 and "sufficiently small" in s.msg:
        f0 = f_at_x0(c)
        if c.hard_begun and (c.noise or any(e["fault"] for e in c.evals) or f0 is None or math.isnan(f0)):
            # a hard restart that samples its own starting point again has its own f(x0)
            pts = points(c) or {}
            first = [recs for recs in pts.values() if recs[0]["k"] - 1 in {k for what, k in c.marks if what == "hard"}]
            with np.errstate(all="ignore"):
                vals = [obj_of(c, recs[0]["x"], np.mean(np.array([r["r"] for r in recs]), axis=0)) for recs in first]
            vals = [v for v in vals + [f0] if v is not None and not math.isnan(v)]
            f0 = max(vals) if vals else None
        thr = max(up.get("model.abs_tol", 1e-12), up.get("model.rel_tol", 1e-20) * f0 if f0 is not None and not math.isnan(f0) else 0.0)
        if not float(s.obj) <= thr * (1 + 1e-9):
            out.append(("C10:small", "'%s' but obj=%r > max(abs_tol, rel_tol*f(x0))=%r" % (s.msg, s.obj, thr)))
    di = s.diagnostic_info
    if s.flag == 0 and "rho has reached rhoend" in s.msg:
        nr = int(s.nruns) - 1 if restarts_on else 0
        sc = up.get("restarts.rhoend_scale", 1.0)
        cand = [min(rhoend_of(c) * sc ** k, rhobeg_of(c)) for k in ({nr} if restarts_on and not soft else {0, nr})]
        seen = []
        if di is not None and len(di) > 0:
            seen.append(("recorded", float(di["rho"].iloc[-1])))
        if c.ns_calls:
            # every iteration asks how many samples to take, and is told rho
            seen.append(("reported", c.ns_calls[-1][2]))
        for what, last in seen:
            if not any(abs(last - v) <= 1e-9 * v for v in cand):
                out.append(("C10:rhoend", "'%s' but last %s rho=%r, rhoend=%r (run %d)" % (s.msg, what, last, rhoend_of(c), s.nruns)))
                break
        c.obs["rho_seen"] = len(seen)
    if s.flag == 1 and s.nf != maxfun_of(c):
        out.append(("C10:maxfun", "max-evaluations warning with nf=%r, maxfun=%d" % (s.nf, maxfun_of(c))))
    if "maximum number of unsuccessful restarts" in s.msg:
        want = up.get("restarts.max_unsuccessful_restarts", 10)
        if s.nruns < want:
            out.append(("C10:unsuccessful", "'%s' (max %d) but only %d runs" % (s.msg, want, s.nruns)))
        if not restarts_on:
            out.append(("C10:unsuccessful-off", "'%s' but restarts are disabled" % s.msg))
    # number of runs
    if c.spec["config"].get("do_logging", True):
        hi = c.soft_begun + c.hard_begun
        lo = hi
        if soft and c.soft_begun:
            lo = hi - 1  # the last soft restart may have been cut short before it took effect
        if c.obs.get("soft_done") is not None:
            lo = c.obs["soft_done"] + c.hard_begun
        if not (lo <= s.nruns - 1 <= hi):
            out.append(("C10:nruns", "nruns=%r but %d restarts were performed (%d completed)" % (s.nruns, hi, lo)))
    return out


# ------------------------------------------------------------------------ C11
def check_jacobian(c):
    out = []
    if not ok_soln(c) or c.sets:
        return out
    s = c.soln
    if s.jacobian is None or s.jacmin_eval_nums is None:
        return out
    return check_jac(c, s.jacobian, s.jacmin_eval_nums)


def check_jac(c, jacobian, jac_eval_nums, pts=None):
    out = []
    pts = points(c) if pts is None else pts
    if pts is None:
        return out
    nums = np.asarray(jac_eval_nums).astype(int)
    n = len(c.x0)
    if np.any(nums <= 0) or len(nums) < n + 1:
        c.obs["jac_skip"] = "growing"
        return out
    for v in nums:
        if int(v) not in pts:
            return [("C11:number", "jacmin_eval_nums names point %d of 1..%d" % (v, max(pts)))]
    X = np.array([pts[int(v)][0]["x"] for v in nums])
    with np.errstate(all="ignore"):
        R = np.array([np.mean([q["r"] for q in pts[int(v)]], axis=0) for v in nums])
    if not np.all(np.isfinite(R)) or np.max(np.abs(R)) > 1e100:
        c.obs["jac_skip"] = "nonfinite"
        return out
    sc = np.ones(n)
    if c.spec["config"].get("scaling") and c.lo is not None and c.hi is not None:
        sc = c.hi - c.lo
    k = int(np.argmin(np.sum(R * R, axis=1)))
    D = (X - X[k]) / sc
    dist = float(np.max(np.linalg.norm(D, axis=1)))
    if dist == 0.0:
        c.obs["jac_skip"] = "coincident"
        return out
    W = np.hstack([np.ones((len(nums), 1)), D / dist])
    sv = np.linalg.svd(W, compute_uv=False)
    if sv[-1] <= 0 or sv[0] / sv[-1] > 1e8:
        c.obs["jac_skip"] = "ill-conditioned"
        return out
    cond = sv[0] / sv[-1]
    sol = np.linalg.lstsq(W, R, rcond=None)[0]
    J = (sol[1:, :] / dist).T / sc
    have = np.asarray(jacobian, dtype=float)
    if have.shape != J.shape:
        return [("C11:shape", "jacobian has shape %r, expected %r" % (have.shape, J.shape))]
    # position errors are a few ulps of |x|, in scaled units
    xpos = float(np.max(np.abs(X) / sc)) + float(np.max(np.abs(c.lo / sc)) if c.spec["config"].get("scaling") else 0.0)
    Jn = float(np.linalg.norm(J * sc)) + 1e-300
    resid = float(np.max(np.abs(W.dot(sol) - R)))
    err = 200.0 * cond * EPS * (float(np.max(np.abs(R))) / dist + Jn * max(1.0, xpos) / dist * len(nums)) \
        + 200.0 * cond * cond * EPS * max(1.0, xpos / dist) * resid / dist
    diff = float(np.max(np.abs((have - J) * sc)))
    if err > 0.05 * Jn:
        c.obs["jac_skip"] = "tolerance-too-wide"
        return out
    c.obs["jac_checked"] = 1
    if not diff <= err:
        out.append(("C11:jac", "jacobian differs from the fit through points %s by %.3g (allowed %.3g, |J|=%.3g, cond=%.3g)"
                    % (nums.tolist(), diff, err, Jn, cond)))
    return out


# ------------------------------------------------------------------------ C18
DOC_COLS = ["fk", "rho", "delta", "interpolation_error", "interpolation_condition_number",
            "interpolation_change_J_norm", "interpolation_total_residual", "poisedness", "max_distance_xk", "norm_gk",
            "norm_sk", "nruns", "nf", "nx", "npt", "nsamples", "iter_this_run", "iters_total", "iter_type", "ratio", "slow_iter"]


def check_table(c):
    out = []
    if not ok_soln(c):
        return out
    up = c.spec["config"].get("user_params") or {}
    di = c.soln.diagnostic_info
    if not up.get("logging.save_diagnostic_info"):
        return out
    if di is None:
        if c.fits:
            return [("C18:missing", "no diagnostic table although %d iterations were recorded" % c.fits)]
        return out
    cols = list(di.columns)
    for q in DOC_COLS:
        if q not in cols:
            out.append(("C18:columns", "documented column %r missing" % q))
    for q, opt in (("xk", "logging.save_xk"), ("rk", "logging.save_rk")):
        if bool(up.get(opt, False)) != (q in cols):
            out.append(("C18:columns", "column %r present=%s but %s=%s" % (q, q in cols, opt, up.get(opt, False))))
    if out:
        return out
    nrow = len(di)
    if "fits_ok" in c.obs and nrow != c.obs["fits_ok"]:
        out.append(("C18:rows", "%d rows but %d iterations" % (nrow, c.obs["fits_ok"])))
    if nrow == 0:
        return out
    g = {q: di[q].tolist() for q in ("rho", "delta", "fk", "nruns", "nf", "nx", "npt", "iter_this_run", "iters_total")}
    n = len(c.x0)
    rhobeg = c.obs.get("rhobeg")
    rhoend = rhoend_of(c)
    sc = up.get("restarts.rhoend_scale", 1.0)
    npt0 = c.spec["config"].get("npt") or n + 1
    nptmax = npt0
    if up.get("restarts.increase_npt"):
        nptmax = max(npt0, up.get("restarts.max_npt", npt0))
    hard = up.get("restarts.use_soft_restarts", True) is False
    det = not c.noise and not c.spec.get("rough")
    for i in range(nrow):
        rho, delta = g["rho"][i], g["delta"][i]
        if not (rho > 0 and math.isfinite(rho)):
            out.append(("C18:rho-positive", "row %d: rho=%r" % (i, rho)))
        elif not delta >= rho * (1 - 1e-12):
            out.append(("C18:delta-rho", "row %d: delta=%r < rho=%r" % (i, delta, rho)))
        if not delta <= 1e10 * (1 + 1e-12):
            out.append(("C18:delta-max", "row %d: delta=%r" % (i, delta)))
        rend = rhoend * sc ** int(g["nruns"][i])
        if rhobeg is not None:
            rend = min(rend, rhobeg)
            if rho > rhobeg * (1 + 1e-12):
                out.append(("C18:rho-rhobeg", "row %d: rho=%r > rhobeg=%r" % (i, rho, rhobeg)))
        if rho < rend * (1 - 1e-9):
            out.append(("C18:rho-rhoend", "row %d: rho=%r < rhoend=%r (run %d)" % (i, rho, rend, g["nruns"][i])))
        if not 2 <= g["npt"][i] <= nptmax:
            out.append(("C18:npt", "row %d: npt=%r, allowed 2..%d" % (i, g["npt"][i], nptmax)))
        if g["iters_total"][i] != i:
            out.append(("C18:iters", "row %d: iters_total=%r" % (i, g["iters_total"][i])))
        if i == 0:
            if g["iter_this_run"][0] != 0:
                out.append(("C18:iter-run", "row 0: iter_this_run=%r" % g["iter_this_run"][0]))
        else:
            same = g["nruns"][i] == g["nruns"][i - 1]
            if same and g["iter_this_run"][i] != g["iter_this_run"][i - 1] + 1:
                out.append(("C18:iter-run", "row %d: iter_this_run %r -> %r in one run" % (i, g["iter_this_run"][i - 1], g["iter_this_run"][i])))
            if not same and g["iter_this_run"][i] != 0:
                out.append(("C18:iter-run", "row %d: first row of run %r has iter_this_run=%r" % (i, g["nruns"][i], g["iter_this_run"][i])))
            for q in ("nf", "nx", "nruns"):
                if g[q][i] < g[q][i - 1]:
                    out.append(("C18:counter", "row %d: %s decreases %r -> %r" % (i, q, g[q][i - 1], g[q][i])))
            if same and rho > g["rho"][i - 1] * (1 + 1e-12) and not up.get("growing.reset_rho"):
                out.append(("C18:rho-increase", "row %d: rho increases %r -> %r within run %r" % (i, g["rho"][i - 1], rho, g["nruns"][i])))
            a, b = g["fk"][i - 1], g["fk"][i]
            if det and (same or not hard) and math.isfinite(a) and not b <= a + 1e-10 * abs(a):
                out.append(("C18:fk", "row %d: fk increases %r -> %r" % (i, a, b)))
        if out:
            break
    s = c.soln
    if g["nf"][-1] > s.nf or g["nx"][-1] > s.nx or g["nruns"][-1] > s.nruns:
        out.append(("C18:final", "last row nf/nx/nruns=%r/%r/%r exceed the result's %r/%r/%r"
                    % (g["nf"][-1], g["nx"][-1], g["nruns"][-1], s.nf, s.nx, s.nruns)))
    # rows can be cross-checked against the live history at the moment of the fit
    for i, (nev, ok) in enumerate(c.obs.get("fit_nev", [])[:nrow]):
        if g["nf"][i] != nev:
            out.append(("C18:nf", "row %d records nf=%r, %d calls had been made" % (i, g["nf"][i], nev)))
            break
    return out


# ------------------------------------------------------------------------ C08
def check_survival(c):
    out = []
    up = c.spec["config"].get("user_params") or {}
    if c.injected_exc is not None:
        if c.after_exc_calls:
            out.append(("C08:calls-after-exc", "%d further evaluations after the exception" % c.after_exc_calls))
        if c.exc is None:
            out.append(("C08:exc-swallowed", "exception %r was not propagated" % c.injected_exc))
        elif c.exc is not c.injected_exc:
            out.append(("C08:exc-changed", "raised %r instead of the user's %r" % (c.exc, c.injected_exc)))
        return out
    if c.exc is not None:
        if type(c.exc).__name__ == "SimStuck":
            out.append(("C08:stuck", "no termination: %s" % c.exc))
        elif up.get("interpolation.throw_error_on_nans") and isinstance(c.exc, np.linalg.LinAlgError):
            pass
        else:
            out.append(("C08:raised", "solve raised %s: %s" % (type(c.exc).__name__, c.exc)))
        return out
    if not ok_soln(c):
        return out
    out += check_bounds(c, "C08")
    mf = maxfun_of(c)
    if len(c.evals) > mf:
        out.append(("C08:overrun", "%d calls, maxfun=%d" % (len(c.evals), mf)))
    if c.soln.nf != len(c.evals):
        out.append(("C08:nf", "soln.nf=%r but %d calls were made" % (c.soln.nf, len(c.evals))))
    x = np.asarray(c.soln.x, dtype=float)
    if not np.all(np.isfinite(x)):
        out.append(("C08:x-nonfinite", "returned x=%r" % x.tolist()))
        return out
    tol = proj_tol(c) if c.sets else 1e-12 * xscale(c)
    if not any(np.all(np.abs(x - e["x"]) <= tol) for e in c.evals):
        out.append(("C08:x-not-evaluated", "returned x=%r was never evaluated" % x.tolist()))
    first = next((e["k"] for e in c.evals if e["fault"]), None)
    if first is not None and first > 1:
        pre = [obj_of(c, e["x"], e["r"]) for e in c.evals[:first - 1]]
        fin = [v for v in pre if math.isfinite(v)]
        if fin:
            have = float(c.soln.obj)
            # with averaging, the point that received the bad sample has no finite value; an earlier complete point must exist
            if c.spec["config"].get("nsamples") is not None:
                pts = points(c)
                if pts is not None:
                    okp = [j for j, recs in pts.items() if recs[-1]["k"] < first and all(np.all(np.isfinite(r["r"])) for r in recs)]
                    if not okp:
                        return out
            if not math.isfinite(have):
                out.append(("C08:obj-nonfinite", "returned obj=%r although a finite value was seen before the fault at evaluation %d" % (have, first)))
            elif deterministic(c) and have > min(fin) + 1e-10 * abs(min(fin)):
                out.append(("C08:displaced", "returned obj=%r, best before the fault at evaluation %d was %r" % (have, first, min(fin))))
    return out


# ------------------------------------------------------------------------ C07
def check_wellformed(c, prefix="C07"):
    out = []
    if c.exc is not None:
        if c.exc is c.injected_exc and c.injected_exc is not None:
            return out
        if type(c.exc).__name__ == "SimStuck":
            return [(prefix + ":stuck", "no termination: %s" % c.exc)]
        up = c.spec["config"].get("user_params") or {}
        if up.get("interpolation.throw_error_on_nans") is True and isinstance(c.exc, np.linalg.LinAlgError):
            return out
        return [(prefix + ":raised", "solve raised %s: %s" % (type(c.exc).__name__, c.exc))]
    s = c.soln
    if s is None:
        return [(prefix + ":none", "solve returned None")]
    try:
        flag, msg = s.flag, s.msg
    except AttributeError as e:
        return [(prefix + ":fields", "result lacks %s" % e)]
    if flag not in DOC_FLAGS.values():
        out.append((prefix + ":flag", "flag %r is not documented (msg=%r)" % (flag, msg)))
    if not isinstance(msg, str) or not msg.strip():
        out.append((prefix + ":msg", "message is %r" % (msg,)))
    elif "Unknown exit flag" in msg:
        out.append((prefix + ":msg", "message is %r" % (msg,)))
    for name, val in DOC_FLAGS.items():
        if getattr(s, name, None) != val:
            out.append((prefix + ":constant", "result.%s is %r" % (name, getattr(s, name, None))))
            break
    try:
        text = str(s)
        if not text:
            out.append((prefix + ":print", "empty text"))
    except Exception as e:
        out.append((prefix + ":print", "printing raised %s: %s" % (type(e).__name__, e)))
    if flag == INPUT_ERROR and c.evals:
        out.append((prefix + ":evals", "input error after %d evaluations" % len(c.evals)))
    if flag != INPUT_ERROR:
        for name in ("x", "resid", "obj", "nf", "nx", "nruns", "xmin_eval_num"):
            if getattr(s, name, None) is None:
                out.append((prefix + ":fields", "result.%s is None (flag %r)" % (name, flag)))
        if np.shape(s.x) != np.shape(c.x0):
            out.append((prefix + ":fields", "x has shape %r" % (np.shape(s.x),)))
    return out


def check_args(c):
    if c.arg_errors:
        return [("args", "callback arguments changed: %s" % c.arg_errors[0])]
    return []
