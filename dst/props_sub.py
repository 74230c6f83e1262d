"""Properties of the internal solvers: C09 (constraint sets), C12 (box trust-region step), C13 (geometry and convex steps),
C14 (initial set and random directions), C15 (projection routine)."""
import math

from . import gen, oracle as O, sim, steps
from .base import Profile, WorldProp
from .env import np, dfols
from .gen import pick
from .problems import gen_sets, r6, reg_lipschitz, reg_prox, reg_value, set_distance, set_projector
from .sub import SUBHOOKS, SubProp, arr, digest_of, projectors, seam, tolist

EPS = 2.3e-16
REPRO_MAX = 40000


def finite(*vs):
    return all(np.all(np.isfinite(v)) for v in vs)


def fmt(args):
    return ", ".join("%s=%r" % (k, tolist(v)) for k, v in args.items())


# ===================================================================== generators of model data
def gen_vec(rng, n, scale, pzero=0.15):
    v = [rng.gauss(0, 1) * scale * (1.0 if rng.random() < 0.7 else 10 ** rng.uniform(-3, 0)) for _ in range(n)]
    return [0.0 if rng.random() < pzero else x for x in v]


def gen_hess(rng, n, scale):
    t = rng.random()
    if t < 0.08:
        return np.zeros((n, n)), "H0"
    if t < 0.35:
        m = rng.randint(1, max(1, n - 1))
        kind = "Hdef"
    elif t < 0.65:
        m = rng.randint(n, n + 3)
        kind = "Hfull"
    else:
        kind = "Hind"
    if kind == "Hind":
        A = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
        H = 0.5 * (A + A.T)
        if rng.random() < 0.2:
            H = np.diag([rng.choice([-1.0, 1.0, 0.0, 1e-6, -1e-6]) for _ in range(n)])
        if rng.random() < 0.15:
            H = -A.T.dot(A)
    else:
        J = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(m)])
        if rng.random() < 0.3:
            J = J * np.array([10 ** rng.uniform(-4, 0) for _ in range(n)])
        H = 2.0 * J.T.dot(J)
    H = 0.5 * (H + H.T)
    nh = float(np.linalg.norm(H, 2))
    if nh > 0:
        H = H * (scale / nh)
    return 0.5 * (H + H.T), kind


def gen_side(rng, delta):
    """distance from the point to one side of the box"""
    return pick(rng, [(3, 0.0), (2, delta * 10 ** rng.uniform(-12, -3)), (2, delta * rng.uniform(0.001, 0.5)),
                      (2, delta * rng.uniform(0.5, 1.5)), (2, delta * 10 ** rng.uniform(0.2, 3)), (2, 1e20), (1, delta)])


def gen_box(rng, n, xopt, delta, degenerate=True):
    lo, hi = [], []
    mode = rng.random()
    for i in range(n):
        if mode < 0.15:
            a, b = 1e20, 1e20
        elif mode < 0.25:
            a, b = delta * 0.5, delta * 0.5
        else:
            a, b = gen_side(rng, delta), gen_side(rng, delta)
            if a == 0.0 and b == 0.0 and not (degenerate and rng.random() < 0.3):
                a = delta
        lo.append(-1e20 if a == 1e20 else float(xopt[i] - a))
        hi.append(1e20 if b == 1e20 else float(xopt[i] + b))
    return lo, hi


# ===================================================================== C12
def steepest_ref(xopt, g, H, sl, su, delta):
    """Decrease of the steepest-descent step, truncated at the first bound or the boundary of the trust region."""
    p = np.where(((xopt <= sl) & (g >= 0)) | ((xopt >= su) & (g <= 0)), 0.0, -g)
    pp = float(p.dot(p))
    if pp == 0.0:
        return 0.0, p
    t = delta / math.sqrt(pp)
    for i in range(len(g)):
        if p[i] > 0:
            t = min(t, (su[i] - xopt[i]) / p[i])
        elif p[i] < 0:
            t = min(t, (sl[i] - xopt[i]) / p[i])
    php = float(p.dot(H.dot(p)))
    if php > 0:
        t = min(t, pp / php)
    return max(0.0, t * pp - 0.5 * t * t * php), t * p


def check_trsbox(args, ret, err):
    xopt, g, H, sl, su, delta = [args[k] for k in ("xopt", "g", "H", "sl", "su", "delta")]
    n = len(xopt)
    out = []
    if err is not None:
        return [("C12:raise", "%s: %s on valid data (%s)" % (type(err).__name__, err, fmt(args)))], "raise"
    try:
        d, gnew = np.asarray(ret[0], dtype=float), np.asarray(ret[1], dtype=float)
    except Exception:
        return [("C12:shape", "returned %r" % (ret,))], "shape"
    if d.shape != (n,) or gnew.shape != (n,):
        return [("C12:shape", "step of shape %s, gradient of shape %s for n=%d" % (d.shape, gnew.shape, n))], "shape"
    if not finite(d, gnew):
        return [("C12:nonfinite", "non-finite step %r / gradient %r (%s)" % (d.tolist(), gnew.tolist(), fmt(args)))], "nonfinite"
    nd = float(np.linalg.norm(d))
    nH = float(np.linalg.norm(H))
    ng = float(np.linalg.norm(g))
    pos = 4 * EPS * float(np.linalg.norm(np.abs(xopt) + np.abs(d)))      # rounding of xopt + d
    lo, hi = sl - xopt, su - xopt
    if np.any(d < lo) or np.any(d > hi):
        i = int(np.argmax(np.maximum(lo - d, d - hi)))
        out.append(("C12:box", "component %d of the step is %.17g, allowed [%.17g, %.17g] (%s)" % (i, d[i], lo[i], hi[i], fmt(args))))
    if nd > delta * (1 + 1e-8) + pos:
        out.append(("C12:norm", "||d||=%.17g exceeds delta=%.17g (ratio-1 = %.3g) (%s)" % (nd, delta, nd / delta - 1, fmt(args))))
    Hd = H.dot(d)
    q = float(g.dot(d) + 0.5 * d.dot(Hd))
    D = max(nd, min(delta, nd + pos))
    scale = ng * D + 0.5 * nH * D * D
    tol = 1e-10 * scale + (ng + nH * D) * pos
    dec, sd = steepest_ref(xopt, g, H, sl, su, delta)
    if q > tol:
        out.append(("C12:increase", "the step increases the model: q(d)=%.6g (scale %.3g) (%s)" % (q, scale, fmt(args))))
    elif -q < dec - tol - 1e-10 * dec - (ng + nH * float(np.linalg.norm(sd))) * pos:
        out.append(("C12:cauchy", "decrease %.10g is less than %.10g of the truncated steepest-descent step (%s)" % (-q, dec, fmt(args))))
    ge = float(np.max(np.abs(gnew - (g + Hd))))
    if ge > 1e-9 * (ng + nH * D) + nH * pos:
        out.append(("C12:gradient", "returned gradient differs from g+Hd by %.3g (scale %.3g) (%s)" % (ge, ng + nH * D, fmt(args))))
    act = int(np.sum((d <= lo) | (d >= hi)))
    sig = "n%d act%d %s %s" % (n, min(act, 3), "bd" if nd >= delta * (1 - 1e-6) else "in", "zero" if nd == 0 else "")
    return out, sig


def trs_valid(a):
    if not finite(a["xopt"], a["g"], a["H"], a["delta"]) or np.any(np.isnan(a["sl"])) or np.any(np.isnan(a["su"])):
        return False
    if not a["delta"] > 0 or np.any(a["sl"] > a["xopt"]) or np.any(a["xopt"] > a["su"]):
        return False
    if not np.allclose(a["H"], a["H"].T, rtol=1e-9, atol=0):
        return False
    return in_domain(a["g"], a["H"], a["delta"], a["xopt"])


def in_domain(g, H, delta, xopt):
    """Somewhat more than the decades the property speaks about."""
    ng = float(np.max(np.abs(g))) if len(g) else 0.0
    return (ng == 0 or 1e-12 < ng < 1e12) and 1e-10 < delta < 1e8 and float(np.max(np.abs(H))) < 1e18 and \
        float(np.max(np.abs(xopt))) < 1e6 * max(1.0, delta)


class C12(SubProp):
    id = "C12"
    quick_runs = 700
    thorough_runs = 200000
    p_world = 0.5
    synth_count = 150
    seams = (("trust_region", "trsbox"),)
    vector_args = ("xopt", "g", "sl", "su")
    matrix_args = ("H",)
    scalar_args = ("delta",)
    profile = Profile(nmax=8, p_bounds=0.85, p_onesided=0.15, p_scaling=0.2, p_faults=0.3, p_multi=0.05, p_nested=0.0, p_growing=0.25,
                      maxfun_cap=120, fault_kinds=["spike", "spike", "big", "pbig", "nan", "inf"], p_nsamples=0.1)

    def setup(self, out, scn):
        def hook(c, name, args, call, orig):
            ret, err = self.guarded(call)
            if self.nchecked < self.insitu_cap and set(args) >= {"xopt", "g", "H", "sl", "su", "delta"}:
                c.in_harness = True
                n0 = steps.STATE["n"]
                try:
                    a = {k: args[k] for k in ("xopt", "g", "H", "sl", "su", "delta")}
                    self.judge(out, a, ret, err, "real call")
                    for _ in range(2):
                        b, what = self.damage(a)
                        if b is not None:
                            r, e = self.guarded(lambda: orig(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in b.items()}))
                            out.faults["model:" + what] += 1
                            self.judge(out, b, r, e, "damaged call (%s)" % what)
                finally:
                    c.in_harness = False
                    steps.STATE["n"] = n0
            if err is not None:
                raise err
            return ret
        SUBHOOKS["trsbox"] = hook

    def judge(self, out, a, ret, err, where):
        if not trs_valid(a):
            out.stats["calls outside the domain"] += 1
            return
        v, sig = check_trsbox(a, ret, err)
        self.sigs[sig] += 1
        self.nchecked += 1
        out.stats[where.split(" (")[0] + "s judged"] += 1
        if ret is not None:
            self.dig.update(digest_of(ret[0], ret[1]))
        case = {"fn": "trsbox", "n": len(a["g"]), "args": {k: tolist(x) for k, x in a.items()}}
        for k, m in v:
            self.note(out, k, m + " [%s]" % where, case)

    def damage(self, a):
        rng = self.mut
        b = {k: (v.copy() if isinstance(v, np.ndarray) else float(v)) for k, v in a.items()}
        n = len(b["g"])
        what = []
        for _ in range(rng.randint(1, 3)):
            q = rng.randrange(9)
            if q == 0:
                b["g"] = b["g"] * 10 ** rng.uniform(-3, 3)
                what.append("g-scale")
            elif q == 1:
                b["g"][rng.randrange(n)] = 0.0
                what.append("g-zero")
            elif q == 2:
                b["g"] = -b["g"]
                what.append("g-flip")
            elif q == 3:
                b["delta"] = float(b["delta"] * 10 ** rng.uniform(-4, 4))
                what.append("delta")
            elif q == 4:
                w, V = np.linalg.eigh(b["H"])
                w[rng.randrange(n)] = 0.0
                b["H"] = V.dot(np.diag(w)).dot(V.T)
                b["H"] = 0.5 * (b["H"] + b["H"].T)
                what.append("H-rank")
            elif q == 5:
                w, V = np.linalg.eigh(b["H"])
                j = rng.randrange(n)
                w[j] = -w[j]
                b["H"] = V.dot(np.diag(w)).dot(V.T)
                b["H"] = 0.5 * (b["H"] + b["H"].T)
                what.append("H-indefinite")
            elif q == 6:
                b["H"] = b["H"] * rng.choice([0.0, 1e-6, 1e-3, 1e3, 1e6])
                what.append("H-scale")
            else:
                j = rng.randrange(n)
                s = gen_side(rng, b["delta"])
                if rng.random() < 0.5:
                    b["sl"][j] = b["xopt"][j] - s
                    what.append("lower")
                else:
                    b["su"][j] = b["xopt"][j] + s
                    what.append("upper")
        if not trs_valid(b):
            return None, ""
        return b, "+".join(sorted(set(what)))[:60] if len(what) == 1 else "several"

    def gen_case(self, rng):
        n = rng.randint(1, 8)
        delta = 10 ** rng.uniform(-6, 2)
        if rng.random() < 0.15:
            delta = rng.choice([1.0, 0.1, 2.0])
        gs = 10 ** rng.uniform(-3, 3)
        g = gen_vec(rng, n, gs, rng.choice([0.0, 0.1, 0.5]))
        if rng.random() < 0.1:
            g = [float(rng.choice([-1, 0, 1, 2])) for _ in range(n)]
        H, kind = gen_hess(rng, n, gs / delta * 10 ** rng.uniform(-3, 3) if rng.random() < 0.7 else 10 ** rng.uniform(-3, 4))
        if rng.random() < 0.1:
            H = np.round(H / max(1e-300, float(np.max(np.abs(H)))) * 3)
        xs = rng.choice([0.0, 0.0, delta, 10 * delta, 1e3 * delta, 1.0])
        xopt = [rng.gauss(0, 1) * xs for _ in range(n)]
        sl, su = gen_box(rng, n, xopt, delta)
        return {"fn": "trsbox", "n": n, "args": {"xopt": xopt, "g": g, "H": H.tolist(), "sl": sl, "su": su, "delta": delta}}

    def run_case(self, case, out):
        a = {k: (arr(v) if k != "delta" else float(v)) for k, v in case["args"].items()}
        a["H"] = a["H"].reshape(len(a["g"]), len(a["g"]))
        if not trs_valid(a):
            return [], "invalid", b""
        f = seam("trust_region", "trsbox")
        ret, err = self.call(f, a["xopt"].copy(), a["g"].copy(), a["H"].copy(), a["sl"].copy(), a["su"].copy(), a["delta"])
        v, sig = check_trsbox(a, ret, err)
        return v, sig, digest_of(*ret[:2]) if ret is not None else b"x"



# ===================================================================== C13
def geom_ref(c, g, lo, hi, Delta):
    """max |c + g's| over lo <= s <= hi, ||s|| <= Delta (global; the maximiser is on a clipped ray)."""
    lo = np.minimum(lo, 0.0)
    hi = np.maximum(hi, 0.0)
    best = abs(c)
    for sign in (1.0, -1.0):
        w = sign * g
        nw = float(np.linalg.norm(w))
        if nw == 0.0:
            continue

        def at(t):
            return np.minimum(np.maximum(t * w, lo), hi)
        corner = np.where(w > 0, hi, np.where(w < 0, lo, 0.0))
        if float(np.linalg.norm(corner)) <= Delta:
            s = corner
        else:
            a = b = Delta / nw
            while float(np.linalg.norm(at(b))) < Delta and b < 1e290:
                b *= 4.0
            for _ in range(400):
                t = math.sqrt(a * b) if b > 4 * a else 0.5 * (a + b)
                if float(np.linalg.norm(at(t))) <= Delta:
                    a = t
                else:
                    b = t
                if b <= a * (1 + 1e-15):
                    break
            s = at(a)
        best = max(best, abs(c + float(g.dot(s))))
    return best


def check_geometry(a, ret, err):
    xb, c, g, lo, hi, Delta = [a[k] for k in ("xbase", "c", "g", "lower", "upper", "Delta")]
    n = len(xb)
    if err is not None:
        return [("C13:raise", "trsbox_geometry: %s: %s on valid data (%s)" % (type(err).__name__, err, fmt(a)))], "raise"
    x = np.asarray(ret, dtype=float)
    if x.shape != (n,) or not finite(x):
        return [("C13:nonfinite", "geometry step returned %r (%s)" % (ret, fmt(a)))], "nonfinite"
    out = []
    mx = max(1.0, float(np.max(np.abs(xb))), Delta)
    viol = float(np.max(np.maximum(lo - x, x - hi)))
    if viol > 1e-12 * mx:
        out.append(("C13:box", "geometry step leaves the box by %.3g (%s)" % (viol, fmt(a))))
    s = x - xb
    pos = 8 * EPS * float(np.linalg.norm(np.abs(xb) + np.abs(s))) + 1e-13
    ns = float(np.linalg.norm(s))
    if ns > Delta * (1 + 1e-8) + pos:
        out.append(("C13:ball", "geometry step of length %.17g, Delta=%.17g (%s)" % (ns, Delta, fmt(a))))
    got = abs(c + float(g.dot(s)))
    ng = float(np.linalg.norm(g))
    rnd = ng * pos + 1e-13 * (abs(c) + ng * min(Delta, ns + pos))
    rnd += 1e-13 * n * Delta     # components below 1e-14 count as zero
    best = geom_ref(c, g, lo - xb, hi - xb, Delta)
    if got < abs(c) - rnd:
        out.append(("C13:worse", "|c+g's|=%.12g is worse than not moving (%.12g) (%s)" % (got, abs(c), fmt(a))))
    elif got < best * (1 - 1e-6) - rnd:
        out.append(("C13:geometry", "|c+g's|=%.12g but the maximum is %.12g (%s)" % (got, best, fmt(a))))
    act = int(np.sum((x <= lo) | (x >= hi)))
    return out, "geo n%d act%d %s%s" % (n, min(act, 3), "bd" if ns >= Delta * (1 - 1e-6) else "in", " g0" if np.any(g == 0) else "")


def geo_valid(a):
    if not finite(a["xbase"], a["g"], a["c"], a["Delta"]) or np.any(np.isnan(a["lower"])) or np.any(np.isnan(a["upper"])):
        return False
    if not a["Delta"] > 1e-12 or np.any(a["lower"] > a["xbase"] + 1e-15) or np.any(a["upper"] < a["xbase"] - 1e-15):
        return False
    ng = float(np.max(np.abs(a["g"])))
    return ng < 1e60 and abs(a["c"]) < 1e60 and float(np.max(np.abs(a["xbase"]))) < 1e8 * max(1.0, a["Delta"])


def check_step_norm(name, xopt, Delta, ret, err, args_txt, tup=True):
    if err is not None:
        return [("C13:raise", "%s: %s: %s on valid data (%s)" % (name, type(err).__name__, err, args_txt))], name + " raise"
    d = np.asarray(ret[0] if tup else ret, dtype=float)
    if d.shape != xopt.shape or not finite(d):
        return [("C13:nonfinite", "%s returned %r (%s)" % (name, d.tolist(), args_txt))], name + " nonfinite"
    nd = float(np.linalg.norm(d))
    if nd > Delta * (1 + 1e-8) + 8 * EPS * (float(np.linalg.norm(xopt)) + Delta) * math.sqrt(len(d)):
        return [("C13:norm", "%s: ||d||=%.17g exceeds Delta=%.17g (%s)" % (name, nd, Delta, args_txt))], name + " long"
    return [], "%s n%d %s" % (name, len(d), "zero" if nd == 0 else "bd" if nd >= Delta * (1 - 1e-6) else "in")


def gen_sets_at(rng, n, x, Delta):
    """Convex sets containing x: at a random depth, or with x on the boundary."""
    out = []
    x = np.array(x)
    for _ in range(rng.randint(1, 3)):
        t = rng.choice(("ball", "half", "box"))
        depth = pick(rng, [(3, 0.0), (2, Delta * 10 ** rng.uniform(-6, -1)), (4, Delta * rng.uniform(0.1, 1.5)), (1, Delta * 50)])
        v = np.array([rng.gauss(0, 1) for _ in range(n)])
        v = v / max(1e-9, float(np.linalg.norm(v)))
        if rng.random() < 0.3:
            v = np.zeros(n)
            v[rng.randrange(n)] = rng.choice([-1.0, 1.0])
        if t == "ball":
            r = (depth + Delta * 0.01) * 10 ** rng.uniform(0, 2)
            r = max(r, depth)
            out.append({"type": "ball", "c": (x + v * (r - depth)).tolist(), "r": float(r)})
        elif t == "half":
            a = v * rng.choice([1.0, 1.0, 5.0, 0.2])
            out.append({"type": "half", "a": a.tolist(), "b": float(a.dot(x) + depth * np.linalg.norm(a))})
        else:
            lo, hi = gen_box(rng, n, x.tolist(), Delta)
            out.append({"type": "box", "l": lo, "u": hi})
    return out


class C13(SubProp):
    id = "C13"
    quick_runs = 560
    thorough_runs = 100000
    p_world = 0.75
    synth_count = 100
    insitu_cap = 300
    seams = (("trust_region", "trsbox_geometry"), ("trust_region", "ctrsbox_pgd"), ("trust_region", "ctrsbox_geometry"),
             ("trust_region", "ctrsbox_sfista"))
    vector_args = ("xbase", "g", "lower", "upper", "xopt")
    matrix_args = ("H",)
    scalar_args = ("Delta", "c", "delta")
    FK = ["spike", "spike", "big", "pbig", "nan", "inf", "mag"]
    prof_box = Profile(nmax=8, p_bounds=0.85, p_onesided=0.15, p_scaling=0.2, p_faults=0.35, p_multi=0.03, p_nested=0.0,
                       p_restart=0.5, p_regression=0.3, maxfun_cap=150, fault_kinds=FK)
    prof_sets = Profile(nmax=3, p_bounds=0.5, p_sets=1.0, p_faults=0.2, p_multi=0.0, p_nested=0.0, p_restart=0.4, maxfun_cap=40, fault_kinds=FK)
    prof_reg = Profile(nmax=4, p_bounds=0.5, p_sets=0.15, p_reg=1.0, p_faults=0.2, p_multi=0.0, p_nested=0.0, maxfun_cap=40, p_scaling=0.0,
                       fault_kinds=FK)

    def pick_profile(self, rng, i):
        return rng.choices([self.prof_box, self.prof_sets, self.prof_reg], [5, 2, 3])[0]

    def setup(self, out, scn):
        self.slow = 0
        SUBHOOKS["trsbox_geometry"] = self.hook_geo(out)
        SUBHOOKS["ctrsbox_pgd"] = self.hook_norm(out, "ctrsbox_pgd", "xopt", "delta", True)
        SUBHOOKS["ctrsbox_sfista"] = self.hook_norm(out, "ctrsbox_sfista", "xopt", "delta", True)
        SUBHOOKS["ctrsbox_geometry"] = self.hook_norm(out, "ctrsbox_geometry", "xbase", "Delta", False)
        install_step_seam()
        SUBHOOKS["trust_region_step"] = self.hook_step(out)

    def harness(self, c, fn):
        c.in_harness = True
        n0, ticks = steps.STATE["n"], dict(c.ticks)
        try:
            return fn()
        finally:
            c.in_harness = False
            c.ticks.clear()
            c.ticks.update(ticks)
            steps.STATE["n"] = n0

    def hook_geo(self, out):
        keys = ("xbase", "c", "g", "lower", "upper", "Delta")

        def hook(c, name, args, call, orig):
            ret, err = self.guarded(call)
            if self.nchecked < self.insitu_cap and set(args) >= set(keys):
                def body():
                    a = {k: args[k] for k in keys}
                    self.judge_geo(out, a, ret, err, "real call")
                    for _ in range(2):
                        b, what = self.damage_geo(a)
                        r, e = self.guarded(lambda: orig(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in b.items()}))
                        out.faults["model:" + what] += 1
                        self.judge_geo(out, b, r, e, "damaged call (%s)" % what)
                self.harness(c, body)
            if err is not None:
                raise err
            return ret
        return hook

    def judge_geo(self, out, a, ret, err, where):
        if not geo_valid(a):
            out.stats["calls outside the domain"] += 1
            return
        v, sig = check_geometry(a, ret, err)
        self.sigs[sig] += 1
        self.nchecked += 1
        out.stats["geometry: " + where.split(" (")[0] + "s judged"] += 1
        if ret is not None:
            self.dig.update(digest_of(ret))
        case = {"fn": "trsbox_geometry", "n": len(a["g"]), "args": {k: tolist(x) for k, x in a.items()}}
        for k, m in v:
            self.note(out, k, m + " [%s]" % where, case)

    def damage_geo(self, a):
        rng = self.mut
        b = {k: (v.copy() if isinstance(v, np.ndarray) else float(v)) for k, v in a.items()}
        n = len(b["g"])
        q = rng.randrange(6)
        if q == 0:
            b["g"][rng.randrange(n)] = 0.0
            what = "g-zero"
        elif q == 1:
            b["g"] = b["g"] * 10 ** rng.uniform(-3, 3)
            what = "g-scale"
        elif q == 2:
            b["c"] = rng.choice([0.0, 1.0, -1.0, float(np.linalg.norm(b["g"]) * b["Delta"] * rng.gauss(0, 1))])
            what = "c"
        elif q == 3:
            b["Delta"] = float(b["Delta"] * 10 ** rng.uniform(-3, 3))
            what = "delta"
        else:
            j = rng.randrange(n)
            s = gen_side(rng, b["Delta"])
            if rng.random() < 0.5:
                b["lower"][j] = b["xbase"][j] - s
                what = "lower"
            else:
                b["upper"][j] = b["xbase"][j] + s
                what = "upper"
        return b, what

    def hook_norm(self, out, name, xkey, dkey, tup):
        def hook(c, nm, args, call, orig):
            ret, err = self.guarded(call)
            if self.nchecked < self.insitu_cap and xkey in args and dkey in args:
                def body():
                    self.judge_norm(out, name, args, xkey, dkey, tup, ret, err, "real call")
                    if self.slow < 6 and "g" in args and self.mut.random() < 0.3:
                        self.slow += 1
                        rng = self.mut
                        b = dict(args)
                        if "d_max_iters" in b:
                            b["d_max_iters"] = min(int(b["d_max_iters"]), rng.choice([5, 20, 100]))
                        if rng.random() < 0.5:
                            b[dkey] = float(b[dkey] * 10 ** rng.uniform(-3, 2))
                            what = "delta"
                        elif rng.random() < 0.5 and "H" in b:
                            w, V = np.linalg.eigh(b["H"]) if finite(b["H"]) else (np.zeros(len(b["g"])), np.eye(len(b["g"])))
                            w[rng.randrange(len(w))] *= rng.choice([0.0, -1.0])
                            H = V.dot(np.diag(w)).dot(V.T)
                            b["H"] = 0.5 * (H + H.T)
                            what = "H"
                        else:
                            b["g"] = b["g"] * 10 ** rng.uniform(-3, 3)
                            what = "g-scale"
                        r, e = self.guarded(lambda: orig(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in b.items()}))
                        out.faults["model:" + what] += 1
                        self.judge_norm(out, name, b, xkey, dkey, tup, r, e, "damaged call (%s)" % what)
                self.harness(c, body)
            if err is not None:
                raise err
            return ret
        return hook

    def judge_norm(self, out, name, a, xkey, dkey, tup, ret, err, where):
        if not finite(a[xkey], a[dkey], a.get("g", 0.0), a.get("H", 0.0)) or not a[dkey] > 0 or np.max(np.abs(a.get("H", 0.0))) > 1e100 \
                or np.max(np.abs(a.get("g", 0.0))) > 1e100:
            out.stats["calls outside the domain"] += 1
            return
        if isinstance(err, sim.SimStuck):
            out.stats["stuck calls (left to C08)"] += 1
            return
        txt = ", ".join("%s=%r" % (k, tolist(v)) for k, v in a.items() if isinstance(v, (np.ndarray, float, int)))
        v, sig = check_step_norm(name, a[xkey], float(a[dkey]), ret, err, txt, tup)
        self.sigs[sig] += 1
        self.nchecked += 1
        out.stats["%s: %ss judged" % (name, where.split(" (")[0])] += 1
        for k, m in v:
            self.note(out, k, m + " [%s]" % where)

    # -- the regularised step handed to the main loop
    def hook_step(self, out):
        def hook(c, ctl, call):
            ret = call()
            if c.reg and self.nchecked < self.insitu_cap:
                def body():
                    self.judge_step(c, out, ctl, ret, "real call")
                    for _ in range(1 if self.mut.random() < 0.6 else 0):
                        self.damaged_step(c, out, ctl)
                self.harness(c, body)
            return ret
        return hook

    def judge_step(self, c, out, ctl, ret, where):
        d, g, H = [np.asarray(v, dtype=float) for v in ret[:3]]
        if not finite(g, H) or float(np.max(np.abs(H))) > 1e100:
            out.stats["calls outside the domain"] += 1
            return
        x = np.asarray(ctl.model.xopt(abs_coordinates=True), dtype=float)
        h0 = self.h_at(c, ctl, x)
        h1 = self.h_at(c, ctl, x + d)
        nd = float(np.linalg.norm(d))
        quad = float(d.dot(g) + 0.5 * d.dot(H.dot(d)))
        scale = abs(h0) + abs(h1) + float(np.linalg.norm(g)) * nd + 0.5 * float(np.linalg.norm(H)) * nd * nd
        pred = h0 - (quad + h1)
        self.nchecked += 1
        self.sigs["step " + ("zero" if nd == 0 else "moved") + (" sets" if c.sets else " box" if c.bounds_arg is not None else "")] += 1
        out.stats["regularised step: %ss judged" % where.split(" (")[0]] += 1
        if nd == 0.0:
            out.stats["regularised steps replaced by zero"] += 1
        self.dig.update(digest_of(d))
        if not finite(d) or not pred >= -1e-11 * scale:
            self.note(out, "C13:predred", "the regularised step has predicted reduction %.6g (scale %.3g): x=%r, d=%r, g=%r, H=%r [%s]"
                      % (pred, scale, x.tolist(), d.tolist(), g.tolist(), H.tolist(), where))
        if nd > float(ctl.delta) * (1 + 1e-8) + 8 * EPS * (float(np.linalg.norm(x)) + nd) * math.sqrt(len(d)):
            self.note(out, "C13:norm", "the regularised step has length %.17g with delta=%.17g [%s]" % (nd, ctl.delta, where))

    def h_at(self, c, ctl, x):
        sc = ctl.scaling_changes if hasattr(ctl, "scaling_changes") else None
        if sc is not None:
            x = sc[0] + x * sc[1]
        return reg_value(c.reg, x)

    def damaged_step(self, c, out, ctl):
        """The same controller with another radius / another model / an inaccurate prox."""
        rng = self.mut
        mdl = ctl.model
        keep = {k: getattr(mdl, k) for k in ("model_jac", "model_const")}
        d0, prox0 = ctl.delta, ctl.prox_uh
        q = rng.randrange(4)
        if q == 0:
            ctl.delta = float(d0 * 10 ** rng.uniform(-4, 2))
            what = "delta"
        elif q == 1:
            mdl.model_jac = keep["model_jac"] * 10 ** rng.uniform(-3, 3)
            what = "J-scale"
        elif q == 2:
            J = np.array(keep["model_jac"])
            J[:, rng.randrange(J.shape[1])] = 0.0
            mdl.model_jac = J
            what = "J-rank"
        else:
            sh = rng.choice([0.5, 3.0, -1.0])
            ctl.prox_uh = lambda x, u, *a: reg_prox(c.reg, np.asarray(x, dtype=float), u * abs(sh)) + (0.1 if sh < 0 else 0.0)
            what = "prox"
        try:
            ret, err = self.guarded(lambda: _step_orig[0](ctl, c.obs["step_params"]))
            out.faults["model:" + what] += 1
            if err is None:
                self.judge_step(c, out, ctl, ret, "damaged call (%s)" % what)
            elif not isinstance(err, sim.SimStuck):
                self.note(out, "C13:raise", "trust_region_step: %s: %s [damaged call (%s)]" % (type(err).__name__, err, what))
        finally:
            ctl.delta, ctl.prox_uh = d0, prox0
            for k, v in keep.items():
                setattr(mdl, k, v)

    # -- generated calls
    def gen_case(self, rng):
        q = rng.random()
        n = rng.randint(1, 8)
        Delta = 10 ** rng.uniform(-4, 1)
        if rng.random() < 0.15:
            Delta = rng.choice([1.0, 0.1, 2.0])
        xs = rng.choice([0.0, Delta, 10 * Delta, 1.0, 100.0])
        x = [rng.gauss(0, 1) * xs for _ in range(n)]
        g = gen_vec(rng, n, 10 ** rng.uniform(-3, 3), rng.choice([0.0, 0.1, 0.5]))
        if rng.random() < 0.1:
            g = [float(rng.choice([-1, 0, 1])) for _ in range(n)]
        if q < 0.9:
            ng = math.sqrt(sum(v * v for v in g))
            c = rng.choice([0.0, 1.0, -1.0, rng.gauss(0, 1), rng.gauss(0, 1) * ng * Delta, rng.gauss(0, 1) * ng * Delta])
            lo, hi = gen_box(rng, n, x, Delta)
            if rng.random() < 0.15:     # the box seen from the incumbent, as the geometry step uses it
                lo, hi = [min(v, 0.0) for v in lo], [max(v, 0.0) for v in hi]
                x = [min(max(v, a), b) for v, a, b in zip(x, lo, hi)]
            return {"fn": "trsbox_geometry", "n": n, "args": {"xbase": x, "c": float(c), "g": g, "lower": lo, "upper": hi, "Delta": Delta}}
        n = min(n, 4)
        x, g = x[:n], g[:n]
        sets = gen_sets_at(rng, n, x, Delta)
        H, _ = gen_hess(rng, n, 10 ** rng.uniform(-3, 3))
        if not any(g):
            g[0] = 1.0
        tol, mx = rng.choice([1e-10, 1e-10, 1e-6, 1e-14]), rng.choice([100, 100, 10, 2])
        f = pick(rng, [(3, "ctrsbox_pgd"), (2, "ctrsbox_geometry"), (3, "ctrsbox_sfista")])
        args = {"g": g, "sets": sets, "d_max_iters": mx, "d_tol": tol}
        if f == "ctrsbox_geometry":
            args.update({"xbase": x, "c": rng.gauss(0, 1), "Delta": Delta})
        else:
            args.update({"xopt": x, "H": H.tolist(), "delta": Delta})
        if f == "ctrsbox_sfista":
            args["reg"] = {"type": rng.choice(["l1", "l2"]), "lam": 10 ** rng.uniform(-3, 1)}
            args["func_tol"] = 10 ** rng.uniform(-5, 0)
            args["max_iters"] = rng.choice([1, 5, 30])
        return {"fn": f, "n": n, "args": args}

    def run_case(self, case, out):
        a = dict(case["args"])
        fn = case["fn"]
        f = seam("trust_region", fn)
        for k in self.vector_args:
            if k in a:
                a[k] = arr(a[k])
        if fn == "trsbox_geometry":
            if not geo_valid(a):
                return [], "invalid", b""
            ret, err = self.call(f, a["xbase"].copy(), a["c"], a["g"].copy(), a["lower"].copy(), a["upper"].copy(), a["Delta"])
            v, sig = check_geometry(a, ret, err)
            return v, sig, digest_of(ret) if ret is not None else b"x"
        P = projectors(a["sets"])
        txt = fmt(case["args"])
        if fn == "ctrsbox_geometry":
            ret, err = self.call(f, a["xbase"].copy(), a["c"], a["g"].copy(), P, a["Delta"], d_max_iters=a["d_max_iters"], d_tol=a["d_tol"])
            v, sig = check_step_norm(fn, a["xbase"], a["Delta"], ret, err, txt, False)
        elif fn == "ctrsbox_pgd":
            H = arr(a["H"]).reshape(len(a["g"]), len(a["g"]))
            ret, err = self.call(f, a["xopt"].copy(), a["g"].copy(), H, P, a["delta"], d_max_iters=a["d_max_iters"], d_tol=a["d_tol"])
            v, sig = check_step_norm(fn, a["xopt"], a["delta"], ret, err, txt)
        else:
            H = arr(a["H"]).reshape(len(a["g"]), len(a["g"]))
            reg = a["reg"]
            ret, err = self.call(f, a["xopt"].copy(), a["g"].copy(), H, P, a["delta"], lambda x: reg_value(reg, x),
                                              reg_lipschitz(reg, len(a["g"])), lambda x, u: reg_prox(reg, np.asarray(x, dtype=float), u),
                                              func_tol=a["func_tol"], max_iters=a["max_iters"], d_max_iters=a["d_max_iters"], d_tol=a["d_tol"])
            v, sig = check_step_norm(fn, a["xopt"], a["delta"], ret, err, txt)
        if isinstance(err, sim.SimStuck):
            out.stats["stuck calls (left to C08)"] += 1
            return [], fn + " stuck", b"s"
        return v, sig, digest_of(*(ret[:1] if isinstance(ret, tuple) else (ret,))) if ret is not None else b"x"


_step_orig = []


def install_step_seam():
    if _step_orig:
        return
    from dfols.controller import Controller
    orig = Controller.trust_region_step
    _step_orig.append(orig)

    def trust_region_step(self, params, *a, **k):
        c = sim.cur()
        hook = SUBHOOKS.get("trust_region_step")
        if hook is None or c is None or c.in_harness:
            return orig(self, params, *a, **k)
        c.obs["step_params"] = params
        return hook(c, self, lambda: orig(self, params, *a, **k))
    Controller.trust_region_step = trust_region_step


# ===================================================================== C14
def check_dirs(name, num, delta, lower, upper, ret, err):
    txt = "%s(num_pts=%d, delta=%r, lower=%r, upper=%r)" % (name, num, float(delta), lower.tolist(), upper.tolist())
    if err is not None:
        return [("C14:raise", "%s: %s: %s" % (txt, type(err).__name__, err))], "raise"
    D = np.asarray(ret, dtype=float)
    n = len(lower)
    out = []
    if D.shape != (num, n):
        return [("C14:count", "%s returned an array of shape %r" % (txt, D.shape))], "shape"
    if not finite(D):
        return [("C14:nonfinite", "%s returned %r" % (txt, D.tolist()))], "nonfinite"
    for j in range(num):
        if np.any(D[j] < lower) or np.any(D[j] > upper):
            out.append(("C14:dirbounds", "%s: direction %d = %r leaves the bounds" % (txt, j, D[j].tolist())))
            break
    for j in range(num):
        nd = float(np.linalg.norm(D[j]))
        if nd > delta * (1 + 1e-8):
            out.append(("C14:length", "%s: direction %d has length %.17g" % (txt, j, nd)))
            break
    act = int(np.sum((lower == 0) | (upper == 0)))
    return out, "%s n%d act%d num%s" % (name[:13], n, act, "<n" if num < n else "<2n" if num < 2 * n else "2n+")


def dirs_valid(num, delta, lower, upper):
    return (lower.shape == upper.shape and lower.ndim == 1 and not np.any(np.isnan(lower)) and not np.any(np.isnan(upper))
            and np.all(lower <= 0) and np.all(upper >= 0) and np.all(upper > lower) and math.isfinite(delta) and delta > 0 and num >= 1)


def check_initial_set(c):
    """First npt evaluations of a run with the default coordinate initialisation."""
    out = []
    cfg = c.spec["config"]
    if c.exc is not None:
        if c.injected_exc is not None:
            return out, "aborted"
        return [("C14:raise", "solve raised %s: %s" % (type(c.exc).__name__, c.exc))], "raise"
    n = len(c.x0)
    npt = cfg.get("npt") or n + 1
    lo = c.lo if c.lo is not None else np.full(n, -1e20)
    hi = c.hi if c.hi is not None else np.full(n, 1e20)
    x0 = np.minimum(np.maximum(np.asarray(c.x0, dtype=float), lo), hi)
    X = [e["x"] for e in c.evals]
    if not X:
        return [("C14:short", "no evaluation at all (flag %r: %s)" % (c.soln.flag, c.soln.msg))], "none"
    mag = float(np.max(np.abs(x0)))
    w = np.ones(n)
    shift = np.zeros(n)
    scaled = bool(cfg.get("scaling")) and c.lo is not None and c.hi is not None
    if scaled:
        w, shift = hi - lo, lo
    rb = O.rhobeg_of(c)
    pos = 16 * EPS * (np.maximum(np.abs(x0), np.abs(shift)) + w)
    if np.any(np.abs(X[0] - x0) > pos):
        out.append(("C14:x0", "the first evaluation is %r, the projected x0 is %r" % (X[0].tolist(), x0.tolist())))
    for k, x in enumerate(X[:npt]):
        if np.any(x < lo) or np.any(x > hi):
            out.append(("C14:infeasible", "initial point %d = %r is outside the bounds [%r, %r]" % (k, x.tolist(), lo.tolist(), hi.tolist())))
            break
    if len(X) < npt:
        fine = c.fault_count or c.soln.flag == 0 or (cfg.get("maxfun") or 1e9) < npt
        if not fine:
            out.append(("C14:short", "only %d of %d initial evaluations (flag %r: %s)" % (len(X), npt, c.soln.flag, c.soln.msg)))
        return out, "short"
    S = (np.array(X[:npt]) - X[0]) / w / rb
    slack = float(np.max(pos / w)) / rb * math.sqrt(n) + 1e-9
    dist = np.sqrt(np.sum(S * S, axis=1))[1:]
    if np.any(dist < 0.01 - slack):
        k = int(np.argmin(dist)) + 1
        out.append(("C14:close", "initial point %d is only %.6g*rhobeg from x0 (x0=%r, point=%r, rhobeg=%g)"
                    % (k, dist[k - 1], X[0].tolist(), X[k].tolist(), rb)))
    if np.any(dist > 2 + slack):
        k = int(np.argmax(dist)) + 1
        out.append(("C14:far", "initial point %d is %.6g*rhobeg from x0 (x0=%r, point=%r, rhobeg=%g)"
                    % (k, dist[k - 1], X[0].tolist(), X[k].tolist(), rb)))
    A = np.hstack([np.ones((npt, 1)), S])
    if finite(A):
        sv = np.linalg.svd(A, compute_uv=False)
        cond = float(sv[0] / sv[-1]) if sv[-1] > 0 else float("inf")
        if not cond < 1e4:
            out.append(("C14:poised", "interpolation matrix of the initial set has condition number %.4g (x0=%r, points %r, rhobeg=%g)"
                        % (cond, X[0].tolist(), [x.tolist() for x in X[1:npt]], rb)))
    pl = np.where(x0 - lo <= 0, "L", np.where(hi - x0 <= 0, "U", np.where((x0 - lo) / w < 0.01 * rb, "l", np.where((hi - x0) / w < 0.01 * rb, "u", np.where(
        (x0 - lo) / w < rb, "a", np.where((hi - x0) / w < rb, "b", "."))))))
    return out, "init n%d npt%d %s%s" % (n, npt - n, "".join(sorted(set(pl.tolist()))), " sc" if scaled else "")


class C14(SubProp):
    id = "C14"
    quick_runs = 1500
    thorough_runs = 400000
    p_world = 0.85
    synth_count = 25
    insitu_cap = 500
    seams = (("util", "random_orthog_directions_within_bounds"), ("util", "random_directions_within_bounds"))
    vector_args = ("lower", "upper")
    scalar_args = ("delta",)
    prof_init = Profile(p_bounds=0.93, p_onesided=0.2, p_scaling=0.25, p_faults=0.2, p_multi=0.25, p_nested=0.05, p_growing=0.0,
                        p_regression=0.0, p_random_init=0.0, p_nsamples=0.0, p_tol=0.0, p_restart=0.1, p_abort_neighbour=0.2,
                        p_smallbudget=0.0, p_noise=0.1, maxfun_cap=60)
    prof_rand = Profile(nmax=6, p_bounds=0.9, p_onesided=0.2, p_scaling=0.2, p_faults=0.15, p_multi=0.05, p_nested=0.03, p_growing=0.55,
                        p_regression=0.3, p_random_init=0.6, p_restart=0.6, p_npt=0.7, p_rngmode=0.5, maxfun_cap=150)

    def gen(self, rng, i, tier):
        self.kind = "init" if rng.random() < 0.6 else "rand"
        self.problem_fn = self.big_problem if self.kind == "init" else None
        scn = SubProp.gen(self, rng, i, tier)
        scn["kind"] = self.kind
        return scn

    def big_problem(self, rng):
        n = rng.randint(1, 8)
        return gen.gen_problem(rng, n, gen.ALLKINDS)

    def pick_profile(self, rng, i):
        return self.prof_init if self.kind == "init" else self.prof_rand

    def config_hook(self, rng, spec, n, m):
        if self.kind != "init":
            return
        cfg = spec["config"]
        full = (n + 1) * (n + 2) // 2
        cfg["npt"] = min(full, rng.choice([n + 1, 2 * n + 1, rng.randint(n + 1, 2 * n + 1), rng.randint(n + 1, 2 * n + 1), full, rng.randint(n + 1, full)]))
        cfg["maxfun"] = cfg["npt"] if rng.random() < 0.8 else cfg["npt"] + rng.randint(1, 10)
        up = cfg["user_params"] = cfg.get("user_params") or {}
        up["model.abs_tol"] = 0.0
        for k in ("restarts.increase_npt", "restarts.increase_npt_amt", "restarts.max_npt"):
            up.pop(k, None)
        if rng.random() < 0.2:
            cfg["has_noise"] = True

    def setup(self, out, scn):
        def hook(c, name, args, call, orig):
            ret, err = self.guarded(call)
            if self.nchecked < self.insitu_cap and set(args) >= {"num_pts", "delta", "lower", "upper"}:
                num, delta, lo, hi = int(args["num_pts"]), float(args["delta"]), args["lower"], args["upper"]
                if dirs_valid(num, delta, lo, hi):
                    v, sig = check_dirs(name, num, delta, lo, hi, ret, err)
                    self.nchecked += 1
                    self.sigs[sig] += 1
                    out.stats["real direction calls judged"] += 1
                    for k, m in v:
                        self.note(out, k, m + " [real call]")
                    if ret is not None:
                        self.dig.update(digest_of(np.asarray(ret)))
                else:
                    out.stats["calls outside the domain"] += 1
            if err is not None:
                raise err
            return ret
        SUBHOOKS["random_orthog_directions_within_bounds"] = hook
        SUBHOOKS["random_directions_within_bounds"] = hook

    def check_client(self, c, w, out):
        up = c.spec["config"].get("user_params") or {}
        if up.get("init.random_initial_directions") or up.get("growing.ndirs_initial") or c.sets or c.spec["config"].get("nsamples") \
                or c.reg or up.get("model.abs_tol", 1.0) != 0.0:
            return []
        v, sig = check_initial_set(c)
        self.sigs[sig] += 1
        out.stats["initial sets judged"] += 1
        out.nontrivial = True
        return v

    def gen_case(self, rng):
        n = rng.randint(1, 8)
        delta = 10 ** rng.uniform(-8, 2)
        if rng.random() < 0.2:
            delta = 1.0
        lo, hi = [], []
        style = rng.random()
        for _ in range(n):
            def side():
                return pick(rng, [(3 if style < 0.7 else 0.3, 0.0), (1, delta * 10 ** rng.uniform(-16, -3)), (3, delta * rng.uniform(0.01, 1.2)),
                                  (2, delta * 10 ** rng.uniform(0, 3)), (2, 1e20), (1, delta)])
            a, b = side(), side()
            while a + b == 0.0:
                a, b = side(), side()
            lo.append(-a if a else 0.0)
            hi.append(b)
        f = rng.choice(["random_orthog_directions_within_bounds", "random_directions_within_bounds"])
        num = rng.randint(1, 3 * n + 2)
        case = {"fn": f, "n": n, "np_seed": rng.randrange(2 ** 31), "args": {"num_pts": num, "delta": delta, "lower": lo, "upper": hi}}
        if f.startswith("random_orthog") and rng.random() < 0.3:
            case["args"]["with_neg_dirns"] = False
        if rng.random() < 0.4:
            case["rng_mode"] = rng.choice(["axis", "same"])
        return case

    def run_case(self, case, out):
        a = case["args"]
        lo, hi = arr(a["lower"]), arr(a["upper"])
        if not dirs_valid(a["num_pts"], a["delta"], lo, hi):
            return [], "invalid", b""
        f = seam("util", case["fn"])
        kw = {"with_neg_dirns": a["with_neg_dirns"]} if "with_neg_dirns" in a else {}
        ret, err = self.call(f, a["num_pts"], a["delta"], lo.copy(), hi.copy(), **kw)
        v, sig = check_dirs(case["fn"], a["num_pts"], a["delta"], lo, hi, ret, err)
        return v, sig, digest_of(np.asarray(ret)) if ret is not None else b"x"


# ===================================================================== C15
def textbook(P, x0, max_iter, tol):
    """Dykstra's algorithm (Boyle and Dykstra), written down again: (point, sweeps, last squared change)."""
    x = np.array(x0, dtype=float)
    y = [np.zeros(len(x)) for _ in P]
    k, change = 0, float("inf")
    while k < max_iter and change >= tol:
        change = 0.0
        for i, p in enumerate(P):
            z = x - y[i]
            xn = p(z)
            yn = xn - z
            change += float(np.sum((yn - y[i]) ** 2))
            y[i] = yn
            x = xn
        k += 1
    return x, k, change


def precise(P, x0, cap=4000):
    x, k, change = textbook(P, x0, cap, 1e-28)
    return x, change < 1e-24, k


def judge_projection(P, x0, max_iter, tol, x, sweeps, err, dists, box, txt, near=True):
    """dists: list of functions giving the distance to each set; box=(l,u) when the last set is a box."""
    n = len(x0)
    if err is not None:
        return [("C15:raise", "%s: %s (%s)" % (type(err).__name__, err, txt))], "raise"
    x = np.asarray(x, dtype=float)
    if x.shape != (n,) or not finite(x):
        return [("C15:nonfinite", "returned %r (%s)" % (x.tolist(), txt))], "nonfinite"
    out = []
    p = len(P)
    mx = max(1.0, float(np.max(np.abs(x0))), float(np.max(np.abs(x))))
    rnd = 1e-12 * mx * p
    if max(sweeps) > max_iter:
        out.append(("C15:sweeps", "%d sweeps with max_iter=%d (%s)" % (max(sweeps), max_iter, txt)))
    if box is not None and (np.any(x < box[0]) or np.any(x > box[1])):
        out.append(("C15:lastbox", "result %r is not exactly in the last box (%s)" % (x.tolist(), txt)))
    inside = all(d(x0) == 0.0 for d in dists) and all(np.all(q(x0.copy()) == x0) for q in P)
    if inside and float(np.max(np.abs(x - x0))) > rnd:
        out.append(("C15:moved", "a point in all sets moved by %.3g (%s)" % (float(np.max(np.abs(x - x0))), txt)))
    byrule = max(sweeps) < max_iter
    sig = "inside" if inside else "rule" if byrule else "cap"
    if byrule:
        lim = math.sqrt(p * tol)
        dd = [d(x) for d in dists]
        j = int(np.argmax(dd))
        if dd[j] > lim * (1 + 1e-9) + rnd:
            out.append(("C15:feasible", "stopped after %d of %d sweeps at distance %.4g from set %d; sqrt(p*tol)=%.4g (%s)"
                        % (max(sweeps), max_iter, dd[j], j, lim, txt)))
        elif near:
            ref, ok, k = precise(P, x0)
            if ok:
                e = float(np.linalg.norm(x - ref))
                sig += " k%d" % (1 if k < 10 else 2 if k < 100 else 3)
                if e > 1e-3:
                    tb, k2, _ = textbook(P, x0, max_iter, tol)
                    if float(np.linalg.norm(x - tb)) <= 1e-6 * mx:
                        out.append(("C15:slow-geometry", "stopped by the rule %.4g away from the projection, exactly as Dykstra's algorithm with "
                                    "this tolerance does (%s)" % (e, txt)))
                    else:
                        out.append(("C15:projection", "stopped by the rule %.4g away from the true projection %r, got %r (%s)"
                                    % (e, ref.tolist(), x.tolist(), txt)))
            else:
                sig += " slow"
    return out, "%s p%d n%d" % (sig, p, n)


def lib_projector(sp):
    """The projectors dfols offers to its users, where there is one for the set."""
    U = dfols.util
    if sp["type"] == "ball":
        c, r = arr(sp["c"]), float(sp["r"])
        return lambda x: U.pball(x, c, r)
    if sp["type"] == "box":
        l, u = arr(sp["l"]), arr(sp["u"])
        return lambda x: U.pbox(x, l, u)
    return set_projector(sp)


def counting(P, counts):
    def wrap(i, p):
        def q(x):
            counts[i] += 1
            return p(x)
        return q
    return [wrap(i, p) for i, p in enumerate(P)]


class C15(SubProp):
    id = "C15"
    quick_runs = 500
    thorough_runs = 150000
    p_world = 0.4
    synth_count = 100
    insitu_cap = 250
    seams = (("util", "dykstra"),)
    vector_args = ("x0",)
    scalar_args = ()
    prof_sets = Profile(nmax=4, p_bounds=0.5, p_sets=1.0, p_faults=0.2, p_multi=0.1, p_nested=0.0, p_restart=0.4, maxfun_cap=25)
    prof_reg = Profile(nmax=3, p_bounds=0.5, p_sets=0.5, p_reg=1.0, p_multi=0.0, p_nested=0.0, maxfun_cap=15, p_scaling=0.0)

    def pick_profile(self, rng, i):
        return self.prof_sets if rng.random() < 0.8 else self.prof_reg

    def setup(self, out, scn):
        self.ncalls = 0

        def hook(c, name, args, call, orig):
            self.ncalls += 1
            if self.nchecked >= self.insitu_cap or (self.ncalls > 80 and self.mut.random() > 0.04) or not set(args) >= {"P", "x0"}:
                return call()
            P = list(args["P"])
            counts = [0] * len(P)
            max_iter = int(args.get("max_iter", 100))
            tol = float(args.get("tol", 1e-10))
            x0 = np.array(args["x0"], dtype=float)
            ret, err = self.guarded(lambda: call(P=counting(P, counts)))
            if isinstance(err, sim.SimStuck):
                raise err
            c.in_harness = True
            n0, ticks = steps.STATE["n"], dict(c.ticks)
            try:
                if finite(x0) and tol > 0 and max_iter >= 1 and len(P) >= 1:
                    dists = [lambda z, q=q: float(np.linalg.norm(q(z.copy()) - z)) for q in P]
                    v, sig = judge_projection(P, x0, max_iter, tol, ret, counts, err, dists, None,
                                              "real call from %r with %d sets, max_iter=%d, tol=%g" % (x0.tolist(), len(P), max_iter, tol),
                                              near=self.mut.random() < 0.3)
                    self.nchecked += 1
                    self.sigs["real " + sig] += 1
                    out.stats["real calls judged"] += 1
                    if ret is not None:
                        self.dig.update(digest_of(np.asarray(ret)))
                    for k, m in v:
                        self.note(out, k, m)
            finally:
                c.in_harness = False
                steps.STATE["n"] = n0
                c.ticks.clear()
                c.ticks.update(ticks)
            if err is not None:
                raise err
            return ret
        SUBHOOKS["dykstra"] = hook

    def gen_case(self, rng):
        n = rng.randint(1, 6)
        cs = rng.choice([0.0, 1.0, 1.0, 100.0])
        cen = [rng.gauss(0, 1) * cs for _ in range(n)]
        if rng.random() < 0.2:
            cen = [float(round(v)) for v in cen]
        margin = rng.choice([(0.3, 2.0), (0.3, 2.0), (1e-3, 1e-1), (1e-6, 1e-3)])
        sets = gen_sets(rng, n, cen, maxsets=4, margin=margin)
        for sp in sets:      # r6 rounds the numbers: keep the common point in every set
            d = set_distance(sp, arr(cen))
            if d > 0:
                if sp["type"] == "ball":
                    sp["r"] = sp["r"] + 2 * d
                elif sp["type"] == "half":
                    sp["b"] = sp["b"] + 2 * d * float(np.linalg.norm(sp["a"]))
                else:
                    sp["l"] = [v - 2 * d for v in sp["l"]]
                    sp["u"] = [v + 2 * d for v in sp["u"]]
        if rng.random() < 0.5:
            mg = rng.uniform(*margin)
            lo = [c - mg * rng.uniform(0, 3) for c in cen]
            hi = [c + mg * rng.uniform(0.1, 3) for c in cen]
            for i in range(n):
                if rng.random() < 0.2:
                    lo[i] = -1e20
                if rng.random() < 0.2:
                    hi[i] = 1e20
            sets.append({"type": "box", "l": lo, "u": hi})
            sets = sets[-4:]
        q = rng.random()
        far = 10 ** (rng.uniform(-4, 0.5) if q < 0.5 else rng.uniform(0.5, 4))
        v = [rng.gauss(0, 1) for _ in range(n)]
        x0 = [c + far * z for c, z in zip(cen, v)]
        if rng.random() < 0.2:      # in all sets
            x, ok, _ = precise(projectors(sets), arr(x0), 500)
            x0 = [c + 0.9 * (float(z) - c) for c, z in zip(cen, x)]
        tol = pick(rng, [(5, 1e-10), (1, 1e-12), (1, 1e-14), (1, 1e-8), (1, 1e-6), (0.5, 1e-4), (0.5, 10 ** rng.uniform(-16, -5))])
        mx = pick(rng, [(5, 100), (2, 500), (1, 20), (1, 5), (1, rng.randint(1, 3)), (1, 2000)])
        return {"fn": "dykstra", "n": n, "lib": rng.random() < 0.5, "defaults": rng.random() < 0.2,
                "args": {"x0": x0, "sets": sets, "max_iter": mx, "tol": tol}}

    def run_case(self, case, out):
        a = case["args"]
        sets = a["sets"]
        x0 = arr(a["x0"])
        P = [lib_projector(sp) for sp in sets] if case.get("lib") else projectors(sets)
        counts = [0] * len(P)
        f = seam("util", "dykstra")
        Q = counting(P, counts)
        if case.get("defaults"):
            mx, tol = 100, 1e-10
            ret, err = self.call(f, Q, x0.copy())
        else:
            mx, tol = int(a["max_iter"]), float(a["tol"])
            ret, err = self.call(f, Q, x0.copy(), max_iter=mx, tol=tol)
        dists = [lambda z, sp=sp: set_distance(sp, z) for sp in sets]
        box = (arr(sets[-1]["l"]), arr(sets[-1]["u"])) if sets[-1]["type"] == "box" else None
        v, sig = judge_projection(projectors(sets), x0, mx, tol, ret, counts, err, dists, box, fmt(a))
        return v, sig, digest_of(np.asarray(ret)) if ret is not None else b"x"


# ===================================================================== C09
class C09(SubProp):
    id = "C09"
    quick_runs = 500
    thorough_runs = 60000
    p_world = 1.0
    synth_count = 0
    seams = (("util", "dykstra"),)
    level = "exploration"
    rule = WorldProp.rule
    profile = Profile(nmax=3, p_bounds=0.6, p_onesided=0.25, p_sets=1.0, p_reg=0.12, p_faults=0.2, p_multi=0.15, p_nested=0.05, p_restart=0.5,
                      p_scaling=0.0, maxfun_cap=60, p_rngmode=0.1, fault_kinds=["spike", "spike", "big", "pbig", "nan", "pnan", "inf"])

    def gen(self, rng, i, tier):
        scn = WorldProp.gen(self, rng, i, tier)
        scn["mut_seed"] = 0
        return scn

    def config_hook(self, rng, spec, n, m):
        cfg = spec["config"]
        cfg["maxfun"] = min(cfg.get("maxfun") or 60, 60)
        sets = cfg.get("sets")
        if not sets:
            return
        up = cfg["user_params"] = cfg.get("user_params") or {}
        q = rng.random()
        if q < 0.2:
            up["dykstra.d_tol"] = 10.0 ** rng.randint(-14, -4)
        if rng.random() < 0.2:
            up["dykstra.max_iters"] = rng.choice([1, 2, 5, 20, 300])
        if up.get("dykstra.d_tol", 1e-10) < 1e-10 or up.get("dykstra.max_iters", 100) > 100:      # keep the run affordable
            cfg["maxfun"] = min(cfg["maxfun"], 25)
        q = rng.random()
        if q < 0.2:                     # far outside
            cfg["x0"] = r6([v + rng.gauss(0, 1) * 10 ** rng.uniform(0.5, 2.5) for v in cfg["centre"]])
            if cfg.get("rhobeg") is None:
                cfg["rhobeg"] = 0.5
        elif q < 0.4:                   # strictly inside
            cfg["x0"] = [float(v) for v in cfg["centre"]]
        elif q < 0.6:                   # on the boundary
            x, _, _ = precise(projectors(sets), arr(cfg["x0"]), 300)
            cfg["x0"] = [float(v) for v in x]

    def setup(self, out, scn):
        def hook(c, name, args, call, orig):
            ret = call()
            x = np.asarray(ret, dtype=float)
            c.obs.setdefault("proj", {})[x.tobytes()] = (np.array(args["x0"], dtype=float, copy=True), len(args["P"]))
            return ret
        SUBHOOKS["dykstra"] = hook

    def check_client(self, c, w, out):
        if not c.sets:
            return []
        v = []
        up = c.spec["config"].get("user_params") or {}
        tol = float(up.get("dykstra.d_tol", 1e-10))
        mx = int(up.get("dykstra.max_iters", 100))
        n = len(c.x0)
        lo = c.lo if c.lo is not None else np.full(n, -1e20)
        hi = c.hi if c.hi is not None else np.full(n, 1e20)
        sets = list(c.sets) + [{"type": "box", "l": lo.tolist(), "u": hi.tolist()}]
        P = projectors(sets)
        p = len(P)
        lim = math.sqrt(p * tol)
        rec = c.obs.get("proj", {})
        for e in c.evals:
            x = e["x"]
            mag = 1e-12 * max(1.0, float(np.max(np.abs(x)))) * p
            out.stats["points compared with the sets"] += 1
            if np.any(x < lo) or np.any(x > hi):
                v.append(("C09:box", "evaluation %d violates the bound box: x=%r, bounds [%r, %r]" % (e["k"], x.tolist(), lo.tolist(), hi.tolist())))
                break
            dd = [set_distance(sp, x) for sp in sets]
            j = int(np.argmax(dd))
            if dd[j] <= lim * (1 + 1e-9) + mag:
                continue
            # infeasible: only allowed as the output of a projection which ran out of sweeps
            call = rec.get(x.tobytes())
            if call is None:
                for key, val in rec.items():
                    y = np.frombuffer(key)
                    if len(y) == n and np.all(np.abs(y - x) <= 4 * EPS * np.maximum(np.abs(x), np.abs(y))):
                        call = val
                        break
            if call is None:
                v.append(("C09:not-projected", "evaluation %d is at distance %.4g from set %d (%s), sqrt(p*tol)=%.3g, and is no output of the projection "
                          "routine: x=%r" % (e["k"], dd[j], j, sets[j]["type"], lim, x.tolist())))
                break
            ref, k, change = textbook(P, call[0], mx, tol)
            if change < tol and max(set_distance(sp, ref) for sp in sets) <= lim * (1 + 1e-9) + mag:
                v.append(("C09:set", "evaluation %d is at distance %.4g from set %d (%s), sqrt(p*tol)=%.3g, although the projection of its source meets the "
                          "stopping rule after %d of %d sweeps: x=%r" % (e["k"], dd[j], j, sets[j]["type"], lim, k, mx, x.tolist())))
                break
            out.stats["points from projections that ran out of sweeps"] += 1
        if c.evals:
            x1 = c.evals[0]["x"]
            x0 = np.asarray(c.x0, dtype=float)
            mag = max(1.0, float(np.max(np.abs(x0))), float(np.max(np.abs(x1))))
            if all(set_distance(sp, x0) == 0.0 for sp in sets) and all(np.all(q(x0.copy()) == x0) for q in P):
                out.stats["feasible starting points"] += 1
                if float(np.max(np.abs(x1 - x0))) > 1e-11 * mag:
                    v.append(("C09:x0-moved", "feasible x0=%r, but the first evaluation is %r" % (x0.tolist(), x1.tolist())))
            else:
                tb, k, change = textbook(P, x0, mx, tol)
                ref, ok, _ = precise(P, x0)
                if change < tol and ok:
                    out.stats["infeasible starting points"] += 1
                    err = float(np.linalg.norm(x1 - ref))
                    if err > 1e-3 * mag and float(np.linalg.norm(x1 - tb)) > 1e-6 * mag:
                        v.append(("C09:x0", "infeasible x0=%r must be replaced by its projection %r, but the first evaluation is %r"
                                  % (x0.tolist(), ref.tolist(), x1.tolist())))
        if c.exc is None and getattr(c.soln, "x", None) is not None and c.soln.flag is not None and c.evals:
            x = np.asarray(c.soln.x, dtype=float)
            if np.any(x < lo) or np.any(x > hi):
                v.append(("C09:box", "soln.x=%r violates the bound box" % (x.tolist(),)))
        return v


ALL = [C09(), C12(), C13(), C14(), C15()]
