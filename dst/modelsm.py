"""Properties of the interpolation model: C16 (fits, Lagrange functions, base shifts) and C17 (bookkeeping).

Both drive the real Model by operation histories (lists of literal operations, so that a replay can drop single
operations) and also watch every Model inside simulated solves, by wrapping Model's public methods."""
import math

from . import env, gen, sim
from .base import Profile
from .env import np, dfols
from .gen import pick as _pick
from .problems import gen_sets, r6, reg_lipschitz, reg_value, set_projector
from .sub import SubProp, arr, digest_of

EPS = 2.3e-16


def pick(rng, table):
    return _pick(rng, [(w, v) for v, w in table])

Model = dfols.model.Model

METHODS = ("__init__", "change_point", "add_new_sample", "add_new_point", "swap_points", "shift_base", "save_point",
           "get_final_results", "interpolate_mini_models_svd", "lagrange_gradient")
WATCH = {"on": None}       # called as on(c, phase, model, name, bound arguments, result)
_done = []


def install_watch():
    """Wrap Model's methods once; outside a watching run the wrappers only pass through."""
    if _done:
        return
    _done.append(True)
    import inspect
    for name in METHODS:
        orig = getattr(Model, name, None)
        if orig is None:
            continue

        def make(name, orig):
            sig = inspect.signature(orig)

            def wrapper(self, *a, **k):
                c = sim.cur()
                on = WATCH["on"]
                if on is None or c is None or c.in_harness or c.obs.get("model depth"):
                    return orig(self, *a, **k)
                try:
                    b = sig.bind(self, *a, **k)
                    b.apply_defaults()
                except TypeError:
                    return orig(self, *a, **k)
                args = {key: (v.copy() if isinstance(v, np.ndarray) else v) for key, v in b.arguments.items() if key != "self"}
                c.obs["model depth"] = 1
                try:
                    if name != "__init__":
                        c.in_harness = True
                        try:
                            pre = on(c, "pre", self, name, args, None, None)
                        finally:
                            c.in_harness = False
                    else:
                        pre = None
                    ret = orig(self, *a, **k)
                    c.in_harness = True
                    try:
                        on(c, "post", self, name, args, ret, pre)
                    finally:
                        c.in_harness = False
                    return ret
                finally:
                    c.obs["model depth"] = 0
            wrapper.__name__ = name
            return wrapper
        setattr(Model, name, make(name, orig))


def unscale(x, sc):
    if sc is None:
        return x
    return arr(sc[0]) + x * arr(sc[1])


def make_model(init):
    n, m = init["n"], init["m"]
    reg = init.get("reg")
    argsh = tuple(init.get("argsh") or ())
    seen = {"args": True}
    h = None
    if reg:
        def h(x, *a):
            if a != argsh:
                seen["args"] = False
            return reg_value(reg, x)
    sc = init.get("scaling")
    projs = [set_projector(s) for s in init.get("sets") or ()]
    model = Model(init["npt"], arr(init["x0"]), arr(init["r0"]), arr(init["xl"]), arr(init["xu"]), projs, init.get("ns0", 1),
                  h=h, argsh=argsh, n=n, m=m, precondition=bool(init.get("precondition", True)), do_logging=False,
                  scaling_changes=None if sc is None else (arr(sc[0]), arr(sc[1])))
    return model, seen


# ===================================================================== C17: the shadow
def osum(r):
    with np.errstate(all="ignore"):
        return float(np.sum(np.asarray(r, dtype=float) ** 2))


def same(a, b, tol):
    """Equality of floats which may be NaN or infinite."""
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b or (abs(a) > 1e307 and abs(b) > 1e307 and a * b > 0)
    return abs(a - b) <= tol


class Slot(object):
    __slots__ = ("x", "base", "w0", "samples", "ev", "xtol")

    def __init__(self, x, r, ev, w0=1, xtol=0.0):
        self.x = x                      # absolute coordinates
        self.samples = [(w0, np.array(r, dtype=float))]
        self.ev = ev
        self.xtol = xtol

    def count(self):
        return sum(w for w, _ in self.samples)

    def mean(self):
        n = self.count()
        with np.errstate(all="ignore"):
            tot = np.zeros(len(self.samples[0][1]))
            for w, r in self.samples:
                tot = tot + r * (w / float(n))
        return tot

    def big(self):
        with np.errstate(all="ignore"):
            return float(max(np.max(np.abs(r)) if len(r) else 0.0 for _, r in self.samples))


class Shadow(object):
    """What the model should hold, kept from the operations alone."""
    def __init__(self, xl, xu, projs, h, lip):
        self.xl, self.xu, self.projs, self.h, self.lip = xl, xu, projs, h, lip
        self.slots = []
        self.kopt = 0
        self.excused = False
        self.saves = []
        self.nops = 0
        self.reach = 0.0       # largest absolute size met, for the rounding of base shifts
        self.bad = []

    def start(self, model, x0, r0, ns0):
        self.slots = [Slot(np.array(x0, dtype=float), r0, 1, ns0)]
        self.reach = float(np.max(np.abs(x0))) if len(x0) else 0.0
        self.objs = [None]

    def feasible(self, x):
        if self.projs:
            for p in self.projs:      # generated points are feasible already; in solves the model's own routine decides
                x = p(x)
            return x
        return np.minimum(np.maximum(self.xl, x), self.xu)

    def roundoff(self):
        return 8 * EPS * (self.nops + 4) * (self.reach + 1e-300)


def nmin(vals):
    f = [v for v in vals if math.isfinite(v)]
    return min(f) if f else None


class C17(SubProp):
    id = "C17"
    quick_runs = 700
    thorough_runs = 60000
    synth_count = 40
    p_world = 0.6
    profile = Profile(p_reg=0.25, p_sets=0.1, p_nsamples=0.45, p_noise=0.5, p_faults=0.45, p_growing=0.35, p_restart=0.7, p_npt=0.5,
                      p_scaling=0.2, maxfun_cap=90, fault_kinds=["nan", "pnan", "inf", "big", "spike", "mix", "pinf", "mag"])
    assumptions = ["a point that several points tie with may be the incumbent; inf versus NaN is not ranked",
                   "h is compared up to its Lipschitz constant times the rounding of the base shifts"]
    level_note = ("Seeded operation histories (up to 50 operations) on the real Model against a shadow kept from the operations alone, and "
                  "every Model of a simulated solve watched the same way.")

    # ------------------------------------------------------------ generator
    def gen_case(self, rng):
        n, m = rng.randint(1, 4), rng.randint(1, 4)
        npt = rng.randint(n + 1, 2 * n + 2)
        spread = 10 ** rng.uniform(-2, 2)
        cen = [rng.gauss(0, 1) * 10 ** rng.uniform(-1, 3) for _ in range(n)]
        init = {"n": n, "m": m, "npt": npt, "ns0": rng.choice([1, 1, 1, 2, 5])}
        style = pick(rng, [("real", 5), ("ties", 5), ("wild", 4), ("mixed", 4)])
        if rng.random() < 0.5:
            xl, xu = [-1e20] * n, [1e20] * n
        else:
            xl = [c - spread * rng.uniform(0.0, 2.0) for c in cen]
            xu = [c + spread * rng.uniform(0.3, 2.0) for c in cen]
        init["xl"], init["xu"] = xl, xu
        if rng.random() < 0.45:
            init["reg"] = {"type": rng.choice(["l1", "l2"]), "lam": rng.choice([0.1, 1.0, 3.0, 20.0])}
            if rng.random() < 0.3:
                init["argsh"] = [1, "a"][:rng.randint(1, 2)]
            if rng.random() < 0.3:
                init["scaling"] = [[rng.gauss(0, 5) for _ in range(n)], [10 ** rng.uniform(-2, 2) for _ in range(n)]]
        if rng.random() < 0.08:
            init["sets"] = [{"type": "box", "l": list(xl), "u": list(xu)}]
            if rng.random() < 0.5:
                init["sets"].append({"type": "ball", "c": list(cen), "r": spread * 20})

        def point():
            x = [c + spread * rng.gauss(0, 0.7) for c in cen]
            if rng.random() < 0.25:
                x = [rng.choice([c, l, u]) if abs(l) < 1e19 else c for c, l, u in zip(cen, xl, xu)]
            return [min(max(v, l), u) for v, l, u in zip(x, xl, xu)]

        def resid():
            s = style if style != "mixed" else rng.choice(["real", "ties", "wild"])
            if s == "real":
                return [rng.gauss(0, 1) * 3 for _ in range(m)]
            if s == "ties":
                return [float(rng.choice([-1, 0, 1, 2, 1])) for _ in range(m)]
            r = [rng.gauss(0, 1) * 10 ** rng.uniform(-3, 3) for _ in range(m)]
            t = rng.random()
            j = rng.randrange(m)
            if t < 0.2:
                r[j] = float("nan")
            elif t < 0.32:
                r[j] = float("inf")
            elif t < 0.38:
                r[j] = float("-inf")
            elif t < 0.44:
                r = [float("nan")] * m
            elif t < 0.52:
                r[j] = 1e200
            elif t < 0.56:
                r[j], r[0] = float("inf"), float("nan")
            elif t < 0.6:
                r = [1e-200] * m
            return r
        init["x0"] = point()
        init["r0"] = resid()
        ops = []
        have, total, ev = 1, npt, 1
        wts = [("change", rng.uniform(1, 6)), ("sample", rng.uniform(0.5, 4)), ("add", rng.uniform(0.2, 2)), ("swap", rng.uniform(0.3, 3)),
               ("shift", rng.uniform(0.3, 2)), ("save", rng.uniform(0.3, 3)), ("fit", 0.4), ("savek", 0.6)]
        recent = []
        L = rng.randint(3, 50)
        while len(ops) < L:
            o = pick(rng, wts)
            if o == "change":
                ev += 1
                k = have if have < total and rng.random() < 0.6 else rng.randrange(have)
                if rng.random() < 0.15:
                    k = -1        # stands for the current incumbent
                r = resid() if not recent or rng.random() < 0.85 else rng.choice(recent)
                recent.append(r)
                ops.append({"op": "change", "k": k, "x": point(), "r": r, "ev": ev, "allow": rng.random() < 0.93})
                if k == have and have < total:
                    have += 1
            elif o == "sample":
                ops.append({"op": "sample", "k": rng.randrange(have) if rng.random() < 0.75 else -1, "r": resid()})
            elif o == "add":
                if total >= 4 * n + 6:
                    continue
                ev += 1
                ops.append({"op": "add", "x": point(), "r": resid(), "ev": ev})
                have += 1
                total += 1
            elif o == "swap":
                ops.append({"op": "swap", "k1": rng.randrange(have), "k2": rng.randrange(have)})
            elif o == "shift":
                if rng.random() < 0.5:
                    ops.append({"op": "shift", "to": -1})
                else:
                    f = spread * 10 ** rng.uniform(-2, 2)
                    ops.append({"op": "shift", "s": [rng.gauss(0, 1) * f for _ in range(n)]})
            elif o == "save":
                ev += 1
                ops.append({"op": "save", "x": point(), "r": resid(), "ns": rng.randint(1, 6), "ev": ev, "abs": rng.random() < 0.6})
            elif o == "savek":
                ops.append({"op": "savek"})
            elif o == "fit":
                ops.append({"op": "fit", "full": rng.random() < 0.3})
        return {"fn": "history", "n": n, "init": init, "args": {}, "ops": ops}

    def simplify_case(self, case):
        ops = case["ops"]
        for size in (len(ops) // 2, len(ops) // 4, 3, 1):
            if size < 1:
                continue
            for a in range(len(ops) - size, -1, -size):
                yield dict(case, ops=ops[:a] + ops[a + size:])
        init = case["init"]
        for key in ("argsh", "scaling", "sets", "reg"):
            if init.get(key):
                d = dict(init)
                d.pop(key)
                yield dict(case, init=d)
        if any(abs(v) < 1e19 for v in init["xl"]) and not init.get("sets"):
            yield dict(case, init=dict(init, xl=[-1e20] * case["n"], xu=[1e20] * case["n"]))

        def rnd(v):
            return [float("%.2g" % z) if math.isfinite(z) else z for z in v]
        for j, o in enumerate(ops):
            for key in ("x", "r", "s"):
                if key in o and rnd(o[key]) != o[key]:
                    yield dict(case, ops=ops[:j] + [dict(o, **{key: rnd(o[key])})] + ops[j + 1:])

    # ------------------------------------------------------------ the check
    def shadow_for(self, init):
        reg = init.get("reg")
        sc = init.get("scaling")
        h = None
        lip = 0.0
        if reg:
            def h(x):
                return reg_value(reg, unscale(x, sc))
            lip = reg_lipschitz(reg, init["n"]) * (max(abs(v) for v in sc[1]) if sc else 1.0)
        sh = Shadow(arr(init["xl"]), arr(init["xu"]), [set_projector(s) for s in init.get("sets") or ()], h, lip)
        return sh

    def obj_of(self, sh, r, x):
        v = osum(r)
        if sh.h is not None:
            v += sh.h(x)
        return v

    @staticmethod
    def h_rounding(sh, v):
        """With a regulariser, the objective at a point known up to rounding only."""
        if sh.h is None or not math.isfinite(v):
            return 0.0
        return 1e-12 * abs(v) + 2 * sh.lip * sh.roundoff()

    def verify(self, sh, model, what, touched=None, allow=True, prev=None, ptol=0.0):
        """Compare the model with the shadow after an operation; returns list of (key, msg)."""
        bad = []
        npt = model.npt()
        if npt != len(sh.slots):
            return [("C17:count", "after %s the model holds %d points, the operations made %d" % (what, npt, len(sh.slots)))]
        objs = []
        rt = sh.roundoff() + ptol
        for k in range(npt):
            s = sh.slots[k]
            x = np.asarray(model.xpt(k, abs_coordinates=True), dtype=float)
            d = float(np.max(np.abs(x - s.x))) if len(x) else 0.0
            if not d <= rt + s.xtol:
                bad.append(("C17:point", "after %s: point %d is %r, the operations put %r there (evaluation %s)" % (what, k, x.tolist(), s.x.tolist(), s.ev)))
            mean = s.mean()
            got = np.asarray(model.rvec(k), dtype=float)
            cnt = s.count()
            mtol = 8 * EPS * (len(s.samples) + 2)
            for i in range(len(mean)):
                bigi = max(abs(float(r[i])) for _, r in s.samples if not math.isnan(r[i])) if any(not math.isnan(r[i]) for _, r in s.samples) else 0.0
                if not same(float(got[i]), float(mean[i]), mtol * bigi if math.isfinite(bigi) else 0.0):
                    bad.append(("C17:mean", "after %s: stored residual %d of point %d is %r, the mean of its %d samples is %r" % (what, i, k, float(got[i]), cnt, float(mean[i]))))
                    break
            if int(model.nsamples[k]) != cnt:
                bad.append(("C17:nsamples", "after %s: point %d has sample count %d, but was sampled %d times" % (what, k, int(model.nsamples[k]), cnt)))
            if s.ev is not None and int(model.eval_num[k]) != s.ev:
                bad.append(("C17:eval-num", "after %s: point %d carries evaluation number %d instead of %d" % (what, k, int(model.eval_num[k]), s.ev)))
            want = self.obj_of(sh, got, x)
            have = float(model.objval[k])
            objs.append(have)
            tol = 1e-12 * abs(want) + sh.lip * (2 * rt + s.xtol) if math.isfinite(want) else 0.0
            if not same(have, want, tol):
                bad.append(("C17:objective", "after %s: stored objective of point %d is %r; sum of squares of its stored residual plus h there is %r" % (what, k, have, want)))
        if bad:
            return bad
        # incumbent
        ko = int(model.kopt)
        if not 0 <= ko < npt:
            return [("C17:incumbent", "after %s: incumbent index %d of %d points" % (what, ko, npt))]
        best = nmin(objs)
        if best is not None and objs[ko] != best:
            ok = sh.excused and (prev is not None and ko == prev)
            if sh.excused and touched is not None:
                old = objs[prev] if prev is not None and prev < npt else float("nan")
                better = math.isfinite(objs[touched]) and (not math.isfinite(old) or objs[touched] < old)
                if better and allow and touched != prev:
                    ok = ko == touched
                elif ko == touched and not (objs[touched] > old):
                    ok = True
            if not ok:
                bad.append(("C17:incumbent", "after %s: incumbent is point %d with objective %r although point %d has %r (overwritten by a worse point earlier: %s)"
                            % (what, ko, objs[ko], objs.index(best), best, sh.excused)))
        elif best is not None:
            sh.excused = False
        sh.kopt = ko
        sh.objs = objs
        return bad

    def verify_final(self, sh, model, ret, what, ptol=0.0):
        x, r, f, _, ns, ev, _ = ret
        f = float(f)
        cands = []
        k = int(model.kopt)
        s = sh.slots[k]
        cands.append((float(model.objval[k]), np.asarray(model.xpt(k, abs_coordinates=True), dtype=float), np.asarray(model.rvec(k), dtype=float),
                      int(model.nsamples[k]), int(model.eval_num[k]), s.xtol))
        cands += sh.saves
        best = nmin([c[0] for c in cands])
        rt = sh.roundoff() + ptol
        if best is not None:
            tol = 1e-12 * abs(best) + sh.lip * 2 * rt
            if not (math.isfinite(f) and f <= best + tol):
                return [("C17:final", "%s: the final query returned objective %r although %s has %r" % (
                    what, f, "the incumbent" if cands[0][0] == best else "a saved point", best))]
        else:
            tol = 0.0
        for fo, xo, ro, nso, evo, xt in cands:
            if (same(f, fo, 1e-12 * abs(fo) + sh.lip * 2 * rt if math.isfinite(fo) else 0.0) and nso == int(ns) and evo == int(ev)
                    and np.all((np.abs(np.asarray(x, dtype=float) - xo) <= rt + xt))
                    and all(same(float(a), float(b), 1e-12 * abs(b)) for a, b in zip(r, ro))):
                return []
        return [("C17:final", "%s: the final query returned x=%r, objective %r, %s samples, evaluation %s, which is neither the incumbent nor a saved point"
                 % (what, np.asarray(x).tolist(), f, ns, ev))]

    def run_case(self, case, out):
        v = []
        init, ops = case["init"], case["ops"]
        (pair, err) = self.guarded(lambda: make_model(init))
        if err is not None:
            return [("C17:crash", "creating the model raised %s: %s" % (type(err).__name__, err))], "crash", b""
        model, seen = pair
        sh = self.shadow_for(init)
        sh.start(model, arr(init["x0"]), arr(init["r0"]), init.get("ns0", 1))
        v += self.verify(sh, model, "creation")
        dig = []
        feats = set()
        for j, o in enumerate(ops):
            if v:
                break
            sh.nops += 1
            kind = o["op"]
            npt = len(sh.slots)
            what = "operation %d (%s)" % (j, kind)
            touched, allow, prev = None, True, int(model.kopt)
            scrib = []

            def give(z):
                a = arr(z)
                scrib.append(a)
                return a
            if kind == "change":
                k = prev if o["k"] < 0 else o["k"]
                if k > npt or (k == npt and npt >= model.num_pts):
                    continue
                xabs = sh.feasible(arr(o["x"]))
                xrel = xabs - model.xbase
                old = sh.objs[prev]
                new = Slot(xabs, o["r"], o["ev"], 1, 0.0)
                if k == npt:
                    sh.slots.append(new)
                    feats.add("grow")
                else:
                    sh.slots[k] = new
                newobj = self.obj_of(sh, arr(o["r"]), xabs)
                if k == prev and not (newobj <= old - self.h_rounding(sh, old)):
                    sh.excused = True
                    feats.add("overwritten")
                if not o.get("allow", True):
                    sh.excused = True
                    allow = False
                touched = k
                scrib.append(xrel)
                ret, err = self.guarded(lambda: model.change_point(k, xrel, give(o["r"]), o["ev"], **({} if allow else {"allow_kopt_update": False})))
            elif kind == "sample":
                k = prev if o["k"] < 0 else o["k"]
                if k >= npt:
                    continue
                sh.slots[k].samples.append((1, arr(o["r"])))
                sh.excused = False
                ret, err = self.guarded(lambda: model.add_new_sample(k, give(o["r"])))
            elif kind == "add":
                xabs = sh.feasible(arr(o["x"]))
                if npt < model.num_pts:
                    feats.add("add while growing")
                sh.slots.append(Slot(xabs, o["r"], o["ev"]))
                touched = npt
                xrel = xabs - model.xbase
                scrib.append(xrel)
                ret, err = self.guarded(lambda: model.add_new_point(xrel, give(o["r"]), o["ev"]))
            elif kind == "swap":
                k1, k2 = o["k1"], o["k2"]
                if k1 >= npt or k2 >= npt:
                    continue
                sh.slots[k1], sh.slots[k2] = sh.slots[k2], sh.slots[k1]
                prev = k2 if prev == k1 else k1 if prev == k2 else prev
                ret, err = self.guarded(lambda: model.swap_points(k1, k2))
            elif kind == "shift":
                s = model.xopt().copy() if "to" in o else arr(o["s"])
                sh.reach = max(sh.reach, float(np.max(np.abs(model.xbase))) + 2 * float(np.max(np.abs(s))),
                               max(float(np.max(np.abs(p.x - model.xbase))) for p in sh.slots))
                scrib.append(s)
                ret, err = self.guarded(lambda: model.shift_base(s))
            elif kind == "save":
                xabs = sh.feasible(arr(o["x"]))
                xin = xabs.copy() if o["abs"] else xabs - model.xbase
                scrib.append(xin)
                sh.saves.append((self.obj_of(sh, arr(o["r"]), xabs), xabs, arr(o["r"]), o["ns"], o["ev"], 0.0))
                ret, err = self.guarded(lambda: model.save_point(xin, give(o["r"]), o["ns"], o["ev"], x_in_abs_coords=bool(o["abs"])))
            elif kind == "savek":
                k = prev
                s = sh.slots[k]
                xk = np.asarray(model.xopt(abs_coordinates=True), dtype=float)
                sh.saves.append((float(model.objval[k]), xk.copy(), np.array(model.rvec(k), dtype=float), s.count(), s.ev, 0.0))
                ret, err = self.guarded(lambda: model.save_point(model.xopt(abs_coordinates=True), model.ropt(), model.nsamples[model.kopt],
                                                                 model.eval_num[model.kopt], x_in_abs_coords=True))
            elif kind == "fit":
                ret, err = self.guarded(lambda: model.interpolate_mini_models_svd(make_full_rank=bool(o.get("full"))))
                err = None      # C16 decides when a fit must succeed
            feats.add(kind)
            if err is not None:
                v.append(("C17:crash", "%s raised %s: %s" % (what, type(err).__name__, err)))
                break
            for a in scrib:
                a[:] = 12345.678      # the caller's arrays are the caller's: reusing them must not reach the model
            sh.reach = max([sh.reach] + [float(np.max(np.abs(p.x))) for p in sh.slots])
            v += self.verify(sh, model, what, touched, allow, prev)
            if not v:
                ret, err = self.guarded(model.get_final_results)
                if err is not None:
                    v.append(("C17:crash", "the final query after %s raised %s: %s" % (what, type(err).__name__, err)))
                else:
                    v += self.verify_final(sh, model, ret, "after " + what)
                    dig.append(float(ret[2]))
            if not seen["args"]:
                v.append(("C17:argsh", "%s: h was called without its extra arguments" % what))
        out.stats["operations judged"] += len(ops)
        objs = [float(z) for z in model.objval[:model.npt()]]
        cls = "%s%s%s" % ("N" if any(map(math.isnan, objs)) else "", "I" if any(map(math.isinf, objs)) else "", "T" if len(set(objs)) < len(objs) else "")
        sig = "n%d %s %s %s" % (init["n"], ",".join(sorted(feats)), cls, ",".join(k for k in ("reg", "scaling", "sets") if init.get(k)))
        return v, sig, digest_of(*dig)

    # ------------------------------------------------------------ inside solves
    def setup(self, out, scn):
        install_watch()
        WATCH["on"] = None
        if scn.get("clients"):
            WATCH["on"] = lambda c, ph, model, name, args, ret, pre: self.watch(c, ph, model, name, args, ret, pre, out)

    def watch(self, c, ph, model, name, args, ret, pre, out):
        if name in ("interpolate_mini_models_svd", "lagrange_gradient"):
            return
        tab = c.obs.setdefault("shadows", {})
        if name == "__init__":
            h = args.get("h")
            argsh = tuple(args.get("argsh") or ())
            sc = args.get("scaling_changes")
            reg = c.reg
            hh = None
            lip = 0.0
            if h is not None and reg:
                def hh(x):
                    return reg_value(reg, x if sc is None else sc[0] + x * sc[1])
                lip = reg_lipschitz(reg, len(args["x0"])) * (float(np.max(np.abs(sc[1]))) if sc is not None else 1.0)
            sh = Shadow(args["xl"], args["xu"], args.get("projections") or [], hh, lip)
            sh.start(model, args["x0"], args["r0"], args["r0_nsamples"])
            if sh.projs:
                sh.slots[0].x = np.asarray(model.xpt(0, abs_coordinates=True), dtype=float)
                sh.pt = 1e-6 * (1 + sh.reach)
            tab[id(model)] = (sh, model)      # the model is kept, so that its id is not reused
            self.report(c, self.verify(sh, model, "creation", ptol=getattr(sh, "pt", 0.0)))
            return
        if id(model) not in tab:
            return
        sh = tab[id(model)][0]
        pt = getattr(sh, "pt", 0.0)
        if ph == "pre":
            if sh.nops == 0:
                sh.slots[0].ev = int(model.eval_num[0])    # the solver may number the first point itself
            if name == "shift_base":
                s = args["xbase_shift"]
                sh.reach = max(sh.reach, float(np.max(np.abs(model.xbase))) + 2 * float(np.max(np.abs(s))),
                               max(float(np.max(np.abs(p.x - model.xbase))) for p in sh.slots))
            return int(model.kopt), np.array(model.xbase, dtype=float)
        prev, xbase = pre
        sh.nops += 1
        self.nchecked += 1
        touched = None
        what = "%s call %d of a solve" % (name, sh.nops)
        npt = len(sh.slots)
        if name in ("change_point", "add_new_point"):
            x = xbase + args["x"]
            if sh.projs:
                k = args.get("k", npt)
                xabs = np.asarray(model.xpt(k, abs_coordinates=True), dtype=float)
                xt = 0.0
            else:
                xabs = np.minimum(np.maximum(sh.xl, x), sh.xu)
            new = Slot(xabs, args["rvec"], int(args["eval_num"]))
            k = args.get("k", npt)
            if k < npt:
                old = sh.objs[prev] if sh.objs and prev < len(sh.objs) else float("nan")
                sh.slots[k] = new
                nobj = self.obj_of(sh, args["rvec"], xabs)
                if k == prev and not nobj <= old - self.h_rounding(sh, old):
                    sh.excused = True
            else:
                sh.slots.append(new)
            if name == "change_point" and not args.get("allow_kopt_update", True):
                sh.excused = True
            touched = k
        elif name == "add_new_sample":
            sh.slots[args["k"]].samples.append((1, np.array(args["rvec_extra"], dtype=float)))
            sh.excused = False
        elif name == "swap_points":
            k1, k2 = args["k1"], args["k2"]
            sh.slots[k1], sh.slots[k2] = sh.slots[k2], sh.slots[k1]
            prev = k2 if prev == k1 else k1 if prev == k2 else prev
        elif name == "save_point":
            x = args["x"] if args["x_in_abs_coords"] else np.asarray(model.as_absolute_coordinates(args["x"]), dtype=float)
            sh.saves.append((self.obj_of(sh, args["rvec"], x), np.array(x, dtype=float), np.array(args["rvec"], dtype=float),
                             int(args["nsamples"]), int(args["eval_num"]), 0.0))
        sh.reach = max([sh.reach] + [float(np.max(np.abs(p.x))) for p in sh.slots[-1:]] +
                       ([float(np.max(np.abs(sh.slots[touched].x)))] if touched is not None else []))
        if name == "get_final_results":
            self.report(c, self.verify_final(sh, model, ret, what, ptol=pt))
        else:
            self.report(c, self.verify(sh, model, what, touched, bool(args.get("allow_kopt_update", True)), prev, ptol=pt))
        out.stats["operations of real solves judged"] += 1

    def report(self, c, bad):
        for k, m in bad[:2]:
            if len(c.violations) < 20:
                c.violations.append((k, m))


# ===================================================================== C16
def np_norm(a):
    return float(np.linalg.norm(a, 2)) if np.ndim(a) == 2 and a.size else float(np.linalg.norm(a))


def point_data(model):
    """Points relative to the base with bounds applied, displacement from the incumbent, conditioning."""
    p = model.npt()
    Y = np.array([model.xpt(k) for k in range(p)])
    xo = np.array(model.xopt())
    D = Y - xo
    delta = float(np.max(np.sqrt(np.sum(D ** 2, axis=1)))) if p else 0.0
    if not (delta > 1e-150 and np.all(np.isfinite(Y))):
        return None
    W = np.hstack([np.ones((p, 1)), D / delta])
    s = np.linalg.svd(W, compute_uv=False)
    k = min(W.shape)
    cond = float(s[0] / s[k - 1]) if s[k - 1] > 0 else float("inf")
    # the code may work without that scaling (interpolation.precondition off)
    cond_raw = cond
    if not getattr(model, "precondition", True):
        s2 = np.linalg.svd(np.hstack([np.ones((p, 1)), D]), compute_uv=False)
        cond_raw = float(s2[0] / s2[k - 1]) if s2[k - 1] > 0 else float("inf")
    return dict(Y=Y, xo=xo, D=D, delta=delta, W=W, cond=cond, cond_raw=cond_raw, p=p, n=Y.shape[1])


COND_MAX = 1e9


def full_rank_is_pure(pd, F, kw):
    """Does the full-rank completion only add directions in which there are no data?"""
    dg = np.linalg.lstsq(pd["W"], F, rcond=1e-13)[0]
    J = (dg[1:, :] / pd["delta"]).T
    m, n = J.shape
    s = np.linalg.svd(J, compute_uv=False)
    r = min(pd["p"] - 1, n, m)
    if r < 1:
        return False
    floor = max(s[0] / kw["max_jac_cond"], kw["sing_val_frac"] * s[r - 1], kw["min_sing_val"])
    return bool(s[r - 1] >= 1e-6 * s[0] and floor <= s[r - 1] * (1 + 1e-12))


def judge_fit(model, ret, kw):
    """After a successful fit: interpolation / least squares. Returns (violations, class)."""
    pd = point_data(model)
    if pd is None or not pd["cond_raw"] <= COND_MAX:
        return [], "degenerate"
    p, n = pd["p"], pd["n"]
    F = np.array(model.fval_v[:p, :], dtype=float)
    Fm = float(np.max(np.abs(F)))
    if not Fm <= 1e100:
        return [], "overflow"
    ok = ret[0] if isinstance(ret, tuple) else ret
    if not ok:
        if pd["cond_raw"] <= 1e7:
            return [("C16:fit-failed", "fit failed with finite data on %d points in dimension %d, condition number %.3g" % (p, n, pd["cond"]))], "failed"
        return [], "failed"
    J = np.array(model.model_jac, dtype=float)
    const = np.array(model.model_const, dtype=float)
    if not (np.all(np.isfinite(J)) and np.all(np.isfinite(const))):
        return [("C16:interpolation", "fit reported success with non-finite coefficients")], "nonfinite"
    cls = "square" if p == n + 1 else "regression" if p > n + 1 else "growing"
    if kw.get("make_full_rank"):
        if not full_rank_is_pure(pd, F, kw):
            return [], cls + " completed"
        cls += " full"
    Jn = np_norm(J)
    ym = float(np.max(np.sqrt(np.sum(pd["Y"] ** 2, axis=1))))
    size = p + n + F.shape[1]
    tol = 100 * EPS * size * (pd["cond"] * (Fm + Jn * pd["delta"]) + Jn * ym)
    pred = const + pd["Y"].dot(J.T)
    R = F - pred
    if p <= n + 1:
        err = float(np.max(np.abs(R)))
        if err > tol:
            k, i = np.unravel_index(int(np.argmax(np.abs(R))), R.shape)
            return [("C16:%s" % ("interpolation" if p == n + 1 else "growing"),
                     "%d points in dimension %d: model of residual %d has value %r at point %d where %r is stored (error %.3g, rounding allows %.3g, condition number %.3g)"
                     % (p, n, i, float(pred[k, i]), k, float(F[k, i]), err, tol, pd["cond"]))], cls
    else:
        G = pd["W"].T.dot(R)
        err = float(np.max(np.abs(G)))
        if err > tol * math.sqrt(p):
            return [("C16:least-squares", "%d points in dimension %d: residual of the fit is not orthogonal to the design columns (%.3g, rounding allows %.3g, condition number %.3g)"
                     % (p, n, err, tol * math.sqrt(p), pd["cond"]))], cls
    return [], cls


def judge_lagrange(model, k, c, g):
    """Lagrange functions L_k(y) = c + g.(y - xopt)."""
    pd = point_data(model)
    if pd is None or not pd["cond_raw"] <= COND_MAX:
        return []
    p, n = pd["p"], pd["n"]
    tol = 100 * EPS * (p + n) * pd["cond"] * (1 + pd["cond"] * EPS)
    if k is not None:
        if p > n + 1:
            return []
        L = float(c) + pd["D"].dot(np.asarray(g, dtype=float))
        e = np.zeros(p)
        e[k] = 1.0
        err = float(np.max(np.abs(L - e)))
        if not err <= tol:
            j = int(np.argmax(np.abs(L - e)))
            return [("C16:lagrange", "%d points in dimension %d: L_%d at point %d is %r (rounding allows %.3g)" % (p, n, k, j, float(L[j]), tol))]
        return []
    cs, gs = np.asarray(c, dtype=float), np.asarray(g, dtype=float)
    if cs.shape != (p,) or gs.shape != (n, p):
        return [("C16:lagrange", "all Lagrange functions of %d points: shapes %r and %r" % (p, cs.shape, gs.shape))]
    if p <= n + 1:
        L = cs[None, :] + pd["D"].dot(gs)      # L[j,k] = L_k(y_j)
        E = np.abs(L - np.eye(p))
        if not float(np.max(E)) <= tol:
            j, k = np.unravel_index(int(np.argmax(E)), E.shape)
            return [("C16:lagrange", "%d points in dimension %d: L_%d at point %d is %r (rounding allows %.3g)" % (p, n, k, j, float(L[j, k]), tol))]
    if p >= n + 1:
        e0 = abs(float(np.sum(cs)) - 1.0)
        e1 = float(np.max(np.abs(np.sum(gs, axis=1)))) * pd["delta"]
        if not max(e0, e1) <= tol * math.sqrt(p):
            return [("C16:lagrange-sum", "%d points in dimension %d: the Lagrange functions sum to %r with gradient %.3g/delta (rounding allows %.3g)"
                     % (p, n, float(np.sum(cs)), e1, tol * math.sqrt(p)))]
    return []


def model_snapshot(model, Z):
    """Model values at absolute points, assembled gradient and Hessian."""
    xb = np.array(model.xbase, dtype=float)
    J = np.array(model.model_jac, dtype=float)
    c = np.array(model.model_const, dtype=float)
    vals = [np.array(model.model_value(z - xb, d_based_at_xopt=False, with_const_term=True), dtype=float) for z in Z]
    xo = np.array(model.xopt(), dtype=float)
    g, H = model.build_full_model()
    P = [np.array(model.xpt(k, abs_coordinates=True), dtype=float) for k in range(model.npt())]
    size = (np_norm(J) * (max(float(np.linalg.norm(z - xb)) for z in Z) + float(np.linalg.norm(xo))) + float(np.max(np.abs(c))))
    # value at the incumbent through both routes
    v1 = np.array(model.model_value(np.zeros(len(xb)), d_based_at_xopt=True, with_const_term=True), dtype=float)
    v2 = np.array(model.model_value(xo, d_based_at_xopt=False, with_const_term=True), dtype=float)
    return dict(vals=vals, g=np.array(g, dtype=float), H=np.array(H, dtype=float), size=size, J=J, xb=xb, P=P, v1=v1, v2=v2)


def judge_shift(a, b, shift, Z):
    """Snapshots before and after a base shift."""
    if not all(np.all(np.isfinite(q)) for q in [a["J"], a["g"], a["H"]] + a["vals"]):
        return []
    n = len(shift)
    ns = float(np.linalg.norm(shift))
    Jn = np_norm(a["J"])
    zmax = max(float(np.linalg.norm(z)) for z in Z)
    far = zmax + float(np.linalg.norm(a["xb"])) + ns
    tol = 200 * EPS * (n + 4) * (a["size"] + b["size"] + Jn * (far + ns))
    out = []
    if not tol < 1e150:
        return []
    for z, u, v in zip(Z, a["vals"], b["vals"]):
        e = float(np.max(np.abs(u - v)))
        if not e <= tol:
            out.append(("C16:shift-value", "base shift by %r changed the model value at the fixed point %r from %r to %r (rounding allows %.3g)"
                        % (shift.tolist(), z.tolist(), u.tolist(), v.tolist(), tol)))
            break
    gt = 4 * Jn * tol * math.sqrt(len(a["v1"])) + 1e-12 * float(np.max(np.abs(a["g"])))
    e = float(np.max(np.abs(a["g"] - b["g"])))
    if not e <= gt:
        out.append(("C16:shift-gradient", "base shift by %r changed the gradient of the full model from %r to %r" % (shift.tolist(), a["g"].tolist(), b["g"].tolist())))
    if not float(np.max(np.abs(a["H"] - b["H"]))) <= 1e-12 * float(np.max(np.abs(a["H"]))):
        out.append(("C16:shift-hessian", "base shift by %r changed the Hessian of the full model" % (shift.tolist(),)))
    for s in (a, b):
        if not float(np.max(np.abs(s["v1"] - s["v2"]))) <= tol:
            out.append(("C16:shift-value", "model value at the incumbent depends on the origin of the displacement: %r and %r" % (s["v1"].tolist(), s["v2"].tolist())))
            break
    pt = 16 * EPS * (far + max(float(np.max(np.abs(p))) for p in a["P"]))
    for k, (p, q) in enumerate(zip(a["P"], b["P"])):
        if not float(np.max(np.abs(p - q))) <= pt:
            out.append(("C16:shift-point", "base shift by %r moved point %d from %r to %r" % (shift.tolist(), k, p.tolist(), q.tolist())))
            break
    return out


class C16(SubProp):
    id = "C16"
    quick_runs = 600
    thorough_runs = 60000
    synth_count = 40
    p_world = 0.6
    profile = Profile(p_reg=0.05, p_sets=0.08, p_nsamples=0.2, p_noise=0.3, p_faults=0.1, p_growing=0.45, p_restart=0.5, p_npt=0.6, maxfun_cap=90)
    assumptions = ["point sets with condition number of [1,(x-xopt)/delta] up to 1e9; tolerance 100 eps x size x condition x data",
                   "the full-rank completion is judged where it only adds directions without data"]
    level_note = ("Seeded histories of replacements, additions, swaps, resamples, base shifts, fits and Lagrange queries on the real Model, judged "
                  "from its stored points and values; every fit, Lagrange query and base shift of simulated solves is judged the same way.")

    def gen_case(self, rng):
        n, m = rng.randint(1, 6), rng.randint(1, 6)
        target = rng.randint(2, 2 * n + 1)
        num = max(n + 1, target) if rng.random() < 0.85 else 2 * n + 1
        spread = 10 ** rng.uniform(-4, 1)
        cen = [rng.gauss(0, 1) * (10 ** rng.uniform(0, 5) if rng.random() < 0.5 else 1.0) for _ in range(n)]
        init = {"n": n, "m": m, "npt": num, "precondition": rng.random() < 0.85}
        if rng.random() < 0.3:
            init["xl"] = [c - spread * rng.uniform(0.5, 5) for c in cen]
            init["xu"] = [c + spread * rng.uniform(0.5, 5) for c in cen]
        else:
            init["xl"], init["xu"] = [-1e20] * n, [1e20] * n
        A = [[rng.gauss(0, 1) for _ in range(n)] for _ in range(m)]
        fsc = 10 ** rng.uniform(-3, 3)
        kind = rng.choice(["linear", "quad", "random", "random"])

        def point(decades=True):
            s = spread * (10 ** rng.uniform(-2, 0) if decades and rng.random() < 0.2 else 1.0)
            x = [c + s * rng.gauss(0, 1) for c in cen]
            if rng.random() < 0.2:
                x = list(cen)
                x[rng.randrange(n)] += s * rng.choice([-1.0, 1.0])
            return [min(max(v, l), u) for v, l, u in zip(x, init["xl"], init["xu"])]

        def resid(x):
            if kind == "random":
                return [fsc * rng.gauss(0, 1) for _ in range(m)]
            d = [(v - c) / spread for v, c in zip(x, cen)]
            r = [fsc * (1 + sum(a * b for a, b in zip(row, d))) for row in A]
            if kind == "quad":
                q = sum(b * b for b in d)
                r = [v + fsc * 0.3 * q for v in r]
            return r
        init["x0"] = point(False)
        init["r0"] = resid(init["x0"])
        ops = []
        have, total, ev = 1, num, 1
        L = rng.randint(2, 40)
        grow = [("grow", 6), ("change", 1), ("shift", 1), ("fit", 1), ("lag", 1), ("sample", 0.3)]
        main = [("change", rng.uniform(1, 4)), ("shift", rng.uniform(0.5, 3)), ("fit", rng.uniform(1, 4)), ("lag", rng.uniform(0.5, 3)),
                ("swap", 0.6), ("sample", 0.5), ("add", 0.4), ("pois", 0.2), ("grow", 0.3)]
        while len(ops) < L + target:
            o = pick(rng, grow if have < target else main)
            if o == "grow" or o == "add":
                if have >= 2 * n + 1 or (o == "grow" and have >= total) or have >= target and rng.random() < 0.5:
                    continue
                ev += 1
                x = point()
                ops.append({"op": "change" if o == "grow" else "add", "k": have, "x": x, "r": resid(x), "ev": ev})
                have += 1
                if o == "add":
                    total += 1
            elif o == "change":
                ev += 1
                x = point()
                ops.append({"op": "change", "k": rng.randrange(have) if rng.random() < 0.8 else -1, "x": x, "r": resid(x), "ev": ev})
            elif o == "shift":
                if rng.random() < 0.5:
                    ops.append({"op": "shift", "to": -1})
                else:
                    f = spread * (10 ** rng.uniform(-1, 4) if rng.random() < 0.5 else 1.0)
                    ops.append({"op": "shift", "s": [rng.gauss(0, 1) * f for _ in range(n)]})
            elif o == "fit":
                ops.append({"op": "fit", "full": rng.random() < 0.25, "verbose": rng.random() < 0.1})
            elif o == "lag":
                ops.append({"op": "lag", "k": None if rng.random() < 0.5 else rng.randrange(have)})
            elif o == "swap":
                ops.append({"op": "swap", "k1": rng.randrange(have), "k2": rng.randrange(have)})
            elif o == "sample":
                ops.append({"op": "sample", "k": rng.randrange(have), "r": resid(point())})
            elif o == "pois":
                ops.append({"op": "pois", "d": spread})
        if rng.random() < 0.8:
            ops.append({"op": "fit", "full": False})
        return {"fn": "history", "n": n, "init": init, "args": {}, "ops": ops}

    simplify_case = C17.simplify_case

    def points_to_watch(self, model, rng=None):
        P = [np.array(model.xpt(k, abs_coordinates=True), dtype=float) for k in range(min(model.npt(), 3))]
        d = float(np.max(np.abs(np.array(model.xpt(model.npt() - 1)) - np.array(model.xopt())))) + 1e-6
        P.append(P[0] + d * np.linspace(-1.0, 2.0, len(P[0])))
        P.append(np.array(model.xbase, dtype=float))
        return P

    def run_case(self, case, out):
        v = []
        init, ops = case["init"], case["ops"]
        pair, err = self.guarded(lambda: make_model(init))
        if err is not None:
            return [("C16:crash", "creating the model raised %s: %s" % (type(err).__name__, err))], "crash", b""
        model, _ = pair
        xl, xu = arr(init["xl"]), arr(init["xu"])
        dig, feats = [], set()
        for j, o in enumerate(ops):
            if v:
                break
            kind = o["op"]
            npt = model.npt()
            if kind == "change":
                k = int(model.kopt) if o["k"] < 0 else o["k"]
                if k > npt or (k == npt and npt >= model.num_pts):
                    continue
                x = np.minimum(np.maximum(xl, arr(o["x"])), xu) - model.xbase
                ret, err = self.guarded(lambda: model.change_point(k, x, arr(o["r"]), o["ev"]))
            elif kind == "add":
                x = np.minimum(np.maximum(xl, arr(o["x"])), xu) - model.xbase
                ret, err = self.guarded(lambda: model.add_new_point(x, arr(o["r"]), o["ev"]))
            elif kind == "sample":
                if o["k"] >= npt:
                    continue
                ret, err = self.guarded(lambda: model.add_new_sample(o["k"], arr(o["r"])))
            elif kind == "swap":
                if max(o["k1"], o["k2"]) >= npt:
                    continue
                ret, err = self.guarded(lambda: model.swap_points(o["k1"], o["k2"]))
            elif kind == "shift":
                s = np.array(model.xopt(), dtype=float) if "to" in o else arr(o["s"])
                Z = self.points_to_watch(model)
                a = model_snapshot(model, Z)
                s0 = s.copy()
                ret, err = self.guarded(lambda: model.shift_base(s))
                if err is None:
                    v += judge_shift(a, model_snapshot(model, Z), s0, Z)
                    feats.add("shift")
            elif kind == "fit":
                kw = {"make_full_rank": bool(o.get("full")), "min_sing_val": 1e-6, "sing_val_frac": 1.0, "max_jac_cond": 1e8}
                if npt < 2:
                    continue
                pd = point_data(model)
                ret, err = self.guarded(lambda: model.interpolate_mini_models_svd(verbose=bool(o.get("verbose")), make_full_rank=kw["make_full_rank"]))
                if err is not None and (pd is None or not pd["cond_raw"] <= 1e7):
                    err = None
                    feats.add("fit raised")
                elif err is None:
                    vv, cls = judge_fit(model, ret, kw)
                    v += vv
                    feats.add(cls)
                    out.stats["fits judged: " + cls] += 1
                    dig.append(np.array(model.model_jac))
            elif kind == "lag":
                if npt < 2 or (o["k"] is not None and o["k"] >= npt):
                    continue
                pd = point_data(model)
                ret, err = self.guarded(lambda: model.lagrange_gradient(o["k"]))
                if err is None:
                    v += judge_lagrange(model, o["k"], ret[0], ret[1])
                    feats.add("lag%d" % (npt > model.n() + 1))
                    out.stats["Lagrange queries judged"] += 1
                elif pd is None or not pd["cond_raw"] <= 1e7:
                    err = None
            elif kind == "pois":
                if npt < model.n() + 1:
                    continue
                self.guarded(lambda: model.poisedness_constant(o["d"]))
                err = None
            if err is not None:
                v.append(("C16:crash", "operation %d (%s) raised %s: %s" % (j, kind, type(err).__name__, err)))
            v = [(k, "operation %d (%s): %s" % (j, kind, msg)) if not msg.startswith("operation") else (k, msg) for k, msg in v]
        out.stats["operations"] += len(ops)
        return v, "n%d m%d %s" % (init["n"], init["m"], ",".join(sorted(feats))), digest_of(*dig)

    # ------------------------------------------------------------ inside solves
    def setup(self, out, scn):
        install_watch()
        WATCH["on"] = None
        if scn.get("clients"):
            WATCH["on"] = lambda c, ph, model, name, args, ret, pre: self.watch(c, ph, model, name, args, ret, pre, out)

    def watch(self, c, ph, model, name, args, ret, pre, out):
        v = []
        if ph == "pre":
            if name == "shift_base":
                Z = self.points_to_watch(model)
                return Z, model_snapshot(model, Z)
            return None
        if name == "shift_base":
            Z, a = pre
            v = judge_shift(a, model_snapshot(model, Z), args["xbase_shift"], Z)
            out.stats["real base shifts judged"] += 1
        elif name == "interpolate_mini_models_svd":
            v, cls = judge_fit(model, ret, args)
            out.stats["real fits judged: " + cls] += 1
        elif name == "lagrange_gradient":
            v = judge_lagrange(model, args.get("k"), ret[0], ret[1])
            out.stats["real Lagrange queries judged"] += 1
        else:
            return None
        self.nchecked += 1
        for k, msg in v:
            if len(c.violations) < 20:
                c.violations.append((k, msg + " [in a solve, evaluation %d]" % len(c.evals)))


ALL = [C16(), C17()]
