"""Simulated black boxes, constraint sets and regularisers.  Everything here is
a pure function of its JSON spec."""
import math
import random

import numpy as np


# ----------------------------------------------------------------- residuals
class Problem(object):
    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.scale = float(spec.get("scale", 1.0))
        self.off = np.array(spec["off"], dtype=float) if spec.get("off") is not None else None
        for key in ("A", "b", "B", "t", "y"):
            if key in spec:
                setattr(self, key, np.array(spec[key], dtype=float))

    def __call__(self, x):
        z = np.array(x, dtype=float)
        if self.off is not None:
            z = z - self.off
        k = self.kind
        if k == "linear":
            r = self.A.dot(z) - self.b
        elif k == "sin":
            r = self.A.dot(z) - self.b + self.spec["c"] * np.sin(self.B.dot(z))
        elif k == "quad":
            u = self.B.dot(z)
            r = self.A.dot(z) - self.b + self.spec["c"] * u * u
        elif k == "kink":
            r = np.abs(self.A.dot(z) - self.b) + self.spec["c"]
        elif k == "step":  # piecewise constant (very hostile to a model)
            r = np.floor(4.0 * (self.A.dot(z) - self.b)) / 4.0 + self.spec["c"]
        elif k == "rosen":
            n = len(z)
            if n == 1:
                r = np.array([1.0 - z[0], 0.1 * z[0] * z[0]])
            else:
                r = np.concatenate((10.0 * (z[1:] - z[:-1] ** 2), 1.0 - z[:-1]))
        elif k == "exp":
            with np.errstate(all="ignore"):
                r = z[0] * np.exp(np.clip(z[1] * self.t, -300, 300)) + (z[2] if len(z) > 2 else 0.0) - self.y
                if len(z) > 3:
                    r = r + float(np.sum(z[3:])) * self.t
        elif k == "const":
            r = self.b.copy()
        elif k == "powell":
            w = np.resize(z, 4)
            r = np.array([w[0] + 10 * w[1], math.sqrt(5.0) * (w[2] - w[3]), (w[1] - 2 * w[2]) ** 2,
                          math.sqrt(10.0) * (w[0] - w[3]) ** 2])
        else:
            raise KeyError(k)
        return self.scale * r


def gen_matrix(rng, m, n, cond):
    G1 = np.array([[rng.gauss(0, 1) for _ in range(m)] for _ in range(m)])
    G2 = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)])
    U = np.linalg.qr(G1)[0]
    V = np.linalg.qr(G2)[0]
    k = min(m, n)
    lc = math.log10(cond)
    s = [10.0 ** (-lc * (i / max(1, k - 1))) if rng.random() < 0.7 else 10.0 ** (-lc * rng.random()) for i in range(k)]
    s = np.array(s)
    s[0] = 1.0
    if k > 1:
        s[-1] = min(s[-1], 1.0)
    s = s * (10.0 ** rng.uniform(-0.3, 1.0))
    return U[:, :k].dot(np.diag(s)).dot(V[:, :k].T)


def r6(a):
    """Round to 6 significant digits (short, exactly reproducible JSON)."""
    a = np.asarray(a, dtype=float)
    if a.ndim == 0:
        return float("%.6g" % float(a))
    return [r6(v) for v in a]


def gen_problem(rng, n, kinds, m=None, cond_max=1e3):
    kind = rng.choice(kinds)
    if kind == "powell" and n < 2:
        kind = "linear"
    if kind == "exp" and n < 2:
        kind = "sin"
    if m is None:
        m = rng.choice([n, n, n + 1, n + 2, 2 * n, 2 * n + 3, max(1, n - 1)])
    spec = {"kind": kind}
    cond = 10.0 ** rng.uniform(0, math.log10(cond_max))
    if kind in ("linear", "sin", "quad", "kink", "step"):
        spec["A"] = r6(gen_matrix(rng, m, n, cond))
        spec["b"] = r6([rng.gauss(0, 2) for _ in range(m)])
        if kind in ("sin", "quad"):
            spec["B"] = r6([[rng.gauss(0, 1) for _ in range(n)] for _ in range(m)])
            spec["c"] = r6(rng.choice([0.1, 0.5, 1.0, 2.0]) * (0.3 if kind == "quad" else 1.0))
        if kind in ("kink", "step"):
            spec["c"] = r6(rng.choice([0.0, 0.1, 1.0]))
    elif kind == "exp":
        t = [i / float(max(1, m - 1)) for i in range(m)]
        spec["t"] = r6(t)
        spec["y"] = r6([2.0 * math.exp(-1.3 * ti) + rng.gauss(0, 0.05) for ti in t])
    elif kind == "const":
        spec["b"] = r6([rng.gauss(0, 2) for _ in range(m)])
    if rng.random() < 0.15:
        spec["scale"] = rng.choice([1e-3, 1e3, 1e-2, 50.0])
    return spec


# ----------------------------------------------------------- constraint sets
def set_projector(spec):
    t = spec["type"]
    if t == "ball":
        c = np.array(spec["c"], dtype=float)
        r = float(spec["r"])

        def proj(x):
            d = x - c
            nd = float(np.linalg.norm(d))
            return x.copy() if nd <= r else c + d * (r / nd)
        return proj
    if t == "half":  # a'x <= b
        a = np.array(spec["a"], dtype=float)
        b = float(spec["b"])
        aa = float(a.dot(a))

        def proj(x):
            v = float(a.dot(x)) - b
            return x.copy() if v <= 0 else x - (v / aa) * a
        return proj
    if t == "box":
        l = np.array(spec["l"], dtype=float)
        u = np.array(spec["u"], dtype=float)
        return lambda x: np.minimum(np.maximum(x, l), u)
    raise KeyError(t)


def set_distance(spec, x):
    t = spec["type"]
    if t == "ball":
        return max(0.0, float(np.linalg.norm(x - np.array(spec["c"], dtype=float))) - float(spec["r"]))
    if t == "half":
        a = np.array(spec["a"], dtype=float)
        return max(0.0, (float(a.dot(x)) - float(spec["b"])) / float(np.linalg.norm(a)))
    if t == "box":
        return float(np.linalg.norm(x - np.minimum(np.maximum(x, np.array(spec["l"], dtype=float)),
                                                   np.array(spec["u"], dtype=float))))
    raise KeyError(t)


def gen_sets(rng, n, centre, maxsets=3, kinds=("ball", "half", "box"), margin=(0.3, 2.0)):
    """Convex sets that all contain a ball around `centre` (non-empty interior)."""
    out = []
    for _ in range(rng.randint(1, maxsets)):
        t = rng.choice(kinds)
        mg = rng.uniform(*margin)
        if t == "ball":
            dirn = np.array([rng.gauss(0, 1) for _ in range(n)])
            dirn = dirn / max(1e-9, np.linalg.norm(dirn))
            r = mg * rng.uniform(1.0, 4.0)
            c = np.array(centre) + dirn * (r - mg)
            out.append({"type": "ball", "c": r6(c), "r": r6(r)})
        elif t == "half":
            a = np.array([rng.gauss(0, 1) for _ in range(n)])
            a = a / max(1e-9, np.linalg.norm(a)) * rng.choice([1.0, 1.0, 5.0, 0.2])
            b = float(a.dot(np.array(centre))) + mg * float(np.linalg.norm(a))
            out.append({"type": "half", "a": r6(a), "b": r6(b)})
        else:
            l = [c - mg * rng.uniform(1.0, 3.0) for c in centre]
            u = [c + mg * rng.uniform(1.0, 3.0) for c in centre]
            out.append({"type": "box", "l": r6(l), "u": r6(u)})
    return out


# -------------------------------------------------------------- regularisers
def _wc(spec, x):
    n = len(x)
    return np.asarray(spec.get("w", [1.0])[:n], dtype=float), np.asarray(spec.get("c", [0.0])[:n], dtype=float)


def reg_value(spec, x):
    """Convex regularisers with a closed-form proximal operator."""
    lam = float(spec["lam"])
    t = spec["type"]
    if t == "l1":
        return lam * float(np.sum(np.abs(x)))
    if t == "l2":
        return lam * float(np.linalg.norm(x))
    x = np.asarray(x, dtype=float)
    if t == "wl1":       # weighted and centred
        w, c = _wc(spec, x)
        return lam * float(np.sum(w * np.abs(x - c)))
    if t == "asym":      # different slopes on both sides (quantile loss)
        w, c = _wc(spec, x)
        d = x - c
        return lam * float(np.sum(np.maximum(w * d, -d)))
    if t == "linf":
        return lam * float(np.max(np.abs(x)))
    if t == "group":     # sum of norms of consecutive pairs
        return lam * float(sum(np.linalg.norm(x[j:j + 2]) for j in range(0, len(x), 2)))
    raise KeyError(t)


def reg_prox(spec, x, u):
    lam = float(spec["lam"]) * u
    t = spec["type"]
    if t == "l1":
        return np.sign(x) * np.maximum(np.abs(x) - lam, 0.0)
    if t == "l2":
        nx = float(np.linalg.norm(x))
        return np.zeros(len(x)) if nx <= lam else (1.0 - lam / nx) * x
    x = np.asarray(x, dtype=float)
    if t == "wl1":
        w, c = _wc(spec, x)
        d = x - c
        return c + np.sign(d) * np.maximum(np.abs(d) - lam * w, 0.0)
    if t == "asym":
        w, c = _wc(spec, x)
        d = x - c
        return c + np.where(d > lam * w, d - lam * w, np.where(d < -lam, d + lam, 0.0))
    if t == "linf":      # Moreau: x - projection on the l1 ball of radius lam
        if lam <= 0 or not np.all(np.isfinite(x)):
            return x.copy()
        v = np.abs(x)
        if float(np.sum(v)) <= lam:
            return np.zeros(len(x))
        q = np.sort(v)[::-1]
        cs = np.cumsum(q)
        k = np.nonzero(q * np.arange(1, len(q) + 1) > cs - lam)[0][-1]
        th = (cs[k] - lam) / (k + 1.0)
        return x - np.sign(x) * np.maximum(v - th, 0.0)
    if t == "group":
        out = x.copy()
        for j in range(0, len(x), 2):
            nx = float(np.linalg.norm(x[j:j + 2]))
            out[j:j + 2] = 0.0 if nx <= lam else (1.0 - lam / nx) * x[j:j + 2]
        return out
    raise KeyError(t)


def reg_lipschitz(spec, n):
    lam = float(spec["lam"])
    t = spec["type"]
    if t == "l1":
        return lam * math.sqrt(n)
    if t == "wl1":
        return lam * float(np.linalg.norm(np.asarray((list(spec["w"]) * n)[:n] if len(spec["w"]) == 1 else spec["w"][:n], dtype=float)))
    if t == "asym":
        return lam * float(np.linalg.norm(np.maximum(1.0, np.asarray(spec["w"][:n], dtype=float))) if len(spec["w"]) > 1 else
                           math.sqrt(n) * max(1.0, float(spec["w"][0])))
    if t == "group":
        return lam * math.sqrt((n + 1) // 2)
    return lam


SEPARABLE = ("l1", "wl1", "asym")


def solve_regularised(A, b, reg, lo, hi, x0, iters=20000):
    """Reference: FISTA with restart on sum((Ax-b)^2)+h(x), with bounds.
    The prox with the box is exact for separable regularisers; for the others it is computed by Dykstra's
    proximal splitting.  Any inaccuracy only makes the reference value larger, i.e. the check weaker."""
    n = A.shape[1]
    L = 2.0 * np.linalg.norm(A, 2) ** 2

    def prox(z, t):
        p = reg_prox(reg, z, t)
        if lo is not None:
            q = np.minimum(np.maximum(p, lo), hi)
            if reg["type"] in SEPARABLE or np.array_equal(p, q):
                return q
            x = np.array(z, dtype=float)
            p1 = np.zeros(n)
            q1 = np.zeros(n)
            for _ in range(300):
                y = reg_prox(reg, x + p1, t)
                p1 = x + p1 - y
                xn = np.minimum(np.maximum(y + q1, lo), hi)
                q1 = y + q1 - xn
                d = float(np.max(np.abs(xn - x)))
                x = xn
                if d <= 1e-15 * (1 + float(np.max(np.abs(x)))):
                    break
            return x
        return p

    def F(z):
        r = A.dot(z) - b
        return float(r.dot(r)) + reg_value(reg, z)
    x = prox(np.array(x0, dtype=float), 0.0)
    y = x.copy()
    t = 1.0
    fx = F(x)
    still = 0
    for _ in range(iters):
        xn = prox(y - 2.0 * A.T.dot(A.dot(y) - b) / L, 1.0 / L)
        fn = F(xn)
        if fn > fx:
            y = x.copy()
            t = 1.0
            xn = prox(y - 2.0 * A.T.dot(A.dot(y) - b) / L, 1.0 / L)
            fn = F(xn)
        tn = (1 + math.sqrt(1 + 4 * t * t)) / 2
        y = xn + (t - 1) / tn * (xn - x)
        step = float(np.linalg.norm(xn - x))
        x, fx, t = xn, min(fn, fx), tn
        still = still + 1 if step <= 1e-14 * (1 + float(np.linalg.norm(x))) else 0
        if still >= 5:
            break
    return x, F(x)
