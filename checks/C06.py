"""Maximum coverage at fixed precision (binary classification)."""
from symx.api import Registry
from symx import spec
import jax.numpy as jnp
import numpy as np
from fractions import Fraction as F

from fortuna.conformal import MaxCoverageFixedPrecisionBinaryClassificationCalibrator as Cal

HARNESSES = Registry()
ASSUMPTIONS = ["real arithmetic instead of float32; probabilities keep a 1e-4 distance from 1/2 and, once rescaled by every grid value, from the thresholds"]
OUTSIDE = "more than 4 calibration points, grids of more than 4 scale factors, thresholds and margins other than the listed ones; float rounding"


def scaled(h, P, tau, side):
    if side == "pos":
        return [h.min([h.ite(p > 0.5, tau * p, p), 0 * p + 1]) for p in P]
    return [h.ite(p < 0.5, tau * p, p) for p in P]


def away(h, xs, v, eps=1e-4):
    for x in xs:
        h.assume(h.Or(x <= v - eps, x >= v + eps))


def mk(name, n, k, Tp, Tn, margin):
    @HARNESSES(name=name, bounds=f"{n} points, {k} grid values, thresholds {Tp}/{Tn}, margin {margin}", obl_timeout=60)
    def body(h):
        p, y = h.real("p", (n,), 0, 1), h.int("y", (n,), 0, 1)
        P, Y = list(h.arr(p)), list(h.arr(y))
        away(h, P, 0.5)
        gp = [float(1 + (2 * Tp - 1) * i / (k - 1)) for i in range(k)]
        gn = [float(1 - (2 * Tn - 1) * i / (k - 1)) for i in range(k)]
        for g in gp:
            away(h, scaled(h, P, g, "pos"), float(Tp))
        for g in gn:
            away(h, scaled(h, P, g, "neg"), 1 - float(Tn))
        c = Cal()
        out = c.calibrate(y, p, float(Tp), float(Tn), n_taus=k, margin=float(margin))
        h.check("returns nothing without test probabilities", out is None)
        for side, T, grid in (("pos", Tp, gp), ("neg", Tn, gn)):
            tau = h.val(c.patches["tau_" + side])
            sel = (lambda q: q >= float(T)) if side == "pos" else (lambda q: q <= 1 - float(T))
            good = (lambda b: b == 1) if side == "pos" else (lambda b: b == 0)

            def stats(t):
                q = scaled(h, P, t, side)
                cov = h.count([sel(x) for x in q])
                hit = h.count([h.And(sel(x), good(b)) for x, b in zip(q, Y)])
                return cov, hit, h.And(cov > 0, hit >= (float(T) + float(margin)) * cov - 1e-6)

            st = [stats(g) for g in grid]
            h.check(f"tau {side} on the grid", h.Or([h.And(tau <= g + 1e-4, tau >= g - 1e-4) for g in grid]))
            feas = h.Or([s[2] for s in st])
            for i, g in enumerate(grid):
                here = h.And(tau <= g + 1e-4, tau >= g - 1e-4)
                h.check(f"precision {side}", h.Implies(h.And(here, feas), st[i][2]))
                h.check(f"identity when infeasible {side}", h.Implies(h.And(here, h.Not(feas)), h.Or(i == 0)))
                for j in range(k):
                    h.check(f"coverage maximal {side}", h.Implies(h.And(here, st[j][2]), st[j][0] <= st[i][0]))


mk("calibrate_3_3", 3, 3, F(3, 4), F(4, 5), 0)
mk("calibrate_4_2", 4, 2, F(9, 10), F(7, 10), 0)
mk("calibrate_3_3_margin", 3, 3, F(3, 5), F(3, 5), F(1, 8))
mk("calibrate_2_4", 2, 4, F(19, 20), F(19, 20), 0)


@HARNESSES(bounds="every scale in [1,2) and (0,1], 3 probabilities including exactly 1/2", npmode=False)
def patches(h):
    a, b = h.real("a", (), 1, 2), h.real("b", (), F(1, 100), 1)
    p = h.real("p", (3,), 0, 1)
    c = Cal()
    h.eq("no patches: unchanged", c.apply_patches(p), p)
    c._patches["tau_pos"], c._patches["tau_neg"] = jnp.asarray(a) if not h.sym else a, jnp.asarray(b) if not h.sym else b
    snap = spec.snapshot(p)
    q = c.apply_patches(p)
    spec.same(h, "input unchanged", p, snap)
    A, B = h.val(a), h.val(b)
    P, Q = h.arr(p), h.arr(q)
    for i in range(3):
        h.eq("scaled", [Q[i]], [h.ite(P[i] > 0.5, h.min([A * P[i], 0 * A + 1]), h.ite(P[i] < 0.5, B * P[i], P[i]))])
        h.check("a probability", h.And(Q[i] >= 0, Q[i] <= 1))
        h.check("same decision", h.And(h.Implies(P[i] > 0.5, Q[i] > 0.5), h.Implies(P[i] < 0.5, Q[i] < 0.5)))


@HARNESSES(bounds="3 calibration points, 2 grid values, 2 test probabilities", obl_timeout=60)
def calibrate_with_test(h):
    p, y, t = h.real("p", (3,), 0, 1), h.int("y", (3,), 0, 1), h.real("t", (2,), 0, 1)
    P = list(h.arr(p))
    away(h, P, 0.5), away(h, list(h.arr(t)), 0.5)
    for g in (1.0, 1.5):
        away(h, scaled(h, P, g, "pos"), 0.75)
    for g in (1.0, 0.5):
        away(h, scaled(h, P, g, "neg"), 0.25)
    c = Cal()
    r = c.calibrate(y, p, 0.75, 0.75, test_probs=t, n_taus=2)
    h.eq("patched test probabilities", r, c.apply_patches(t))
    tp, tn = h.val(c.patches["tau_pos"]), h.val(c.patches["tau_neg"])
    T = h.arr(t)
    h.eq("values", r, [h.ite(x > 0.5, h.min([tp * x, 0 * x + 1]), tn * x) for x in T])


@HARNESSES(bounds="4 points, every threshold in (1/2, 1]")
def reported_metrics(h):
    p, y = h.real("p", (4,), 0, 1), h.int("y", (4,), 0, 1)
    th = h.real("th", (), F(1, 2), 1)
    P, Y, t = list(h.arr(p)), list(h.arr(y)), h.val(th)
    away(h, P, t)
    away(h, P, 1 - t)
    pos, neg = [x >= t for x in P], [x <= 1 - t for x in P]
    h.eq("positive coverage", [h.val(Cal.true_positive_coverage(p, th)) * 4], [h.count(pos)])
    h.eq("negative coverage", [h.val(Cal.true_negative_coverage(p, th)) * 4], [h.count(neg)])
    if h.branch(h.Or(pos)):
        h.eq("positive precision", [h.val(Cal.true_positive_precision(p, y, th)) * h.count(pos)], [h.count([h.And(a, b == 1) for a, b in zip(pos, Y)])])
    if h.branch(h.Or(neg)):
        h.eq("negative precision", [h.val(Cal.true_negative_precision(p, y, th)) * h.count(neg)], [h.count([h.And(a, b == 0) for a, b in zip(neg, Y)])])


@HARNESSES(bounds="every threshold in [0,1/2]")
def rejections(h):
    t = h.real("t", (), 0, F(1, 2))
    for a in ((t, 0.9), (0.9, t)):
        bad, _ = h.raises(lambda: Cal().calibrate(jnp.array([1, 0]), jnp.array([0.8, 0.1]), *a), ValueError)
        h.check("rejected", bad)
