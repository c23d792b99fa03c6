"""Metrics for classification."""
from symx.api import Registry
from symx import spec
import jax.numpy as jnp
import numpy as np

from fortuna.data.loader import TargetsLoader
from fortuna.metric.classification import (accuracy, brier_score, compute_counts_confs_accs, ece, expected_calibration_error, maximum_calibration_error, mce)

HARNESSES = Registry()
ASSUMPTIONS = ["real arithmetic instead of float32; confidences keep a 1e-4 distance from the bin edges"]
OUTSIDE = "more than 3 data points and 3 classes; plotting; float rounding"


def away(h, xs, pts, eps=1e-4):
    for x in xs:
        for p in pts:
            h.assume(h.Or(x - float(p) >= eps, x - float(p) <= -eps))


def bins(name, n, K, lo=0, extra=()):
    @HARNESSES(name=name, bounds=f"{n} points, " + (f"{K} class probabilities in [{lo},1]" if K else f"confidences in [{lo},1]") + ", arbitrary predictions and targets", seconds=300)
    def body(h):
        y, t = h.int("y", (n,), 0, 1), h.int("t", (n,), 0, 1)
        p = h.real("p", (n, K) if K else (n,), lo, 1)
        P = h.arr(p)
        C = [h.max(list(r)) for r in P] if K else list(P)
        edges = np.linspace(1 / n, 1, 10)
        away(h, C, edges[:-1])
        Y, T = h.arr(y), h.arr(t)
        counts, confs, accs = compute_counts_confs_accs(y, p, t)
        N, F, A = h.arr(counts), h.arr(confs), h.arr(accs)
        h.check("ten bins", len(N) == 10)
        h.check("every point in one bin", h.sum(list(N)) == n)
        gaps, tot = [], 0
        for b in range(10):
            inb = [h.And(c <= float(edges[b]), True if b == 0 else c > float(edges[b - 1])) for c in C]
            k = h.count(inb)
            h.check("count", N[b] == k)
            h.check("mean confidence", h.And(F[b] * k - h.sum([h.ite(m, c, 0 * c) for m, c in zip(inb, C)]) <= 1e-4, F[b] * k - h.sum([h.ite(m, c, 0 * c) for m, c in zip(inb, C)]) >= -1e-4))
            right = h.count([h.And(m, Y[i] == T[i]) for i, m in enumerate(inb)])
            h.check("accuracy", h.And(A[b] * k - right <= 1e-4, A[b] * k - right >= -1e-4))
            h.check("empty bins are zero", h.Implies(k == 0, h.And(A[b] == 0, F[b] == 0)))
            g = h.max([A[b] - F[b], F[b] - A[b]])
            gaps.append(g)
            tot = tot + N[b] * g
        e, m = h.val(expected_calibration_error(y, p, t)), h.val(maximum_calibration_error(y, p, t))
        h.eq("ECE weighs gaps by bin frequency", [e * n], [tot])
        h.eq("MCE is the largest gap", [m], [h.max(gaps)])
        h.check("errors are in the unit interval and ordered", h.And(e >= -1e-5, m <= 1 + 1e-5, e <= m + 1e-5))
        h.eq("ece", [h.val(ece(y, p, t))], [e])
        h.eq("mce", [h.val(mce(y, p, t))], [m])


bins("bins_1", 1, 0)
bins("bins_2", 2, 0)
bins("bins_2x2", 2, 2, 0.5)
bins("bins_3", 3, 0, 0.75)


@HARNESSES(bounds="3 points, 3 classes, arbitrary predictions and targets")
def accuracy_(h):
    y, t = h.int("y", (3,), 0, 2), h.int("t", (3,), 0, 2)
    h.eq("fraction of hits", [h.val(accuracy(y, t)) * 3], [h.count([a == b for a, b in zip(h.arr(y), h.arr(t))])])
    for a, b in ((y[None], t), (y, t[None])):
        bad, _ = h.raises(lambda: accuracy(a, b), ValueError)
        h.check("shapes are validated", bad)


@HARNESSES(bounds="2 points, 3 classes; 3 binary points; targets given as an array or as a loader of batches of size 2", obl_timeout=60)
def brier(h):
    p, t = h.real("p", (2, 3), 0, 1), h.int("t", (2,), 0, 2)
    P, T = h.arr(p), h.arr(t)
    ref = h.sum([(P[i, k] - h.ite(T[i] == k, 1, 0)) * (P[i, k] - h.ite(T[i] == k, 1, 0)) for i in range(2) for k in range(3)])
    h.eq("multi-class", [2 * h.val(brier_score(p, t))], [ref])
    q, b = h.real("q", (3,), 0, 1), h.int("b", (3,), 0, 1)
    Q, B = h.arr(q), h.arr(b)
    h.eq("binary", [3 * h.val(brier_score(q, b))], [h.sum([(x - y) * (x - y) for x, y in zip(Q, B)])])
    conc = np.array([1, 0, 1])
    l = TargetsLoader.from_array_targets(conc, batch_size=2)
    h.eq("loader", [3 * h.val(brier_score(q, l))], [h.sum([(x - float(y)) * (x - float(y)) for x, y in zip(Q, conc)])])
    bad, _ = h.raises(lambda: brier_score(p[None], t), ValueError)
    h.check("shapes are validated", bad)
    h.check("in range", h.And(h.val(brier_score(q, b)) >= 0, h.val(brier_score(q, b)) <= 1 + 1e-6))
