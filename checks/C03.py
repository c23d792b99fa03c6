"""EnbPI."""
import itertools

from symx.api import Registry
from symx import spec
import jax.numpy as jnp
import numpy as np
from fractions import Fraction as F

from fortuna.conformal import EnbPI

HARNESSES = Registry()
ASSUMPTIONS = ["real arithmetic instead of float32", "the bootstrap index tables are the listed concrete ones; predictions and targets are arbitrary"]
OUTSIDE = "more than 4 training times, more than 3 bootstraps, other bootstrap index tables and error levels; float rounding"


def mean(h, xs):
    xs = list(xs)
    return h.sum(xs) / len(xs)


def mx(h, xs):
    return h.max(list(xs))


def mk(name, idx, m, err, three_d, agg):
    B, n = len(idx), len(idx[0])

    @HARNESSES(name=name, npmode=True, bounds=f"bootstrap indices {idx}, {m} test times, error={err}", obl_timeout=60)
    def body(h):
        s = (lambda *a: a + (1,)) if three_d else (lambda *a: a)
        tr, te, y = h.real("tr", s(B, n), np=True), h.real("te", s(B, m), np=True), h.real("y", s(n), np=True)
        e = float(err)
        c = EnbPI() if agg == "mean" else EnbPI(aggregation_fun=lambda x: jnp.max(x, 0))
        A = mean if agg == "mean" else mx
        TR, TE, Y = h.arr(tr).reshape(B, n), h.arr(te).reshape(B, m), h.arr(y).reshape(n)
        ci, res = c.conformal_interval(np.array(idx), tr, te, y, e, return_residuals=True)
        only = c.conformal_interval(np.array(idx), tr, te, y, e)
        h.shape("shape", ci, (m, 2))
        h.shape("residual shape", res, (n,))
        R, P = [], []
        for t in range(n):
            out = [b for b in range(B) if t not in idx[b]]
            if out:
                R.append(abs(Y[t] - A(h, [TR[b, t] for b in out])))
                P.append([A(h, [TE[b, k] for b in out]) for k in range(m)])
            else:
                R.append(abs(Y[t]))
                P.append([0 * Y[t]] * m)
        h.eq("residuals", res, R)
        q = spec.lin_quantile(h, R, 1 - err)
        C = h.arr(ci)
        cen = [spec.lin_quantile(h, [P[t][k] for t in range(n)], 1 - err) for k in range(m)]
        h.eq("low", C[:, 0], [c_ - q for c_ in cen])
        h.eq("high", C[:, 1], [c_ + q for c_ in cen])
        h.eq("same intervals without residuals", only, ci)


mk("batch_2x3", [[0, 0, 1], [2, 2, 1]], 2, F(1, 10), False, "mean")
mk("batch_3x3", [[0, 1, 1], [1, 2, 2], [0, 0, 0]], 1, F(1, 4), True, "mean")
mk("batch_2x4_in_all", [[0, 1, 1, 3], [1, 3, 0, 0]], 1, F(1, 2), False, "mean")
mk("batch_3x3_max", [[0, 1, 1], [1, 2, 2], [0, 0, 0]], 1, F(1, 4), False, "max")
mk("batch_2x2", [[1, 1], [0, 1]], 3, F(1, 20), True, "mean")


@HARNESSES(npmode=True, bounds="every bootstrap index table of 2 bootstraps over 3 training times, 1 test time, error 0.25", obl_timeout=60)
def every_table_2x3(h):
    B, n = 2, 3
    idx = h.int("idx", (B, n), 0, n - 1, np=True)
    tr, te, y = h.real("tr", (B, n), np=True), h.real("te", (B, 1), np=True), h.real("y", (n,), np=True)
    ci, res = EnbPI().conformal_interval(idx, tr, te, y, 0.25, return_residuals=True)
    I, TR, TE, Y = h.arr(idx), h.arr(tr), h.arr(te), h.arr(y)
    R, P = [], []
    for t in range(n):
        out = [h.branch(h.And([I[b, j] != t for j in range(n)])) for b in range(B)]
        w = [b for b in range(B) if out[b]]
        R.append(abs(Y[t] - mean(h, [TR[b, t] for b in w])) if w else abs(Y[t]))
        P.append(mean(h, [TE[b, 0] for b in w]) if w else 0 * Y[t])
    h.eq("residuals", res, R)
    q = spec.lin_quantile(h, R, F(3, 4))
    c = spec.lin_quantile(h, P, F(3, 4))
    C = h.arr(ci)
    h.eq("interval", [C[0, 0], C[0, 1]], [c - q, c + q])


def online(name, n, B, k, m, err, three_d, agg="mean"):
    @HARNESSES(name=name, npmode=True, bounds=f"{n} residuals, batch of {k} new points, {B} bootstraps, {m} test times, error={err}", obl_timeout=60)
    def body(h):
        s = (lambda *a: a + (1,)) if three_d else (lambda *a: a)
        res = h.real("res", (n,), 0, 4, np=True)
        tr, te, y = h.real("tr", s(B, k), np=True), h.real("te", s(B, m), np=True), h.real("y", s(k), np=True)
        c = EnbPI() if agg == "mean" else EnbPI(aggregation_fun=lambda x: jnp.max(x, 0))
        A = mean if agg == "mean" else mx
        R0 = list(h.arr(res))
        snap = spec.snapshot(res)
        ci, new = c.conformal_interval_from_residuals(res, tr, te, y, float(err))
        spec.same(h, "given residuals unchanged", res, snap)
        TR, TE, Y = h.arr(tr).reshape(B, k), h.arr(te).reshape(B, m), h.arr(y).reshape(k)
        R = (R0 + [abs(Y[i] - A(h, TR[:, i])) for i in range(k)])[-n:]
        h.shape("residual window", new, (n,))
        h.eq("residuals", new, R)
        q = spec.lin_quantile(h, R, 1 - err)
        C = h.arr(ci)
        h.shape("shape", ci, (m, 2))
        h.eq("low", C[:, 0], [A(h, TE[:, j]) - q for j in range(m)])
        h.eq("high", C[:, 1], [A(h, TE[:, j]) + q for j in range(m)])


online("online_1", 3, 2, 1, 2, F(1, 10), False)
online("online_2", 4, 2, 2, 1, F(1, 4), True)
online("online_3_of_3", 3, 2, 3, 1, F(1, 4), False)
online("online_more_than_window", 2, 2, 3, 1, F(1, 5), False)
online("online_max", 3, 3, 1, 2, F(1, 2), False, "max")


@HARNESSES(npmode=True, bounds="2 successive online updates, 3 residuals, 2 bootstraps")
def online_history(h):
    res = h.real("res", (3,), 0, 4, np=True)
    R = list(h.arr(res))
    c = EnbPI()
    for step in range(2):
        tr, te, y = h.real("tr", (2, 1), np=True), h.real("te", (2, 1), np=True), h.real("y", (1,), np=True)
        ci, res = c.conformal_interval_from_residuals(res, tr, te, y, 0.25)
        R = R[1:] + [abs(h.arr(y)[0] - mean(h, h.arr(tr)[:, 0]))]
        h.eq("window", res, R)
        q = spec.lin_quantile(h, R, F(3, 4))
        h.eq("interval", h.arr(ci)[0], [mean(h, h.arr(te)[:, 0]) - q, mean(h, h.arr(te)[:, 0]) + q])


@HARNESSES(npmode=True, bounds="index tables with one arbitrary entry in [-2,4] for 3 training times; mismatched shapes")
def rejections(h):
    i = h.int("i", (), -2, 4)
    v = h.val(i)
    h.assume(h.Or(v < 0, v > 2))
    tr, te, y = h.real("tr", (2, 3), np=True), h.real("te", (2, 1), np=True), h.real("y", (3,), np=True)
    idx = jnp.array([[0, 1, i], [2, 1, 0]])
    c = EnbPI()
    bad, _ = h.raises(lambda: c.conformal_interval(idx, tr, te, y, 0.1), ValueError)
    h.check("index rejected", bad)
    ok = np.array([[0, 1, 1], [2, 1, 0]])
    w = h.real("w", (2, 3, 2), np=True)
    for a in ((ok, tr[:1], te, y), (ok, tr[:, :2], te, y), (ok, tr, te[:1], y), (ok, tr, te, y[:2]), (ok, w, te, y), (ok, tr, w, y), (ok, tr, te, w[0].T)):
        bad, _ = h.raises(lambda: c.conformal_interval(*a, 0.1), ValueError)
        h.check("shape rejected", bad)
