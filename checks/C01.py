"""Split conformal regression."""
from symx.api import Registry
from symx import spec
import jax.numpy as jnp
import numpy as np
from fractions import Fraction as F

from fortuna.conformal import OneDimensionalUncertaintyConformalRegressor, QuantileConformalRegressor

HARNESSES = Registry()
ASSUMPTIONS = ["real arithmetic instead of float32 (ties are allowed a 1e-6 margin)"]
OUTSIDE = "more than 7 validation points, more than 3 test points; float rounding"


def rank_obligations(h, s, q, n, e):
    """q lies between the k-th smallest score and the next one, k = ceil((n+1)(1-error))"""
    srt = spec.sort(h, s)
    k = h.ceil((n + 1) * (1 - e))
    covered = h.count([x <= q + 1e-6 for x in s])
    h.check("rank", h.Or(k > n, covered >= k))
    for j in range(1, n + 1):
        # when the rank is j (or beyond n) the quantile is at most the next order statistic
        nxt = srt[min(j, n - 1)]
        h.check("tight", h.Implies(k == j, q <= nxt + 1e-4))
    h.check("beyond", h.Implies(k > n, h.And(q <= srt[-1] + 1e-4, q >= srt[-1] - 1e-4)))


def margin(h, n, e):
    """the rank is at least 1e-3 away from the next rounding step (float rounding of (n+1)(1-error) is outside the claim)"""
    x = (n + 1) * (1 - e)
    for j in range(0, n + 2):
        h.assume(h.Or(x <= j - 0.001, x >= j + 0.001))


def mk_quantile(n):
    @HARNESSES(name=f"quantile_regressor_n{n}", bounds=f"n={n} validation points, values in [-4,4], every error in (0,1)", obl_timeout=60)
    def body(h):
        lo, up, y = h.real("lo", (n,)), h.real("up", (n,)), h.real("y", (n, 1))
        err = h.real("err", (), 0, 1)
        e = h.val(err)
        margin(h, n, e)
        c = QuantileConformalRegressor()
        s = c.score(lo, up, y)
        L, U, Y = h.arr(lo), h.arr(up), h.arr(y)[:, 0]
        h.shape("score.shape", s, (n,))
        S = h.arr(s)
        h.eq("score", s, [h.max([L[i] - Y[i], Y[i] - U[i]]) for i in range(n)])
        q = c.quantile(lo, up, y, err)
        rank_obligations(h, list(S), h.val(q), n, e)
        q2 = c.quantile(None, None, None, err, scores=s)
        h.eq("given scores", q2, q)


def mk_onedim(n):
    @HARNESSES(name=f"onedim_regressor_n{n}", bounds=f"n={n} validation points, predictions in [-4,4], uncertainties in [1/8,4], every error in (0,1)", obl_timeout=60)
    def body(h):
        p, u, y = h.real("p", (n, 1)), h.real("u", (n, 1), F(1, 8), 4), h.real("y", (n, 1))
        err = h.real("err", (), 0, 1)
        e = h.val(err)
        margin(h, n, e)
        c = OneDimensionalUncertaintyConformalRegressor()
        s = c.score(p, u, y)
        h.shape("score.shape", s, (n,))
        P, U, Y, S = h.arr(p)[:, 0], h.arr(u)[:, 0], h.arr(y)[:, 0], h.arr(s)
        for i in range(n):
            h.eq("score", S[i] * U[i], abs(Y[i] - P[i]))
        # the scores are replaced by arbitrary non-negative ones for the rank part
        sc = h.real("s", (n,), 0, 8)
        q = c.quantile(None, None, None, err, scores=sc)
        rank_obligations(h, list(h.arr(sc)), h.val(q), n, e)


for _n in (1, 2, 4, 6):
    mk_quantile(_n)
for _n in (1, 3, 5):
    mk_onedim(_n)


@HARNESSES(bounds="n=3 validation points, 3 test points, 1-d and 2-d bounds, error in {0.1, 0.3, 0.5}, quantile given or computed")
def interval_quantile(h):
    n, m = 3, 3
    lo, up, y = h.real("lo", (n,)), h.real("up", (n,)), h.real("y", (n, 1))
    tl, tu = h.real("tl", (m,)), h.real("tu", (m,))
    c = QuantileConformalRegressor()
    for err in (0.3, 0.5):
        q = h.val(c.quantile(lo, up, y, err))
        for two_d in (False, True):
            f = (lambda a: a[:, None]) if two_d else (lambda a: a)
            ci = c.conformal_interval(f(lo), f(up), f(tl), f(tu), y, err)
            h.shape("shape", ci, (m, 2))
            C, TL, TU = h.arr(ci), h.arr(tl), h.arr(tu)
            h.eq("low", C[:, 0], [TL[i] - q for i in range(m)])
            h.eq("high", C[:, 1], [TU[i] + q for i in range(m)])
    qq = h.real("q", (), -2, 4)
    C = h.arr(c.conformal_interval(lo, up, tl, tu, y, 0.3, quantile=qq))
    Q = h.val(qq)
    h.eq("given.low", C[:, 0], [TL[i] - Q for i in range(m)])
    h.eq("given.high", C[:, 1], [TU[i] + Q for i in range(m)])
    # a validation target is inside the interval inflated by q exactly when its score is at most q
    V = c.conformal_interval(lo, up, lo, up, y, 0.3, quantile=qq)
    inside = h.arr(c.is_in(y[:, 0], V))
    L, U, Y = h.arr(lo), h.arr(up), h.arr(y)[:, 0]
    for i in range(n):
        cov = h.max([L[i] - Y[i], Y[i] - U[i]])
        h.check("inside", h.Implies(cov <= Q - 1e-4, inside[i]))
        h.check("outside", h.Implies(inside[i], cov <= Q + 1e-4))


@HARNESSES(bounds="n=3 validation points, 3 test points, error in {0.3, 0.5}, quantile given or computed")
def interval_onedim(h):
    n, m = 3, 3
    p, u, y = h.real("p", (n, 1)), h.real("u", (n, 1), F(1, 8), 4), h.real("y", (n, 1))
    tp, tu = h.real("tp", (m, 1)), h.real("tu", (m, 1), F(1, 8), 4)
    c = OneDimensionalUncertaintyConformalRegressor()
    qq = h.real("q", (), 0, 8)
    for kw in (dict(quantile=qq), dict()):
        err = 0.3
        ci = c.conformal_interval(p, u, tp, tu, y, err, **kw)
        Q = h.val(qq) if kw else h.val(c.quantile(p, u, y, err))
        h.shape("shape", ci, (m, 2))
        C, TP, TU = h.arr(ci), h.arr(tp)[:, 0], h.arr(tu)[:, 0]
        h.eq("low", C[:, 0], [TP[i] - TU[i] * Q for i in range(m)])
        h.eq("high", C[:, 1], [TP[i] + TU[i] * Q for i in range(m)])
    V = c.conformal_interval(p, u, p, u, y, 0.3, quantile=qq)
    inside = h.arr(c.is_in(y[:, 0], V))
    P, U, Y, Q = h.arr(p)[:, 0], h.arr(u)[:, 0], h.arr(y)[:, 0], h.val(qq)
    for i in range(n):
        h.check("inside", h.Implies(abs(Y[i] - P[i]) <= U[i] * Q - 1e-4, inside[i]))
        h.check("outside", h.Implies(inside[i], abs(Y[i] - P[i]) <= U[i] * Q + 1e-4))


@HARNESSES(bounds="3 values, 3 intervals")
def membership(h):
    v, iv = h.real("v", (3,)), h.real("iv", (3, 2))
    r = h.arr(QuantileConformalRegressor().is_in(v, iv))
    V, I = h.arr(v), h.arr(iv)
    for i in range(3):
        h.check("in", h.Implies(h.And(I[i, 0] <= V[i], V[i] <= I[i, 1]), r[i]))
        h.check("out", h.Implies(r[i], h.And(I[i, 0] <= V[i], V[i] <= I[i, 1])))


@HARNESSES(bounds="every error outside [0,1] in [-2,3]; a non-positive uncertainty at any of 2 positions")
def rejections(h):
    lo, up, y = h.real("lo", (2,)), h.real("up", (2,)), h.real("y", (2, 1))
    err = h.real("err", (), -2, 3)
    e = h.val(err)
    h.assume(h.Or(e < 0, e > 1))
    bad, _ = h.raises(lambda: QuantileConformalRegressor().quantile(lo, up, y, err), ValueError)
    h.check("error rejected", bad)
    u = h.real("u", (2, 1), -1, 2)
    U = h.arr(u)[:, 0]
    h.assume(h.Or(U[0] <= 0, U[1] <= 0))
    c = OneDimensionalUncertaintyConformalRegressor()
    bad, _ = h.raises(lambda: c.score(y, u, y), ValueError)
    h.check("uncertainty rejected", bad)
    bad, _ = h.raises(lambda: c.quantile(y, jnp.ones((2, 1)), y, err), ValueError)
    h.check("error rejected onedim", bad)
    bad, _ = h.raises(lambda: c.conformal_interval(y, jnp.ones((2, 1)), y, u, y, 0.3, quantile=1.0), ValueError)
    h.check("test uncertainty rejected", bad)
