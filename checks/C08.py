"""One-shot multicalibration."""
from symx.api import Registry
from symx import spec
import jax.numpy as jnp
import numpy as np

from fortuna.conformal import OneShotBinaryClassificationMulticalibrator, OneShotMulticalibrator, OneShotTopLabelMulticalibrator

HARNESSES = Registry()
ASSUMPTIONS = ["real arithmetic instead of float32; values keep a 1e-3 distance from the bucket boundaries and from the midpoints between buckets; "
               "class probabilities differ by at least 1e-3"]
OUTSIDE = "more than 4 calibration points, 3 test values, 4 buckets, 3 classes; float rounding"


def away(h, xs, nb, eps=1e-3):
    w, grid = 0.5 / nb, np.linspace(0, 1, nb)
    pts = {round(float(b + s), 6) for b in grid for s in (w, -w)} | {round(float((a + b) / 2), 6) for a, b in zip(grid, grid[1:])}
    for x in xs:
        for p in pts:
            if 0 <= p <= 1:
                h.assume(h.Or(x - p >= eps, x - p <= -eps))


def expected(h, x, X, S, nb, minp, cond=None):
    """value given to a test value x: mean score of the calibration points of its nearest bucket"""
    grid, w = np.linspace(0, 1, nb), 0.5 / nb
    r = 0 * x
    for i, b0 in enumerate(grid):
        lo = (grid[i - 1] + b0) / 2 if i else -1
        hi = (grid[i + 1] + b0) / 2 if i < nb - 1 else 2
        near = h.And(x > float(lo), x < float(hi))
        inb = [h.And(v - float(b0) < w, float(b0) - v < w, True if cond is None else c) for v, c in zip(X, cond or [True] * len(X))]
        cnt = h.count(inb)
        tot = h.sum([h.ite(b, s, 0 * x) for b, s in zip(inb, S)])
        mean = 0 * x + float(b0)
        for k in range(1, len(X) + 1):
            if k / len(X) > minp + 1e-6:
                mean = h.ite(cnt == k, tot / k, mean)
        r = h.ite(near, mean, r)
    return r


def scalar(name, n, nt, nb, minp, cls=OneShotMulticalibrator, binary=False):
    @HARNESSES(name=name, bounds=f"{n} arbitrary calibration points, {nt} arbitrary test values, {nb} buckets, minimal probability {minp}", obl_timeout=60)
    def body(h):
        s = h.int("s", (n,), 0, 1) if binary else h.real("s", (n,), 0, 1)
        x, t = h.real("x", (n,), 0, 1), h.real("t", (nt,), 0, 1)
        S, X, Tv = list(h.arr(s)), list(h.arr(x)), list(h.arr(t))
        away(h, X + Tv, nb)
        if binary:
            h.assume(h.And(h.Or([a == 0 for a in S]), h.Or([a == 1 for a in S])))
        m = cls()
        snap = spec.snapshot(x)
        kw = {} if minp == "auto" else dict(min_prob_b=minp)
        if binary:
            r = m.calibrate(targets=s, probs=x, test_probs=t, n_buckets=nb, **kw)
        else:
            r = m.calibrate(scores=s, values=x, test_values=t, n_buckets=nb, **kw)
        spec.same(h, "values unchanged", x, snap)
        mp = 1 / nb if minp == "auto" else minp
        h.eq("calibrated values", r, [expected(h, v, X, S, nb, mp) for v in Tv])
        for v in h.arr(r):
            h.check("in the unit interval", h.And(v >= 0, v <= 1))
        # values of the same bucket get the same calibrated value, however they are batched
        h.eq("pointwise", h.arr(m.apply_patches(t[:1])), h.arr(r)[:1])


scalar("mean_of_bucket", 3, 2, 3, "auto")
scalar("min_prob", 3, 1, 2, 0.4)
scalar("min_prob_zero", 2, 2, 3, 0.0)
scalar("binary", 3, 1, 3, "auto", OneShotBinaryClassificationMulticalibrator, True)


def toplabel(name, n, nt, K, nb, minp):
    @HARNESSES(name=name, bounds=f"{n} calibration points, {nt} test points, {K} classes, {nb} buckets, minimal probability {minp}", obl_timeout=60, seconds=300)
    def body(h):
        y, p, q = h.int("y", (n,), 0, K - 1), h.real("p", (n, K), 0, 1), h.real("q", (nt, K), 0, 1)
        Y, P, Q = h.arr(y), h.arr(p), h.arr(q)
        for A in list(P) + list(Q):
            h.assume_eq(h.sum(A), 1)
            for a in range(K):
                for b in range(a):
                    h.assume(h.Or(A[a] - A[b] >= 1e-3, A[b] - A[a] >= 1e-3))
            away(h, A, nb)
        m = OneShotTopLabelMulticalibrator(n_classes=K)
        kw = {} if minp == "auto" else dict(min_prob_b=minp)
        r = h.arr(m.calibrate(targets=y, probs=p, test_probs=q, n_buckets=nb, **kw))
        mp = 1 / (nb * K) if minp == "auto" else minp
        top = lambda A, c: h.And([A[c] > A[k] for k in range(K) if k != c])
        for i in range(nt):
            for c in range(K):
                e = expected(h, Q[i][c], [A[c] for A in P], [h.ite(b == c, 1, 0) for b in Y], nb, mp, [top(A, c) for A in P])
                h.eq("only the top label changes", [r[i][c]], [h.ite(top(Q[i], c), e, Q[i][c])])


toplabel("top_label_2", 2, 1, 2, 3, "auto")
toplabel("top_label_2_two_points", 2, 2, 2, 2, 0.3)


@HARNESSES(bounds="3 classes, concrete calibration data, 1 arbitrary test point", obl_timeout=60)
def top_label_3(h):
    rng = np.random.default_rng(0)
    P0, y0, K, nb = rng.dirichlet([1, 1, 1], size=12).astype(np.float32), rng.integers(0, 3, 12), 3, 4
    m = OneShotTopLabelMulticalibrator(n_classes=K)
    m.calibrate(targets=jnp.asarray(y0), probs=jnp.asarray(P0), n_buckets=nb, min_prob_b=0.05)
    q = h.real("q", (2, K), 0, 1)
    Q = h.arr(q)
    for A in Q:
        h.assume_eq(h.sum(A), 1)
        for a in range(K):
            for b in range(a):
                h.assume(h.Or(A[a] - A[b] >= 1e-3, A[b] - A[a] >= 1e-3))
        away(h, A, nb)
    h.assume(h.And([h.Or(a - b >= 1e-3, b - a >= 1e-3) for a in Q[0] for b in Q[1]]))
    top = lambda A, c: h.And([A[c] > A[k] for k in range(K) if k != c])
    r = h.arr(m.apply_patches(q[:1]))
    for c in range(K):
        near = [i for i in range(12) if int(P0[i].argmax()) == c]
        e = expected(h, Q[0][c], [float(P0[i][c]) if i in near else -9.0 for i in range(12)], [float(v == c) for v in y0], nb, 0.05)
        h.eq("patched", [r[0][c]], [h.ite(top(Q[0], c), e, Q[0][c])])


@HARNESSES(bounds="1 to 3 arbitrary values: permuting, duplicating and splitting the batch gives the same values")
def batching(h):
    m = OneShotMulticalibrator()
    m.calibrate(scores=jnp.array([0.1, 0.9, 0.4, 0.8]), values=jnp.array([0.05, 0.5, 0.45, 0.95]), n_buckets=3, min_prob_b=0.1)
    t = h.real("t", (3,), 0, 1)
    T = list(h.arr(t))
    away(h, T, 3)
    r = h.arr(m.apply_patches(t))
    h.eq("reversed", h.arr(m.apply_patches(t[::-1]))[::-1], r)
    h.eq("alone", [h.arr(m.apply_patches(t[i:i + 1]))[0] for i in range(3)], r)
    h.eq("duplicated", h.arr(m.apply_patches(jnp.concatenate([t[:1], t[:1]]))), [r[0], r[0]])
    h.eq("expected", r, [expected(h, v, [0.05, 0.5, 0.45, 0.95], [0.1, 0.9, 0.4, 0.8], 3, 0.1) for v in T])


@HARNESSES(bounds="values and scores outside [0,1], missing values, wrong minimal probabilities, no calibration")
def edges(h):
    b = h.real("b", (2,), -1, 2)
    h.assume(h.Or([h.Or(v < 0, v > 1) for v in h.arr(b)]))
    e = h.real("e", (), -1, 2)
    h.assume(h.Or(h.val(e) < 0, h.val(e) > 1))
    s = jnp.array([0.2, 0.4])
    for kw in (dict(scores=s), dict(scores=b, values=s), dict(scores=s, values=b), dict(scores=s, values=s, test_values=b), dict(scores=s, test_values=s),
               dict(scores=s, values=s, min_prob_b=e), dict(scores=s[:, None], values=s), dict(scores=s, values=s[:, None])):
        bad, _ = h.raises(lambda: OneShotMulticalibrator().calibrate(**kw), ValueError)
        h.check("rejected", bad)
    h.eq("without calibration the values are returned", OneShotMulticalibrator().apply_patches(b), b)
