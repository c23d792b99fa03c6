"""Iterative multicalibration."""
from symx.api import Registry
from symx import spec
import jax
import jax.numpy as jnp
import numpy as np
from fractions import Fraction as F

from fortuna.conformal import BinaryClassificationMulticalibrator, Multicalibrator, TopLabelMulticalibrator
import fortuna.conformal.multivalid.iterative.base as mb

HARNESSES = Registry()
STUBS = ["the builtin float() applied to the losses is the identity on symbolic values"]
ASSUMPTIONS = ["real arithmetic instead of float32; values keep a 1e-3 distance from the bucket boundaries",
               "the calibration/validation permutation is the concrete one drawn from the seed"]
OUTSIDE = "more than 4 data points, 4 buckets, 2 rounds with symbolic calibration data; float rounding"


def nofloat(h):
    h.patch(mb, "float", (lambda x: x) if h.sym else float)


def perm(n, split, seed=0):
    k = int(np.ceil(split * n))
    p = [int(i) for i in jax.random.choice(jax.random.PRNGKey(seed), n, shape=(n,), replace=False)]
    return p[:k], p[k:]


def member(h, t, x, v, nb):
    w = 0.5 / nb
    return {"=": h.And(x - v < w, v - x < w), ">=": x + w >= v, "<=": x - w <= v}[t]


def away(h, xs, nb, eps=1e-3):
    w = 0.5 / nb
    for x in xs:
        for b in np.linspace(0, 1, nb):
            for s in (w, -w):
                h.assume(h.Or(x - float(b) - s >= eps, x - float(b) - s <= -eps))


def clip(h, x):
    return h.min([h.max([x, 0 * x]), 0 * x + 1])


def mse(h, v, s):
    return h.sum([(a - b) * (a - b) for a, b in zip(v, s)]) / len(v)


def apply_ref(h, m, t, patches, G, X, nb, eta, kind="additive"):
    X = list(X)
    for tau, g, v, c, patch in patches:
        v_, p_ = h.val(v), h.val(patch)
        g_ = int(g)
        for i in range(len(X)):
            inb = h.And(member(h, t, X[i], v_, nb), G[i][g_])
            new = X[i] + eta * p_ if kind == "additive" else X[i] * (1 - eta * (1 - p_))
            X[i] = h.ite(inb, clip(h, new), X[i])
    return X


# ---------------------------------------------------------------- patches found on concrete data, applied to arbitrary values
CAL = dict(scores=np.array([0.1, 0.9, 0.4, 0.8, 0.2, 0.6, 0.95, 0.3], dtype=np.float32), values=np.array([0.3, 0.5, 0.5, 0.6, 0.4, 0.2, 0.7, 0.1], dtype=np.float32))
GR = np.array([[1, 0], [1, 1], [0, 1], [1, 1], [0, 1], [1, 0], [1, 1], [1, 0]], dtype=bool)


def fixed(t, kind, eta):
    @HARNESSES(name=f"apply_{dict(zip(('=', '>=', '<='), ('eq', 'ge', 'le')))[t]}_{kind}", bounds=f"patches of up to 3 rounds found on 8 fixed points with 2 groups, bucket type {t}, {kind}, step {eta}; 2 arbitrary values in [0,1] in arbitrary groups", obl_timeout=60)
    def body(h):
        nb = 4
        m = Multicalibrator()
        m.calibrate(scores=jnp.asarray(CAL["scores"]), groups=jnp.asarray(GR), values=jnp.asarray(CAL["values"]), n_buckets=nb, n_rounds=3, eta=eta, split=0.75,
                    bucket_types=(t,), patch_type=kind, min_prob_b=0.1)
        h.check("found patches", 1 <= len(m.patches) <= 3)
        x, g = h.real("x", (2,), 0, 1), h.bool("g", (2, 2))
        X, G = list(h.arr(x)), h.arr(g)
        # keep away from the boundary at every step
        Y = X
        for p in m.patches:
            away(h, Y, nb)
            Y = apply_ref(h, m, t, [p], G, Y, nb, eta, kind)
        snap = spec.snapshot(x)
        r = m.apply_patches(g, x)
        spec.same(h, "input unchanged", x, snap)
        h.eq("patched values", r, Y)
        R = h.arr(r)
        for i in range(2):
            h.check("in the unit interval", h.And(R[i] >= 0, R[i] <= 1))
        h.eq("pointwise", h.arr(m.apply_patches(g[:1], x[:1])), R[:1])


fixed(">=", "additive", 1.0)
fixed("<=", "additive", 0.5)
fixed("=", "additive", 1.0)
fixed("<=", "multiplicative", 0.5)


# ---------------------------------------------------------------- one round
def one_round(name, t, nb, eta, split, groups, minp, kind="additive", values=None, scores=None):
    n = len(groups)
    what = f"{n} arbitrary scores, values {values}" if scores is None else f"{n} arbitrary values in their buckets, scores {scores}"

    @HARNESSES(name=name, bounds=f"{what}, split {split}, {nb} buckets of type {t}, 1 round, {kind}, step {eta}, groups {groups}", obl_timeout=30, seconds=200, branch_timeout=2000)
    def body(h):
        nofloat(h)
        if scores is None:
            s, X = h.real("s", (n,), 0, 1), [float(np.float32(v)) for v in values]
            x = jnp.asarray(np.array(values, dtype=np.float32))
            S = list(h.arr(s))
        else:
            x, S = h.real("x", (n,), 0, 1), [float(np.float32(v)) for v in scores]
            s = jnp.asarray(np.array(scores, dtype=np.float32))
            X = list(h.arr(x))
            for xi, v in zip(X, values):
                h.assume(h.And(xi >= v - 0.04, xi <= v + 0.04))
        m = Multicalibrator()
        G = np.array(groups, dtype=bool)
        st = m.calibrate(scores=s, groups=jnp.asarray(G), values=x, n_buckets=nb, n_rounds=1, eta=eta, split=split, bucket_types=(t,), patch_type=kind, min_prob_b=minp, atol=1e-3)
        cal, val = perm(n, split)
        L = [h.val(l) for l in st["losses"]]
        h.eq("initial validation loss", [L[0]], [mse(h, [X[i] for i in val], [S[i] for i in val])])
        h.check("rounds reported", st["n_rounds"] == len(m.patches) and len(m.patches) <= 1)
        if len(m.patches) == 0:
            return
        (tau, g, v, c, patch), = m.patches
        v_, p_ = h.val(v), h.val(patch)
        ng = G.shape[1]

        def bucket(b0, gi, idx=cal):
            inb = [h.And(member(h, t, X[i], b0, nb), bool(G[i, gi])) for i in idx]
            return inb, h.count(inb), h.sum([h.ite(b, S[i] - X[i], 0 * S[i]) for b, i in zip(inb, idx)])

        gridv = [float(b) for b in np.linspace(0, 1, nb)]
        h.check("patched bucket is on the grid", h.Or([h.And(v_ - b < 1e-4, b - v_ < 1e-4) for b in gridv]))
        for gi in range(ng):
            for b0 in gridv:
                here = h.And(h.val(g) == gi, v_ - b0 < 1e-4, b0 - v_ < 1e-4)
                inb, cnt, gap = bucket(b0, gi)
                moves = h.Or(gap > 1e-3, gap < -1e-3)
                # the patched set is populated and the patch moves its mean to the mean score
                h.check("only populated sets are patched", h.Implies(h.And(here, h.Or(p_ > 1e-3, p_ < -1e-3) if kind == "additive" else moves), h.And(cnt >= 1, cnt >= minp * len(cal) - 1e-4)))
                if kind == "additive":
                    h.check("patch is the mean gap", h.Implies(h.And(here, cnt >= 1), h.And(p_ * cnt - gap <= 1e-3, p_ * cnt - gap >= -1e-3)))
                else:
                    dx = h.sum([h.ite(b, X[i], 0 * S[i]) for b, i in zip(inb, cal)])
                    h.check("patch is the ratio", h.Implies(h.And(here, cnt >= 1, dx >= 1e-3), h.And(p_ * dx - gap - dx <= 1e-3, p_ * dx - gap - dx >= -1e-3)))
                for gj in range(ng):
                    for b1 in gridv:
                        _, cj, gapj = bucket(b1, gj)
                        if (b1, gj) != (b0, gi):
                            h.check("worst populated set first", h.Implies(h.And(here, cj >= minp * len(cal) + 1e-4, cj >= 1), gapj * gapj * cnt <= gap * gap * cj + 1e-3))
        # the loss reported for the accepted round is the one of the patched validation data
        new = []
        for i in val:
            inb = h.Or([h.And(h.val(g) == gi, member(h, t, X[i], v_, nb)) for gi in range(ng) if G[i, gi]])
            nx = X[i] + eta * p_ if kind == "additive" else X[i] * (1 - eta * (1 - p_))
            new.append(h.ite(inb, clip(h, nx), X[i]))
        h.eq("reported loss", [L[1]], [mse(h, new, [S[i] for i in val])])
        h.check("validation loss does not increase", h.Or(L[1] <= L[0] + 1e-5, L[1] <= 1e-3 + 1e-6))
        h.check("converged within tolerance", h.Implies(L[1] <= 1e-3 - 1e-5, st["converged"] is True))


ONE4 = [[1]] * 4
one_round("one_round_ge_scores", ">=", 2, 0.5, 0.7, ONE4, 0.3, values=[0.1, 0.9, 0.2, 0.8])
one_round("one_round_le_groups", "<=", 2, 1.0, 0.7, [[1, 0], [1, 1], [0, 1], [1, 1]], 0.3, values=[0.1, 0.9, 0.2, 0.8])
one_round("one_round_eq_scores", "=", 3, 1.0, 0.7, ONE4, 0.2, values=[0.05, 0.9, 0.45, 0.55])
one_round("one_round_mult", "<=", 2, 0.5, 0.7, ONE4, 0.3, "multiplicative", values=[0.1, 0.9, 0.2, 0.8])
one_round("one_round_ge_values", ">=", 2, 0.5, 0.7, ONE4, 0.3, values=[0.1, 0.9, 0.2, 0.8], scores=[0.5, 0.3, 0.9, 0.1])
one_round("one_round_eq_values", "=", 2, 1.0, 0.7, [[1, 0], [1, 1], [0, 1], [1, 1]], 0.2, values=[0.1, 0.9, 0.2, 0.8], scores=[0.5, 0.3, 0.9, 0.1])


def cal_error(name, values):
    @HARNESSES(name=name, bounds=f"reported calibration error of 3 arbitrary scores, values {values}, 3 buckets, 2 groups of every membership (non-empty)", obl_timeout=30)
    def body(h):
        n, nb = 3, 3
        s, g = h.real("s", (n,), 0, 1), h.bool("g", (n, 2))
        S, G, X = h.arr(s), h.arr(g), [float(np.float32(v)) for v in values]
        for j in range(2):
            h.assume(h.Or(list(G[:, j])))
        e = Multicalibrator().calibration_error(s, g, jnp.asarray(np.array(values, dtype=np.float32)), n_buckets=nb)
        h.shape("one error per group", e, (2,))
        E_ = h.arr(e)
        for j in range(2):
            for k in range(8):       # every membership of the group
                mem = [bool(k >> i & 1) for i in range(n)]
                if not any(mem):
                    continue
                tot = 0
                for b0 in np.linspace(0, 1, nb):
                    ib = [i for i in range(n) if mem[i] and abs(X[i] - b0) < 0.5 / nb]
                    if ib:
                        gap = h.sum([S[i] - X[i] for i in ib])
                        tot = tot + gap * gap / len(ib)
                d = E_[j] * sum(mem) - tot
                h.check("error of the group", h.Implies(h.And([G[i, j] if mem[i] else h.Not(G[i, j]) for i in range(n)]), h.And(d <= 1e-4, d >= -1e-4)))
            h.check("non-negative", E_[j] >= -1e-6)


cal_error("calibration_error_spread", [0.05, 0.6, 0.95])
cal_error("calibration_error_shared", [0.45, 0.55, 0.6])


@HARNESSES(bounds="2 arbitrary points, 3 classes: the patch of a class only touches the points for which it is the most probable", obl_timeout=60)
def top_label(h):
    nb = 4
    rng = np.random.default_rng(3)
    P0 = rng.dirichlet([1.0, 1.0, 1.0], size=10).astype(np.float32)
    y0 = np.array([0, 1, 2, 0, 1, 2, 2, 1, 0, 1])
    m = TopLabelMulticalibrator(n_classes=3)
    m.calibrate(targets=jnp.asarray(y0), probs=jnp.asarray(P0), n_buckets=nb, n_rounds=2, eta=0.5, split=0.8, bucket_types=(">=",), min_prob_b=0.05)
    h.check("found patches", len(m.patches) >= 1)
    p = h.real("p", (2, 3), 0, 1)
    P = h.arr(p)
    for i in range(2):
        h.assume_eq(h.sum(P[i]), 1)
    cur = [list(r) for r in P]
    for tau, g, v, c, patch in m.patches:
        c_ = int(c)
        for i in range(2):
            away(h, [cur[i][c_]], nb)
            for k in range(3):
                if k != c_:
                    h.assume(h.Or(cur[i][c_] - cur[i][k] >= 1e-3, cur[i][k] - cur[i][c_] >= 1e-3))
            top = h.And([cur[i][c_] > cur[i][k] for k in range(3) if k != c_])
            inb = h.And(top, member(h, ">=", cur[i][c_], h.val(v), nb))
            cur[i][c_] = h.ite(inb, clip(h, cur[i][c_] + 0.5 * h.val(patch)), cur[i][c_])
    r = m.apply_patches(probs=p)
    h.eq("patched", r, np.array(cur, dtype=object) if h.sym else cur)


@HARNESSES(bounds="losses of 3 arbitrary points, 1-d and 3x2 values")
def losses(h):
    x, s = h.real("x", (3,), 0, 1), h.real("s", (3,), 0, 1)
    m = Multicalibrator()
    h.eq("mean squared error", [h.val(m.mean_squared_error(x, s))], [mse(h, h.arr(x), h.arr(s))])
    h.eq("column scores", [h.val(m.mean_squared_error(x, s[:, None]))], [mse(h, h.arr(x), h.arr(s))])
    y = h.int("y", (3,), 0, 1)
    h.eq("binary", [h.val(BinaryClassificationMulticalibrator().mean_squared_error(x, y))], [mse(h, h.arr(x), h.arr(y))])
    p = h.real("p", (3, 2), 0, 1)
    P, Y = h.arr(p), h.arr(y)
    tot = h.sum([(P[i, k] - h.ite(Y[i] == k, 1, 0)) * (P[i, k] - h.ite(Y[i] == k, 1, 0)) for i in range(3) for k in range(2)])
    h.eq("top label", [h.val(TopLabelMulticalibrator(n_classes=2).mean_squared_error(p, y)) * 6], [tot])


@HARNESSES(bounds="no patches; no values given; missing or inconsistent arguments; values, scores outside [0,1]")
def edges(h):
    x = h.real("x", (2,), 0, 1)
    m = Multicalibrator()
    h.eq("no patches: unchanged", m.apply_patches(values=x), x)
    h.eq("no patches and no values: initial values", m.apply_patches(groups=jnp.ones((2, 1), dtype=bool)), [0.0, 0.0])
    s = jnp.array([0.2, 0.4, 0.9])
    bad_x = h.real("bx", (3,), -1, 2)
    B = h.arr(bad_x)
    h.assume(h.Or([h.Or(b < 0, b > 1) for b in B]))
    e = h.real("e", (), -1, 2)
    h.assume(h.Or(h.val(e) <= 0, h.val(e) > 1))
    g = jnp.ones((3, 1), dtype=bool)
    for kw in (dict(scores=bad_x), dict(scores=s, values=bad_x), dict(scores=s, values=s, test_values=bad_x), dict(scores=s, eta=e), dict(scores=s, split=e), dict(scores=s, n_rounds=0),
               dict(scores=s, test_values=s), dict(scores=s, test_groups=g), dict(scores=s, values=s, groups=g, test_groups=g), dict(scores=s, groups=g, values=s, test_values=s),
               dict(scores=s, bucket_types=(">",)), dict(scores=s, patch_type="none"), dict(scores=s, groups=g.astype(int)), dict(scores=s, groups=g[:, 0]), dict(scores=s[:, None, None])):
        bad, _ = h.raises(lambda: Multicalibrator().calibrate(**kw), ValueError)
        h.check("rejected", bad)
