"""BatchMVP."""
from symx.api import Registry
from symx import spec
import jax
import jax.numpy as jnp
import numpy as np

from fortuna.conformal import BatchMVPConformalClassifier, BatchMVPConformalRegressor
import fortuna.conformal.multivalid.iterative.base as mb

HARNESSES = Registry()
STUBS = ["the builtin float() applied to the losses is the identity on symbolic values"]
ASSUMPTIONS = ["real arithmetic instead of float32; scores keep a 1e-3 distance from the compared thresholds, thresholds from the bucket boundaries",
               "the calibration/validation permutation is the concrete one drawn from the seed"]
OUTSIDE = "more than 4 data points, 4 buckets; rounds beyond the first with symbolic calibration data; float rounding"


def perm(n, split, seed=0):
    k = int(np.ceil(split * n))
    p = [int(i) for i in jax.random.choice(jax.random.PRNGKey(seed), n, shape=(n,), replace=False)]
    return p[:k], p[k:]


def member(h, t, x, v, nb):
    w = 0.5 / nb
    return {"=": h.And(x - v < w, v - x < w), ">=": x + w >= v, "<=": x - w <= v}[t]


def apart(h, xs, pts, eps=1e-3):
    for x in xs:
        for p in pts:
            h.assume(h.Or(x - p >= eps, x - p <= -eps))


def bounds_of(nb):
    return [float(b + s) for b in np.linspace(0, 1, nb) for s in (0.5 / nb, -0.5 / nb)]


def pinball(h, V, S, cov):
    return h.sum([h.ite(s > v, cov * (s - v), (1 - cov) * (v - s)) for v, s in zip(V, S)]) / len(V)


def sets(name, n, k):
    @HARNESSES(name=name, bounds=f"{n} inputs, {k} labels, arbitrary scores and thresholds")
    def body(h):
        s, t = h.real("s", (n, k)), h.real("t", (n,))
        S, T = h.arr(s), h.arr(t)
        r = BatchMVPConformalClassifier.conformal_set(s, t)
        h.check("one set per input", len(r) == n)
        for i in range(n):
            h.check("labels are listed once", sorted(set(map(int, r[i]))) == sorted(map(int, r[i])))
            for c in range(k):
                h.check("exactly the labels under the threshold", (S[i, c] <= T[i]) if c in [int(v) for v in r[i]] else (S[i, c] > T[i]))


sets("set_1x2", 1, 2)
sets("set_2x2", 2, 2)
sets("set_3x1", 3, 1)
sets("set_2x3", 2, 3)


@HARNESSES(bounds="3 arbitrary points, arbitrary coverage level; 1-d and column scores", obl_timeout=60)
def pinball_loss(h):
    v, s, c = h.real("v", (3,), 0, 1), h.real("s", (3,), 0, 1), h.real("c", (), 0, 1)
    m = BatchMVPConformalRegressor()
    ref = pinball(h, h.arr(v), h.arr(s), h.val(c))
    h.eq("pinball loss", [h.val(m.pinball_loss(v, s, c))], [ref])
    h.eq("column scores", [h.val(m.pinball_loss(v, s[:, None], c))], [ref])
    h.check("non-negative", h.val(m.pinball_loss(v, s, c)) >= 0)


CAL = dict(scores=np.array([0.1, 0.9, 0.4, 0.8, 0.2, 0.6, 0.95, 0.3], dtype=np.float32), thresholds=np.array([0.3, 0.5, 0.5, 0.6, 0.4, 0.2, 0.7, 0.1], dtype=np.float32))
GR = np.array([[1, 0], [1, 1], [0, 1], [1, 1], [0, 1], [1, 0], [1, 1], [1, 0]], dtype=bool)


def clip(h, x):
    return h.min([h.max([x, 0 * x]), 0 * x + 1])


def fixed(t, eta, cov):
    @HARNESSES(name=f"apply_{dict(zip(('=', '>=', '<='), ('eq', 'ge', 'le')))[t]}", bounds=f"patches of up to 3 rounds found on 8 fixed points with 2 groups, bucket type {t}, step {eta}, coverage {cov}; 2 arbitrary thresholds in [0,1] in arbitrary groups", obl_timeout=60)
    def body(h):
        nb = 4
        m = BatchMVPConformalRegressor()
        m.calibrate(scores=jnp.asarray(CAL["scores"]), groups=jnp.asarray(GR), thresholds=jnp.asarray(CAL["thresholds"]), n_buckets=nb, n_rounds=3, eta=eta, split=0.75,
                    bucket_types=(t,), min_prob_b=0.1, coverage=cov)
        h.check("found patches", 1 <= len(m.patches) <= 3)
        x, g = h.real("x", (2,), 0, 1), h.bool("g", (2, 2))
        Y, G = list(h.arr(x)), h.arr(g)
        for tau, gi, v, c, patch in m.patches:
            apart(h, Y, bounds_of(nb))
            v_, p_ = float(v), float(patch)
            Y = [h.ite(h.And(member(h, t, Y[i], v_, nb), G[i][int(gi)]), clip(h, Y[i] + eta * p_), Y[i]) for i in range(2)]
        snap = spec.snapshot(x)
        r = h.arr(m.apply_patches(g, x))
        spec.same(h, "input unchanged", x, snap)
        h.eq("patched thresholds", r, Y)
        for v in r:
            h.check("in the unit interval", h.And(v >= 0, v <= 1))


fixed(">=", 1.0, 0.8)
fixed("<=", 0.5, 0.5)
fixed("=", 1.0, 0.9)


def err(name, thr, cov):
    @HARNESSES(name=name, bounds=f"3 arbitrary scores, thresholds {thr}, coverage {cov}, 3 buckets, 2 groups of every membership (non-empty)", obl_timeout=60)
    def body(h):
        n, nb = 3, 3
        s, g = h.real("s", (n,), 0, 1), h.bool("g", (n, 2))
        S, G, X = h.arr(s), h.arr(g), [float(np.float32(v)) for v in thr]
        for j in range(2):
            h.assume(h.Or(list(G[:, j])))
        for a, b in zip(S, X):
            apart(h, [a], [b])
        m = BatchMVPConformalRegressor()
        m._coverage = cov
        e = m.calibration_error(s, g, jnp.asarray(np.array(thr, dtype=np.float32)), n_buckets=nb)
        h.shape("one error per group", e, (2,))
        E_ = h.arr(e)
        for j in range(2):
            for k in range(8):
                mem = [bool(k >> i & 1) for i in range(n)]
                if not any(mem):
                    continue
                tot = 0
                for b0 in np.linspace(0, 1, nb):
                    ib = [i for i in range(n) if mem[i] and abs(X[i] - b0) < 0.5 / nb]
                    if ib:
                        c = h.count([S[i] <= X[i] for i in ib])
                        d = c - cov * len(ib)
                        tot = tot + d * d / len(ib)
                d = E_[j] * sum(mem) - tot
                h.check("error of the group", h.Implies(h.And([G[i, j] if mem[i] else h.Not(G[i, j]) for i in range(n)]), h.And(d <= 1e-4, d >= -1e-4)))


err("calibration_error_spread", [0.05, 0.6, 0.95], 0.8)
err("calibration_error_shared", [0.45, 0.55, 0.6], 0.5)


def one_round(name, t, nb, eta, split, groups, minp, cov, thresholds):
    n = len(groups)

    @HARNESSES(name=name, bounds=f"{n} arbitrary scores, thresholds {thresholds}, split {split}, {nb} buckets of type {t}, 1 round, step {eta}, coverage {cov}, groups {groups}", obl_timeout=30, seconds=240, branch_timeout=2000)
    def body(h):
        h.patch(mb, "float", (lambda x: x) if h.sym else float)
        s, X = h.real("s", (n,), 0, 1), [float(np.float32(v)) for v in thresholds]
        S = list(h.arr(s))
        grid = [float(b) for b in np.linspace(0, 1, nb)]
        deltas = [-b for b in grid[::-1][:-1]] + grid
        for a, b in zip(S, X):
            apart(h, [a], [b + d for d in deltas if -0.01 < b + d < 1.01])
        G = np.array(groups, dtype=bool)
        m = BatchMVPConformalRegressor()
        st = m.calibrate(scores=s, groups=jnp.asarray(G), thresholds=jnp.asarray(np.array(thresholds, dtype=np.float32)), n_buckets=nb, n_rounds=1, eta=eta, split=split,
                         bucket_types=(t,), min_prob_b=minp, coverage=cov, atol=1e-3)
        cal, val = perm(n, split)
        L = [h.val(l) for l in st["losses"]]
        h.eq("initial validation loss", [L[0]], [pinball(h, [X[i] for i in val], [S[i] for i in val], cov)])
        h.check("rounds reported", st["n_rounds"] == len(m.patches) and len(m.patches) <= 1)
        if len(m.patches) == 0:
            return
        (tau, g, v, c, patch), = m.patches
        v_, p_ = h.val(v), h.val(patch)
        h.check("patch on the grid", h.Or([h.And(p_ - d < 1e-4, d - p_ < 1e-4) for d in deltas]))
        for gi in range(G.shape[1]):
            for b0 in grid:
                here = h.And(h.val(g) == gi, v_ - b0 < 1e-4, b0 - v_ < 1e-4)
                ib = [i for i in cal if G[i, gi] and bool(member(_C, t, X[i], b0, nb))]
                if len(ib) < max(1, minp * len(cal) - 1e-6):
                    # an under-populated set is only selected when no populated set has any error
                    continue
                errs = []
                for d in deltas:
                    k = h.count([S[i] <= X[i] + d for i in ib])
                    errs.append((k - cov * len(ib)) * (k - cov * len(ib)))
                best = h.min(errs)
                for d, e in zip(deltas, errs):
                    h.check("the patch minimises the coverage gap of the set", h.Implies(h.And(here, p_ - d < 1e-4, d - p_ < 1e-4), e <= best + 1e-3))
                # worst populated set first
                k0 = h.count([S[i] <= X[i] for i in ib])
                e0 = (k0 - cov * len(ib)) * (k0 - cov * len(ib)) / len(ib)
                for gj in range(G.shape[1]):
                    for b1 in grid:
                        jb = [i for i in cal if G[i, gj] and bool(member(_C, t, X[i], b1, nb))]
                        if len(jb) >= 1 and len(jb) >= minp * len(cal) + 1e-6 and (gj, b1) != (gi, b0):
                            k1 = h.count([S[i] <= X[i] for i in jb])
                            e1 = (k1 - cov * len(jb)) * (k1 - cov * len(jb)) / len(jb)
                            h.check("worst set first", h.Implies(here, e1 <= e0 + 1e-3))
        new = []
        for i in val:
            inb = h.Or([h.And(h.val(g) == gi, member(h, t, X[i], v_, nb)) for gi in range(G.shape[1]) if G[i, gi]])
            new.append(h.ite(inb, clip(h, X[i] + eta * p_), X[i] + 0 * p_))
        h.eq("reported loss", [L[1]], [pinball(h, new, [S[i] for i in val], cov)])
        h.check("validation loss does not increase", h.Or(L[1] <= L[0] + 1e-5, L[1] <= 1e-3 + 1e-6))


class _C:
    And = staticmethod(lambda *a: all(a))


ONE4 = [[1]] * 4
one_round("one_round_ge", ">=", 2, 1.0, 0.7, ONE4, 0.3, 0.7, [0.1, 0.9, 0.2, 0.8])
one_round("one_round_le_groups", "<=", 3, 0.5, 0.7, [[1, 0], [1, 1], [0, 1], [1, 1]], 0.3, 0.6, [0.1, 0.9, 0.2, 0.8])
one_round("one_round_eq", "=", 3, 1.0, 0.7, ONE4, 0.2, 0.9, [0.05, 0.9, 0.45, 0.55])


@HARNESSES(bounds="coverage outside [0,1], thresholds outside [0,1], multiplicative patches, sets with wrong shapes")
def edges(h):
    e = h.real("e", (), -1, 2)
    h.assume(h.Or(h.val(e) < 0, h.val(e) > 1))
    b = h.real("b", (3,), -1, 2)
    h.assume(h.Or([h.Or(v < 0, v > 1) for v in h.arr(b)]))
    s = jnp.array([0.2, 0.4, 0.9])
    for kw in (dict(scores=s, coverage=e), dict(scores=s, thresholds=b)):
        bad, _ = h.raises(lambda: BatchMVPConformalRegressor().calibrate(**kw), ValueError)
        h.check("rejected", bad)
    bad, _ = h.raises(lambda: BatchMVPConformalRegressor().calibrate(scores=s, patch_type="multiplicative", n_buckets=3, n_rounds=1), NotImplementedError)
    h.check("multiplicative patches are refused", bad)
    f = BatchMVPConformalClassifier.conformal_set
    for a, t in ((s, s), (s[None], s[None]), (s[None], s)):
        bad, _ = h.raises(lambda: f(a, t), ValueError)
        h.check("shapes are validated", bad)
