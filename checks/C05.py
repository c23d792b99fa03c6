"""Conformal prediction sets for classification."""
from symx.api import Registry
from symx import spec
import jax.numpy as jnp
import numpy as np
from fractions import Fraction as F

from fortuna.conformal import (AdaptivePredictionConformalClassifier, CVPlusAdaptivePredictionConformalClassifier,
                               CVPlusSimplePredictionConformalClassifier, SimplePredictionConformalClassifier)

HARNESSES = Registry()
ASSUMPTIONS = ["real arithmetic instead of float32", "probabilities of one data point are pairwise different by 1e-3 where labels are ranked (adaptive scores)"]
OUTSIDE = "more than 4 validation points, 3 labels, 2 test points, 2 folds; error levels other than the listed ones; float rounding"


def probs(h, name, n, L, distinct=False):
    p = h.real(name, (n, L), 0, 1)
    P = h.arr(p)
    for i in range(n):
        h.assume_eq(h.sum(P[i]), 1)
        if distinct:
            for a in range(L):
                for b in range(a):
                    h.assume(h.Or(P[i, a] - P[i, b] >= 0.001, P[i, b] - P[i, a] >= 0.001))
    return p, P


def simple_score(h, row, y):
    return 1 - h.sum([h.ite(y == l, row[l], 0 * row[l]) for l in range(len(row))]) if not isinstance(y, int) else 1 - row[y]


def adaptive_score(h, row, y):
    """mass of the labels at least as probable as y"""
    L = len(row)

    def s(l):
        return h.sum([h.ite(row[k] >= row[l], row[k], 0 * row[k]) for k in range(L)])

    return s(y) if isinstance(y, int) else h.sum([h.ite(y == l, s(l), 0 * row[l]) for l in range(L)])


def check_sets(h, sets, VS, TS, err, m, L):
    """label l belongs to the set of test point t iff fewer than (1-err)(n+1) validation scores are smaller than its score"""
    n = len(VS)
    h.check("one set per test point", len(sets) == m)
    thr = (1 - F(err)) * (n + 1)
    for t in range(m):
        s = [int(x) for x in sets[t]]
        h.check("labels are distinct and sorted", s == sorted(set(s)) and all(0 <= x < L for x in s))
        for l in range(L):
            lo = h.count([v < TS[t][l] - 1e-5 for v in VS])
            hi = h.count([v < TS[t][l] + 1e-5 for v in VS])
            if l in s:
                h.check("included", lo < float(thr) + 1e-5)
            else:
                h.check("excluded", hi >= float(thr) - 1e-5)


def split(kind, n, L, m, err):
    @HARNESSES(name=f"{kind}_n{n}_L{L}_m{m}_{err}", bounds=f"{n} validation points, {L} labels, {m} test points, error={err}", obl_timeout=60)
    def body(h):
        c = (SimplePredictionConformalClassifier if kind == "simple" else AdaptivePredictionConformalClassifier)()
        score = simple_score if kind == "simple" else adaptive_score
        vp, VP = probs(h, "vp", n, L, kind != "simple")
        tp, TP = probs(h, "tp", m, L, kind != "simple")
        y = h.int("y", (n,), 0, L - 1)
        Y = h.arr(y)
        vs, ts = c.get_scores(vp, y, tp)
        VS = [score(h, VP[i], Y[i]) for i in range(n)]
        TS = [[score(h, TP[t], l) for l in range(L)] for t in range(m)]
        h.shape("score shape", vs, (n,))
        h.shape("test score shape", ts, (m, L))
        h.eq("validation scores", vs, VS)
        h.eq("test scores", ts, np.array(TS, dtype=object) if h.sym else TS)
        # sets from arbitrary scores (the scores are decided above)
        a, b = h.real("a", (n,), 0, 1), h.real("b", (m, L), 0, 1)
        A, B = h.arr(a), h.arr(b)
        sets = c._get_conformal_sets_from_scores(a, b, err)
        check_sets(h, sets, list(A), B, err, m, L)


split("simple", 2, 2, 1, 0.3)
split("simple", 3, 3, 1, 0.5)
split("simple", 4, 2, 2, 0.4)
split("adaptive", 2, 3, 1, 0.3)
split("adaptive", 3, 2, 2, 0.6)


def end_to_end(kind, n, L, m, err):
    @HARNESSES(name=f"end_to_end_{kind}_{n}_{L}_{m}", bounds=f"{n} validation points, {L} labels, {m} test points, error={err}", obl_timeout=60)
    def body(h):
        c = (SimplePredictionConformalClassifier if kind == "simple" else AdaptivePredictionConformalClassifier)()
        score = simple_score if kind == "simple" else adaptive_score
        vp, VP = probs(h, "vp", n, L, kind != "simple")
        tp, TP = probs(h, "tp", m, L, kind != "simple")
        y = h.int("y", (n,), 0, L - 1)
        Y = h.arr(y)
        sets = c.conformal_set(vp, y, tp, err)
        VS = [score(h, VP[i], Y[i]) for i in range(n)]
        TS = [[score(h, TP[t], l) for l in range(L)] for t in range(m)]
        check_sets(h, sets, VS, TS, err, m, L)
        # a label at least as probable as an included one is included (up to ties)
        for t in range(m):
            for a in range(L):
                for b in range(L):
                    if a in sets[t] and b not in sets[t]:
                        h.check("sets keep the most probable labels", TP[t][b] <= TP[t][a] + 1e-4)


end_to_end("simple", 3, 2, 2, 0.4)
end_to_end("simple", 2, 3, 1, 0.6)
end_to_end("adaptive", 2, 2, 1, 0.6)


def cv(kind, folds, L, m, err):
    @HARNESSES(name=f"cv_{kind}_{'_'.join(map(str, folds))}", bounds=f"folds of {folds} points, {L} labels, {m} test points, error={err}; the j-th block of sets is the one of the j-th fold", obl_timeout=60)
    def body(h):
        c = (CVPlusSimplePredictionConformalClassifier if kind == "simple" else CVPlusAdaptivePredictionConformalClassifier)()
        score = simple_score if kind == "simple" else adaptive_score
        K = len(folds)
        vps, ys, tps, VS, TS = [], [], [], [], []
        for k, nk in enumerate(folds):
            vp, VP = probs(h, f"vp{k}", nk, L, kind != "simple")
            tp, TP = probs(h, f"tp{k}", m, L, kind != "simple")
            y = h.int(f"y{k}", (nk,), 0, L - 1)
            vps.append(vp), ys.append(y), tps.append(tp)
            VS += [score(h, VP[i], h.arr(y)[i]) for i in range(nk)]
            TS += [[score(h, TP[t], l) for l in range(L)] for t in range(m)]
        vs, ts = c.get_scores(vps, ys, tps)
        h.eq("validation scores", vs, VS)
        h.eq("test scores", ts, np.array(TS, dtype=object) if h.sym else TS)
        sets = c.conformal_set(vps, ys, tps, err)
        check_sets(h, sets, VS, TS, err, K * m, L)


cv("simple", (1, 2), 2, 1, 0.4)
cv("adaptive", (1, 1), 2, 1, 0.5)


@HARNESSES(finding="cvplus-one-set-per-fold", bounds="2 folds of 1 point, 2 labels, 2 test points")
def cv_one_set_per_test_point(h):
    vp, VP = probs(h, "vp", 1, 2)
    tp, TP = probs(h, "tp", 2, 2)
    c = CVPlusSimplePredictionConformalClassifier()
    sets = c.conformal_set([vp, vp], [jnp.array([0]), jnp.array([1])], [tp, tp], 0.4)
    h.check("one set per test input", len(sets) == 2)


@HARNESSES(bounds="3 values in [0,4], sets [], [0,2], [1]")
def membership(h):
    v = h.int("v", (3,), 0, 4)
    r = h.arr(SimplePredictionConformalClassifier().is_in(v, [[], [0, 2], [1]]))
    V = h.arr(v)
    exp = [h.Or(False), h.Or(V[1] == 0, V[1] == 2), V[2] == 1]
    for i in range(3):
        h.check("in", h.Implies(exp[i], r[i]))
        h.check("out", h.Implies(r[i], exp[i]))


@HARNESSES(bounds="arbitrary scores of 3 validation points, 1 test point, 3 labels; errors 0.2 < 0.45 < 0.8")
def nested_in_error(h):
    a, b = h.real("a", (3,), 0, 1), h.real("b", (1, 3), 0, 1)
    c = SimplePredictionConformalClassifier()
    prev = None
    for e in (0.2, 0.45, 0.8):
        s = set(c._get_conformal_sets_from_scores(a, b, e)[0])
        h.check("nested", prev is None or s <= prev)
        prev = s
