"""Logits scaled by the predictive variance: the probit model editor and SNGP."""
from symx.api import Registry
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from flax.core import FrozenDict

import fortuna.utils.probit as PB
from fortuna.model.model_manager.classification import SNGPClassificationModelManager
from fortuna.model.utils.random_features import LaplaceRandomFeatureCovariance, RandomFeatureGaussianProcess
from fortuna.model.utils.spectral_norm import SpectralNormalization
from fortuna.model_editor.probit import ProbitModelEditor
from fortuna.utils.grad import value_and_jacobian_squared_row_norm
from fortuna.utils.probit import probit_scaling, sequential_probit_scaling

HARNESSES = Registry()
STUBS = ["the outputs of the probit harnesses are affine in the parameters, which are zero (every value and Jacobian is one of these); the inverse of a matrix is the closed form (up to 2x2)"]
ASSUMPTIONS = ["real arithmetic; cosine uninterpreted, square root exact"]
OUTSIDE = "float rounding, more than 3 tokens, 3 outputs, 2 parameters arrays of 1-2 entries; a limited memory of previous tokens (an approximation by design); more than one power iteration on matrices of rank above one"


def closed_inv(h):
    def inv(M):
        n = M.shape[-1]
        if n == 1:
            return 1.0 / M
        assert n == 2
        a, b, c, d = M[..., 0, 0], M[..., 0, 1], M[..., 1, 0], M[..., 1, 1]
        det = a * d - b * c
        return jnp.stack([jnp.stack([d, -b], -1), jnp.stack([-c, a], -1)], -2) / det[..., None, None]
    if h.sym:
        h.patch(jnp.linalg, "inv", inv)


def model(h, B, L, K, dims=(1, 1), lo=-2, hi=2):
    """f[b, tau, k] = F[b, tau, k] + J[b, tau, k] . (w, v) at w = v = 0, L = 0: no token axis"""
    D = sum(dims)
    J = h.real("J", (B, max(L, 1), K, D), lo, hi)
    F = h.real("F", (B, max(L, 1), K), -3, 3)
    params = FrozenDict(a=FrozenDict(w=jnp.zeros((dims[0],))), b=FrozenDict(v=jnp.zeros((dims[1],))))

    def apply(p, x):
        z = jnp.concatenate([p["a"]["w"], p["b"]["v"]])
        i = x[:, 0].astype("int32")
        f = F[i] + J[i] @ z
        return f if L else f[:, 0]
    x = jnp.arange(float(B)).reshape(B, 1)
    Ja = h.arr(J)
    return apply, params, x, Ja, h.arr(F)


def dot(h, a, b):
    return h.sum([x * y for x, y in zip(a, b)])


def largest(h, f, k):
    """ascending positions of the k largest entries, by branching"""
    idx = list(range(len(f)))
    order = []
    for _ in range(k):
        rest = [i for i in idx if i not in order]
        best = rest[-1]
        for i in rest[:-1]:
            if h.branch(h.And(*[f[i] > f[j] for j in rest if j != i])):
                best = i
                break
        else:
            h.assume(h.And(*[f[best] > f[j] for j in rest if j != best]))
        order.append(best)
    return order


def scaled(h, f, scale, lv):
    return f / (1 + np.pi / 8 * h.exp(lv) * scale)


FREEZE = lambda path, v: "v" in path


def one(name, K, top_k=None, freeze=False, seq=True, aux=False, editor=False, B=2, quick=True):
    @HARNESSES(name=name, quick=quick, seconds=900 if not quick else 240, bounds=f"{'editor' if editor else 'sequential' if seq else 'plain'} probit scaling of {B} inputs, {K} outputs, 2 parameters{', one frozen' if freeze else ''}{f', top {top_k}' if top_k else ''}: every Jacobian, value in [-2,2] and log-variance in [-3,3]", obl_timeout=30)
    def body(h):
        closed_inv(h)
        apply, params, x, J, f = model(h, B, 0, K)
        lv = h.real("lv", (1,), -3, 3)
        fn = (lambda p, x: (apply(p, x), dict(m=1))) if aux else apply
        kw = dict(has_aux=aux, freeze_fun=FREEZE if freeze else None, top_k=top_k)
        if top_k:
            tops = [largest(h, list(f[b, 0]), top_k) for b in range(B)]
        if editor:
            ed = ProbitModelEditor(freeze_fun=kw["freeze_fun"], top_k=top_k)
            out = ed.apply(FrozenDict(params=FrozenDict(log_var=lv)), apply_fn=fn, model_params=params, x=x, has_aux=aux)
        else:
            out = (sequential_probit_scaling if seq else probit_scaling)(fn, params, x, log_var=lv, **kw)
        if aux:
            out, a = out
            h.check("auxiliary objects", a == dict(m=1), f"{a}")
        h.shape("shape", out, (B, K))
        cols = [1] if freeze else [0, 1]
        for b in range(B):
            s = [dot(h, J[b, 0, k, cols], J[b, 0, k, cols]) for k in range(K)]
            if top_k:
                m = h.max([s[k] for k in tops[b]])
                s = [s[k] if k in tops[b] else m for k in range(K)]
            for k in range(K):
                h.eq("logit over one plus pi/8 of its variance", h.arr(out)[b, k], scaled(h, f[b, 0, k], s[k], h.arr(lv)[0]), tol=1e-3)


one("probit", 2)
one("probit_frozen", 2, freeze=True)
one("probit_top", 3, top_k=2, B=1, freeze=True)
one("probit_top_all", 3, top_k=2, B=1, quick=False)
one("probit_top_frozen_aux", 2, top_k=1, freeze=True, aux=True)
one("probit_editor", 2, editor=True)
one("probit_editor_top_frozen", 2, top_k=1, freeze=True, editor=True)
one("probit_plain", 2, seq=False)
one("probit_plain_frozen_aux", 2, freeze=True, seq=False, aux=True)
one("probit_plain_top", 3, top_k=2, seq=False, B=1, freeze=True)
one("probit_plain_top_all", 3, top_k=2, seq=False, B=1, quick=False)


def tokens(name, L, n_final, K=1, top_k=None, freeze=False, stop=False, quick=True):
    @HARNESSES(name=name, quick=quick, seconds=900 if not quick else 240, bounds=f"sequential probit scaling of {L} tokens, the last {n_final} scaled, {K} outputs{f', top {top_k}' if top_k else ''}{', one array frozen' if freeze else ''}: every Jacobian in [-2,2] with nonsingular covariances", obl_timeout=60)
    def body(h):
        closed_inv(h)
        apply, params, x, J, f = model(h, 1, L, K)
        lv = h.real("lv", (1,), -3, 3)
        cols = [1] if freeze else [0, 1]
        if top_k:
            tops = [largest(h, list(f[0, t]), top_k) for t in range(L)]
        else:
            tops = [list(range(K)) for _ in range(L)]
        S = lambda t, u: [[dot(h, J[0, t, a, cols], J[0, u, b, cols]) for b in tops[u]] for a in tops[t]]
        first = L - n_final
        assert n_final <= 2 and len(tops[0]) == 1
        s00 = S(first, first)[0][0]
        h.assume(s00 >= 0.1)
        ref = [s00]
        if n_final == 2:
            p = S(first + 1, first)[0][0]
            ref.append(S(first + 1, first + 1)[0][0] - p * (1 / s00) * p)
            # the inverse of the last conditional covariance is computed too
            h.assume(ref[1] >= 0.01)
        out = sequential_probit_scaling(apply, params, x, log_var=lv, top_k=top_k, n_final_tokens=n_final if n_final != L else None, freeze_fun=FREEZE if freeze else None, stop_gradient=stop)
        h.shape("shape", out, (1, L, K))
        o = h.arr(out)
        for t in range(L):
            for k in range(K):
                if t < first:
                    h.eq("earlier tokens are not scaled", o[0, t, k], f[0, t, k], tol=1e-3)
                else:
                    h.eq("scaled by the variance given the previous tokens", o[0, t, k], scaled(h, f[0, t, k], ref[t - first], h.arr(lv)[0]), tol=1e-2)


tokens("tokens_1_of_3", 3, 1)
tokens("tokens_2", 2, 2)
tokens("tokens_2_of_3", 3, 2, stop=True)
tokens("tokens_top_1_of_2", 2, 1, K=2, top_k=1)
tokens("tokens_top_2", 2, 2, K=2, top_k=1)
tokens("tokens_top_2_of_3", 3, 2, K=2, top_k=1, quick=False)
tokens("tokens_top_1_of_3_frozen", 3, 1, K=2, top_k=1, freeze=True)


@HARNESSES(name="row_norm", bounds="value and squared row norms of the Jacobian, 2 inputs, 2 outputs, arrays of 2 and 1 parameters; every Jacobian in [-2,2]")
def row_norm(h):
    apply, params, x, J, f = model(h, 2, 0, 2, dims=(2, 1))
    val, sq = value_and_jacobian_squared_row_norm(apply, params, x)
    h.eq("value", val, f[:, 0], tol=1e-3)
    h.eq("squared row norms", sq, [[dot(h, J[b, 0, k], J[b, 0, k]) for k in range(2)] for b in range(2)], tol=1e-3)
    val, sq = value_and_jacobian_squared_row_norm(apply, params, x, freeze_fun=lambda p, v: "w" in p)
    h.eq("squared row norms in the trainable parameters", sq, [[dot(h, J[b, 0, k, :2], J[b, 0, k, :2]) for k in range(2)] for b in range(2)], tol=1e-3)


@HARNESSES(name="bad_tokens", bounds="1 input of 2 tokens; numbers of final tokens and memory in [-1,3]")
def bad_tokens(h):
    apply, params, x, J, f = model(h, 1, 2, 1)
    closed_inv(h)
    n = h.val(h.int("n", (), -1, 3))
    n = [k for k in range(-1, 4) if k == 3 or h.branch(n == k)][0]
    m = h.val(h.int("m", (), -1, 3))
    m = [k for k in range(-1, 4) if k == 3 or h.branch(m == k)][0]
    bad, _ = h.raises(lambda: sequential_probit_scaling(apply, params, x, log_var=jnp.zeros((1,)), n_final_tokens=n, memory=m), ValueError)
    h.check("refused exactly when outside the sequence", bad == (n <= 0 or n > 2 or m <= 0 or m > n), f"{n} {m} {bad}")


class Feat(nn.Module):
    @nn.compact
    def __call__(self, x, train=False, **kw):
        w = self.param("w", lambda *a: jnp.ones((1,)))
        s = self.variable("stats", "s", lambda: jnp.zeros((1,)))
        y = x * w + s.value
        if train and not self.is_initializing():
            s.value = s.value + 1
        return y


def sngp(name, train, momentum=None, ridge=1.0, factor=1.0, calls=1):
    @HARNESSES(name=name, bounds=f"SNGP classifier of 2 classes on 2 random features, 2 inputs, {'training' if train else 'evaluation'}, momentum {momentum}, ridge {ridge}, mean-field factor {factor}: every parameter, feature and positive definite precision", obl_timeout=60)
    def body(h):
        mm = SNGPClassificationModelManager(Feat(), output_dim=2, gp_hidden_features=2, ridge_penalty=ridge, momentum=momentum, mean_field_factor=factor)
        x = h.real("x", (2, 1), -1, 1)
        w, s = h.real("w", (1,), -1, 1), h.real("s", (1,), -1, 1)
        W, b = h.real("W", (1, 2), -1, 1), h.real("b", (2,), -1, 1)
        ks = h.real("ks", (1,), 0.5, 2)
        V, c = h.real("V", (2, 2), -2, 2), h.real("c", (2,), -2, 2)
        # the precision is given by its Cholesky factor
        L = h.real("L", (3,), -1, 1)
        l = h.arr(L)
        h.assume(l[0] >= 0.5)
        h.assume(l[2] >= 0.5)
        P = jnp.stack([jnp.stack([L[0] * L[0], L[0] * L[1]]), jnp.stack([L[0] * L[1], L[1] * L[1] + L[2] * L[2]])])
        if h.sym:
            h.patch(jax.lax.linalg, "cholesky", lambda M, **kw: jnp.stack([jnp.stack([L[0], 0 * L[0]]), jnp.stack([L[1], L[2]])]))
        params = FrozenDict(model=FrozenDict(params=FrozenDict(w=w, sngp_dense_layer=FrozenDict(kernel=V, bias=c), sngp_random_features_layer=FrozenDict(rf_kernel_scale=ks))))
        mut = FrozenDict(model=FrozenDict(stats=FrozenDict(s=s), sngp_random_features=FrozenDict(sngp_random_features_layer=FrozenDict(kernel=W, bias=b)),
                                          sngp_laplace_covariance=FrozenDict(sngp_covariance_layer=FrozenDict(precision_matrix=P))))
        out = mm.apply(params, x, mutable=mut, train=train, rng=jax.random.PRNGKey(0))
        X, Wr, br = h.arr(x)[:, 0], h.arr(W)[0], h.arr(b)
        phi = jnp.cos(jnp.stack([(x[:, 0] * w[0] + s[0]) * (1.0 / ks[0] * W[0, j]) + b[j] for j in range(2)], 1))
        phi = h.arr(phi)
        logits = [[h.sum([phi[n, j] * h.arr(V)[j, k] for j in range(2)]) + h.arr(c)[k] for k in range(2)] for n in range(2)]
        if train:
            out, aux = out
            h.eq("logits of the random features", out, logits, tol=1e-3)
            m = aux["mutable"]["model"]
            h.check("every collection is handed back", sorted(m.keys()) == ["sngp_laplace_covariance", "sngp_random_features", "stats"], f"{m.keys()}")
            h.eq("statistics of the feature extractor", m["stats"]["s"], [h.arr(s)[0] + 1])
            h.eq("random features are fixed", m["sngp_random_features"]["sngp_random_features_layer"]["kernel"], h.arr(W))
            h.eq("random phases are fixed", m["sngp_random_features"]["sngp_random_features_layer"]["bias"], br)
            Pn = h.arr(m["sngp_laplace_covariance"]["sngp_covariance_layer"]["precision_matrix"])
            P0 = h.arr(P)
            for i in range(2):
                for j in range(2):
                    g = h.sum([phi[n, i] * phi[n, j] for n in range(2)])
                    ref = P0[i, j] + g if momentum is None else momentum * P0[i, j] + (1 - momentum) * g / 2
                    h.eq("precision of the features", Pn[i, j], ref, tol=1e-3)
        else:
            h.check("outputs only", not isinstance(out, tuple))
            for n in range(2):
                # phi^T P^-1 phi by forward substitution with the factor of P
                u = phi[n, 0] / l[0]
                v = (phi[n, 1] - l[1] * u) / l[2]
                var = ridge * (u * u + v * v)
                for k in range(2):
                    h.eq("mean-field logits", h.arr(out)[n, k], logits[n][k] / h.sqrt(1 + var * factor), tol=1e-2)


sngp("sngp_train", True)
sngp("sngp_train_momentum", True, momentum=0.75)
sngp("sngp_eval", False)
sngp("sngp_eval_ridge", False, ridge=0.5, factor=2.0)


@HARNESSES(name="mean_field", bounds="3 logits of 2 inputs, variances in [0,4] given as a vector, as a covariance or not at all, factors 0, 0.5, 1 and -1", seconds=120)
def mean_field(h):
    lg, var = h.real("lg", (2, 3), -3, 3), h.real("var", (2,), 0, 4)
    off = h.real("off", (), -1, 1)
    lgr, v = h.arr(lg), h.arr(var)
    for fac in (0.0, 0.5, 1.0):
        mm = SNGPClassificationModelManager(Feat(), output_dim=3, mean_field_factor=fac)
        ref = [[lgr[n, k] / h.sqrt(1 + v[n] * fac) for k in range(3)] for n in range(2)]
        h.eq("vector", mm._mean_field_logits(lg, var), ref, tol=1e-3)
        h.eq("covariance", mm._mean_field_logits(lg, jnp.stack([jnp.stack([var[0], off]), jnp.stack([off, var[1]])])), ref, tol=1e-3)
        h.eq("none", mm._mean_field_logits(lg), [[lgr[n, k] / h.sqrt(1 + 0 * v[n] + fac) for k in range(3)] for n in range(2)], tol=1e-3)
    mm = SNGPClassificationModelManager(Feat(), output_dim=3, mean_field_factor=-1.0)
    bad, _ = h.raises(lambda: mm._mean_field_logits(lg, var), ValueError)
    h.check("negative factors refused", bad)


def spectral(name, update, shape=(2, 2), iteration=1):
    @HARNESSES(name=name, bounds=f"a dense layer of kernel a b^T ({shape[0]}x{shape[1]}), {str(iteration) + ' power iteration(s)' if update else 'no update'} from every pair of vectors, bound 0.95", obl_timeout=60)
    def body(h):
        import flax

        if iteration == 1:
            a, b = h.real("a", (shape[0],), -2, 2), h.real("b", (shape[1],), -2, 2)
        else:
            a, b = jnp.stack([h.real("a", (), 0.0625, 2), jnp.zeros(())]), jnp.array([0.75, -1.0])
        u0, v0 = (h.real("u", (shape[1],), -2, 2), h.real("v", (shape[0],), -2, 2)) if iteration == 1 else (jnp.array([1.0, -0.5]), jnp.array([0.5, 1.0]))
        x, bias = h.real("x", (1, shape[0]), -2, 2), h.real("bias", (shape[1],), -2, 2)
        A, Bv, U, V = h.arr(a), h.arr(b), h.arr(u0), h.arr(v0)
        layer = SpectralNormalization(nn.Dense(shape[1]), iteration=iteration, norm_multiplier=0.95)
        W = a[:, None] * b[None, :]
        vs = dict(params=dict(Dense=dict(kernel=W, bias=bias)), spectral_stats=dict(u=u0, v=v0))
        if update and iteration == 1:
            # away from the degenerate start
            h.assume(dot(h, Bv, U) >= 0.5)
            h.assume(dot(h, A, A) >= 0.25)
            h.assume(dot(h, Bv, Bv) >= 0.25)
        out, st = layer.apply(vs, x, update_singular_value_estimate=update, mutable=["spectral_stats"])
        xa = dot(h, h.arr(x)[0], A)
        if update:
            na, nb = h.sqrt(dot(h, A, A)), h.sqrt(dot(h, Bv, Bv))
            sigma = na * nb
        else:
            sigma = dot(h, U, Bv) * dot(h, A, V)
            h.eq("kept", st["spectral_stats"]["u"], U)
            h.eq("kept", st["spectral_stats"]["v"], V)
        den = h.max([sigma / 0.95, 1 + 0 * sigma])
        for k in range(shape[1]):
            h.eq("kernel divided by its norm over the bound where it exceeds it", (h.arr(out)[0, k] - h.arr(bias)[k]) * den, xa * Bv[k], tol=1e-2)


spectral("spectral_eval", False)
spectral("spectral_update", True)
spectral("spectral_update_twice", True, iteration=2)
