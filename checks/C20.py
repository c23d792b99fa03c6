"""Laplace: the curvature, the standard deviations, the draws and the tuned prior variance."""
from symx.api import Registry
import types

import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict

import fortuna.prob_model.posterior.laplace.laplace_posterior as LP
from fortuna.data.loader import DataLoader
from fortuna.prob_model.fit_config.base import FitConfig
from fortuna.prob_model.fit_config.checkpointer import FitCheckpointer
from fortuna.prob_model.fit_config.monitor import FitMonitor
from fortuna.prob_model.fit_config.optimizer import FitOptimizer
from fortuna.prob_model.fit_config.processor import FitProcessor
from fortuna.prob_model.posterior.laplace.laplace_approximator import LaplacePosteriorApproximator
from fortuna.prob_model.posterior.laplace.laplace_posterior import LaplacePosterior
from fortuna.prob_model.prior.gaussian import DiagonalGaussianPrior, IsotropicGaussianPrior
from fortuna.utils.random import RandomNumberGenerator
from symx.fort import Disk, quiet, stub_joint

HARNESSES = Registry()
STUBS = ["the outputs are a linear map of the parameters given by the harness and the log-likelihood a quadratic of the outputs (every Jacobian and Hessian at the mode is one of these); the eigendecomposition is an arbitrary one; standard normal draws are arbitrary; checkpoints are real files whose content is kept in memory"]
ASSUMPTIONS = ["real arithmetic; eigh returns a decomposition of the matrix it is given"]
OUTSIDE = "float rounding, more than 3 data points, 2 outputs, 12 arrays; the distributed GGN of several GPUs"
LR = 0.5
PATHS = [("model", "params", "d", "kernel"), ("model", "params", "d", "bias"), ("model", "params", "a", "w"), ("lik_log_var", "params", "c", "v")]
MANY = [("model", "params", f"l{i}", "w") for i in range(1, 13)]


def tree(vals):
    out = {}
    for p, v in vals:
        d = out
        for k in p[:-1]:
            d = d.setdefault(k, {})
        d[p[-1]] = v
    from flax.core import freeze

    return freeze(out)


def leaf(d, path):
    for k in path:
        d = d[k]
    return d


def config(kept=(), **ck):
    fz = (lambda path, v: "frozen" if tuple(path) in kept else "trainable") if kept else None
    return FitConfig(optimizer=FitOptimizer(method=optax.sgd(LR), n_epochs=1, freeze_fun=fz), monitor=FitMonitor(verbose=False, disable_training_metrics_computation=True),
                     processor=FitProcessor(devices=0, disable_jit=True), checkpointer=FitCheckpointer(**ck))


def loader(batches):
    """batches of indices of data points, as inputs and as targets"""
    return DataLoader.from_callable_iterable(lambda: iter([(jnp.asarray([[float(i)] for i in b]), jnp.asarray(b, dtype="float32")) for b in batches]))


def setting(h, paths, sizes, n_data, n_out, prior, loss=None):
    """a posterior whose outputs are J_n . params and whose log-likelihood is the quadratic form of H_n"""
    D = sum(sizes)
    J = h.real("J", (n_data, n_out, D), -2, 2)
    A = h.real("A", (n_data, n_out, n_out), -2, 2)
    w = {p: h.real("w_" + "_".join(p[2:]), (s,), -2, 2) for p, s in zip(paths, sizes)}

    def outputs(params, inputs, mutable=None, train=False, **kw):
        v = jnp.concatenate([leaf(params, p) for p in paths])
        return J[inputs[:, 0].astype("int32")] @ v

    def log_prob(o, y, **kw):
        M = A[y.astype("int32")]
        return 0.5 * o @ (M @ o) + 3.0 * o[0]

    joint = stub_joint(lambda: tree([(p, w[p]) for p in paths]), loss or (lambda params, *a: 0 * leaf(params, paths[0])[0]), apply=outputs)
    joint.prior = prior
    joint.likelihood.model_manager.apply = outputs
    joint.likelihood.output_calib_manager = types.SimpleNamespace(apply=lambda params=None, outputs=None, **kw: outputs)
    joint.likelihood.output_calib_manager.apply = lambda params=None, mutable=None, outputs=None, **kw: outputs
    joint.likelihood.prob_output_layer.log_prob = log_prob
    post = LaplacePosterior(joint, LaplacePosteriorApproximator())
    post.rng = RandomNumberGenerator(0)
    return post, w, h.arr(J), h.arr(A)


class Eigh:
    """the n-th call decomposes the n-th Hessian: an arbitrary decomposition, recorded with its argument"""

    def __init__(self, h, n_data, n_out):
        self.h, self.calls = h, []
        if h.sym:
            self.lam, self.z = h.real("lam", (n_data, n_out), -3, 3), h.real("zz", (n_data, n_out, n_out), -1, 1)
            h.patch(jnp.linalg, "eigh", self)

    def __call__(self, M, **kw):
        n = len(self.calls)
        self.calls.append(self.h.arr(M))
        return self.lam[n], self.z[n]

    def hessian(self, n, ref):
        """the Hessian of the n-th data point, as composed from its decomposition"""
        h = self.h
        if not h.sym:
            return ref
        h.eq("Hessian of the log-likelihood in the outputs", self.calls[n], ref, tol=1e-3)
        lam, z = h.arr(self.lam)[n], h.arr(self.z)[n]
        O = len(lam)
        return np.array([[h.sum([lam[k] * z[a, k] * z[b, k] for k in range(O)]) for b in range(O)] for a in range(O)], dtype=object)


def ggn(h, eig, J, A, order):
    """diagonal of J^T (-H) J summed over the data, by column of J; `order`: the data points in the order of the calls"""
    n, O, D = J.shape
    out = [0] * D
    for c, i in enumerate(order):
        H = eig.hessian(c, np.array([[(A[i, a, b] + A[i, b, a]) / 2 for b in range(O)] for a in range(O)], dtype=object))
        for d in range(D):
            out[d] = out[d] - h.sum([H[a, b] * J[i, a, d] * J[i, b, d] for a in range(O) for b in range(O)])
    return out


def curvature(name, n_out, batches, kept=(), paths=PATHS[:3], sizes=(1, 2, 1)):
    @HARNESSES(name=name, bounds=f"the GGN of a model of {len(paths)} arrays ({sum(sizes)} parameters, {len(kept)} arrays frozen), {n_out} outputs, batches {batches}: every Jacobian, Hessian and mode in [-2,2]", obl_timeout=30)
    def body(h):
        order = [i for b in batches for i in b]
        post, w, J, A = setting(h, paths, sizes, len(order), n_out, IsotropicGaussianPrior())
        eig = Eigh(h, len(order), n_out)
        params = tree([(p, w[p]) for p in paths])
        which = tuple(list(p) for p in paths if p not in kept) if kept else None
        with jax.disable_jit():
            got = post._gnn_approx(params, loader(batches), which_params=which, verbose=False)
        ref = ggn(h, eig, J, A, order)
        o = 0
        k = 0
        for p, s in zip(paths, sizes):
            if p not in kept:
                g = got[k] if kept else leaf(got, p)
                k += 1
                h.shape("shape of the curvature", g, (s,))
                h.eq("diagonal of the curvature, over all data", g, ref[o:o + s], tol=1e-2)
            o += s
        h.check("every data point once", not h.sym or len(eig.calls) == len(order), f"{len(eig.calls)}")


curvature("ggn_1_output", 1, [[0, 1], [2]])
curvature("ggn_2_outputs", 2, [[0], [1]])
curvature("ggn_2_outputs_batch", 2, [[0, 1]], sizes=(1, 1, 1))
curvature("ggn_frozen", 1, [[0, 1], [2]], kept=PATHS[1:2])
curvature("ggn_frozen_2_outputs", 2, [[0, 1]], kept=PATHS[:1], sizes=(2, 1, 1))


def draw(name, paths, kept=(), diag=False, disk=False, again=None, sizes=None):
    sizes = sizes or (1,) * len(paths)
    what = f"{len(paths)} arrays ({len(kept)} frozen), {'a diagonal' if diag else 'an isotropic'} prior{', restored from its checkpoint' if disk else ''}{', refitted from ' + again if again else ''}"

    @HARNESSES(name=name, bounds=f"fit from a MAP run and draw: {what}; every mode, gradient, prior log-variance and draw, curvature in [0,4]", obl_timeout=30)
    def body(h):
        quiet(h)
        D = sum(sizes)
        off = dict(zip(paths, np.cumsum([0] + list(sizes))[:-1]))
        srt = [p for p in sorted(paths)]
        # positions in the raveled parameters: arrays in sorted order of their paths
        pos, k = {}, 0
        for p in srt:
            pos[p] = k
            k += sizes[paths.index(p)]
        lv = h.real("lv", (D,) if diag else (), -2, 2)
        prior = DiagonalGaussianPrior(log_var=lv) if diag else IsotropicGaussianPrior(log_var=lv)
        g = h.real("g", (D,), -2, 2)
        seen = []

        def loss(params, batch, n_data, train):
            seen.append(1)
            return sum(jnp.sum(leaf(params, p) * g[off[p]:off[p] + s]) for p, s in zip(paths, sizes))

        post, w, J, A = setting(h, paths, sizes, 1, 1, prior, loss)
        free = [p for p in paths if p not in kept]
        hess = h.real("h", (2 if again else 1, D), 0, 4)
        runs = []

        def gnn(params, dl, mutable=None, calib_params=None, calib_mutable=None, which_params=None, **kw):
            runs.append(params)
            r = hess[len(runs) - 1]
            cut = lambda p: r[off[p]:off[p] + sizes[paths.index(p)]]
            if which_params is None:
                return tree([(p, cut(p)) for p in paths])
            return tuple(cut(tuple(p)) for p in which_params)

        post._gnn_approx = gnn
        mode = {p: h.arr(w[p]) - (0 if p in kept else LR * h.arr(g)[off[p]:off[p] + s]) for p, s in zip(paths, sizes)}
        with Disk(h) as disk_:
            ck = dict(save_checkpoint_dir=disk_.path("s"), dump_state=True) if disk else {}
            post.fit(loader([[0]]), fit_config=config(kept, **ck), map_fit_config=config(kept))
            h.check("a preliminary MAP run", len(seen) == 1)
            if again:
                if again == "a checkpoint":
                    post.fit(loader([[0]]), fit_config=config(kept, restore_checkpoint_path=disk_.path("s")))
                else:
                    post.fit(loader([[0]]), fit_config=config(kept, start_from_current_state=True))
                h.check("no further MAP run", len(seen) == 1)
            for r in runs:
                for p in paths:
                    h.eq("the curvature is taken at the mode", leaf(r, p), mode[p], tol=1e-3)
            zs, keys = {}, []
            Z = h.real("z", (D,), -3, 3)
            used = [0]

            def normal(key, shape=(), dtype=None):
                keys.append(tuple(np.asarray(key).tolist()))
                n = int(np.prod(shape))
                used[0] += n
                return Z[used[0] - n:used[0]].reshape(shape)

            h.patch(jax.random, "normal", normal)
            s = post.sample().params
        n_free = sum(sizes[paths.index(p)] for p in free)
        h.check("one independent draw per parameter", used[0] == n_free and len(set(keys)) == len(keys), f"{used} {len(keys)}")
        # draws are handed out by the sorted order of the arrays
        Zr, Lv, H = h.arr(Z), h.arr(lv), h.arr(hess)[-1]
        k = 0
        for p in srt:
            n = sizes[paths.index(p)]
            h.shape("shape of a drawn array", leaf(s, p), (n,))
            if p in kept:
                h.eq("frozen arrays stay", leaf(s, p), w[p])
                continue
            for i in range(n):
                var = Lv[pos[p] + i] if diag else Lv.reshape(-1)[0]
                ref = mode[p][i] + 1 / h.sqrt(h.exp(-var) + H[off[p] + i]) * Zr[k]
                k += 1
                h.eq("drawn around the mode with variance 1 / (prior precision + curvature)", h.arr(leaf(s, p))[i], ref, tol=1e-3)
        h.check("the parameters keep their arrays", sorted(map(tuple, _paths(s))) == sorted(paths), f"{_paths(s)}")


def _paths(d, pre=()):
    if hasattr(d, "items"):
        return [q for k, v in d.items() for q in _paths(v, pre + (k,))]
    return [pre]


draw("draw", PATHS, sizes=(2, 1, 1, 1))
draw("draw_diagonal", PATHS, diag=True, sizes=(2, 1, 1, 1))
draw("draw_frozen", PATHS, kept=PATHS[1:2], sizes=(1, 1, 2, 1))
draw("draw_frozen_diagonal", PATHS, kept=PATHS[2:], diag=True, sizes=(1, 2, 1, 1))
draw("draw_frozen_diagonal_disk", PATHS, kept=PATHS[3:], diag=True, disk=True, sizes=(1, 2, 1, 1))
draw("draw_disk", PATHS, disk=True)
draw("draw_many_disk", MANY, kept=MANY[:1], disk=True)
draw("draw_refitted", PATHS[:3], again="the current state")
draw("draw_refitted_frozen", PATHS[:3], kept=PATHS[:1], again="the current state")
draw("draw_refitted_disk", PATHS[:3], kept=PATHS[1:2], disk=True, again="a checkpoint")


def tune(name, n_samples, n_batches, diag=False, devices=None, fit=False):
    @HARNESSES(name=name, bounds=f"2 grid candidates and the prior's own{' (a vector)' if diag else ''}, {n_batches} validation batches, {n_samples} draws{', distributed over ' + str(devices) + ' devices' if devices else ''}: every table of log-likelihoods in [-3,3]", obl_timeout=30)
    def body(h):
        quiet(h)
        B, n_dev = 1, devices or 1
        N = n_batches * n_dev
        own = 0.25
        prior = DiagonalGaussianPrior(log_var=jnp.asarray([own, -own])) if diag else IsotropicGaussianPrior(log_var=jnp.asarray(own))
        post, w, J, A = setting(h, PATHS[:2], (1, 1), 1, 1, prior)
        T = h.real("T", (3, N, n_samples), -3, 3)
        cands = [jnp.asarray(-1.0), jnp.asarray(1.0), prior.log_var]
        keys = []

        def sample(inputs=None, rng=None, prior_log_var=None, **kw):
            return types.SimpleNamespace(params=(prior_log_var, rng), mutable=None, calib_params=None, calib_mutable=None)

        def lik(params, batch, mutable=None, calib_params=None, calib_mutable=None, **kw):
            lpv, key = params
            x = batch[0][:, 0].astype("int32")
            c = jnp.where(jnp.size(lpv) > 1, 2, jnp.where(jnp.ravel(lpv)[0] == -1.0, 0, jnp.where(jnp.ravel(lpv)[0] == 1.0, 1, 2)))
            k = jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key
            j = sum(jnp.where(jnp.all(k == kk), i, 0) for i, kk in enumerate(ref_keys))
            return T[c, x, j]

        ref_keys = list(jax.random.split(jax.random.PRNGKey(0), n_samples))
        post.sample = sample
        post.joint.likelihood._batched_log_prob = lik
        post.joint.likelihood._unshard_array = lambda a: a.reshape((a.shape[0] * a.shape[1],) + a.shape[2:])
        dl = loader([[b * n_dev + d for d in range(n_dev)] for b in range(n_batches)])
        if devices:
            def pmap(f, axis_name=None, in_axes=0, static_broadcasted_argnums=(), **kw):
                def run(*a):
                    st = (static_broadcasted_argnums,) if isinstance(static_broadcasted_argnums, int) else tuple(static_broadcasted_argnums)
                    ax = in_axes if isinstance(in_axes, (tuple, list)) else [in_axes] * len(a)
                    outs = [f(*[x if k in st or ax[k] is None else jax.tree_util.tree_map(lambda v: v[d], x) for k, x in enumerate(a)]) for d in range(n_dev)]
                    return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *outs)
                return run

            h.patch(LP, "pmap", pmap)
            h.patch(LP, "shard_prng_key", lambda k: jnp.stack([k] * n_dev))
            h.patch(LP, "DeviceDimensionAugmentedLoader", lambda dl: DataLoader.from_callable_iterable(lambda: iter([jax.tree_util.tree_map(lambda v: v.reshape((n_dev, -1) + v.shape[1:]), b) for b in dl])))
        with jax.disable_jit():
            best = post.prior_log_variance_tuning(dl, n_posterior_samples=n_samples, min_prior_log_var=-1, max_prior_log_var=1, grid_size=2, distribute=bool(devices))
        best = np.asarray(best, dtype=float)
        idx = [i for i, c in enumerate(cands) if best.shape == np.shape(c) and np.allclose(best, np.asarray(c))]
        h.check("one of the candidates", len(idx) == 1, f"{best}")
        Tr = h.arr(T)

        def score(c):
            tot = []
            for n in range(N):
                v = list(Tr[c, n])
                m = h.max(v)
                tot.append(h.log(h.sum([h.exp(a - m) for a in v])) + m if n_samples > 1 else v[0])
            return h.sum(tot)

        for c in range(3):
            h.le("the best candidate on the validation data", score(c), score(idx[0]), tol=1e-3)


tune("tuning", 1, 2)
tune("tuning_2_draws", 2, 1)
tune("tuning_diagonal", 1, 2, diag=True)
tune("tuning_devices", 1, 2, devices=2)
tune("tuning_devices_diagonal", 1, 1, devices=2, diag=True)
