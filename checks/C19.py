"""MAP, deep ensembles and SWAG: what the fitted posteriors are and what is drawn from them."""
from symx.api import Registry
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict

from fortuna.data.loader import DataLoader
from fortuna.prob_model.fit_config.base import FitConfig
from fortuna.prob_model.fit_config.checkpointer import FitCheckpointer
from fortuna.prob_model.fit_config.monitor import FitMonitor
from fortuna.prob_model.fit_config.optimizer import FitOptimizer
from fortuna.prob_model.fit_config.processor import FitProcessor
from fortuna.prob_model.posterior.deep_ensemble.deep_ensemble_approximator import DeepEnsemblePosteriorApproximator
from fortuna.prob_model.posterior.deep_ensemble.deep_ensemble_posterior import DeepEnsemblePosterior
from fortuna.prob_model.posterior.map.map_approximator import MAPPosteriorApproximator
from fortuna.prob_model.posterior.map.map_posterior import MAPPosterior
from fortuna.prob_model.posterior.swag.swag_approximator import SWAGPosteriorApproximator
from fortuna.prob_model.posterior.swag.swag_posterior import SWAGPosterior
from fortuna.prob_model.posterior.swag.swag_state import SWAGState
from fortuna.prob_model.posterior.swag.swag_trainer import MultiDeviceSWAGTrainer
from fortuna.prob_model.posterior.map.map_state import MAPState
from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository
from fortuna.utils.random import RandomNumberGenerator
from symx.fort import Disk, quiet, stub_joint

HARNESSES = Registry()
STUBS = ["the joint distribution is a stub with a harness-chosen density; standard normal draws and random choices are arbitrary; the progress bar is replaced by range; checkpoints are real files whose content is kept in memory"]
ASSUMPTIONS = ["real arithmetic; the square root is the exact one"]
OUTSIDE = "float rounding, several devices, more than 3 epochs of 2 batches and 12 arrays of parameters"
LR = 0.5


def tree(shapes, vals):
    """nested parameters from (path, array) pairs, in the given insertion order"""
    out = {}
    for p, v in vals:
        d = out
        for k in p[:-1]:
            d = d.setdefault(k, {})
        d[p[-1]] = v
    from flax.core import freeze

    return freeze(out)


def leaf(d, path):
    for k in path:
        d = d[k]
    return d


PATHS = [("model", "params", "d", "kernel"), ("model", "params", "d", "bias"), ("model", "params", "a", "w")]
MANY = [("model", "params", f"l{i}", "w") for i in range(1, 13)]


def walk(h, paths, n, kept):
    """iterates q_0..q_n of every trainable array: the batches are the gradients that lead from one to the next"""
    q = {p: h.real("q_" + "_".join(p[2:]), (n + 1, 1), -2, 2) for p in paths if p not in kept}
    q.update({p: h.real("f_" + "_".join(p[2:]), (1, 1), -2, 2) for p in kept})
    return q


def loader(n_batches):
    return DataLoader.from_callable_iterable(lambda: iter([(jnp.zeros((1, 1)), jnp.full((1, 1), float(i))) for i in range(n_batches)]))


def walking(q, kept, log):
    """a negative log-joint whose gradient at the t-th call leads from the t-th point of the walk to the next"""
    order = sorted(p for p in q if p not in kept)

    def loss(params, batch, n_data, train):
        t = len(log)
        log.append((n_data, train))
        v = sum(leaf(params, p)[0] * (q[p][t, 0] - q[p][t + 1, 0]) / LR for p in order)
        # the gradient of a frozen array must not matter
        return v + sum(3.0 * leaf(params, p)[0] ** 2 for p in kept)
    return loss, order


def config(n_epochs, kept=(), **ck):
    fz = (lambda path, v: "frozen" if tuple(path) in kept else "trainable") if kept else None
    return FitConfig(optimizer=FitOptimizer(method=optax.sgd(LR), n_epochs=n_epochs, freeze_fun=fz), monitor=FitMonitor(verbose=False, disable_training_metrics_computation=True),
                     processor=FitProcessor(devices=0, disable_jit=True), checkpointer=FitCheckpointer(**ck))


def noise(h, sizes):
    zs = [h.real(f"z{i}", (n,), -3, 3) for i, n in enumerate(sizes)]
    used = []

    def normal(key, shape=(), dtype=None):
        z = zs[len(used)]
        used.append(tuple(np.asarray(key).tolist()))
        assert tuple(shape) == z.shape, f"{shape}"
        return z

    h.patch(jax.random, "normal", normal)
    return [h.arr(z) for z in zs], used


def avg(h, xs):
    return h.sum(list(xs)) / len(xs)


def swag(n_batches, paths, kept, disk, name):
    n_epochs, rank = 3, 2
    n = n_batches * n_epochs

    @HARNESSES(name=name, bounds=f"SWAG of rank 2 after a 1-epoch MAP run, {n_epochs} epochs of {n_batches} batches, {len(paths)} arrays ({len(kept)} frozen), every sequence of iterates in [-2,2], every draw{', restored from its checkpoint' if disk else ''}", seconds=300, obl_timeout=30)
    def body(h):
        quiet(h)
        q = walk(h, paths, n + n_batches, kept)
        log = []
        dl = loader(n_batches)
        loss, order = walking(q, kept, log)
        p0 = tree(None, [(p, q[p][0]) for p in paths])
        post = SWAGPosterior(stub_joint(p0, loss), SWAGPosteriorApproximator(rank=rank))
        post.rng = RandomNumberGenerator(0)
        with Disk(h) as disk_:
            ck = dict(save_checkpoint_dir=disk_.path("s"), dump_state=True) if disk else {}
            post.fit(dl, fit_config=config(n_epochs, kept, **ck), map_fit_config=config(1, kept))
            h.check("minimises the negative log-joint of all data", len(log) == n + n_batches and all(k == (n_batches, True) for k in log), f"{log[:3]}")
            st = post.state.get()
            its = {p: [h.arr(q[p])[n_batches + 1 + t, 0] for t in range(n)] for p in order}
            D = len(order)
            h.shape("mean", st.mean, (D,))
            h.shape("deviations", st.dev, (D, rank))
            mean, std, dev = h.arr(st.mean), h.arr(st.std), h.arr(st.dev)
            for i, p in enumerate(order):
                x = its[p]
                m1, m2 = avg(h, x), avg(h, [v * v for v in x])
                h.eq("mean of the iterates", mean[i], m1, tol=1e-3)
                if len(paths) < 5:
                    h.eq("standard deviation of the iterates", std[i], h.sqrt(h.max([0 * m1, m2 - m1 * m1])), tol=1e-2)
                for r in range(rank):
                    t = n - rank + r
                    h.eq("last deviations from the running mean", dev[i, r], x[t] - avg(h, x[:t + 1]), tol=1e-3)
            Z, used = noise(h, (D, rank))
            s = post.sample().params
            h.check("draws with different keys", len(set(used)) == 2)
            c1 = 0.5 ** 0.5
            for i, p in enumerate(order):
                ref = mean[i] + c1 * std[i] * Z[0][i] + c1 / rank ** 0.5 * h.sum([dev[i, r] * Z[1][r] for r in range(rank)])
                h.shape("shape of a drawn array", leaf(s, p), (1,))
                h.eq("every array drawn from its own statistics", h.arr(leaf(s, p))[0], ref, tol=1e-3)
            for p in kept:
                h.eq("frozen arrays stay", leaf(s, p), q[p][0])
                h.eq("frozen arrays stay in the state", leaf(st.params, p), q[p][0])
            for p in order:
                h.eq("the state keeps the last iterate", h.arr(leaf(st.params, p))[0], its[p][-1], tol=1e-3)


swag(1, PATHS[:2], (), False, "swag")
swag(2, PATHS[:1], (), False, "swag_2_batches")
swag(1, PATHS, PATHS[1:2], False, "swag_frozen")
swag(1, PATHS, PATHS[:1], True, "swag_frozen_disk")
swag(1, MANY, MANY[:1], True, "swag_many_disk")


def map_(name, kept=(), resume=None, n_epochs=2, n_batches=2):
    n = n_batches * n_epochs

    @HARNESSES(name=name, bounds=f"MAP, {n_epochs} epochs of {n_batches} batches, 3 arrays ({len(kept)} frozen), every sequence of iterates, state and calibration parameters in [-2,2]" + (f", continued from the {resume}" if resume else ""))
    def body(h):
        quiet(h)
        q = walk(h, PATHS, n * (2 if resume else 1), kept)
        m0, c0 = h.real("m", (1,), -2, 2), h.real("c", (1,), -2, 2)
        log = []
        loss, order = walking(q, kept, log)
        p0 = tree(None, [(p, q[p][0]) for p in PATHS])
        post = MAPPosterior(stub_joint(p0, loss, mutable=FrozenDict(model=FrozenDict(s=m0)), calib_params=FrozenDict(output_calibrator=FrozenDict(params=FrozenDict(t=c0))),
                                       step_mutable=lambda m, b, train: FrozenDict(model=FrozenDict(s=2 * m["model"]["s"] + b[1][0])) if train else m), MAPPosteriorApproximator())
        post.rng = RandomNumberGenerator(0)
        with Disk(h) as disk:
            ck = dict(save_checkpoint_dir=disk.path("s"), dump_state=True) if resume == "checkpoint" else {}
            post.fit(loader(n_batches), fit_config=config(n_epochs, kept, **ck))
            if resume == "checkpoint":
                post = MAPPosterior(post.joint, MAPPosteriorApproximator())
                post.rng = RandomNumberGenerator(1)
                post.joint.init = None
                post.fit(loader(n_batches), fit_config=config(n_epochs, kept, restore_checkpoint_path=disk.path("s")))
            elif resume:
                post.joint.init = None
                post.fit(loader(n_batches), fit_config=config(n_epochs, kept, start_from_current_state=True))
            T = n * (2 if resume else 1)
            h.check("one step per batch on the negative log-joint of all data", log == [(n_batches, True)] * T, f"{log[:3]} {len(log)}")
            st, s = post.state.get(), post.sample()
            m = h.arr(m0)[0]
            for t in range(T):
                m = 2 * m + t % n_batches
            for x in (st, s):
                for p in order:
                    h.eq("last iterate", h.arr(leaf(x.params, p))[0], h.arr(q[p])[T, 0], tol=1e-3)
                for p in kept:
                    h.eq("frozen arrays stay", leaf(x.params, p), q[p][0])
                h.eq("state of the model after the last step", x.mutable["model"]["s"], [m], tol=1e-3)
                h.eq("calibration parameters untouched", x.calib_params["output_calibrator"]["params"]["t"], c0)


map_("map")
map_("map_frozen", PATHS[:1])
map_("map_continued", resume="current state")
map_("map_continued_frozen", PATHS[1:2], resume="current state", n_epochs=1)
map_("map_checkpoint", resume="checkpoint")
map_("map_checkpoint_frozen", PATHS[2:], resume="checkpoint", n_epochs=1)


def pick(h, name, lo, hi):
    x = h.val(h.int(name, (), lo, hi))
    return [k for k in range(lo, hi + 1) if k == hi or h.branch(x == k)][0]


def ensemble(name, kept=(), pre=False, resume=None, size=3, n_batches=2):
    n = n_batches

    @HARNESSES(name=name, bounds=f"{size} members, 1 epoch of {n_batches} batches, 2 arrays ({len(kept)} frozen{', from a preliminary MAP run' if pre else ''}), every initialisation, gradient and draw" + (f", continued from the {resume}" if resume else ""))
    def body(h):
        quiet(h)
        runs = size * (2 if resume else 1) + (1 if pre else 0)
        paths = PATHS[1:]
        init = {p: h.real("i_" + "_".join(p[2:]), (size + 1, 1), -2, 2) for p in paths}
        g = {p: h.real("g_" + "_".join(p[2:]), (runs * n, 1), -2, 2) for p in paths}
        made, log = [], []

        def start():
            made.append(1)
            return tree(None, [(p, init[p][len(made) - 1]) for p in paths])

        def loss(params, batch, n_data, train):
            t = len(log)
            log.append((n_data, train))
            return sum(leaf(params, p)[0] * g[p][t, 0] for p in paths)

        post = DeepEnsemblePosterior(stub_joint(start, loss), DeepEnsemblePosteriorApproximator(ensemble_size=size))
        post.rng = RandomNumberGenerator(0)
        with Disk(h) as disk:
            ck = dict(save_checkpoint_dir=disk.path("s"), dump_state=True) if resume == "checkpoint" else {}
            post.fit(loader(n_batches), fit_config=config(1, kept, **ck), map_fit_config=config(1) if pre else None)
            if resume == "checkpoint":
                post = DeepEnsemblePosterior(post.joint, DeepEnsemblePosteriorApproximator(ensemble_size=size))
                post.rng = RandomNumberGenerator(1)
                post.fit(loader(n_batches), fit_config=config(1, kept, restore_checkpoint_path=disk.path("s")))
            elif resume:
                post.fit(loader(n_batches), fit_config=config(1, kept, start_from_current_state=True))
            h.check("one step per batch and member", log == [(n_batches, True)] * (runs * n), f"{len(log)}")
            h.check("one initialisation per member", len(made) == size + (1 if pre else 0), f"{len(made)}")
            ref = []
            for i in range(size):
                r = {}
                for p in paths:
                    k = i + (1 if pre else 0)
                    G = h.arr(g[p])[:, 0]
                    x = h.arr(init[p])[k, 0]
                    blocks = [k] + ([size + k] if resume else [])
                    if p in kept:
                        # of the preliminary run, if there was one
                        x, blocks = (h.arr(init[p])[0, 0], [0]) if pre else (x, [])
                    for b in blocks:
                        for t in range(n):
                            x = x - LR * G[b * n + t]
                    r[p] = x
                ref.append(r)
            for i in range(size):
                st = post.state.get(i=i)
                for p in paths:
                    h.eq("every member trained from its own initialisation", h.arr(leaf(st.params, p))[0], ref[i][p], tol=1e-3)
            j = pick(h, "choice", 0, size - 1)
            drawn = []

            def choice(key, a, *args, **kw):
                drawn.append(int(a))
                return jnp.asarray(j)

            h.patch(jax.random, "choice", choice)
            import fortuna.prob_model.posterior.deep_ensemble.deep_ensemble_posterior as DE

            h.patch(DE, "pure_callback", lambda f, shape, *a: f(*a))
            s = post.sample()
            h.check("any member may be drawn", drawn == [size], f"{drawn}")
            for p in paths:
                h.eq("the drawn member", h.arr(leaf(s.params, p))[0], ref[j][p], tol=1e-3)


ensemble("ensemble")
ensemble("ensemble_frozen", PATHS[1:2])
ensemble("ensemble_frozen_map", PATHS[1:2], pre=True)
ensemble("ensemble_continued", resume="current state", size=2)
ensemble("ensemble_checkpoint", resume="checkpoint", size=2)


@HARNESSES(name="swag_several_devices", bounds="the statistics of SWAG on 2 devices (states with a leading device axis, as the training steps leave them), 3 iterates of 3 arrays, one frozen, every value in [-2,2]", obl_timeout=30)
def swag_devices(h):
    kept = PATHS[1:2]
    q = walk(h, PATHS, 2, kept)
    order = sorted(p for p in q if p not in kept)
    fz = lambda path, v: "frozen" if tuple(path) in kept else "trainable"
    tr = MultiDeviceSWAGTrainer(which_params=tuple(list(p) for p in order), predict_fn=lambda o, **k: o, disable_training_metrics_computation=True, freeze_fun=fz)
    two = lambda t: jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x)] * 2), t)

    def state(t):
        ms = MAPState.init(params=tree(None, [(p, q[p][t]) for p in order]), mutable=None, optimizer=optax.sgd(LR))
        st = SWAGState.convert_from_map_state(ms, optax.sgd(LR))
        return two(st.replace(frozen_params=tree(None, [(p, q[p][0]) for p in kept])))

    for t in range(3):
        st, _ = tr.training_step_end(t, state(t), dict(loss=jnp.zeros((2,)), logging_kwargs=None), (jnp.zeros((2, 1, 1)), jnp.zeros((2, 1, 1))), None, None, FrozenDict(rank=2))
    st = tr.on_train_end(st)
    h.shape("mean", st.mean, (2,))
    h.shape("std", st.std, (2,))
    h.shape("dev", st.dev, (2, 2))
    for i, p in enumerate(order):
        x = list(h.arr(q[p])[:, 0])
        m1, m2 = avg(h, x), avg(h, [v * v for v in x])
        h.eq("mean", h.arr(st.mean)[i], m1, tol=1e-3)
        h.eq("standard deviation", h.arr(st.std)[i], h.sqrt(h.max([0 * m1, m2 - m1 * m1])), tol=1e-2)
        h.eq("deviations", list(h.arr(st.dev)[i]), [x[1] - avg(h, x[:2]), x[2] - m1], tol=1e-3)
        h.eq("last iterate", leaf(st.params, p), [x[-1]], tol=1e-3)
    for p in kept:
        h.eq("frozen", leaf(st.params, p), q[p][0])
    Z, _ = noise(h, (2, 2))
    post = SWAGPosterior(stub_joint(None, None), SWAGPosteriorApproximator(rank=2))
    post.rng = RandomNumberGenerator(0)
    post.state = PosteriorStateRepository()
    post.state.put(st)
    s = post.sample().params
    for p in kept:
        h.eq("frozen drawn", leaf(s, p), q[p][0])
    for i, p in enumerate(order):
        ref = h.arr(st.mean)[i] + 0.5 ** 0.5 * h.arr(st.std)[i] * Z[0][i] + 0.5 * h.sum([h.arr(st.dev)[i, r] * Z[1][r] for r in range(2)])
        h.eq("drawn", h.arr(leaf(s, p))[0], ref, tol=1e-3)
