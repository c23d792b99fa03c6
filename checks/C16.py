"""Training loop: optimisation steps, freezing, accumulation, clipping, validation, early stopping, checkpoints."""
from symx.api import Registry
import collections
import types
import flax.training.early_stopping as ES
import jax
import jax.numpy as jnp
import math
import numpy as np
import optax
from flax.core import FrozenDict

import fortuna.training.mixin as MX
import fortuna.training.trainer as TR
from fortuna.data.loader import DataLoader
from fortuna.prob_model.posterior.map.map_state import MAPState
from fortuna.prob_model.posterior.map.map_trainer import JittedMAPTrainer, MAPTrainer
from fortuna.training.callback import Callback
from fortuna.utils.training import clip_grandients_by_norm, clip_grandients_by_value

HARNESSES = Registry()
STUBS = ["the loss is an arbitrary quadratic of the parameters per batch (given by symbolic coefficients); checkpoints are recorded instead of written; the progress bar is replaced by range"]
ASSUMPTIONS = ["real arithmetic instead of float32; plain gradient descent with learning rate 1/4 and, for states, momentum 1/2"]
OUTSIDE = "mixed precision; multi-device synchronisation (pmean); more than 3 epochs, 4 batches; the checkpoint file format"
KEY = jax.random.PRNGKey(0)
LR = 0.25


class Bar(list):
    def set_description(self, *a, **k):
        pass


def quiet(h):
    h.patch(TR, "trange", lambda n, **k: Bar(range(n)))
    h.patch(ES, "math", types.SimpleNamespace(isinf=lambda x: isinstance(x, float) and math.isinf(x)))


def tree(a, b, c):
    return FrozenDict(model=FrozenDict(params=FrozenDict(d=FrozenDict(a=a, b=b), e=FrozenDict(c=c))))


def leaves(h, p):
    q = p["model"]["params"]
    return [*h.arr(q["d"]["a"]), *h.arr(q["d"]["b"]), *h.arr(q["e"]["c"])]


class Loss:
    """half the squared distance to the batch's target vector, plus the state; records how it was called"""

    def __init__(self):
        self.calls = []

    def __call__(self, params, batch, n_data=None, mutable=None, return_aux=None, train=None, rng=None, calib_params=None, calib_mutable=None):
        x, y = batch
        q = params["model"]["params"]
        v = jnp.concatenate([q["d"]["a"], q["d"]["b"], q["e"]["c"]])
        out = x * v[None]
        loss = 0.5 * jnp.mean(jnp.sum((out - y) ** 2, 1)) * n_data
        self.calls.append((train, n_data, tuple(return_aux), calib_params, calib_mutable))
        aux = dict(outputs=out)
        if mutable is not None:
            loss = loss + mutable["s"][0]
            aux["mutable"] = FrozenDict(s=mutable["s"] + (1.0 if train else 100.0))
        return loss, aux


def grad_of(p, x, y, n_data):
    """analytic gradient of the loss on one batch"""
    B = len(x)
    return [n_data * sum(x[i][j] * (x[i][j] * p[j] - y[i][j]) for i in range(B)) / B for j in range(4)]


def loss_of(p, x, y, n_data):
    B = len(x)
    return n_data * sum((x[i][j] * p[j] - y[i][j]) * (x[i][j] * p[j] - y[i][j]) for i in range(B) for j in range(4)) * 0.5 / B


XS = np.array([[[1.0, 0.5, -1.0, 2.0]], [[0.5, -1.0, 1.0, 1.0]], [[-1.0, 1.0, 0.5, 0.25]], [[2.0, 1.0, -0.5, 1.0]]], dtype="float32")


def setup(h, nb, lo=-1, hi=1):
    quiet(h)
    a, b, c = h.real("a", (2,), lo, hi), h.real("b", (1,), lo, hi), h.real("c", (1,), lo, hi)
    y = h.real("y", (nb, 1, 4), lo, hi)
    Y = h.arr(y)
    p = tree(a, b, c)
    X = [[[float(v) for v in r] for r in x] for x in XS[:nb]]
    dl = DataLoader.from_callable_iterable(lambda: iter([(jnp.asarray(XS[i]), y[i]) for i in range(nb)]))
    return p, leaves(h, p), dl, X, [[list(r) for r in Y[i]] for i in range(nb)]


def make(cls=MAPTrainer, **kw):
    kw.setdefault("early_stopping_patience", 0)
    kw.setdefault("early_stopping_verbose", False)
    return cls(predict_fn=lambda o, **k: o, **kw)


class Count(Callback):
    def __init__(self):
        self.log = []

    def training_epoch_start(self, s):
        self.log.append("start")
        return s

    def training_step_end(self, s):
        self.log.append("step")
        return s

    def training_epoch_end(self, s):
        self.log.append("end")
        return s


def descent(nb, epochs, frozen, mutable, momentum=None, cls=MAPTrainer):
    @HARNESSES(name=f"descent_{nb}x{epochs}{'_frozen_' + frozen if frozen else ''}{'_state' if mutable else ''}{'_momentum' if momentum else ''}{'_jit' if cls is not MAPTrainer else ''}", bounds=f"4 parameters in a nested tree and targets in [-1,1], {nb} batches, {epochs} epochs, frozen: {frozen}")
    def body(h):
        p, v, dl, X, Y = setup(h, nb)
        fz = None if frozen is None else (lambda path, val: "frozen" if frozen in path else "trainable")
        is_frozen = [frozen == "d" or frozen == "a"] * 2 + [frozen == "d" or frozen == "b", frozen in ("e", "c")] if frozen else [False] * 4
        opt = optax.sgd(LR, momentum=momentum)
        s0 = h.real("s", (1,), -1, 1) if mutable else None
        state = MAPState.init(params=p, mutable=None if s0 is None else FrozenDict(s=s0), optimizer=opt)
        if frozen:
            from fortuna.prob_model.posterior.base import Posterior
            state = Posterior._freeze_optimizer_in_state(state, types.SimpleNamespace(optimizer=types.SimpleNamespace(freeze_fun=fz, method=opt)))
        saved = []
        h.patch(MX, "checkpoints", types.SimpleNamespace(save_checkpoint=lambda **k: saved.append(k)))
        loss, cb = Loss(), Count()
        tr = make(cls, freeze_fun=fz, save_checkpoint_dir="nowhere", save_every_n_steps=2, keep_top_n_checkpoints=3)
        out, status = tr.train(rng=KEY, state=state, loss_fun=loss, training_dataloader=dl, training_dataset_size=2, n_epochs=epochs, verbose=False, callbacks=[cb])
        # reference
        w, losses, vel, k = list(v), [], [0] * 4, 0
        S = h.arr(s0)[0] if mutable else 0
        snaps = []
        for e in range(epochs):
            ls = []
            for i in range(nb):
                ls.append(loss_of(w, X[i], Y[i], 2) + (S + k if mutable else 0))
                g = grad_of(w, X[i], Y[i], 2)
                vel = [g[j] + (momentum or 0) * vel[j] for j in range(4)]
                w = [w[j] if is_frozen[j] else w[j] - LR * vel[j] for j in range(4)]
                k += 1
                if k >= 2 and k % 2 == 0:
                    snaps.append((k, list(w)))
            losses.append(h.sum(ls) / nb)
        h.eq("parameters after gradient descent", leaves(h, out.params), w, tol=1e-3)
        for j in range(4):
            if is_frozen[j]:
                h.eq("frozen parameters keep their value", [leaves(h, out.params)[j]], [v[j]])
        h.check("number of steps", int(h.val(out.step).e if h.sym else out.step) == nb * epochs)
        h.eq("average loss per epoch", status["loss"], losses, tol=2e-3)
        h.check("only the training loss", set(status) == {"loss"})
        if mutable:
            h.eq("the state of the last step is kept", out.mutable["s"], [S + nb * epochs], tol=1e-3)
        h.check("callbacks in order", cb.log == (["start"] + ["step"] * nb + ["end"]) * epochs)
        h.check("losses in training mode", all(c[0] is True and c[1] == 2 for c in loss.calls))
        h.check("one checkpoint every two steps and one at the end", [k["overwrite"] for k in saved] == [False] * len(snaps) + [True] and all(k["ckpt_dir"] == "nowhere" and k["keep"] == 3 for k in saved))
        for got, (step, ref) in zip(saved, snaps + [(nb * epochs, w)]):
            h.eq("checkpoints contain all parameters of their step", leaves(h, got["target"].params), ref, tol=1e-3)
            h.check("step of the checkpoint", int(h.val(got["step"]).e if h.sym else got["step"]) == step)
        h.check("nothing stays frozen", out.frozen_params is None)
        h.eq("the initial state is not modified", leaves(h, state.params), v)


descent(2, 2, None, False)
descent(3, 1, None, True)
descent(2, 2, "e", False)
descent(2, 1, "a", True)
descent(2, 2, "d", False, 0.5)
descent(2, 2, None, False, 0.5)
descent(2, 1, "b", False, None, JittedMAPTrainer)


def accumulate(nb, m, epochs, momentum=None):
    @HARNESSES(name=f"accumulation_{nb}_{m}x{epochs}", bounds=f"{nb} batches, gradients accumulated over {m}, {epochs} epochs, 4 parameters and targets in [-1,1]")
    def body(h):
        p, v, dl, X, Y = setup(h, nb)
        state = MAPState.init(params=p, optimizer=optax.sgd(LR, momentum=momentum))
        tr = make()
        cb = Count()
        out, status = tr.train(rng=KEY, state=state, loss_fun=Loss(), training_dataloader=dl, training_dataset_size=2, n_epochs=epochs, verbose=False, callbacks=[cb], gradient_accumulation_steps=m)
        w, k, acc = list(v), 0, [0] * 4
        for e in range(epochs):
            for i in range(nb):
                g = grad_of(w, X[i], Y[i], 2)
                acc = [x + y for x, y in zip(acc, g)]
                k += 1
                if k % m == 0:
                    w = [w[j] - LR * acc[j] / m for j in range(4)]
                    acc = [0] * 4
        h.eq("one update with the average gradient every few batches", leaves(h, out.params), w, tol=1e-3)
        h.check("one callback per update", cb.log.count("step") == epochs * (nb // m))


accumulate(2, 2, 2)
accumulate(4, 2, 1)
accumulate(3, 3, 1)
accumulate(3, 2, 2)


@HARNESSES(bounds="4 gradients in [-2,2] in a nested tree, maximal norm 1", obl_timeout=60)
def clipping(h):
    p, v, dl, X, Y = setup(h, 1, -2, 2)
    g = clip_grandients_by_norm(p, 1.0)
    G = leaves(h, g)
    n2 = h.sum([x * x for x in v])
    got2 = h.sum([x * x for x in G])
    h.check("norm at most the maximum", got2 <= 1 + 1e-3)
    for j in range(4):
        h.check("small gradients are kept", h.Implies(n2 <= 0.99, h.And(G[j] - v[j] <= 1e-3, v[j] - G[j] <= 1e-3)))
        d = G[j] * h.sqrt(n2) - v[j]
        h.check("large gradients are divided by their norm", h.Implies(n2 >= 1.02, h.And(d <= 1e-3, d >= -1e-3)))
        h.check("same sign", G[j] * v[j] >= 0)
        for i in range(j):
            h.eq("same direction", [G[i] * v[j]], [G[j] * v[i]], tol=1e-3)
    c = leaves(h, clip_grandients_by_value(p, 0.5))
    for x, y in zip(c, v):
        h.eq("clipped by value", [x], [h.max([h.min([y, 0.5 + 0 * y]), -0.5 + 0 * y])])


@HARNESSES(bounds="one step of plain gradient descent with clipped gradients, also accumulated over 2 batches, once and twice", obl_timeout=60)
def clipped_descent(h):
    p, v0, dl, X, Y = setup(h, 4)
    for m, nb in ((None, 1), (2, 2), (2, 4), (None, 2)):
        v = list(v0)
        seen = []

        def clip(g, max_norm):
            seen.append(max_norm)
            return jax.tree_util.tree_map(lambda x: 0.5 * x, g)

        h.patch(TR, "clip_grandients_by_norm", clip)
        state = MAPState.init(params=p, optimizer=optax.sgd(LR))
        one = DataLoader.from_callable_iterable(lambda: iter(list(dl)[:nb]))
        out, _ = make().train(rng=KEY, state=state, loss_fun=Loss(), training_dataloader=one, training_dataset_size=2, verbose=False, max_grad_norm=1.5, gradient_accumulation_steps=m)
        for i in range(0, nb, m or 1):
            g = grad_of(v, X[i], Y[i], 2)
            if m:
                g = [(x + y) / 2 for x, y in zip(g, grad_of(v, X[i + 1], Y[i + 1], 2))]
            v = [x - LR * 0.5 * y for x, y in zip(v, g)]
        h.eq("update with the clipped gradient", leaves(h, out.params), v, tol=1e-3)
        h.check("given norm", all(k == 1.5 for k in seen) and len(seen) >= 1)
        h.unpatch()
        quiet(h)


def pick(h, x, lo, hi):
    return [k for k in range(lo, hi + 1) if k == hi or h.branch(x == k)][0]


def stopping(mode, patience, every, epochs, restore=False):
    @HARNESSES(name=f"early_stopping_{mode}_{patience}_every{every}", bounds=f"every sequence of validation losses in [-4,4] over {epochs} epochs, patience {patience}, mode {mode}, validation every {every} epochs, minimal improvement 1/4")
    def body(h):
        p, v, dl, X, Y = setup(h, 1)
        n_val = len(range(0, epochs, every))
        vals = h.real("v", (n_val, 2), -4, 4)
        V = h.arr(vals)
        means = [(V[i, 0] + V[i, 1]) / 2 for i in range(n_val)]
        for i in range(n_val):
            for j in range(i):      # keep away from the exact threshold
                for sg in (1, -1):
                    d = sg * (means[i] - means[j]) - 0.25
                    h.assume(h.Or(d > 0.01, d < -0.01))
        saved, trained, evaluated = [], [], []
        h.patch(MX, "checkpoints", types.SimpleNamespace(save_checkpoint=lambda **k: saved.append(k)))

        class T(MAPTrainer):
            def training_step(self, state, batch, *a):
                trained.append(1)
                return state.replace(step=state.step + 1), dict(loss=jnp.array(0.0), outputs=None, logging_kwargs=None)

            def validation_step(self, state, batch, loss_fun, rng, n_data, *a):
                evaluated.append((len(trained), n_data))
                return dict(val_loss=vals[(len(evaluated) - 1) // 2, (len(evaluated) - 1) % 2])

        tr = make(T, early_stopping_patience=patience, early_stopping_mode=mode, early_stopping_min_delta=0.25, eval_every_n_epochs=every, save_checkpoint_dir="nowhere")
        state = MAPState.init(params=p, optimizer=optax.sgd(LR))
        val = DataLoader.from_callable_iterable(lambda: iter([(XS[0], XS[0])] * 2))
        out, status = tr.train(rng=KEY, state=state, loss_fun=None, training_dataloader=dl, training_dataset_size=1, n_epochs=epochs, validation_dataloader=val, validation_dataset_size=7, verbose=False)
        # reference
        best, count, stop, improved_at, nv = None, 0, epochs, [], 0
        for e in range(epochs):
            if e % every:
                continue
            m = means[nv] if mode == "min" else -means[nv]
            nv += 1
            if best is None or h.branch(best - m > 0.25):
                best, count = m, 0
                improved_at.append(e + 1)
            else:
                count += 1
                if count > patience:
                    stop = e + 1
                    break
        h.check("number of epochs", len(trained) == stop)
        h.check("validation every few epochs on all batches", [a for a, _ in evaluated] == [e + 1 for e in range(0, stop, every) for _ in range(2)] and all(b == 7 for _, b in evaluated))
        h.eq("average validation losses are reported", status["val_loss"], means[:nv])
        h.check("checkpoints of improved states and of the last one", [int(k["step"]) for k in saved] == improved_at + [stop])
        h.check("and they may overwrite later ones", all(k["overwrite"] for k in saved))


stopping("min", 1, 1, 4)
stopping("max", 1, 1, 4)
stopping("min", 2, 1, 4)
stopping("min", 1, 2, 5)


@HARNESSES(bounds="one batch of 2 points and one validation batch, 4 parameters and targets in [-1,1]")
def metrics_and_validation(h):
    p, v, dl, X, Y = setup(h, 2)
    s0 = h.real("s", (1,), -1, 1)
    state = MAPState.init(params=p, mutable=FrozenDict(s=s0), optimizer=optax.sgd(LR))
    loss = Loss()

    def diff(preds, targets):
        return jnp.mean(preds - targets)

    def first(preds, targets):
        return preds[0, 0]

    fz = lambda path, val: "frozen" if "e" in path else "trainable"
    tr = MAPTrainer(predict_fn=lambda o, **k: 2 * o, early_stopping_patience=0, early_stopping_verbose=False, freeze_fun=fz)
    t = DataLoader.from_callable_iterable(lambda: iter(list(dl)[:1]))
    w = DataLoader.from_callable_iterable(lambda: iter(list(dl)[1:]))
    out, status = tr.train(rng=KEY, state=state, loss_fun=loss, training_dataloader=t, training_dataset_size=2, verbose=False, metrics=(diff, first), validation_dataloader=w, validation_dataset_size=3)
    S = h.arr(s0)[0]
    g = grad_of(v, X[0], Y[0], 2)
    z = [v[j] - (LR * g[j] if j < 3 else 0) for j in range(4)]
    h.eq("training loss", status["loss"], [loss_of(v, X[0], Y[0], 2) + S], tol=1e-3)
    h.eq("training metric on the predictions", status["diff"], [h.sum([2 * X[0][0][j] * v[j] - Y[0][0][j] for j in range(4)]) / 4], tol=1e-3)
    h.eq("second metric", status["first"], [2 * X[0][0][0] * v[0]], tol=1e-3)
    h.eq("validation loss of the updated parameters", status["val_loss"], [loss_of(z, X[1], Y[1], 3) + S + 1], tol=2e-3)
    h.eq("validation metric", status["val_diff"], [h.sum([2 * X[1][0][j] * z[j] - Y[1][0][j] for j in range(4)]) / 4], tol=1e-3)
    h.eq("validation does not change the state", out.mutable["s"], [S + 1], tol=1e-3)
    h.check("validation in evaluation mode", [c[:2] for c in loss.calls if c[0] is False] == [(False, 3)])
    bad, _ = h.raises(lambda: tr.train(rng=KEY, state=state, loss_fun=loss, training_dataloader=t, training_dataset_size=2, verbose=False, validation_dataloader=w), AssertionError)
    h.check("the size of the validation data is required", bad)


@HARNESSES(bounds="the first 4 steps", seconds=60)
def random_numbers(h):
    """every step gets its own key, the same for the same step of another run"""
    p, v, dl, X, Y = setup(h, 2)
    runs = []
    for _ in range(2):
        keys = []

        class T(MAPTrainer):
            def training_step(self, state, batch, loss_fun, rng, *a):
                keys.append(tuple(np.asarray(rng).tolist()))
                return state.replace(step=state.step + 1), dict(loss=jnp.array(0.0), outputs=None, logging_kwargs=None)

        make(T).train(rng=KEY, state=MAPState.init(params=p, optimizer=optax.sgd(LR)), loss_fun=None, training_dataloader=dl, training_dataset_size=1, n_epochs=2, verbose=False)
        runs.append(keys)
    h.check("fresh key per step", len(set(runs[0])) == 4)
    h.check("reproducible", runs[0] == runs[1])
