"""Post-hoc calibration of model outputs: OutputCalibClassifier / OutputCalibRegressor and the calibrator trainers behind ProbModel.calibrate."""
from symx.api import Registry
import types

import flax.linen as nn
import flax.training.early_stopping as ES
import jax
import jax.numpy as jnp
import math
import numpy as np
import optax
from flax.core import FrozenDict

import fortuna.output_calib_model.output_calib_model_calibrator as OC
import fortuna.training.output_calibrator as TC
from fortuna.data.loader import DataLoader
from fortuna.output_calib_model import OutputCalibClassifier, OutputCalibRegressor
from fortuna.output_calib_model.config.base import Config
from fortuna.output_calib_model.config.checkpointer import Checkpointer
from fortuna.output_calib_model.config.monitor import Monitor
from fortuna.output_calib_model.config.optimizer import Optimizer
from fortuna.output_calib_model.config.processor import Processor
from fortuna.output_calib_model.state import OutputCalibState
from fortuna.prob_model.prob_model_calibrator import JittedProbModelOutputCalibrator, MultiDeviceProbModelOutputCalibrator, ProbModelOutputCalibrator
from symx.fort import Bar, Disk

HARNESSES = Registry()
STUBS = ["output calibrator: scale and shift of the outputs (and, where stated, a running total of them), loss: squared distance; gradient descent with step 1/4; the checkpoint file's bytes are replaced by a token for the stored tree; pmap over 2 emulated devices is vmap over the device axis; the progress bar is a range"]
ASSUMPTIONS = ["real arithmetic instead of float32"]
OUTSIDE = "other calibrators and losses (the shipped ones are C11 and C12); more than 3 epochs of 2 batches; float rounding; the checkpoint file format"
KEY = jax.random.PRNGKey(0)
LR = 0.25


class Affine(nn.Module):
    stats: bool = False

    @nn.compact
    def __call__(self, x, train=False, **kw):
        a = self.param("a", nn.initializers.ones, (1,))
        b = self.param("b", nn.initializers.zeros, (1,))
        y = x * a + b
        if self.stats:
            t = self.variable("stats", "total", lambda: jnp.zeros((1,)))
            y = y + t.value
            if train and not self.is_initializing():
                t.value = t.value + jnp.mean(x)
        return y


def sq_loss(outputs, targets):
    return 0.5 * jnp.mean((outputs - targets) ** 2)


def quiet(h, mod):
    h.patch(mod, "trange", lambda n, **k: Bar(range(n)))
    h.patch(ES, "math", types.SimpleNamespace(isinf=lambda x: isinstance(x, float) and math.isinf(x)))


def pm(f):
    """pmap(f, axis 'batch') with its static arguments, as a vmap"""
    g = f.__wrapped__

    def run(self, state, *args):
        i = next(k for k, a in enumerate(args) if callable(a) and not isinstance(a, (jnp.ndarray, np.ndarray)))
        stat = {i: args[i], **{k: a for k, a in enumerate(args) if isinstance(a, int)}}
        dyn = [a for k, a in enumerate(args) if k not in stat]

        def one(state, *dyn):
            it = iter(dyn)
            return g(self, state, *[stat[k] if k in stat else next(it) for k in range(len(args))])

        return jax.vmap(one, axis_name="batch")(state, *dyn)

    return run


def devices(h, mod, cls):
    mm = mod.MultiDeviceMixin
    h.patch(jax, "local_device_count", lambda *a: 2)
    h.patch(mod.jax_utils, "replicate", lambda t, *a: jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x)] * 2), t))
    h.patch(mod.jax_utils, "prefetch_to_device", lambda it, n: it)
    h.patch(jax, "device_get", lambda t: t)
    h.patch(mm, "training_step", pm(mm.__dict__["training_step"]))
    h.patch(mm, "val_loss_step", pm(mm.__dict__["val_loss_step"]))
    h.patch(mm, "all_reduce_mean", staticmethod(jax.vmap(lambda x: jax.lax.pmean(x, "x"), axis_name="x")))


class Ref:
    """scale, shift and running total by hand"""

    def __init__(self, h, stats=False, a=1.0, b=0.0, t=0.0):
        self.h, self.a, self.b, self.t, self.stats = h, a, b, t, stats

    def apply(self, x):
        t = self.t if self.stats else 0
        return [[v * self.a + self.b + t for v in r] for r in x]

    def loss(self, x, y):
        o = self.apply(x)
        n = len(x) * len(y[0])
        return sum((o[i][j] - y[i][j]) * (o[i][j] - y[i][j]) for i in range(len(x)) for j in range(len(y[0]))) * 0.5 / n

    def step(self, x, y, n_shards=1, move_stats=True):
        o = self.apply(x)
        n = len(x) * len(y[0])
        l = self.loss(x, y)
        d = [(o[i][j] - y[i][j], x[i][j]) for i in range(len(x)) for j in range(len(y[0]))]
        ga, gb = sum(e * v for e, v in d) / n, sum(e for e, v in d) / n
        self.a, self.b = self.a - LR * ga, self.b - LR * gb
        if self.stats and move_stats:
            self.t = self.t + sum(v for r in x for v in r) / (len(x) * len(x[0]))
        return l


def two(h, name, n, d=2, lo=-2, hi=2):
    return h.real(name, (n, d), lo, hi)


def conf(metrics=None, epochs=1, patience=0, every=1, ck=None, jit=False, no_train_metrics=False, unc=None):
    return Config(optimizer=Optimizer(method=optax.sgd(LR), n_epochs=epochs), processor=Processor(devices=0, disable_jit=not jit), checkpointer=Checkpointer(**(ck or {})),
                  monitor=Monitor(metrics=metrics, verbose=False, early_stopping_patience=patience, eval_every_n_epochs=every, disable_calibration_metrics_computation=no_train_metrics, uncertainty_fn=unc))


X = np.array([[1.0, -0.5], [0.5, 2.0], [-1.0, 0.25], [2.0, 1.0]], dtype="float32")
V = np.array([[0.5, 1.0], [-2.0, 0.5]], dtype="float32")


def rows(h, x):
    a = h.arr(x)
    return [list(r) for r in a]


def regressor(stats=False):
    m = OutputCalibRegressor(output_calibrator=Affine(stats=stats))
    m._check_output_dim = lambda o, t: None
    return m


def fit(name, n, epochs, stats=False, val=False, every=1, jit=False, metrics=False, dev=False, quick=True):
    @HARNESSES(name=name, quick=quick, obl_timeout=40, bounds=f"{n} outputs of dimension 2 (dyadic constants), every targets in [-2,2], {epochs} epochs{', a running total in the calibrator' if stats else ''}{', validation every ' + str(every) + ' epochs' if val else ''}{', 2 devices' if dev else ''}")
    def body(h):
        quiet(h, OC)
        y = two(h, "y", n)
        vy = two(h, "vy", 2) if val else None
        x, Y = [[float(v) for v in r] for r in X[:n]], rows(h, y)
        vx, VY = [[float(v) for v in r] for r in V], rows(h, vy) if val else None
        calls = []

        def gap(preds, uncertainties, targets):
            calls.append((np.shape(preds), np.shape(uncertainties), np.shape(targets)))
            return jnp.mean(preds[..., :1] - 2 * targets[..., 1:] + 4 * uncertainties[..., :1])

        m = regressor(stats)
        m.prob_output_layer.predict = lambda o: o * 2.0
        unc = lambda o: o[..., ::-1] + 1.0
        if dev:
            devices(h, OC, OC.MultiDeviceOutputCalibModelCalibrator)
            import fortuna.output_calib_model.base as OB
            h.patch(OB, "select_trainer_given_devices", lambda **k: k["multi_device_trainer_cls"])
        status = m.calibrate(calib_outputs=jnp.asarray(X[:n]), calib_targets=y, val_outputs=jnp.asarray(V) if val else None, val_targets=vy, loss_fn=sq_loss,
                             config=conf(metrics=(gap,) if metrics else None, epochs=epochs, every=every, jit=jit, unc=unc))
        ref, losses, vl, tm, vm = Ref(h, stats), [], [], [], []

        def g(o, t):
            k = len(o)
            return sum(2 * o[i][0] - 2 * t[i][1] + 4 * (o[i][1] + 1) for i in range(k)) / k

        for e in range(epochs):
            tm.append(g(ref.apply(x), Y))
            losses.append(ref.step(x, Y))
            if val and e % every == 0:
                vl.append(ref.loss(vx, VY))
                vm.append(g(ref.apply(vx), VY))
        h.eq("loss of every epoch, before its step", status["loss"], losses)
        if val:
            h.eq("validation loss after the step of the epoch", status["val_loss"], vl)
        h.check("statuses", set(status) == {"loss"} | ({"val_loss"} if val else set()) | ({"gap"} if metrics else set()) | ({"val_gap"} if metrics and val else set()))
        if metrics:
            h.eq("metric of the calibrated outputs, their uncertainties and the targets", status["gap"], tm)
            if val:
                h.eq("validation metric", status["val_gap"], vm)
        st = m.predictive.state.get()
        p = st.params["output_calibrator"]["params"]
        h.eq("scale", p["a"], [ref.a])
        h.eq("shift", p["b"], [ref.b])
        h.eq("one step per epoch", st.step, epochs)
        if stats:
            h.eq("running total, of the calibration steps only", st.mutable["output_calibrator"]["stats"]["total"], [ref.t])
        # predictions
        q = h.real("q", (1, 2), -1, 1)
        Q = rows(h, q)
        m.prob_output_layer.predict = lambda o: o
        h.eq("calibrated mean", m.predictive.mean(q), [r[:1] for r in ref.apply(Q)])
        h.eq("uncalibrated mean", m.predictive.mean(q, calibrated=False), [r[:1] for r in Q])
    return body


fit("two_epochs", 2, 2, metrics=True)
fit("validation", 2, 2, val=True, metrics=True)
fit("validation_every_second_epoch", 1, 3, val=True, every=2)
fit("state", 2, 2, stats=True, val=True)
fit("jit", 2, 2, val=True, jit=True, metrics=True)
fit("devices", 4, 2, val=True, metrics=True, dev=True)
fit("devices_state", 4, 1, stats=True, val=True, dev=True)


@HARNESSES(name="predictive_uses_calibrated_outputs", bounds="outputs and targets in [-1,1], every scale and shift in [-1,1], one output of dimension 2 or 3")
def predictive(h):
    quiet(h, OC)
    a, b = h.real("a", (1,), -1, 1), h.real("b", (1,), -1, 1)
    (A,), (B,) = h.arr(a), h.arr(b)
    for cls, d, stats in ((OutputCalibRegressor, 2, ["mean", "mode", "variance", "std", "entropy"]), (OutputCalibClassifier, 3, ["mean", "mode", "variance", "std", "entropy"])):
        o = h.real(f"o{d}", (1, d), -1, 1)
        m = cls(output_calibrator=Affine())
        for s in stats:
            bad, _ = h.raises(lambda s=s: getattr(m.predictive, s)(o), ValueError)
            h.check(f"{s} of an uncalibrated model", bad)
        from fortuna.output_calib_model.output_calib_state_repository import OutputCalibStateRepository
        m.predictive.state = OutputCalibStateRepository()
        m.predictive.state.put(OutputCalibState.init(params=FrozenDict(output_calibrator=FrozenDict(params=FrozenDict(a=a, b=b))), mutable=FrozenDict(output_calibrator=None)))
        c = o * a + b
        t = jnp.array([1]) if d == 3 else h.real("t", (1, 1), -1, 1)
        for k, (oo, kw) in {"calibrated": (c, {}), "raw": (o, dict(calibrated=False))}.items():
            for s in stats:
                ekw = dict(rng=KEY, n_target_samples=2) if s == "entropy" and d == 2 else {}
                h.eq(f"{cls.__name__} {s} {k}", getattr(m.predictive, s)(o, **kw, **ekw), getattr(m.prob_output_layer, s)(oo, **ekw))
            h.eq(f"{cls.__name__} log_prob {k}", m.predictive.log_prob(o, t, **kw), m.prob_output_layer.log_prob(oo, t))
            if d == 2:
                h.eq(f"samples {k}", m.predictive.sample(2, o, KEY, **kw), m.prob_output_layer.sample(2, oo, KEY))
                h.eq(f"quantiles {k}", m.predictive.quantile(jnp.array([0.25, 0.75]), o, 3, KEY, **kw), m.prob_output_layer.quantile(jnp.array([0.25, 0.75]), oo, 3, KEY))
                h.eq(f"interval {k}", m.predictive.credible_interval(o, 3, 0.25, "two-tailed", KEY, **kw), m.prob_output_layer.credible_interval(oo, 3, 0.25, "two-tailed", KEY))
        v = h.real(f"v{d}", (1, 1), 0, 4)
        h.eq(f"{cls.__name__} std of given variances", m.predictive.std(o, variances=v), jnp.sqrt(v))


def stopping(patience, epochs):
    @HARNESSES(name=f"early_stopping_{patience}_{epochs}", bounds=f"every sequence of validation losses in [-4,4] over {epochs} epochs, patience {patience}")
    def body(h):
        quiet(h, OC)
        table = h.real("l", (epochs,), -4, 4)
        L = list(h.arr(table))
        m, n, saved = regressor(), [0], []
        h.patch(OC.OutputCalibModelCalibrator, "save_checkpoint", lambda self, state, save_checkpoint_dir=None, **k: saved.append(int(state.step)))

        def loss(outputs, targets):
            if targets.shape[0] == 2:
                return jnp.mean(outputs)
            n[0] += 1
            return table[n[0] - 1]

        st = m.calibrate(calib_outputs=jnp.zeros((2, 2)), calib_targets=jnp.zeros((2, 2)), val_outputs=jnp.zeros((1, 2)), val_targets=jnp.zeros((1, 2)), loss_fn=loss,
                         config=conf(epochs=epochs, patience=patience, ck=dict(save_checkpoint_dir="nowhere")))
        best, misses, k, want = L[0], 0, 0, [1]
        for k in range(1, epochs):
            if h.branch(L[k] < best):
                best, misses = L[k], 0
                want.append(k + 1)
            else:
                misses += 1
                if misses > patience:
                    break
        h.shape("epochs before stopping", st["loss"], (k + 1,))
        h.shape("validations before stopping", st["val_loss"], (k + 1,))
        h.eq("validation losses", st["val_loss"], L[:k + 1])
        h.check("checkpoint at every improvement and at the end", saved == want + [k + 1])
    return body


def labels(dev, prob):
    @HARNESSES(name=f"accuracy{'_prob' if prob else ''}{'_devices' if dev else ''}", bounds="4 data points of 2 classes (2 validated), every outputs in [-2,2], accuracy and mean highest probability as metrics, a constant loss" + (", 2 devices" if dev else ""))
    def body(h):
        mod = TC if prob else OC
        quiet(h, mod)
        o, v = h.real("o", (4, 2), -2, 2), h.real("v", (2, 2), -2, 2)
        t, u = jnp.array([0, 1, 1, 0]), jnp.array([1, 0])

        def accuracy(preds, uncertainties, targets):
            return jnp.mean(preds == targets)

        def sharp(preds, uncertainties, targets):
            return jnp.mean(jnp.take_along_axis(uncertainties, targets[:, None], 1))

        flat = lambda outputs, targets: jnp.mean(outputs) * 0.0
        if dev:
            devices(h, mod, None)
        if prob:
            import fortuna.prob_model.prob_model_calibrator as PC
            h.patch(PC.jax_utils, "prefetch_to_device", lambda it, n: it)
            from fortuna.prob_output_layer.classification import ClassificationProbOutputLayer
            pol = ClassificationProbOutputLayer()
            tr = (MultiDeviceProbModelOutputCalibrator if dev else ProbModelOutputCalibrator)(
                calib_outputs_loader=[o[None]], val_outputs_loader=[v[None]], predict_fn=pol.predict, uncertainty_fn=lambda x: x, early_stopping_patience=0, early_stopping_verbose=False)
            state = OutputCalibState.init(params=FrozenDict(output_calibrator=FrozenDict(params=FrozenDict(a=jnp.ones((1,))))), mutable=FrozenDict(output_calibrator=None), optimizer=optax.sgd(LR))

            def loss_fun(batch, n_data=None, return_aux=None, ensemble_outputs=None, calib_params=None, calib_mutable=None, rng=None):
                return flat(ensemble_outputs, None) * calib_params["output_calibrator"]["params"]["a"][0], dict(outputs=ensemble_outputs.mean(0), calib_mutable=FrozenDict(output_calibrator=None)) if "calib_mutable" in return_aux else dict(outputs=ensemble_outputs.mean(0))

            one = lambda x, y: DataLoader.from_callable_iterable(lambda: iter([(jnp.zeros((len(y), 1)), y)]))
            _, st = tr.train(rng=KEY, state=state, loss_fun=loss_fun, training_data_loader=one(o, t), training_dataset_size=4, metrics=(accuracy, sharp), val_data_loader=one(v, u), val_dataset_size=2, verbose=False)
        else:
            m = OutputCalibClassifier(output_calibrator=Affine())
            if dev:
                import fortuna.output_calib_model.base as OB
                h.patch(OB, "select_trainer_given_devices", lambda **k: k["multi_device_trainer_cls"])
            st = m.calibrate(o, t, v, u, loss_fn=flat, config=conf(metrics=(accuracy, sharp), unc=lambda x: x))
        O, W = h.arr(o), h.arr(v)
        for k, A, y in (("", O, [0, 1, 1, 0]), ("val_", W, [1, 0])):
            # on a tie the first class is predicted
            hit = [A[i][1] > A[i][0] if y[i] else h.Not(A[i][1] > A[i][0]) for i in range(len(y))]
            h.eq(k + "accuracy", st[k + "accuracy"], [h.count(hit) * (1 / len(y))])
            h.eq(k + "uncertainty of the same points", st[k + "sharp"], [sum(A[i][y[i]] for i in range(len(y))) * (1 / len(y))])
    return body


for _d in (False, True):
    for _p in (False, True):
        labels(_d, _p)

stopping(1, 4)
stopping(2, 4)


@HARNESSES(name="checkpoints", bounds="2 outputs of dimension 2, every targets in [-2,2], 1 epoch, then 1 more from the checkpoint; every step saved", obl_timeout=40)
def checkpoints(h):
    quiet(h, OC)
    y = two(h, "y", 2)
    x, Y = [[float(v) for v in r] for r in X[:2]], rows(h, y)
    with Disk(h) as d:
        a, b = d.path("a"), d.path("b")
        kw = dict(calib_outputs=jnp.asarray(X[:2]), calib_targets=y, loss_fn=sq_loss)
        m = regressor()
        m.calibrate(**kw, config=conf(ck=dict(save_checkpoint_dir=a, save_every_n_steps=1, dump_state=True)))
        ref = Ref(h)
        ref.step(x, Y)

        def same(name, mm, steps):
            st = mm.predictive.state.get()
            p = st.params["output_calibrator"]["params"]
            h.eq(name + ": scale", p["a"], [ref.a])
            h.eq(name + ": shift", p["b"], [ref.b])
            h.eq(name + ": steps", st.step, steps)

        same("dumped", m, 1)
        m2 = regressor()
        m2.load_state(a)
        same("loaded", m2, 1)
        m2.save_state(b)
        m3 = regressor()
        m3.load_state(b)
        same("saved again", m3, 1)
        m4 = regressor()
        st = m4.calibrate(**kw, config=conf(ck=dict(restore_checkpoint_path=a)))
        h.eq("resumed loss", st["loss"], [ref.step(x, Y)])
        same("resumed", m4, 2)
        bad, _ = h.raises(lambda: regressor().load_state(d.path("none")), ValueError)
        h.check("nothing to load", bad)
        bad, _ = h.raises(lambda: regressor().save_state(b), ValueError)
        h.check("nothing to save", bad)


@HARNESSES(name="wrong_dimensions", bounds="outputs and targets whose dimensions do not match, or validation outputs without targets")
def wrong(h):
    o = h.real("o", (2, 3), -1, 1)
    for f in (lambda: OutputCalibClassifier().calibrate(o, jnp.array([0, 1])), lambda: OutputCalibRegressor().calibrate(o, jnp.zeros((2, 1))),
              lambda: OutputCalibRegressor().calibrate(o[:, :2], jnp.zeros((2, 1)), val_outputs=o, val_targets=jnp.zeros((2, 1)), config=conf()),
              lambda: OutputCalibRegressor().calibrate(o[:, :2], jnp.zeros((2, 1)), val_targets=jnp.zeros((2, 1)), config=conf())):
        bad, _ = h.raises(f, ValueError)
        h.check("refused", bad)


# ------------------------------------------------------------------------------------------------ calibration of a probabilistic model
PX = np.array([[[1.0, -0.5]], [[0.5, 2.0]]], dtype="float32")


def prob(name, nb, epochs, B=1, stats=False, val=False, metrics=False, dev=False, jit=False):
    @HARNESSES(name=name, obl_timeout=40, bounds=f"{nb} batches of {B} points, outputs of 2 posterior samples (dyadic constants), every targets in [-2,2], {epochs} epochs{', a running total' if stats else ''}{', 2 devices' if dev else ''}")
    def body(h):
        quiet(h, TC)
        ts = [two(h, f"y{i}", B) for i in range(nb)]
        vs = [two(h, f"v{i}", B) for i in range(2)] if val else None
        rnd = np.random.default_rng(0)
        outs = [(rnd.integers(-8, 9, (2, B, 2)) / 4).astype("float32") for _ in range(nb)]
        vouts = [(rnd.integers(-8, 9, (2, B, 2)) / 4).astype("float32") for _ in range(2)]
        mod = Affine(stats=stats)
        keys = []

        def loss_fun(batch, n_data=None, return_aux=None, ensemble_outputs=None, calib_params=None, calib_mutable=None, rng=None):
            keys.append(rng)
            var = {**calib_params["output_calibrator"]}
            mu = calib_mutable["output_calibrator"] if calib_mutable is not None else None
            aux = {}
            if mu:
                var.update(mu)
            if "calib_mutable" in return_aux:
                if mu:
                    o, new = mod.apply(var, ensemble_outputs, mutable=["stats"], train=True)
                    aux["calib_mutable"] = FrozenDict(output_calibrator=new)
                else:
                    o = mod.apply(var, ensemble_outputs)
                    aux["calib_mutable"] = FrozenDict(output_calibrator=None)
            else:
                o = mod.apply(var, ensemble_outputs)
            aux["outputs"] = o.mean(0)
            return 0.5 * n_data * jnp.mean((o - batch[1][None]) ** 2), aux

        def gap(preds, uncertainties, targets):
            return jnp.mean(preds[..., :1] - 2 * targets[..., 1:] + 4 * uncertainties[..., :1])

        dl = DataLoader.from_callable_iterable(lambda: iter([(jnp.zeros((B, 1)), t) for t in ts]))
        vdl = DataLoader.from_callable_iterable(lambda: iter([(jnp.zeros((B, 1)), t) for t in vs])) if val else None
        if dev:
            devices(h, TC, MultiDeviceProbModelOutputCalibrator)
            import fortuna.prob_model.prob_model_calibrator as PC
            h.patch(PC.jax_utils, "prefetch_to_device", lambda it, n: it)
        cls = MultiDeviceProbModelOutputCalibrator if dev else JittedProbModelOutputCalibrator if jit else ProbModelOutputCalibrator
        tr = cls(calib_outputs_loader=[jnp.asarray(o) for o in outs], val_outputs_loader=[jnp.asarray(o) for o in vouts] if val else None,
                 predict_fn=lambda o: 2.0 * o, uncertainty_fn=lambda o: o[..., ::-1] + 1.0, early_stopping_patience=0, early_stopping_verbose=False)
        state = OutputCalibState.init(params=FrozenDict(output_calibrator=FrozenDict(params=FrozenDict(a=jnp.ones((1,)), b=jnp.zeros((1,))))),
                                      mutable=FrozenDict(output_calibrator=FrozenDict(stats=FrozenDict(total=jnp.zeros((1,)))) if stats else None), optimizer=optax.sgd(LR))
        state, status = tr.train(rng=KEY, state=state, loss_fun=loss_fun, training_data_loader=dl, training_dataset_size=3, n_epochs=epochs, metrics=(gap,) if metrics else None,
                                 val_data_loader=vdl, val_dataset_size=2, verbose=False)
        T, VT = [rows(h, t) for t in ts], [rows(h, t) for t in vs] if val else None
        ref, losses, gaps, vl, vg = Ref(h, stats), [], [], [], []
        shards = 2 if dev else 1

        def flat(o, t):
            o = [[float(v) for v in r] for s in o for r in s]
            return o, [list(r) for r in t] * 2

        def total(o, t, n_data):
            return ref.loss(*flat(o, t)) * n_data

        def g(o, t):
            s = [[float(v) for v in r] for r in o.mean(0)]
            c = ref.apply(s)
            return sum(2 * c[i][0] - 2 * t[i][1] + 4 * (c[i][1] + 1) for i in range(B)) / B

        for e in range(epochs):
            ls, gs = [], []
            for i in range(nb):
                gs.append(g(outs[i], T[i]))
                oo, tt = flat(outs[i], T[i])
                ls.append(ref.loss(oo, tt) * 3)
                a0, b0 = ref.a, ref.b
                ref.step(oo, tt)
                ref.a, ref.b = a0 + (ref.a - a0) * 3, b0 + (ref.b - b0) * 3
            losses.append(sum(ls) / nb)
            gaps.append(sum(gs) / nb)
            if val:
                vl.append(sum(total(vouts[i], VT[i], 2) for i in range(2)) / 2)
                vg.append(sum(g(vouts[i], VT[i]) for i in range(2)) / 2)
        h.eq("mean loss of the epoch's batches", status["loss"], losses)
        if metrics:
            h.eq("mean metric of the epoch's batches", status["gap"], gaps)
        if val:
            h.eq("mean validation loss after the epoch", status["val_loss"], vl)
            if metrics:
                h.eq("mean validation metric", status["val_gap"], vg)
        p = state.params["output_calibrator"]["params"]
        h.eq("scale", p["a"], [ref.a])
        h.eq("shift", p["b"], [ref.b])
        h.eq("steps", state.step, epochs * nb)
        if stats:
            h.eq("running total", state.mutable["output_calibrator"]["stats"]["total"], [ref.t])
        if not (jit or dev) and not h.sym:
            tk = [tuple(np.asarray(k).tolist()) for k in keys[:nb * epochs] if k is not None]
            if not val:
                h.check("another key at every step", len(set(tk)) == len(tk))
    return body


prob("prob_two_epochs", 2, 2, metrics=True)
prob("prob_validation", 2, 1, val=True, metrics=True)
prob("prob_state", 2, 2, stats=True, val=True)
prob("prob_jit", 2, 1, jit=True, val=True)
prob("prob_devices", 1, 2, B=4, dev=True, val=True, metrics=True)
prob("prob_devices_state", 1, 1, B=4, dev=True, val=True, stats=True)
