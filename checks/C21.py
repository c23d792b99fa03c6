"""Model managers: which parameters, state and randomness every forward pass uses, and what it hands back."""
from symx.api import Registry
import flax.linen as nn
import jax
import jax.numpy as jnp
import numpy as np
from flax.core import FrozenDict

from fortuna.model.model_manager.classification import ClassificationModelManager
from fortuna.model.model_manager.regression import RegressionModelManager
from fortuna.model.model_manager.state import ModelManagerState
from fortuna.model_editor.base import ModelEditor
from fortuna.utils.random import RandomNumberGenerator

HARNESSES = Registry()
STUBS = ["the models are small flax modules with a running statistic, a dropout mask and parameters, chosen by the harness"]
ASSUMPTIONS = ["real arithmetic"]
OUTSIDE = "modules with several mutable collections of deeper nesting, other than the two-output modules of the harness; transformers"


class Stat(nn.Module):
    """w * x + running statistic; training replaces the statistic by half of itself plus the sum of the inputs, and multiplies by a mask"""
    dim: int = 1
    mult: float = 1.0
    dropout: bool = False
    stat: bool = True

    @nn.compact
    def __call__(self, x, train=False, **kw):
        w = self.param("w", lambda *a: jnp.ones((self.dim,)))
        y = x[:, :1] * w * self.mult
        if self.stat:
            s = self.variable("stats", "s", lambda: jnp.zeros((self.dim,)))
            y = y + s.value
            if train and not self.is_initializing():
                s.value = 0.5 * s.value + jnp.sum(x[:, :1]) * self.mult
        if self.dropout and train:
            k = self.make_rng("dropout")
            KEYS.append(tuple(np.asarray(jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k).tolist()))
        return y


KEYS = []


class Times(ModelEditor):
    """multiplies the outputs by a parameter of its own"""
    @nn.compact
    def __call__(self, apply_fn, model_params, x, has_aux):
        t = self.param("t", lambda *a: jnp.ones((1,)))
        out = apply_fn(model_params, x)
        if has_aux:
            out, aux = out
            return out * t, aux
        return out * t


def case(name, kind, train, mutable=True, editor=False, llv_stat=True, model_stat=True):
    @HARNESSES(name=name, bounds=f"{kind}, 2 inputs, {'training' if train else 'evaluation'}, {'with' if mutable else 'without'} running statistics{'' if llv_stat else ' of the mean model only'}{'' if model_stat else ' of the variance model only'}{', with a model editor' if editor else ''}: every parameter, statistic and input in [-2,2]")
    def body(h):
        d = 1 if kind == "regression" else 2
        ed = Times() if editor else None
        names = ["model"] + (["lik_log_var"] if kind == "regression" else [])
        has = dict(model=mutable and model_stat, lik_log_var=mutable and llv_stat)
        mods = dict(model=Stat(d, 1.0, True, has["model"]), lik_log_var=Stat(d, 3.0, True, has["lik_log_var"]))
        mm = RegressionModelManager(mods["model"], mods["lik_log_var"], ed) if kind == "regression" else ClassificationModelManager(mods["model"], ed)
        x = h.real("x", (2, 1), -2, 2)
        w = {k: h.real("w_" + k, (d,), -2, 2) for k in names}
        s = {k: h.real("s_" + k, (d,), -2, 2) for k in names}
        t = h.real("t", (1,), -2, 2)
        params = {k: FrozenDict(params=FrozenDict(w=w[k])) for k in names}
        if editor:
            params["model_editor"] = FrozenDict(params=FrozenDict(t=t))
        mut = FrozenDict({k: FrozenDict(stats=FrozenDict(s=s[k])) if has[k] else FrozenDict() for k in names}) if mutable else None
        rng = jax.random.PRNGKey(3) if train else None
        KEYS.clear()
        out = mm.apply(FrozenDict(params), x, mutable=mut, train=train, rng=rng)
        if train and mutable:
            h.check("auxiliary objects", isinstance(out, tuple) and len(out) == 2)
            out, aux = out
            for k in names:
                got = aux["mutable"][k]
                h.check("collections of the model", sorted(got.keys()) == (["stats"] if has[k] else []), f"{k} {got}")
                if has[k]:
                    m = 1.0 if k == "model" else 3.0
                    ref = [0.5 * v + h.sum(list(h.arr(x)[:, 0])) * m for v in h.arr(s[k])]
                    h.eq(f"statistic of {k} after the pass", got["stats"]["s"], ref)
        else:
            h.check("outputs only", not isinstance(out, tuple))
        if mutable:
            for k in names:
                if has[k]:
                    h.eq("the statistics passed in are not changed", mut[k]["stats"]["s"], h.arr(s[k]))
        X, f = h.arr(x), (h.arr(t)[0] if editor else 1)
        ref = [[(X[n, 0] * h.arr(w[k])[j] * (1 if k == "model" else 3) + (h.arr(s[k])[j] if has[k] else 0)) * f for k in names for j in range(d)] for n in range(2)]
        h.shape("shape of the outputs", out, (2, d * len(names)))
        h.eq("outputs of the parameters and statistics given", out, ref)
        if train:
            base = tuple(np.asarray(rng).tolist())
            h.check("dropout keys: one per model, different, none the one passed in", len(KEYS) == len(names) and len(set(KEYS) | {base}) == len(names) + 1, f"{KEYS}")
        else:
            h.check("no randomness in evaluation", KEYS == [])


for kind in ("regression", "classification"):
    s = kind[:3]
    case(f"{s}_train", kind, True)
    case(f"{s}_eval", kind, False)
    case(f"{s}_train_plain", kind, True, mutable=False)
    case(f"{s}_eval_plain", kind, False, mutable=False)
    case(f"{s}_train_editor", kind, True, editor=True)
    case(f"{s}_eval_editor", kind, False, editor=True)
    case(f"{s}_eval_editor_plain", kind, False, mutable=False, editor=True)
case("reg_train_mean_only", "regression", True, llv_stat=False)
case("reg_eval_mean_only", "regression", False, llv_stat=False)
case("reg_train_var_only", "regression", True, model_stat=False)


def initial(name, kind, stat, editor):
    @HARNESSES(name=name, bounds=f"initialisation of a {kind} model {'with' if stat else 'without'} running statistics{' and a model editor' if editor else ''}; every input in [-2,2] afterwards")
    def body(h):
        ed = Times() if editor else None
        m1, m2 = Stat(2, 1.0, False, stat), Stat(2, 3.0, False, False)
        mm = RegressionModelManager(m1, m2, ed) if kind == "regression" else ClassificationModelManager(m1, ed)
        mm.rng = RandomNumberGenerator(0)
        st = ModelManagerState.init_from_dict(mm.init((1,)))
        names = ["model"] + (["lik_log_var"] if kind == "regression" else []) + (["model_editor"] if editor else [])
        h.check("parameters of every model", sorted(st.params.keys()) == sorted(names) and all(list(v.keys()) == ["params"] for v in st.params.values()), f"{st.params}")
        h.check("state only if there is any", (st.mutable is not None) == stat, f"{st.mutable}")
        if stat:
            h.check("state apart from the parameters", all("params" not in v for v in st.mutable.values()) and "stats" in st.mutable["model"], f"{st.mutable}")
        x = h.real("x", (2, 1), -2, 2)
        out = mm.apply(st.params, x, mutable=st.mutable)
        X = h.arr(x)[:, 0]
        h.eq("the initial state can be evaluated", out, [[v * c for c in ([1, 1, 3, 3] if kind == "regression" else [1, 1])] for v in X])


for kind in ("regression", "classification"):
    for stat in (False, True):
        for editor in (False, True):
            initial(f"init_{kind[:3]}{'_stat' if stat else ''}{'_editor' if editor else ''}", kind, stat, editor)


@HARNESSES(name="mismatch", bounds="a mean model of dimension 2 and a log-variance model of dimension 1; every input")
def mismatch(h):
    mm = RegressionModelManager(Stat(2, 1.0, False, False), Stat(1, 1.0, False, False))
    x = h.real("x", (1, 1), -2, 2)
    p = FrozenDict(model=FrozenDict(params=FrozenDict(w=jnp.ones((2,)))), lik_log_var=FrozenDict(params=FrozenDict(w=jnp.ones((1,)))))
    bad, _ = h.raises(lambda: mm.apply(p, x), ValueError)
    h.check("refused", bad)
