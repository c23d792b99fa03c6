"""stand-ins shared by the checks: a scratch directory of checkpoints, a log-density given by the harness, a quiet progress bar"""
import os
import shutil
import tempfile
import types

import flax.serialization as FS
import jax.numpy as jnp
from flax.core import FrozenDict

import fortuna.training.train_state_repository as TSR
import fortuna.training.trainer as TR
from fortuna.prob_model.joint.state import JointState


def plain(d):
    if isinstance(d, (dict, FrozenDict)):
        return {k: plain(v) for k, v in d.items()}
    return d


class Disk:
    """a scratch directory for checkpoints; nothing outside it may be removed"""

    def __init__(self, h):
        self.h = h
        self.objs = {}

    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix="ckpt_")
        h, objs = self.h, self.objs
        root = os.path.realpath(self.root) + os.sep

        class Os:
            def __getattr__(s, k):
                return getattr(os, k)

            @staticmethod
            def remove(p):
                assert os.path.realpath(str(p)).startswith(root), f"removal of {p} outside the checkpoint directory"
                os.remove(p)

        h.patch(TSR, "os", Os())
        if h.sym:
            def to_bytes(target):
                k = f"token{len(objs)}"
                objs[k] = plain(FS.to_state_dict(target))
                return k.encode()

            h.patch(FS, "to_bytes", to_bytes)
            h.patch(FS, "msgpack_restore", lambda b: plain(objs[bytes(b).decode()]))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.root, *p)


class Bar(list):
    def set_description(self, *a, **k):
        pass


def quiet(h):
    h.patch(TR, "trange", lambda n, **k: Bar(range(n)))


def stub_joint(params, loss, mutable=None, calib_params=None, calib_mutable=None, apply=None, step_mutable=None):
    """a joint distribution whose negative log-density is loss(params, batch, n_data, train)"""
    def neg(params, batch, n_data=None, mutable=None, return_aux=None, train=None, rng=None, calib_params=None, calib_mutable=None):
        v = loss(params, batch, n_data, train)
        aux = dict(outputs=jnp.zeros((1, 1)))
        if return_aux is not None and "mutable" in return_aux:
            aux["mutable"] = mutable if step_mutable is None else step_mutable(mutable, batch, train)
        return (v, aux) if return_aux else v

    def pos(*a, **k):
        raise AssertionError("the negative log-density is to be minimised")

    return types.SimpleNamespace(
        init=lambda input_shape: JointState(params=params() if callable(params) else params, mutable=mutable, calib_params=calib_params, calib_mutable=calib_mutable),
        _batched_negative_log_joint_prob=neg, _batched_log_joint_prob=pos,
        likelihood=types.SimpleNamespace(prob_output_layer=types.SimpleNamespace(predict=lambda o, **k: o),
                                         model_manager=types.SimpleNamespace(model=types.SimpleNamespace(dtype=jnp.float32), apply=apply)))
