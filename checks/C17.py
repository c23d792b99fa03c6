"""State repositories, checkpoints, saving/loading of posteriors."""
from symx.api import Registry
import copy
import os
import pathlib
import shutil
import tempfile
import types

import flax
import flax.serialization as FS
import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict

import fortuna.prob_model.posterior.base as PBASE
import fortuna.prob_model.posterior.deep_ensemble.deep_ensemble_posterior as DEP
import fortuna.prob_model.posterior.sgmcmc.sgmcmc_posterior as SGP
import fortuna.training.train_state_repository as TSR
from fortuna.prob_model.fit_config.base import FitConfig
from fortuna.prob_model.fit_config.checkpointer import FitCheckpointer
from fortuna.prob_model.fit_config.optimizer import FitOptimizer
from fortuna.prob_model.joint.state import JointState
from fortuna.prob_model.posterior.deep_ensemble.deep_ensemble_approximator import DeepEnsemblePosteriorApproximator
from fortuna.prob_model.posterior.deep_ensemble.deep_ensemble_posterior import DeepEnsemblePosterior
from fortuna.prob_model.posterior.laplace.laplace_state import LaplaceState
from fortuna.prob_model.posterior.map.map_approximator import MAPPosteriorApproximator
from fortuna.prob_model.posterior.map.map_posterior import MAPPosterior
from fortuna.prob_model.posterior.map.map_state import MAPState
from fortuna.prob_model.posterior.normalizing_flow.advi.advi_state import ADVIState
from fortuna.prob_model.posterior.posterior_multi_state_repository import PosteriorMultiStateRepository
from fortuna.prob_model.posterior.posterior_state_repository import PosteriorStateRepository
from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_state import CyclicalSGLDState
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_approximator import SGHMCPosteriorApproximator
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_posterior import SGHMCPosterior
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_state import SGHMCState
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_posterior_state_repository import SGMCMCPosteriorStateRepository
from fortuna.prob_model.posterior.swag.swag_state import SWAGState
from fortuna.utils.strings import decode_encoded_tuple_of_lists_of_strings_to_array, encode_tuple_of_lists_of_strings_to_numpy

HARNESSES = Registry()
STUBS = ["symbolic runs store the state dictionary of flax.serialization beside the checkpoint file instead of its msgpack bytes (directories, file names, removal of old checkpoints are the real ones, in a scratch directory); replays use the real bytes"]
ASSUMPTIONS = []
OUTSIDE = "msgpack encoding itself, orbax checkpoints, crashes during a write, concurrent writers; more than 2 slots and 3 operations"
OPT = optax.sgd(0.25, momentum=0.5)


class Disk:
    """a scratch directory for checkpoints; nothing outside it may be removed"""

    def __init__(self, h):
        self.h = h
        self.objs = {}

    def __enter__(self):
        self.root = tempfile.mkdtemp(prefix="c17_")
        h, objs = self.h, self.objs
        root = os.path.realpath(self.root) + os.sep

        class Os:
            def __getattr__(s, k):
                return getattr(os, k)

            @staticmethod
            def remove(p):
                assert os.path.realpath(str(p)).startswith(root), f"removal of {p} outside the checkpoint directory"
                os.remove(p)

        h.patch(TSR, "os", Os())
        if h.sym:
            def to_bytes(target):
                k = f"token{len(objs)}"
                objs[k] = plain(FS.to_state_dict(target))
                return k.encode()

            h.patch(FS, "to_bytes", to_bytes)
            h.patch(FS, "msgpack_restore", lambda b: plain(objs[bytes(b).decode()]))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def files(self, *p):
        d = self.path(*p)
        return sorted(os.listdir(d)) if os.path.isdir(d) else []


def plain(d):
    if isinstance(d, (dict, FrozenDict)):
        return {k: plain(v) for k, v in d.items()}
    return d


def params(h, tag, np_=False):
    return FrozenDict(model=FrozenDict(params=FrozenDict(d=FrozenDict(kernel=h.real(f"{tag}_k", (2,), -4, 4, np=np_), bias=h.real(f"{tag}_b", (1,), -4, 4, np=np_)), e=FrozenDict(bias=h.real(f"{tag}_e", (1,), -4, 4, np=np_)))))


FULL = [("model", "params", "d", "kernel"), ("model", "params", "d", "bias"), ("model", "params", "e", "bias")]


def leaf(d, path):
    for k in path:
        d = d[k]
    return d


def flat(d, pre=()):
    if isinstance(d, (dict, FrozenDict)):
        return {k2: v2 for k, v in d.items() for k2, v2 in flat(v, pre + (k,)).items()}
    return {pre: d}


def same_tree(h, name, a, b):
    fa, fb = flat(a) if a is not None else None, flat(b) if b is not None else None
    if fa is None or fb is None:
        h.check(name + "_none", (fa is None) == (fb is None))
        return
    h.check(name + "_keys", set(fa) == set(fb), f"{sorted(fa)} {sorted(fb)}")
    for k in fb:
        if k in fa:
            h.eq(name, fa[k], fb[k], tol=1e-6)


def mkstate(h, tag, cls=MAPState, rich=True, np_=False, step=3):
    kw = {}
    if cls is SWAGState:
        kw = dict(mean=h.real(tag + "_mean", (4,), -4, 4), std=h.real(tag + "_std", (4,), 0, 4), dev=h.real(tag + "_dev", (4, 2), -4, 4))
    if cls is LaplaceState:
        kw = dict(prior_log_var=h.real(tag + "_plv", (), -4, 4))
    if cls not in (MAPState,):
        kw["_encoded_which_params"] = encode_tuple_of_lists_of_strings_to_numpy((["model", "params", "d", "kernel"], ["model", "params", "e", "bias"]))
    return cls.init(params=params(h, tag, np_), mutable=FrozenDict(batch_stats=FrozenDict(m=h.real(tag + "_m", (2,), -4, 4))) if rich else None, optimizer=OPT,
                    calib_params=FrozenDict(output_calibrator=FrozenDict(params=FrozenDict(log_temp=h.real(tag + "_t", (1,), -4, 4)))) if rich else None,
                    calib_mutable=FrozenDict(output_calibrator=FrozenDict(s=h.real(tag + "_s", (1,), -4, 4))) if rich else None, step=step, **kw)


def same_state(h, name, got, st, fields=()):
    h.check(name + "_type", type(got) is type(st), f"{type(got)} {type(st)}")
    for f in ("params", "mutable", "calib_params", "calib_mutable"):
        same_tree(h, f"{name}_{f}", getattr(got, f), getattr(st, f))
        h.check(f"{name}_{f}_frozen", getattr(got, f) is None or isinstance(getattr(got, f), FrozenDict))
    h.check(name + "_step", int(got.step) == int(st.step), f"{got.step} {st.step}")
    for f in fields:
        h.eq(f"{name}_{f}", getattr(got, f), getattr(st, f), tol=1e-6)


def roundtrip(cls, mode, rich):
    tag = f"{cls.__name__}_{mode}{'' if rich else '_bare'}"
    fields = {SWAGState: ("mean", "std", "dev"), LaplaceState: ("prior_log_var",)}.get(cls, ())

    @HARNESSES(name=f"roundtrip_{tag}", bounds=f"{cls.__name__} with 4 parameters{', model state, calibration parameters and state' if rich else ''}, {'in memory' if mode == 'mem' else 'through checkpoints in a directory, or an explicit path'}")
    def body(h):
        with Disk(h) as disk:
            st = mkstate(h, "s", cls, rich)
            repo = PosteriorStateRepository(checkpoint_dir=disk.path("a") if mode == "dir" else None)
            path = disk.path("b") if mode == "path" else None
            ok, _ = h.raises(lambda: repo.get(checkpoint_path=path), ValueError)
            h.check("empty_refused", ok)
            repo.put(st, checkpoint_path=path)
            got = repo.get(checkpoint_path=path)
            same_state(h, "got", got, st, fields)
            if cls is not MAPState:
                w = decode_encoded_tuple_of_lists_of_strings_to_array(got._encoded_which_params)
                h.check("which_params", w is not None and [list(p) for p in w] == [["model", "params", "d", "kernel"], ["model", "params", "e", "bias"]], f"{w}")
            new = optax.adam(0.1)
            got = repo.get(checkpoint_path=path, optimizer=new)
            same_state(h, "got_opt", got, st, fields)
            h.check("tx", got.tx.update is new.update)
            h.check("opt_state", jax.tree_util.tree_structure(got.opt_state) == jax.tree_util.tree_structure(new.init(st.params)))
            if mode != "path":
                ext = repo.extract(["params", "step"], checkpoint_path=path)
                h.check("extract_keys", set(ext) == {"params", "step"})
                same_tree(h, "extract_params", ext["params"], st.params)
                ck = repo.extract_calib_keys(checkpoint_path=path)
                h.check("calib_keys", set(ck) == {"calib_params", "calib_mutable"})
                same_tree(h, "calib_params", ck["calib_params"], st.calib_params)
                same_tree(h, "calib_mutable", ck["calib_mutable"], st.calib_mutable)
            nk = h.real("nk", (2,), -4, 4)
            p2 = FrozenDict(model=FrozenDict(params=FrozenDict(w=nk)))
            repo.update(variables=dict(params=p2), checkpoint_path=path)
            got = repo.get(checkpoint_path=path)
            same_tree(h, "updated", got.params, p2)
            same_state(h, "rest_kept", got.replace(params=st.params), st, fields)
            pulled = repo.pull(checkpoint_path=path)
            same_tree(h, "pulled", pulled.params, p2)
            h.check("pulled_step", int(pulled.step) == 3)
            if mode != "mem":
                ok, _ = h.raises(lambda: repo.get(checkpoint_path=path), ValueError)
                h.check("pulled_gone", ok)
                h.check("no_files", disk.files("a" if mode == "dir" else "b") == [])


for c in (MAPState, LaplaceState, SWAGState, ADVIState, SGHMCState, CyclicalSGLDState):
    roundtrip(c, "mem", True)
    roundtrip(c, "dir", True)
roundtrip(MAPState, "path", True)
roundtrip(MAPState, "dir", False)
roundtrip(MAPState, "mem", False)


def pick(h, name, n):
    x = h.val(h.int(name, (), 0, n - 1))
    return [k for k in range(n) if k == n - 1 or h.branch(x == k)][0]


def key(h, st):
    return h.arr(leaf(st.params, FULL[0]))


def history(kind, mode, n_ops, quick=True):
    """operations chosen by the solver, against one plain record per slot"""
    OPS = ("put", "update", "get", "extract", "pull_put")

    @HARNESSES(name=f"history_{kind}_{mode}_{n_ops}", quick=quick, seconds=500, bounds=f"{kind} repository with 2 slots ({mode}): every sequence of {n_ops} operations (put, update, get, extract, pull and put back; on slot 0, slot 1 or all slots) after filling the slots, with arbitrary parameters")
    def body(h):
        with Disk(h) as disk:
            which = ([list(FULL[0])], ) if kind == "sgmcmc" else (None,)
            frozen = params(h, "all")
            if kind == "sgmcmc":
                repo = SGMCMCPosteriorStateRepository(size=2, checkpoint_dir=disk.path("a") if mode == "dir" else None, which_params=tuple(which[0]), all_params=frozen)
            else:
                repo = PosteriorMultiStateRepository(size=2, checkpoint_dir=disk.path("a") if mode == "dir" else None)
            n = [0]

            def fresh():
                n[0] += 1
                return mkstate(h, f"s{n[0]}", SGHMCState if kind == "sgmcmc" else MAPState, rich=False, step=n[0] % 2)

            def view(st):
                # what must be read back for a stored state
                p = {f: leaf(st.params, f) for f in FULL}
                if kind == "sgmcmc":
                    p = {f: (p[f] if f == FULL[0] else leaf(frozen, f)) for f in FULL}
                return p, int(st.step)

            def compare(name, st, m):
                fs = flat(st.params)
                h.check(name + "_keys", set(fs) == set(FULL))
                for f in FULL:
                    h.eq(name + "_value", fs[f], m[0][f], tol=1e-6)
                h.check(name + "_step", int(st.step) == m[1], f"{st.step} {m[1]}")

            model = [None, None]
            for i in range(2):
                st = fresh()
                repo.put(st, i=i)
                model[i] = view(st)
            for t in range(n_ops):
                op = OPS[pick(h, f"op{t}", len(OPS))]
                at = pick(h, f"at{t}", 3)
                i = None if at == 2 else at
                slots = [0, 1] if i is None else [i]
                if op == "put":
                    st = fresh()
                    repo.put(st, i=i)
                    for s in slots:
                        model[s] = view(st)
                elif op == "update":
                    st = fresh()
                    if kind == "sgmcmc":        # update stores the given variables
                        repo.update(dict(step=5), i=i)
                        for s in slots:
                            model[s] = (model[s][0], 5)
                    else:
                        repo.update(dict(params=st.params), i=i)
                        for s in slots:
                            model[s] = (view(st)[0], model[s][1])
                elif op == "get":
                    got = repo.get(i=i)
                    h.check("get_type", isinstance(got, list) == (i is None) and (i is not None or len(got) == 2))
                    for s, g in zip(slots, got if i is None else [got]):
                        compare("get", g, model[s])
                elif op == "extract":
                    got = repo.extract(["params", "step"], i=i)
                    h.check("extract_type", isinstance(got, list) == (i is None))
                    for s, g in zip(slots, got if i is None else [got]):
                        h.check("extract_keys", set(g) == {"params", "step"})
                        compare("extract", types.SimpleNamespace(**g), model[s])
                else:
                    got = repo.pull(i=i)
                    for s, g in zip(slots, got if i is None else [got]):
                        compare("pull", g, model[s])
                        if mode == "dir":
                            h.check("pulled_gone", disk.files("a", str(s)) == [])
                        repo.put(g, i=s)
            final = repo.get()
            h.check("size", len(final) == 2)
            for s in range(2):
                compare("final", final[s], model[s])
                if mode == "dir":
                    h.check("one_checkpoint", len(disk.files("a", str(s))) == 1)


for kind in ("multi", "sgmcmc"):
    for mode in ("mem", "dir"):
        history(kind, mode, 1)
history("multi", "mem", 2)
history("multi", "dir", 2, quick=False)
history("sgmcmc", "mem", 2, quick=False)
history("sgmcmc", "dir", 2, quick=False)


@HARNESSES(name="isolation", bounds="a stored in-memory state with arbitrary arrays; the returned copies are overwritten in place", npmode=True)
def isolation(h):
    st = mkstate(h, "s", MAPState, np_=True, rich=False)
    want = {f: h.arr(leaf(st.params, f)).copy() for f in FULL}
    for repo, i in ((PosteriorStateRepository(), ()), (PosteriorMultiStateRepository(2), (0,))):
        repo.put(st, *i)
        for how in ("get", "pull", "extract"):
            got = repo.extract(["params"], *i)["params"] if how == "extract" else getattr(repo, how)(*i).params
            for f in FULL:
                a = leaf(got, f)
                if isinstance(a, np.ndarray) or hasattr(a, "__setitem__") and h.sym:
                    a[0] = 9.0
            back = repo.get(*i)
            for f in FULL:
                h.eq(f"{how}_isolated", leaf(back.params, f), want[f], tol=1e-6)


@HARNESSES(name="keep_top_n", bounds="3 states put one after the other with increasing steps, every number of kept checkpoints in 1..3")
def keep(h):
    with Disk(h) as disk:
        k = 1 + pick(h, "keep", 3)
        repo = PosteriorStateRepository(checkpoint_dir=disk.path("a"))
        sts = [mkstate(h, f"s{t}", step=t + 1, rich=False) for t in range(3)]
        for s in sts:
            repo.put(s, keep=k)
        h.check("kept", disk.files("a") == [f"checkpoint_{t}" for t in (1, 2, 3)][-k:], f"{disk.files('a')}")
        for t in range(2, 2 - k, -1):
            same_state(h, "latest", repo.pull(), sts[t])
        # a state of an earlier step, once put, is the one read back
        repo.put(sts[2], keep=k)
        repo.put(sts[0], keep=k)
        same_state(h, "last_put", repo.get(), sts[0])


def save_load(kind, frozen=False):
    @HARNESSES(name=f"save_load_{kind}{'_subset' if frozen else ''}", bounds=f"save_state of a {kind} posterior with arbitrary states (2 members where there are several{'; only one array is sampled, the others are frozen' if frozen else ''}) and load_state by a new posterior")
    def body(h):
        with Disk(h) as disk:
            new = {"map": lambda: MAPPosterior(None, MAPPosteriorApproximator()),
                   "deep_ensemble": lambda: DeepEnsemblePosterior(None, DeepEnsemblePosteriorApproximator(ensemble_size=2)),
                   "sghmc": lambda: SGHMCPosterior(None, SGHMCPosteriorApproximator(n_samples=2, burnin_length=0))}[kind]
            post, other = new(), new()
            ok, _ = h.raises(lambda: other.load_state(disk.path("a")), ValueError)
            h.check("missing_refused", ok)
            allp = params(h, "all")
            n = 1 if kind == "map" else 2
            sts = [mkstate(h, f"s{t}", SGHMCState if kind == "sghmc" else MAPState, step=t + 1) for t in range(n)]
            if kind == "sghmc" and not frozen:
                sts = [s.replace(_encoded_which_params=None) for s in sts]
            if frozen:
                which = (["model", "params", "d", "kernel"], ["model", "params", "e", "bias"])
                sts = [s.replace(params=FrozenDict(model=FrozenDict(params=FrozenDict(d=FrozenDict(kernel=leaf(s.params, FULL[0]), bias=leaf(allp, FULL[1])), e=FrozenDict(bias=leaf(s.params, FULL[2])))))) for s in sts]
            if kind == "map":
                ok, _ = h.raises(lambda: post.save_state(disk.path("a")), ValueError)
                h.check("nothing_to_save", ok)
                post.state = PosteriorStateRepository()
                post.state.put(sts[0])
            elif kind == "deep_ensemble":
                post.state = PosteriorMultiStateRepository(2)
            else:
                post.state = SGMCMCPosteriorStateRepository(2, which_params=which, all_params=allp) if frozen else SGMCMCPosteriorStateRepository(2)
            if kind != "map":
                for i in range(2):
                    post.state.put(sts[i], i=i)
            post.save_state(disk.path("a"))
            other.load_state(disk.path("a"))
            for i in range(n):
                got = other.state.get() if kind == "map" else other.state.get(i=i)
                same_state(h, f"loaded", got, sts[i])
                kept = post.state.get() if kind == "map" else post.state.get(i=i)
                same_state(h, f"kept", kept, sts[i])


for k in ("map", "deep_ensemble", "sghmc"):
    save_load(k)
save_load("sghmc", True)


def sampling(kind):
    @HARNESSES(name=f"sample_{kind}", bounds=f"{kind} posterior with 2 members of arbitrary parameters, model and calibration states; every member drawn")
    def body(h):
        mod = DEP if kind == "deep_ensemble" else SGP
        post = DeepEnsemblePosterior(None, DeepEnsemblePosteriorApproximator(ensemble_size=2)) if kind == "deep_ensemble" else SGHMCPosterior(None, SGHMCPosteriorApproximator(n_samples=2))
        sts = [mkstate(h, f"s{t}", SGHMCState if kind == "sghmc" else MAPState, step=t) for t in range(2)]
        post.state = (PosteriorMultiStateRepository if kind == "deep_ensemble" else SGMCMCPosteriorStateRepository)(2)
        for i in range(2):
            post.state.put(sts[i], i=i)
        j = pick(h, "j", 2)
        asked = []

        def choice(rng, n, **k):
            asked.append((rng, n))
            return j

        h.patch(mod, "random", types.SimpleNamespace(choice=choice))
        h.patch(mod, "pure_callback", lambda f, like, *a: f(*a))
        key_ = jax.random.PRNGKey(7)
        s = post.sample(key_)
        h.check("drawn_from_all", len(asked) == 1 and asked[0][1] == 2 and asked[0][0] is key_)
        h.check("type", isinstance(s, JointState))
        for f in ("params", "mutable", "calib_params", "calib_mutable"):
            same_tree(h, f, getattr(s, f), getattr(sts[j], f))


sampling("deep_ensemble")
sampling("sghmc")


def member_init(kind, how):
    @HARNESSES(name=f"init_{kind}_{how}", bounds=f"initial state of a {kind} run ({how}) with 4 arbitrary parameters from the preliminary MAP and from initialisation, every choice of frozen arrays")
    def body(h):
        post = DeepEnsemblePosterior(None, DeepEnsemblePosteriorApproximator(ensemble_size=2)) if kind == "deep_ensemble" else SGHMCPosterior(None, SGHMCPosteriorApproximator(n_samples=2))
        rnd = params(h, "r")
        mut = FrozenDict(batch_stats=FrozenDict(m=h.real("rm", (2,), -4, 4)))
        cp = FrozenDict(output_calibrator=FrozenDict(params=FrozenDict(log_temp=h.real("rt", (1,), -4, 4))))
        post.joint = types.SimpleNamespace(init=lambda input_shape: JointState(params=rnd, mutable=mut, calib_params=cp, calib_mutable=None),
                                           likelihood=types.SimpleNamespace(model_manager=types.SimpleNamespace(model=types.SimpleNamespace(dtype=jnp.float32))))
        loader = types.SimpleNamespace(input_shape=(1,))
        mst = mkstate(h, "s", MAPState)
        new = optax.sgd(0.5)
        lab = [pick(h, f"frz{k}", 2) for k in range(3)] if how != "scratch" else [0, 0, 0]
        if sum(lab) == 3:
            return
        ff = (lambda p, v: "frozen" if lab[FULL.index(tuple(p))] else "trainable") if how != "scratch" else None
        cfg = FitConfig(optimizer=FitOptimizer(method=new, freeze_fun=ff))
        st = post._init_map_state(mst if how == "from_map" else None, loader, cfg)
        st = post._freeze_optimizer_in_state(st, cfg)
        h.check("type", type(st) is MAPState)
        for k, f in enumerate(FULL):
            want = leaf(mst.params if how == "from_map" and lab[k] else rnd, f)
            h.eq("params", leaf(st.params, f), want, tol=1e-6)
        h.check("keys", set(flat(st.params)) == set(FULL))
        if how == "from_map":
            same_tree(h, "mutable", st.mutable, mst.mutable)
            same_tree(h, "calib", st.calib_params, mst.calib_params)
        else:
            same_tree(h, "mutable", st.mutable, mut)
            same_tree(h, "calib", st.calib_params, cp)
            h.check("step", int(st.step) == 0)
        if kind == "deep_ensemble":     # the Markov chains rebuild the state with their own integrator
            h.check("optimizer", st.tx.update is new.update)
        tr = FrozenDict({"/".join(f): leaf(rnd, f) for k, f in enumerate(FULL) if not lab[k]})
        h.check("opt_state", len(jax.tree_util.tree_leaves(st.opt_state)) == len(jax.tree_util.tree_leaves(new.init(tr))))


for kind in ("deep_ensemble", "sghmc"):
    for how in ("scratch", "frozen", "from_map"):
        member_init(kind, how)


def restoring(kind):
    @HARNESSES(name=f"restore_{kind}", bounds=f"{kind} posterior restoring from a checkpoint directory or from its current state, with arbitrary states")
    def body(h):
        with Disk(h) as disk:
            new = {"map": lambda: MAPPosterior(None, MAPPosteriorApproximator()),
                   "deep_ensemble": lambda: DeepEnsemblePosterior(None, DeepEnsemblePosteriorApproximator(ensemble_size=2)),
                   "sghmc": lambda: SGHMCPosterior(None, SGHMCPosteriorApproximator(n_samples=2, burnin_length=0))}[kind]
            post = new()
            cls = SGHMCState if kind == "sghmc" else MAPState
            sts = [mkstate(h, f"s{t}", cls, step=t + 1) for t in range(2)]
            if kind == "map":
                post.state = PosteriorStateRepository()
                post.state.put(sts[0])
            else:
                post.state = PosteriorMultiStateRepository(2) if kind == "deep_ensemble" else SGMCMCPosteriorStateRepository(2)
                for i in range(2):
                    post.state.put(sts[i], i=i)
            o = optax.sgd(0.5)
            cur = FitConfig(optimizer=FitOptimizer(method=o), checkpointer=FitCheckpointer(start_from_current_state=True))
            none = FitConfig(optimizer=FitOptimizer(method=o))
            h.check("available", bool(post._is_state_available_somewhere(cur)) and not post._is_state_available_somewhere(none))

            def get(i, cfg, **kw):
                if kind == "deep_ensemble":
                    return post._restore_state_from_somewhere(i=i, fit_config=cfg, **kw)
                return post._restore_state_from_somewhere(fit_config=cfg, **kw)

            idx = {"map": [0], "deep_ensemble": [0, 1], "sghmc": [1]}[kind]
            for i in idx:
                st = get(i, cur)
                same_state(h, "current", st, sts[i])
                h.check("tx", st.tx.update is o.update)
            src = [mkstate(h, f"d{t}", cls, step=t + 1) for t in range(2)]
            sub = {"map": [""], "deep_ensemble": ["0", "1"], "sghmc": ["", "c"]}[kind]
            for i in idx:
                post.save_checkpoint(src[i], disk.path("z", sub[i]))
            dcfg = FitConfig(optimizer=FitOptimizer(method=o), checkpointer=FitCheckpointer(restore_checkpoint_path=disk.path("z")))
            h.check("available_dir", bool(post._is_state_available_somewhere(dcfg)))
            for i in idx:
                st = get(i, dcfg)
                same_state(h, "restored", st, src[i])
                h.check("tx", st.tx.update is o.update)
                ok, _ = h.raises(lambda: get(i, dcfg, allowed_states=(SWAGState,)), ValueError)
                h.check("wrong_kind_refused", ok)
                ok, _ = h.raises(lambda: get(i, dcfg, allowed_states=(cls,)), ValueError)
                h.check("right_kind", not ok)


for k in ("map", "deep_ensemble", "sghmc"):
    restoring(k)


@HARNESSES(name="which_params_codec", bounds="up to 12 parameter paths, through memory and through a checkpoint")
def codec(h):
    with Disk(h) as disk:
        n = 1 + pick(h, "n", 12)
        paths = tuple([["model", "params", f"l{k}", "kérnel" if k % 2 else "b"] for k in range(n)])
        enc = encode_tuple_of_lists_of_strings_to_numpy(paths)
        h.check("memory", [list(p) for p in decode_encoded_tuple_of_lists_of_strings_to_array(enc)] == [list(p) for p in paths])
        st = mkstate(h, "s", SGHMCState, rich=False).replace(_encoded_which_params=enc)
        repo = PosteriorStateRepository(checkpoint_dir=disk.path("a"))
        repo.put(st)
        got = decode_encoded_tuple_of_lists_of_strings_to_array(repo.get()._encoded_which_params)
        h.check("checkpoint", sorted(map(tuple, got)) == sorted(map(tuple, paths)), f"{got}")
        same_tree(h, "params", repo.get().params, st.params)
