"""Stochastic-gradient MCMC: step schedules, preconditioners, integrators, collection of samples, fitting."""
from symx.api import Registry
import math
import types

import jax
import jax.numpy as jnp
import numpy as np
import optax
from flax.core import FrozenDict

import fortuna.training.trainer as TR
import fortuna.utils.random as FR
from fortuna.data.loader import DataLoader
from fortuna.prob_model.fit_config.base import FitConfig
from fortuna.prob_model.fit_config.monitor import FitMonitor
from fortuna.prob_model.fit_config.optimizer import FitOptimizer
from fortuna.prob_model.fit_config.processor import FitProcessor
from fortuna.prob_model.joint.state import JointState
from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_approximator import CyclicalSGLDPosteriorApproximator
from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_callback import CyclicalSGLDSamplingCallback
from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_integrator import cyclical_sgld_integrator
from fortuna.prob_model.posterior.sgmcmc.cyclical_sgld.cyclical_sgld_posterior import CyclicalSGLDPosterior
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_approximator import SGHMCPosteriorApproximator
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_callback import SGHMCSamplingCallback
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_integrator import sghmc_integrator
from fortuna.prob_model.posterior.sgmcmc.sghmc.sghmc_posterior import SGHMCPosterior
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_preconditioner import identity_preconditioner, rmsprop_preconditioner
from fortuna.prob_model.posterior.sgmcmc.sgmcmc_step_schedule import (
    constant_schedule,
    constant_schedule_with_cosine_burnin,
    cosine_schedule,
    cyclical_cosine_schedule_with_const_burnin,
    polynomial_schedule,
)
from fortuna.utils.random import RandomNumberGenerator

HARNESSES = Registry()
STUBS = ["the standard normal draws are arbitrary numbers; the log-density is an arbitrary quadratic of the parameters; the progress bar is replaced by range"]
ASSUMPTIONS = ["real arithmetic; the cosine is an arbitrary function that is even, within [-1,1] and decreasing on [0, pi], exact at constants"]
OUTSIDE = "convergence of the chains, statistical quality of the draws, several devices; more than 3 integration steps and 12 training steps"


class Bar(list):
    def set_description(self, *a, **k):
        pass


def pick(h, name, lo, hi):
    x = h.val(h.int(name, (), lo, hi))
    return [k for k in range(lo, hi + 1) if k == hi or h.branch(x == k)][0]


def scalar_step(h, name, hi):
    """an arbitrary step number, as the counter array the integrators pass"""
    s = h.int(name, (), 0, hi)
    return s, h.val(s)


def jarr(h, x):
    return x if h.sym else jnp.asarray(x)


# ---------------------------------------------------------------- schedules
@HARNESSES(name="schedule_constant", bounds="every step size in [-4,4], every step up to 50")
def schedule_constant(h):
    a = h.real("a", (), -4, 4)
    A = h.val(a)
    s, S = scalar_step(h, "s", 50)
    ok, f = h.raises(lambda: constant_schedule(a), ValueError)
    h.check("negative_refused", h.Implies(A < 0, ok) if not isinstance(ok, bool) else (ok == bool(h.branch(A < 0))))
    if not ok:
        h.eq("constant", f(jarr(h, s)), A)


def cosine(T):
    @HARNESSES(name=f"schedule_cosine_{T}", bounds=f"every initial step size in [0,4] and pair of steps up to {T} of {T}")
    def body(h):
        a = h.real("a", (), 0, 4)
        A = h.val(a)
        f = cosine_schedule(a, T)
        s, S = scalar_step(h, "s", T)
        t, U = scalar_step(h, "t", T)
        fs, ft = h.val(f(jarr(h, s))), h.val(f(jarr(h, t)))
        h.le("nonnegative", 0, fs)
        h.le("at_most_initial", fs, A)
        h.eq("start", f(jnp.zeros([], jnp.int32)), A)
        h.eq("end", f(jnp.asarray(T, jnp.int32)), 0)
        h.eq("middle", f(jnp.asarray(T, jnp.int32) / 2), A / 2)
        h.check("decreasing", h.Implies(S <= U, ft <= fs + 1e-3))
        ok, _ = h.raises(lambda: cosine_schedule(-0.5, T), ValueError)
        ok2, _ = h.raises(lambda: cosine_schedule(0.5, 0), ValueError)
        h.check("refused", ok and ok2)


cosine(4)
cosine(10)


def polynomial(g):
    @HARNESSES(name=f"schedule_polynomial_{g}", bounds=f"every scale in [0,4] and offset in [1/2,4], steps up to 20, rate {g}")
    def body(h):
        a, b = h.real("a", (), 0, 4), h.real("b", (), 0.5, 4)
        A, B = h.val(a), h.val(b)
        f = polynomial_schedule(a, b, g)
        k = pick(h, "s", 0, 3)
        v = h.val(f(jnp.asarray(k, jnp.int32)))
        w = h.val(f(jnp.asarray(k + 1, jnp.int32)))
        h.le("nonnegative", 0, v)
        h.le("decreasing", w, v)
        if g == 1.0:
            h.eq("value", v * (B + k), A)
        if g == 0.5000001:
            pass
        for bad in (0.5, 1.25):
            ok, _ = h.raises(lambda: polynomial_schedule(1.0, 1.0, bad), ValueError)
            h.check("refused", ok)


polynomial(1.0)


def burnin(T):
    @HARNESSES(name=f"schedule_cosine_burnin_{T}", bounds=f"every initial and final step size in [0,4], steps up to {T + 3}, burn-in {T}")
    def body(h):
        a, b = h.real("a", (), 0, 4), h.real("b", (), 0, 4)
        A, B = h.val(a), h.val(b)
        f = constant_schedule_with_cosine_burnin(a, b, T)
        s, S = scalar_step(h, "s", T + 3)
        t, U = scalar_step(h, "t", T + 3)
        fs, ft = h.val(f(jarr(h, s))), h.val(f(jarr(h, t)))
        h.finite("finite", f(jarr(h, s)))
        h.le("at_least", h.min([A, B]), fs)
        h.le("at_most", fs, h.max([A, B]))
        h.eq("start", f(jnp.zeros([], jnp.int32)), A if T else B)
        h.check("final", h.Implies(S >= T, h.And(fs <= B + 1e-3, B <= fs + 1e-3)))
        h.check("towards_final", h.Implies(S <= U, h.Or(h.And(A >= B, ft <= fs + 1e-3), h.And(A <= B, ft >= fs - 1e-3))))
        for bad in ((-1.0, 1.0, 3), (1.0, -1.0, 3), (1.0, 1.0, -3)):
            ok, _ = h.raises(lambda: constant_schedule_with_cosine_burnin(*bad), ValueError)
            h.check("refused", ok)


burnin(0)
burnin(1)
burnin(5)


def cyclical(B0, C):
    @HARNESSES(name=f"schedule_cyclical_{B0}_{C}", bounds=f"every initial step size in [0,4], every step up to {B0 + 2 * C + 1}, burn-in {B0}, cycles of {C}")
    def body(h):
        a = h.real("a", (), 0, 4)
        A = h.val(a)
        f = cyclical_cosine_schedule_with_const_burnin(a, B0, C)
        N = B0 + 2 * C + 1
        k = pick(h, "s", 0, N)
        v = h.val(f(jnp.asarray(k, jnp.int32)))
        phase = max(k - B0 - 1, 0) % C
        h.eq("value", v, A * (1 + math.cos(math.pi * phase / C)) / 2)
        h.le("nonnegative", 0, v)
        h.le("at_most_initial", v, A)
        if k <= B0 + 1:
            h.eq("burnin", v, A)
        else:
            h.eq("periodic", f(jnp.asarray(k + C, jnp.int32)), v)
        for bad in ((-1.0, 1, 3), (1.0, -1, 3), (1.0, 1, 0), (1.0, 1, -2)):
            ok, _ = h.raises(lambda: cyclical_cosine_schedule_with_const_burnin(*bad), ValueError)
            h.check("refused", ok)


cyclical(0, 3)
cyclical(2, 4)


# ---------------------------------------------------------------- preconditioners
def ptree(h, tag, lo=-2, hi=2):
    return FrozenDict(d=FrozenDict(k=h.real(tag + "k", (2,), lo, hi)), e=h.real(tag + "e", (1,), lo, hi))


def vec(h, t):
    return [*h.arr(t["d"]["k"]), *h.arr(t["e"])]


@HARNESSES(name="rmsprop", bounds="3 arbitrary parameters, two arbitrary gradients in [-2,2] and averaging factor in [0,1]")
def rmsprop(h):
    fac = h.real("fac", (), 0, 1)
    F = h.val(fac)
    eps = 0.25
    p = rmsprop_preconditioner(running_average_factor=fac, eps=eps)
    st = p.init(ptree(h, "p"))
    m = [0, 0, 0]
    for t in range(2):
        g = ptree(h, f"g{t}")
        G = vec(h, g)
        st = p.update_preconditioner(g, st)
        m = [F * m[i] + (1 - F) * G[i] * G[i] for i in range(3)]
        if t == 1:
            m = [h.val(x) for x in vec(h, st.grad_moment_estimates)] if False else m
        for i, e in enumerate(vec(h, st.grad_moment_estimates)):
            h.eq("moments", e, m[i])


@HARNESSES(name="rmsprop_products", bounds="3 arbitrary second moments in [0,4] and vectors in [-2,2]", decide_ite=False)
def rmsprop_products(h):
    eps = 0.25
    p = rmsprop_preconditioner(eps=eps)
    e = ptree(h, "e", 0, 4)
    st = p.init(e)._replace(grad_moment_estimates=e) if hasattr(p.init(e), "_replace") else type(p.init(e))(grad_moment_estimates=e)
    v = ptree(h, "v")
    E_, V_ = vec(h, e), vec(h, v)
    mass = [eps + h.sqrt(x) for x in E_]
    inv = vec(h, p.multiply_by_m_inv(v, st))
    half = vec(h, p.multiply_by_m_sqrt(v, st))
    ihalf = vec(h, p.multiply_by_m_sqrt_inv(v, st))
    for i in range(3):
        h.eq("inverse", inv[i] * mass[i], V_[i])
        h.eq("square_root", half[i] * half[i], V_[i] * V_[i] * mass[i])
        h.check("sign", h.And(half[i] * V_[i] >= -1e-6, ihalf[i] * V_[i] >= -1e-6))
        h.eq("inverse_square_root", half[i] * ihalf[i], V_[i] * V_[i])


@HARNESSES(name="identity_preconditioner", bounds="arbitrary vectors of 3")
def identity_pre(h):
    p = identity_preconditioner()
    v = ptree(h, "v")
    st = p.update_preconditioner(v, p.init(v))
    for f in (p.multiply_by_m_inv, p.multiply_by_m_sqrt, p.multiply_by_m_sqrt_inv):
        for x, y in zip(vec(h, f(v, st)), vec(h, v)):
            h.eq("unchanged", x, y)


# ---------------------------------------------------------------- integrators
def noises(h, n=3):
    """the draws of standard normals are arbitrary vectors, remembered with their keys"""
    log = []
    pool = [h.real(f"z{k}", (2,) if k % 2 == 0 else (1,), -2, 2) for k in range(2 * n)]
    vals = [h.arr(z) for z in pool]

    def normal(key, shape=(), dtype=None):
        k = len(log)
        assert k < len(pool) and tuple(shape) == vals[k].shape, f"unexpected draw of shape {shape}"
        log.append((None if isinstance(key, jax.core.Tracer) else np.asarray(key).tolist(), vals[k]))
        return jarr(h, pool[k])

    h.patch(jax.random, "normal", normal)
    return log


def noises_of(h, shape, n):
    log = []
    pool = [h.real(f"z{k}", shape, -2, 2) for k in range(n)]
    vals = [h.arr(z) for z in pool]

    def normal(key, shape=(), dtype=None):
        log.append((None, vals[len(log)]))
        return jarr(h, pool[len(log) - 1])

    h.patch(jax.random, "normal", normal)
    return log


def zvec(log, t):
    return [*log[2 * t][1], *log[2 * t + 1][1]]


class Pre:
    """a preconditioner with arbitrary (constant) mass of each coordinate"""

    def __init__(self, h):
        self.r = ptree(h, "r", 0.5, 2)      # square roots of the masses
        self.R = vec(h, self.r)
        r = self.r
        tm = jax.tree_util.tree_map
        self.seen = []
        from fortuna.prob_model.posterior.sgmcmc.sgmcmc_preconditioner import IdentityPreconditionerState, Preconditioner

        def upd(g, st):
            self.seen.append(g)
            return st

        self.p = Preconditioner(init=lambda p: IdentityPreconditionerState(), update_preconditioner=upd,
                                multiply_by_m_sqrt=lambda v, s: tm(lambda x, q: x * q, v, r),
                                multiply_by_m_inv=lambda v, s: tm(lambda x, q: x / (q * q), v, r),
                                multiply_by_m_sqrt_inv=lambda v, s: tm(lambda x, q: x / q, v, r))


def sghmc(n, resample, pre):
    @HARNESSES(name=f"sghmc_{n}_{resample}{'_pre' if pre else ''}", bounds=f"{n} integration steps of 3 parameters, arbitrary gradients, draws in [-2,2], step sizes in (0,1], momentum decay 1/2 and {'arbitrary masses, ' if pre else ''}momentum resampled every {resample} steps", seconds=300)
    def body(h):
        log = noises(h)
        decay = 0.5
        roots = h.real("q", (n,), 0.25, 1)            # square roots of the step sizes
        Q = h.arr(roots)
        P = Pre(h) if pre else None
        count_seen = []

        def schedule(c):
            count_seen.append(c)
            k = int(c)
            return jarr(h, roots)[k] ** 2

        integ = sghmc_integrator(decay, resample, jax.random.PRNGKey(1), schedule, P.p if pre else identity_preconditioner())
        params = ptree(h, "p")
        st = integ.init(params)
        mom = [0, 0, 0]
        for t in range(n):
            g = ptree(h, f"g{t}")
            G = vec(h, g)
            upd, st = integ.update(g, st)
            z = zvec(log, t)
            R = P.R if pre else [1, 1, 1]
            if resample is not None and t % resample == 0:
                mom = [0, 0, 0]
            mom = [decay * mom[i] + G[i] * Q[t] + R[i] * z[i] * math.sqrt(2 * (1 - decay)) for i in range(3)]
            for i, u in enumerate(vec(h, upd)):
                h.eq("update", u * R[i] * R[i], mom[i] * Q[t])
            for i, m in enumerate(vec(h, st.momentum)):
                h.eq("momentum", m, mom[i])
        h.eq("count", st.count, n)
        keys = [tuple(k) for k, _ in log if k is not None]
        h.check("fresh_noise", len(log) == 2 * n and len(set(keys)) == len(keys), f"{keys}")


sghmc(3, None, False)
sghmc(3, 2, False)
sghmc(2, None, True)
sghmc(1, None, False)


@HARNESSES(name="sgld_limit", bounds="one step without momentum: arbitrary gradient, draw and step size in (0,1]")
def sgld(h):
    log = noises(h)
    q = h.real("q", (), 0.25, 1)
    Q = h.val(q)
    integ = sghmc_integrator(0.0, None, jax.random.PRNGKey(1), lambda c: q * q, identity_preconditioner())
    g = ptree(h, "g")
    upd, st = integ.update(g, integ.init(ptree(h, "p")))
    z = zvec(log, 0)
    for i, u in enumerate(vec(h, upd)):
        h.eq("langevin", u, Q * Q * vec(h, g)[i] + math.sqrt(2) * Q * z[i])


def cyc(n, C, ratio):
    @HARNESSES(name=f"cyclical_{n}_{C}_{ratio}", bounds=f"{n} steps of 3 parameters with cycles of {C} and exploration ratio {ratio}, arbitrary gradients, draws, initial step size in (0,1] and masses", seconds=300)
    def body(h):
        log = noises(h)
        a = h.real("a", (), 0.0625, 1)
        A = h.val(a)
        P = Pre(h)
        integ = cyclical_sgld_integrator(jax.random.PRNGKey(1), a, C, ratio, P.p)
        st = integ.init(ptree(h, "p"))
        for t in range(n):
            phase = (t % C) / C
            before = len(log)
            g = ptree(h, f"g{t}")
            G = vec(h, g)
            upd, st = integ.update(g, st)
            size = A * ((1 + math.cos(math.pi * (max(t - 1, 0) % C) / C)) / 2)
            U = vec(h, upd)
            explore = phase < ratio
            z = None if len(log) == before else [*log[-2][1], *log[-1][1]]
            for i in range(3):
                base = U[i] * P.R[i] * P.R[i] - size * G[i]
                if explore:
                    h.eq("gradient_step", base, 0)
                else:
                    h.check("noise_drawn", z is not None)
                    zz = P.R[i] * z[i]
                    # the noise term is sqrt(2 size) times the preconditioned draw
                    h.eq("langevin_step", base * base, 2 * size * zz * zz, tol=1e-2)
                    h.check("langevin_sign", base * zz >= -1e-3)
            h.eq("count", st.sgld_state.count, t + 1)


cyc(3, 2, 0.5)
cyc(3, 3, 0.5)
cyc(2, 2, 0.0)


# ---------------------------------------------------------------- collecting samples
class Repo:
    def __init__(self):
        self.puts = []

    def put(self, state, i, keep):
        self.puts.append((i, state, keep))


def collecting(kind, quick=True):
    @HARNESSES(name=f"collect_{kind}", quick=quick, bounds="every number of epochs (1-2) and of batches (1-4), samples (1-3), thinning (1-3), " + ("burn-in (0-3)" if kind == "sghmc" else "cycle length (1-4) and exploration ratio 0, 1/4, 1/2"), seconds=400)
    def body(h):
        E_, N = pick(h, "epochs", 1, 2), pick(h, "batches", 1, 4)
        n, th = pick(h, "samples", 1, 3), pick(h, "thin", 1, 3)
        tr = types.SimpleNamespace(_sync_state=lambda s: ("synced", s))
        repo = Repo()
        T = E_ * N
        if kind == "sghmc":
            B = pick(h, "burn", 0, 3)
            due = [s for s in range(1, T + 1) if s > B and (s - B) % th == 0]
            mk = lambda: SGHMCSamplingCallback(n_epochs=E_, n_training_steps=N, n_samples=n, n_thinning=th, burnin_length=B, trainer=tr, state_repository=repo, keep_top_n_checkpoints=7)
        else:
            C, r = pick(h, "cycle", 1, 4), [0.0, 0.25, 0.5][pick(h, "ratio", 0, 2)]
            due = [s for s in range(1, T + 1) if (s % C) >= r * C and (s % C) % th == 0]
            mk = lambda: CyclicalSGLDSamplingCallback(n_epochs=E_, n_training_steps=N, n_samples=n, n_thinning=th, cycle_length=C, exploration_ratio=r, trainer=tr, state_repository=repo, keep_top_n_checkpoints=7)
        ok, cb = h.raises(mk, ValueError)
        h.check("too_few_refused", ok == (len(due) < n), f"{ok} {due} {n}")
        if ok:
            return
        for s in range(1, T + 1):
            out = cb.training_step_end(s)
            h.check("state_passed_on", out == s)
        h.check("collected", repo.puts == [(k, ("synced", s), 7) for k, s in enumerate(due[:n])], f"{repo.puts} {due[:n]}")


collecting("sghmc")
collecting("cyclical")


# ---------------------------------------------------------------- fitting
W = [1.0, 0.5, 2.0]


def fitting(kind, frozen=False):
    @HARNESSES(name=f"fit_{kind}{'_frozen' if frozen else ''}", bounds=f"{kind} fit of 3 parameters, 2 batches, 1 epoch, {'one array frozen, ' if frozen else ''}arbitrary quadratic log-density per batch, initial parameters and draws; both states collected", seconds=300)
    def body(h):
        h.patch(TR, "trange", lambda n, **k: Bar(range(n)))
        log = noises(h) if not frozen else noises_of(h, (2,), 2)
        p0 = FrozenDict(model=FrozenDict(params=FrozenDict(d=FrozenDict(k=h.real("pk", (2,), -1, 1)), e=h.real("pe", (1,), -1, 1))))
        y = h.real("y", (2, 3), -1, 1)
        Y = h.arr(y)
        calls = []

        def logjoint(params, batch, n_data=None, mutable=None, return_aux=None, train=None, rng=None, calib_params=None, calib_mutable=None):
            q = params["model"]["params"]
            v = jnp.concatenate([q["d"]["k"], q["e"]])
            calls.append((n_data, train))
            val = -0.5 * jnp.sum(jnp.asarray(W) * (v - batch[1][0]) ** 2)
            return (val, dict(outputs=v[None])) if return_aux is not None else val

        def wrong(*a, **k):
            raise AssertionError("the chain must climb the log-density")

        joint = types.SimpleNamespace(init=lambda input_shape: JointState(params=p0, mutable=None, calib_params=None, calib_mutable=None),
                                      _batched_log_joint_prob=logjoint, _batched_negative_log_joint_prob=lambda *a, **k: jax.tree_util.tree_map(lambda x: x, _neg(logjoint(*a, **k))),
                                      likelihood=types.SimpleNamespace(prob_output_layer=types.SimpleNamespace(predict=lambda o, **k: o), model_manager=types.SimpleNamespace(model=types.SimpleNamespace(dtype=jnp.float32))))
        X = np.zeros((1, 1), dtype="float32")
        dl = DataLoader.from_callable_iterable(lambda: iter([(jnp.asarray(X), jarr(h, y)[i][None]) for i in range(2)]))
        lr, decay = 0.25, 0.5
        if kind == "sghmc":
            post = SGHMCPosterior(joint, SGHMCPosteriorApproximator(n_samples=2, n_thinning=1, burnin_length=0, momentum_decay=decay, step_schedule=lr))
        else:
            post = CyclicalSGLDPosterior(joint, CyclicalSGLDPosteriorApproximator(n_samples=2, n_thinning=1, cycle_length=3, init_step_size=lr, exploration_ratio=0.0))
            decay = 0.0
        post.rng = RandomNumberGenerator(0)
        fz = (lambda path, v: "frozen" if "e" in path else "trainable") if frozen else None
        cfg = FitConfig(optimizer=FitOptimizer(n_epochs=1, freeze_fun=fz), monitor=FitMonitor(verbose=False, disable_training_metrics_computation=True), processor=FitProcessor(devices=0, disable_jit=True))
        post.fit(dl, fit_config=cfg)
        th = [*h.arr(p0["model"]["params"]["d"]["k"]), *h.arr(p0["model"]["params"]["e"])]
        mom = [0, 0, 0]
        idx = range(2) if frozen else range(3)
        draws = [z for _, z in log]
        k = 0
        for t in range(2):
            z = [*draws[k]]
            k += 1
            if not frozen:
                z += [*draws[k]]
                k += 1
            g = [-W[i] * (th[i] - Y[t, i]) for i in range(3)]
            for i in idx:
                mom[i] = decay * mom[i] + g[i] * math.sqrt(lr) + z[i] * math.sqrt(2 * (1 - decay))
                th[i] = th[i] + mom[i] * math.sqrt(lr)
            got = post.state.get(i=t).params["model"]["params"]
            for a, b in zip([*h.arr(got["d"]["k"]), *h.arr(got["e"])], th):
                h.eq("chain", a, b, tol=1e-3)
        h.check("climbs_full_data", all(c[0] == 2 for c in calls) and len(calls) >= 2, f"{calls}")


def _neg(r):
    return (-r[0], r[1]) if isinstance(r, tuple) else -r


fitting("sghmc")
fitting("sghmc", frozen=True)
fitting("cyclical")


# ---------------------------------------------------------------- random keys
@HARNESSES(name="fresh_keys", bounds="sequences of 5 keys of one generator, split further by their receivers into 2-4 keys; keys are terms of a free algebra, so for every seed")
def fresh_keys(h):
    def split(key, num=2):
        return [("split", key, int(num), i) for i in range(int(num))]

    h.patch(jax.random, "split", split)
    h.patch(jax.random, "PRNGKey", lambda seed: ("key", seed))
    g = RandomNumberGenerator(pick(h, "seed", 0, 2))
    got = [g.get() for _ in range(5)]
    h.check("distinct", len(set(got)) == 5)
    for i, k in enumerate(got):
        m = pick(h, f"num{i}", 2, 4) if i < 2 else 2
        parts = split(k, m)
        for p in parts:
            h.check("not_handed_out_again", p not in got, f"{i} {m}")
            h.check("not_derived_again", all(q not in got for q in split(p, 2)))


@HARNESSES(name="noise_per_leaf", bounds="a tree of 3 arrays: every leaf drawn with its own key in its own shape and type")
def noise_per_leaf(h):
    seen = []

    def normal(key, shape=(), dtype=None):
        seen.append((tuple(np.asarray(key).tolist()), tuple(shape), np.dtype(dtype).name))
        return jnp.zeros(shape, dtype)

    h.patch(jax.random, "normal", normal)
    t = {"a": jnp.zeros((2,)), "b": [jnp.zeros((1, 3), jnp.float16), jnp.zeros(())]}
    out = FR.generate_random_normal_like_tree(jax.random.PRNGKey(3), t)
    h.check("keys", len({k for k, _, _ in seen}) == 3)
    h.check("shapes", [(s, d) for _, s, d in seen] == [((2,), "float32"), ((1, 3), "float16"), ((), "float32")], f"{seen}")
    h.check("structure", jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(t))
