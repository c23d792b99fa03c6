"""Data loaders."""
from symx.api import Registry
import itertools
import jax
import jax.numpy as jnp
import numpy as np

import fortuna.data.loader.base as DB
from fortuna.data.loader import ConcatenatedLoader, DataLoader, DeviceDimensionAugmentedLoader, InputsLoader, TargetsLoader

HARNESSES = Registry()
STUBS = ["numpy.random.default_rng: choice without replacement is an arbitrary permutation, choice(2, n) an arbitrary selection that is eventually not empty; prefetch_to_device is the identity, device counts are emulated"]
ASSUMPTIONS = ["sizes, batch sizes, positions and random choices are symbolic integers that the check splits over, so the solver covers all of them within the bounds; contents stay symbolic throughout"]
OUTSIDE = "more than 5 points; TensorFlow, PyTorch and Hugging Face loaders; concurrent iteration"


def pick(h, x, lo, hi):
    return [k for k in range(lo, hi + 1) if k == hi or h.branch(x == k)][0]


def choose(h, name, lo, hi):
    return pick(h, h.val(h.int(name, (), lo, hi)), lo, hi)


def data(h, n, d=2):
    return h.real("x", (n, d), -4, 4, np=True), h.real("y", (n,), -4, 4, np=True)


def cat(h, parts):
    out = []
    for p in parts:
        out.extend(list(h.arr(p)))
    return out


def same(h, name, parts, ref):
    """the concatenated parts are the listed rows"""
    got = cat(h, parts)
    if len(got) != len(ref):
        h.check(name, False, f"{len(got)} rows instead of {len(ref)}")
        return
    h.check(name, True)
    for g, r in zip(got, ref):
        h.eq(name, np.atleast_1d(np.asarray(g, dtype=object) if h.sym else g), np.atleast_1d(np.asarray(r, dtype=object) if h.sym else r))


def fix_choice(h, n, tag):
    """arbitrary permutation"""
    left, out = list(range(n)), []
    for i in range(n - 1):
        out.append(left.pop(choose(h, f"{tag}{i}", 0, len(left) - 1)))
    return np.array(out + left)


class Rng:
    def __init__(self, perms=None, picks=None):
        self.perms, self.picks = perms, list(picks or [])

    def choice(self, a, size, replace=True):
        if not replace:
            return self.perms[:size]
        assert a == 2
        return np.array([self.picks.pop(0) if self.picks else 1 for _ in range(size)])

    def permutation(self, n):
        return self.perms if isinstance(n, (int, np.integer)) else n[self.perms]

    def shuffle(self, a):
        a[...] = a[self.perms]

    def integers(self, lo, hi=None, size=None, **kw):
        return self.choice(2, size)


@HARNESSES(bounds="1-4 points, batch size 1-5 or none, with and without prefetching", seconds=120)
def batching(h):
    n, b, pre = choose(h, "n", 1, 4), choose(h, "b", 0, 5), choose(h, "pre", 0, 1)
    x, y = data(h, n)
    X, Y = list(h.arr(x)), list(h.arr(y))
    kw = dict(batch_size=b or None, prefetch=bool(pre))
    sizes = [b] * (n // b) + ([n % b] if n % b else []) if b else [n]
    dl, il, tl = DataLoader.from_array_data((x, y), **kw), InputsLoader.from_array_inputs(x, **kw), TargetsLoader.from_array_targets(y, **kw)
    for rep in range(2):
        bx, by = zip(*list(dl))
        h.check("batch sizes", [len(u) for u in bx] == sizes and [len(u) for u in by] == sizes)
        same(h, "inputs in order", bx, X)
        same(h, "targets in order", by, Y)
        h.check("batch sizes", [len(u) for u in il] == sizes and [len(u) for u in tl] == sizes)
        same(h, "inputs loader", list(il), X)
        same(h, "targets loader", list(tl), Y)
    h.check("size and length", (dl.size, len(dl), il.size, len(il), tl.size, len(tl)) == (n, len(sizes)) * 3)
    h.check("shape of an input", tuple(dl.input_shape) == (2,) and tuple(il.input_shape) == (2,))
    a, c = dl.to_array_data()
    same(h, "array data", [a], X)
    same(h, "array data", [c], Y)
    same(h, "array inputs", [dl.to_array_inputs()], X)
    same(h, "array targets", [dl.to_array_targets()], Y)
    same(h, "array inputs", [il.to_array_inputs()], X)
    same(h, "array targets", [tl.to_array_targets()], Y)
    same(h, "inputs of the data loader", list(dl.to_inputs_loader()), X)
    same(h, "targets of the data loader", list(dl.to_targets_loader()), Y)
    same(h, "inputs of the data loader", [InputsLoader.from_data_loader(dl).to_array_inputs()], X)
    same(h, "targets of the data loader", [TargetsLoader.from_data_loader(dl).to_array_targets()], Y)
    same(h, "concatenated loaders", [u for u, _ in ConcatenatedLoader([dl, dl])], X + X)


@HARNESSES(bounds="3 points, batch size 1-3, every permutation drawn", seconds=120)
def shuffling(h):
    n = 3
    b = choose(h, "b", 1, 3)
    perm = fix_choice(h, n, "p")
    x, y = data(h, n)
    X, Y = list(h.arr(x)), list(h.arr(y))
    h.patch(np.random, "default_rng", lambda *a, **k: Rng(perms=perm))
    dl = DataLoader.from_array_data((x, y), batch_size=b, shuffle=True, prefetch=True)
    bx, by = zip(*list(dl))
    # every point exactly once and with its own target, whatever the order
    gx, gy = cat(h, bx), cat(h, by)
    h.check("nothing lost or repeated", len(gx) == n and len(gy) == n)
    same(h, "permuted inputs", bx, [X[i] for i in perm])
    same(h, "permuted targets", by, [Y[i] for i in perm])
    same(h, "inputs loader", list(InputsLoader.from_array_inputs(x, batch_size=b, shuffle=True)), [X[i] for i in perm])
    same(h, "targets loader", list(TargetsLoader.from_array_targets(y, batch_size=b, shuffle=True)), [Y[i] for i in perm])
    same(h, "given arrays are unchanged", [x], X)
    same(h, "given arrays are unchanged", [y], Y)


@HARNESSES(bounds="1-5 points, batch size 1-3, split at 0-6, divisor 1-3", seconds=150)
def split_and_chop(h):
    n, b = choose(h, "n", 1, 5), choose(h, "b", 1, 3)
    x, y = data(h, n, 1)
    X, Y = list(h.arr(x)), list(h.arr(y))
    dl, il, tl = DataLoader.from_array_data((x, y), batch_size=b), InputsLoader.from_array_inputs(x, batch_size=b), TargetsLoader.from_array_targets(y, batch_size=b)
    if choose(h, "which", 0, 1) == 0:
        k = choose(h, "k", 0, 6)
        (d1, d2), (i1, i2), (t1, t2) = dl.split(k), il.split(k), tl.split(k)
        for rep in range(2):
            same(h, "first part", [u for u, _ in d1], X[:k])
            same(h, "second part", [u for u, _ in d2], X[k:])
            same(h, "first targets", [u for _, u in d1], Y[:k])
            same(h, "second targets", [u for _, u in d2], Y[k:])
            same(h, "first inputs", list(i1), X[:k])
            same(h, "second inputs", list(i2), X[k:])
            same(h, "first targets", list(t1), Y[:k])
            same(h, "second targets", list(t2), Y[k:])
        h.check("no empty batches", all(len(u) for l in (i1, i2, t1, t2) for u in l) and all(len(u) == len(v) > 0 for l in (d1, d2) for u, v in l))
    else:
        q = choose(h, "q", 1, 3)
        ref = []
        for a in range(0, n, b):
            m = min(b, n - a)
            ref += list(range(a, a + m // q * q))
        c = dl.chop(q)
        h.check("multiples of the divisor", all(len(u) == len(v) and len(u) % q == 0 and len(u) > 0 for u, v in c))
        same(h, "points kept", [u for u, _ in c], [X[i] for i in ref])
        same(h, "targets kept", [v for _, v in c], [Y[i] for i in ref])
        same(h, "inputs kept", list(il.chop(q)), [X[i] for i in ref])
        same(h, "targets kept", list(tl.chop(q)), [Y[i] for i in ref])


@HARNESSES(bounds="3 points in batches of 2, 0-4 samples, every selection of the first pass", seconds=150)
def sampling(h):
    x, y = data(h, 3, 1)
    X, Y = list(h.arr(x)), list(h.arr(y))
    m = choose(h, "m", 0, 4)
    sel = [choose(h, f"s{i}", 0, 1) for i in range(3)]
    h.patch(np.random, "default_rng", lambda *a, **k: Rng(picks=sel))
    ref = ([i for i in range(3) if sel[i]] + [0, 1, 2] * 2)[:m]
    d = DataLoader.from_array_data((x, y), batch_size=2).sample(0, m)
    for rep in range(2):
        bx, by = [u for u, _ in d], [v for _, v in d]
        same(h, "sampled inputs", bx, [X[i] for i in ref])
        same(h, "sampled with their targets", by, [Y[i] for i in ref])
    same(h, "sampled inputs", list(InputsLoader.from_array_inputs(x, batch_size=2).sample(0, m)), [X[i] for i in ref])
    same(h, "sampled targets", list(TargetsLoader.from_array_targets(y, batch_size=2).sample(0, m)), [Y[i] for i in ref])
    h.check("as many as requested", d.size == m)


@HARNESSES(bounds="two inputs loaders of 1-3 points each in batches of 2", seconds=120)
def labelled_loaders(h):
    n, m = choose(h, "n", 1, 3), choose(h, "m", 1, 3)
    a, b = h.real("a", (n, 1), np=True), h.real("b", (m, 1), np=True)
    A, B = list(h.arr(a)), list(h.arr(b))
    la, lb = InputsLoader.from_array_inputs(a, batch_size=2), InputsLoader.from_array_inputs(b, batch_size=2)
    d = DataLoader.from_inputs_loaders([la, lb], targets=[4, 7], how="concatenate")
    for rep in range(2):
        same(h, "one after the other", [u for u, _ in d], A + B)
        h.check("with its label", cat(h, [v for _, v in d]) == [4] * n + [7] * m if not h.sym else [int(k.e) for k in cat(h, [v for _, v in d])] == [4] * n + [7] * m)
    e = DataLoader.from_inputs_loaders([la, lb], targets=[4, 7], how="interpose")
    rx, ry = [], []
    for i in range(0, max(n, m), 2):
        rx += A[i:i + 2] + B[i:i + 2]
        ry += [4] * len(A[i:i + 2]) + [7] * len(B[i:i + 2])
    same(h, "in turns", [u for u, _ in e], rx)
    h.check("with its label", [int(k.e) if h.sym else int(k) for k in cat(h, [v for _, v in e])] == ry)
    h.check("labels counted once", d.num_unique_labels == 2 and e.num_unique_labels == 2)
    bad, _ = h.raises(lambda: DataLoader.from_inputs_loaders([la], targets=[1], how="other"), ValueError)
    h.check("unknown ways are refused", bad)


@HARNESSES(bounds="3 points in batches of 1-3, offset in [-2,2], status counts the batches", seconds=120)
def transforms(h):
    b = choose(h, "b", 1, 3)
    c = h.val(h.real("c", (), -2, 2))
    x, y = data(h, 3, 1)
    X, Y = list(h.arr(x)), list(h.arr(y))
    off = h.real("off", (1,), -2, 2, np=True)
    O = h.arr(off)[0]
    drop = choose(h, "drop", 0, 3)
    dl, il, tl = DataLoader.from_array_data((x, y), batch_size=b), InputsLoader.from_array_inputs(x, batch_size=b), TargetsLoader.from_array_targets(y, batch_size=b)
    status = dict(i=[0])

    def tf(u, v, s):
        s["i"][0] += 1
        if s["i"][0] == drop:
            return None, None, s
        return u + off * s["i"][0], v - off, s

    def ti(u, s):
        s["i"][0] += 1
        return (None if s["i"][0] == drop else u + off * s["i"][0]), s

    keep = [i for i in range(3) if i // b + 1 != drop]
    d = dl.to_transformed_data_loader(tf, status)
    e, g = il.to_transformed_inputs_loader(ti, status), tl.to_transformed_targets_loader(ti, status)
    for rep in range(2):
        out = list(d)
        same(h, "transformed inputs", [u for u, _ in out], [X[i] + O * (i // b + 1) for i in keep])
        same(h, "transformed targets", [v for _, v in out], [Y[i] - O for i in keep])
        same(h, "transformed inputs", list(e), [X[i] + O * (i // b + 1) for i in keep])
        same(h, "transformed targets", list(g), [Y[i] + O * (i // b + 1) for i in keep])
    h.check("the given status is not modified and every iteration starts from it", status == dict(i=[0]))
    bad, _ = h.raises(lambda: list(dl.to_transformed_data_loader(lambda u, v, s: (u[:0] if False else u, np.concatenate([v, v]), s))), ValueError)
    h.check("sizes that differ are refused", bad)


@HARNESSES(bounds="4 points in batches of 2 or 4, 1-3 emulated devices", seconds=60)
def devices(h):
    b, k = (2, 4)[choose(h, "b", 0, 1)], choose(h, "k", 1, 3)
    x, y = data(h, 4)
    X, Y = list(h.arr(x)), list(h.arr(y))
    h.patch(DB.jax_utils, "prefetch_to_device", lambda it, n: it)
    h.patch(jax, "local_device_count", lambda: k)
    l = DeviceDimensionAugmentedLoader(DataLoader.from_array_data((x, y), batch_size=b))
    if b % k:
        bad, _ = h.raises(lambda: list(l), ValueError)
        h.check("refused when the devices do not divide the batch", bad)
        return
    out = list(l)
    h.check("device dimension first", all(u.shape == (k, b // k, 2) and v.shape == (k, b // k) for u, v in out))
    same(h, "inputs in order", [r for u, _ in out for r in h.arr(u)], X)
    same(h, "targets in order", [r for _, v in out for r in h.arr(v)], Y)
