"""numpy on SymTracers: ufunc / function dispatch to jax.numpy, plus (only while a symbolic run is
active, and only for calls made from the code under test) array constructors that yield mutable
symbolic arrays, so numpy code with in-place updates runs unmodified."""
import contextlib
import sys

import jax
import jax.numpy as jnp
import numpy as np
from jax import core

from . import elem as E
from . import trace as T

UF_MAP = {
    "true_divide": "divide", "absolute": "abs", "conjugate": "conj",
}

_orig = {}


def _flag(out, npmode):
    if npmode:
        for x in jax.tree_util.tree_leaves(out):
            if isinstance(x, T.SymTracer):
                x.npmode = True
    return out


def _clean(x):
    """numpy inputs -> something jnp accepts"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return build_array(x, None)
    if isinstance(x, (list, tuple)) and any_sym(x):
        return build_array(x, None)
    return x


def any_sym(x):
    if isinstance(x, T.SymTracer):
        return True
    if isinstance(x, (list, tuple)):
        return any(any_sym(e) for e in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(e, T.SymTracer) for e in x.reshape(-1))
    return False


def build_array(x, dtype, npmode=True):
    """np.array(...) of nested sequences containing tracers"""
    if isinstance(x, T.SymTracer):
        r = x.copy()
    else:
        if isinstance(x, np.ndarray):
            x = x.tolist()
        rows = []
        for e in x:
            if isinstance(e, (list, tuple)):
                e = build_array(e, None) if any_sym(e) else np.asarray(e)
            rows.append(e)
        r = jnp.stack([jnp.asarray(e) if not isinstance(e, T.SymTracer) else e for e in rows])
    if dtype is not None and np.dtype(dtype) != object:
        r = r.astype(dtype)
    if isinstance(r, T.SymTracer):
        r = r.copy()
        r.npmode = npmode
    return r


def ufunc(uf, method, inputs, kwargs):
    name = UF_MAP.get(uf.__name__, uf.__name__)
    out = kwargs.pop("out", None)
    kwargs.pop("where", None)
    kwargs.pop("casting", None)
    dtype = kwargs.pop("dtype", None)
    inputs = [_clean(i) for i in inputs]
    npm = True
    if method == "__call__":
        r = getattr(jnp, name)(*inputs)
    elif method == "reduce":
        red = {"add": jnp.sum, "multiply": jnp.prod, "maximum": jnp.max, "minimum": jnp.min, "logical_and": jnp.all,
               "logical_or": jnp.any}[uf.__name__]
        r = red(*inputs, **{k: v for k, v in kwargs.items() if k in ("axis", "keepdims")})
    else:
        raise E.Unsupported(f"ufunc {uf.__name__}.{method}")
    if out is not None and out[0] is not None:
        o = out[0]
        if isinstance(o, T.SymTracer):
            o.npmode = True
            o[...] = r
            return o
        raise E.Unsupported("ufunc out=")
    return _flag(r, npm)


def _median(a, axis=None, **k):
    return jnp.median(a, axis=axis)


def put_along_axis(arr, indices, values, axis):
    if not isinstance(arr, T.SymTracer):
        raise E.Unsupported("put_along_axis on a plain array with symbolic arguments")
    ip = T.lift(indices, arr) if not isinstance(indices, T.SymTracer) else indices.payload
    vp = np.broadcast_to(T.payload_cast(T.lift(values, arr), arr._aval.dtype), ip.shape)
    axis = axis % arr.payload.ndim
    for pos in np.ndindex(*ip.shape):
        i = ip[pos]
        if E.is_sym(i):
            for c in range(arr.payload.shape[axis]):
                q = pos[:axis] + (c,) + pos[axis + 1:]
                arr.payload[q] = E.ite(E.eq(i, c), vp[pos], arr.payload[q])
        else:
            arr.payload[pos[:axis] + (int(i),) + pos[axis + 1:]] = vp[pos]
    arr.conc = None


def fork_nonzero(a):
    p = a.payload
    flags = np.array([T.branch(x if E.is_z3(x) and E.z3.is_bool(x) else E.ne(x, 0)) if E.is_sym(x) else bool(x) for x in p.reshape(-1)],
                     dtype=bool).reshape(p.shape)
    return np.nonzero(flags)


def where(*a, **k):
    return fork_nonzero(a[0]) if len(a) == 1 else jnp.where(*[_clean(x) for x in a])


SPECIAL = {
    "put_along_axis": put_along_axis,
    "where": where,
    "nonzero": fork_nonzero,
    "flatnonzero": lambda a: fork_nonzero(a.reshape(-1))[0],
    "argwhere": lambda a: np.stack(fork_nonzero(a), -1),
    "copyto": lambda dst, src, **k: dst.__setitem__(Ellipsis, src),
    "array_equal": lambda a, b, **k: jnp.array_equal(_clean(a), _clean(b)),

    "copy": lambda a, **k: a.copy(),
    "unique": lambda *a, **k: sym_unique(*a, **k),
    "shape": lambda a: a.shape,
    "ndim": lambda a: a.ndim,
    "size": lambda a, axis=None: int(np.prod(a.shape)),
    "zeros_like": lambda a, dtype=None, **k: _full(a.shape, 0, dtype or a.dtype),
    "ones_like": lambda a, dtype=None, **k: _full(a.shape, 1, dtype or a.dtype),
    "empty_like": lambda a, dtype=None, **k: _full(a.shape, 0, dtype or a.dtype),
    "full_like": lambda a, v, dtype=None, **k: _full(a.shape, v, dtype or a.dtype),
    "around": lambda a, decimals=0, out=None: jnp.round(a, decimals),
    "round": lambda a, decimals=0, out=None: jnp.round(a, decimals),
    "asarray": lambda a, dtype=None, **k: a if dtype is None else a.astype(dtype),
    "may_share_memory": lambda *a, **k: True,
    "result_type": lambda *a: np.result_type(*[x.dtype if isinstance(x, T.SymTracer) else x for x in a]),
    "can_cast": lambda a, to, **k: np.can_cast(a.dtype, to),
    "iscomplexobj": lambda a: False,
    "isscalar": lambda a: False,
    "broadcast_to": lambda a, shape, **k: jnp.broadcast_to(a, shape),
}


def function(func, args, kwargs):
    name = func.__name__
    if name in SPECIAL:
        return _flag(SPECIAL[name](*args, **kwargs), True)
    f = getattr(jnp, name, None)
    if f is None and getattr(func, "__module__", "") == "numpy.linalg":
        f = getattr(jnp.linalg, name)
    if f is None:
        raise E.Unsupported(f"numpy function {name}")
    kw = {k: v for k, v in kwargs.items() if not (k in ("out", "where", "initial") and (v is None or v is np._NoValue))}
    ar = [_clean_seq(a, name) for a in args]
    return _flag(f(*ar, **kw), True)


def _clean_seq(a, name):
    if isinstance(a, (list, tuple)):
        if name in ("concatenate", "stack", "vstack", "hstack", "column_stack", "dstack", "append"):
            return [x if isinstance(x, T.SymTracer) else jnp.asarray(_clean(x)) for x in a]
        return type(a)(_clean(x) for x in a)
    return _clean(a)


def _full(shape, v, dtype):
    if T.PATH is None:
        return _orig.get("full", np.full)(shape, v, dtype=dtype)
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    shape = tuple(int(s) for s in shape)
    dt = jax.dtypes.canonicalize_dtype(np.dtype(dtype))
    if isinstance(v, T.SymTracer):
        el = T.cast_payload(v.payload, T._kind(v._aval.dtype), T._kind(dt))[()]
    else:
        el = E.to_elem(v, T._kind(dt))
    return T.mk(T.fill(shape, el), dt, trace=T.PATH.trace, npmode=True)


# ------------------------------------------------------------- forking unique
def sym_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, size=None, fill_value=None, **k):
    if axis is not None or return_index and False:
        raise E.Unsupported("unique with axis")
    flat = ar.payload.reshape(-1)
    groups = []  # ordered list of (value, [indices])
    for i, x in enumerate(flat):
        done = False
        for g in range(len(groups)):
            v = groups[g][0]
            if T.branch(E.eq(x, v)):
                groups[g][1].append(i)
                done = True
                break
            if T.branch(E.lt(x, v)):
                groups.insert(g, (x, [i]))
                done = True
                break
        if not done:
            groups.append((x, [i]))
    vals = np.empty(len(groups), dtype=object)
    for g, (v, _) in enumerate(groups):
        vals[g] = v
    if size is not None:
        raise E.Unsupported("unique with size")
    outs = [T.mk(vals, ar._aval.dtype, like=ar)]
    if return_index:
        outs.append(np.array([g[1][0] for g in groups]))
    if return_inverse:
        inv = np.zeros(len(flat), dtype=int)
        for g, (_, ii) in enumerate(groups):
            inv[ii] = g
        outs.append(inv.reshape(ar.shape))
    if return_counts:
        outs.append(np.array([len(g[1]) for g in groups]))
    return outs[0] if len(outs) == 1 else tuple(outs)


# ------------------------------------------------------------- constructors
def _caller_is_target(depth=2):
    name = sys._getframe(depth).f_globals.get("__name__", "")
    return name.startswith("fortuna")


def _wrap_ctor(name):
    orig = getattr(np, name)
    _orig[name] = orig

    def zeros(shape, dtype=float, *a, **k):
        if T.PATH is not None and T.PATH.npmode and _caller_is_target() and np.dtype(dtype) != object:
            return _full(shape, 1 if name == "ones" else 0, dtype)
        return orig(shape, dtype, *a, **k)

    def full(shape, fill_value, dtype=None, *a, **k):
        if T.PATH is not None and _caller_is_target() and (T.PATH.npmode or any_sym(fill_value)) and dtype != object:
            return _full(shape, fill_value, dtype or (fill_value._aval.dtype if any_sym(fill_value) else np.asarray(fill_value).dtype))
        return orig(shape, fill_value, dtype, *a, **k)

    def array(obj, dtype=None, *a, **k):
        if T.PATH is not None and dtype != object and any_sym(obj):
            if isinstance(obj, T.SymTracer):
                r = obj.copy() if name == "array" and k.get("copy", True) else obj
                if dtype is not None:
                    r = r.astype(dtype)
                r.npmode = True
                return r
            return build_array(obj, dtype)
        return orig(obj, dtype, *a, **k) if dtype is not None else orig(obj, *a, **k)

    return {"zeros": zeros, "ones": zeros, "empty": zeros, "full": full}.get(name, array)


@contextlib.contextmanager
def active():
    """patch numpy / jax.numpy entry points for the duration of a symbolic run"""
    saved = {}
    for n in ("zeros", "ones", "empty", "full", "array", "asarray"):
        saved[n] = getattr(np, n)
        setattr(np, n, _wrap_ctor(n))
    from jax._src.numpy import lax_numpy as LN
    o_exp = LN._expand_bool_indices

    def expand(idx, shape):
        new = []
        for i in idx:
            if isinstance(i, T.SymTracer) and T._kind(i._aval.dtype) == "b":
                i = np.array([T.branch(x) if E.is_sym(x) else bool(x) for x in i.payload.reshape(-1)], dtype=bool).reshape(i.payload.shape)
            new.append(i)
        return o_exp(tuple(new), shape)

    LN._expand_bool_indices = expand
    o_unique = jnp.unique
    o_nz = {n: getattr(jnp, n) for n in ("where", "nonzero", "flatnonzero", "argwhere")}

    def nz(n):
        def f(a, *r, **k):
            if isinstance(a, T.SymTracer) and not r and k.get("size") is None and not set(k) & {"x", "y"}:
                return SPECIAL[n](a)
            return o_nz[n](a, *r, **k)

        return f

    for n in o_nz:
        setattr(jnp, n, nz(n))

    def unique(ar, *a, **k):
        if isinstance(ar, T.SymTracer):
            names = ["return_index", "return_inverse", "return_counts", "axis"]
            k.update(dict(zip(names, a)))
            return sym_unique(ar, **k)
        return o_unique(ar, *a, **k)

    jnp.unique = unique
    try:
        yield
    finally:
        jnp.unique = o_unique
        LN._expand_bool_indices = o_exp
        for n, f in o_nz.items():
            setattr(jnp, n, f)
        for n, f in saved.items():
            setattr(np, n, f)
