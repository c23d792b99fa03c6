"""A JAX interpreter over exact symbolic scalars.

`SymTrace` is a jax core.Trace (like the one behind jax.jvp).  The real, unmodified functions of the
code under test run on `SymTracer`s; every JAX primitive they bind arrives here and is given its
meaning over the scalar domain of elem.py.  jit / vmap / grad / scan / cond / while work as usual.
Python control flow on symbolic values (`if`, `while`, int(), indexing by masks) forks the path.
"""
import itertools
import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
from jax import core, lax
from jax._src import core as jcore

from . import elem as E
from .elem import Unsupported

PATH = None  # current explorer path (set by harness.py): has .branch(cond)


def _kind(dtype):
    dtype = np.dtype(dtype)
    if dtype == np.bool_:
        return "b"
    if np.issubdtype(dtype, np.integer):
        return "i"
    if np.issubdtype(dtype, np.floating) or dtype.name == "bfloat16":
        return "f"
    if dtype.name == "float0":
        return "f"
    raise Unsupported(f"dtype {dtype}")


def branch(cond):
    """decide a symbolic boolean: forks the path"""
    if not E.is_z3(cond):
        return bool(cond)
    if PATH is None:
        raise Unsupported("symbolic branch outside of an exploration")
    return PATH.branch(cond)


def concretize_int(t):
    if not E.is_sym(t):
        return int(t)
    return PATH.concretize(t)


def payload_of(x, kind=None):
    """concrete array-like or tracer -> object ndarray of elements"""
    if isinstance(x, SymTracer):
        return x.payload
    a = np.asarray(x)
    k = kind or _kind(a.dtype)
    out = np.empty(a.shape, dtype=object)
    flat = out.reshape(-1) if a.shape else None
    if a.shape == ():
        out[()] = E.to_elem(a.item() if a.dtype.kind in "biu" else a[()], k)
        return out
    src = a.reshape(-1)
    if a.dtype.name == "bfloat16":
        src = src.astype(np.float32)
    for i in range(src.size):
        flat[i] = E.to_elem(src[i], k)
    return out


def fill(shape, v):
    out = np.empty(shape, dtype=object)
    if shape == ():
        out[()] = v
    else:
        out.reshape(-1)[:] = [v] * out.size
    return out


def emap(f, *arrs):
    arrs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    shape = arrs[0].shape
    out = np.empty(shape, dtype=object)
    its = [a.reshape(-1) for a in arrs]
    flat = out.reshape(-1)
    n = flat.size
    for i in range(n):
        flat[i] = f(*[a[i] for a in its])
    return flat.reshape(shape)


def all_concrete(p):
    return not any(E.is_sym(x) for x in p.reshape(-1))


def to_np(p, dtype):
    """concrete payload -> numpy array"""
    out = np.empty(p.shape, dtype=dtype)
    f = out.reshape(-1)
    for i, x in enumerate(p.reshape(-1)):
        if E.is_sym(x):
            raise Unsupported("expected a concrete value")
        f[i] = float(x) if isinstance(x, Fraction) else x
    return f.reshape(p.shape)


class SymTracer(core.Tracer):
    __slots__ = ("payload", "_aval", "conc", "npmode")

    def __init__(self, trace, payload, aval, conc=None, npmode=False):
        self._trace = trace
        self.payload = payload
        self._aval = aval
        self.conc = conc
        self.npmode = npmode
        assert payload.shape == tuple(aval.shape), (payload.shape, aval)

    @property
    def aval(self):
        return self._aval

    def full_lower(self):
        return self

    # ---- python protocol ---------------------------------------------------
    def _scalar(self):
        if self.payload.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return self.payload.reshape(-1)[0]

    def __bool__(self):
        x = self._scalar()
        if not E.is_sym(x):
            return bool(x)
        if isinstance(x, E.NF):
            return branch(E.b_or(x.flag, E.ne(x.val, 0)))
        return branch(x if E.z3.is_bool(x) else x != 0)

    def __int__(self):
        x = self._scalar()
        if _kind(self._aval.dtype) == "f":
            x = E.etrunc_int(x)
        return concretize_int(x)

    def __index__(self):
        x = self._scalar()
        if _kind(self._aval.dtype) == "f":
            raise TypeError("only integer arrays can be converted to an index")
        return concretize_int(x)

    def __float__(self):
        x = self._scalar()
        if not E.is_sym(x):
            return float(x)
        raise Unsupported("float() of a symbolic value")

    def __ceil__(self):
        return mk(emap(E.efloor_int, emap(E.neg, self.payload)), np.int32, like=self) * -1

    def __floor__(self):
        return mk(emap(E.efloor_int, self.payload), np.int32, like=self)

    def __trunc__(self):
        return mk(emap(E.etrunc_int, self.payload), np.int32, like=self)

    def __round__(self, ndigits=None):
        if ndigits:
            raise Unsupported("round with digits")
        return mk(emap(E.eround, self.payload), self._aval.dtype, like=self)

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return f"Sym<{self._aval.str_short()}>"

    __str__ = __repr__

    def __len__(self):
        if not self._aval.shape:
            raise TypeError("len() of unsized object")
        return self._aval.shape[0]

    def __iter__(self):
        if not self._aval.shape:
            raise TypeError("iteration over a 0-d array")
        for i in range(self._aval.shape[0]):
            yield self[i]

    def item(self, *args):
        if args:
            return mk(self.payload.reshape(-1)[args[0]], self._aval.dtype, like=self)
        if self.payload.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return mk(self.payload.reshape(()), self._aval.dtype, like=self)

    def tolist(self):
        def rec(a):
            a = _nd(a)
            if a.ndim == 0:
                x = a[()]
                if not E.is_sym(x):
                    return float(x) if isinstance(x, Fraction) else x
                k = _kind(self._aval.dtype)
                if k == "b":
                    return branch(x)
                if k != "f":
                    return concretize_int(x)
                return mk(a.copy(), self._aval.dtype, like=self)
            return [rec(a[i]) for i in range(a.shape[0])]

        p = self.payload
        return rec(_nd(p))

    def copy(self):
        return mk(self.payload.copy(), self._aval.dtype, like=self)

    def __deepcopy__(self, memo):
        return mk(self.payload.copy(), self._aval.dtype, like=self)

    def __copy__(self):
        return mk(self.payload.copy(), self._aval.dtype, like=self)

    def block_until_ready(self):
        return self

    def flatten(self, *a, **k):
        return mk(self.payload.reshape(-1).copy(), self._aval.dtype, like=self)

    def fill(self, v):
        self[...] = v

    @property
    def flat(self):
        return iter(self.reshape(-1))

    @property
    def T(self):
        return mk(self.payload.T, self._aval.dtype, like=self)

    # ---- indexing -----------------------------------------------------------
    def _np_index(self, idx):
        """index -> plain numpy index, or None when it has to go through jnp"""
        items = idx if isinstance(idx, tuple) else (idx,)
        out = []
        for it in items:
            if isinstance(it, SymTracer):
                k = _kind(it._aval.dtype)
                if k == "b":
                    vals = np.array([branch(x) for x in it.payload.reshape(-1)], dtype=bool).reshape(it.payload.shape)
                    out.append(vals)
                elif k == "i":
                    if all_concrete(it.payload):
                        out.append(to_np(it.payload, np.int64))
                    else:
                        return None
                else:
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
            elif isinstance(it, slice):
                f = lambda v: v if v is None or isinstance(v, int) else int(v)
                out.append(slice(f(it.start), f(it.stop), f(it.step)))
            elif it is None or it is Ellipsis or isinstance(it, (int, np.integer, bool, np.bool_)):
                out.append(it)
            elif isinstance(it, (list, np.ndarray, jax.Array)) and not isinstance(it, core.Tracer):
                if isinstance(it, list) and any(isinstance(e, SymTracer) for e in it):
                    it = [int(e) for e in it]
                a = np.asarray(it)
                if a.size == 0 and a.dtype.kind == "f":
                    a = a.astype(int)
                out.append(a)
            else:
                return None
        return tuple(out)

    def __getitem__(self, idx):
        ni = self._np_index(idx)
        if ni is None:
            return jnp_getitem(self, idx)
        try:
            r = self.payload[ni]
        except IndexError:
            if self.npmode or len([1 for i in ni if i is not None and i is not Ellipsis]) > self.payload.ndim:
                raise
            return jnp_getitem(self, idx)  # jnp clamps out of bound accesses
        return mk(_nd(r), self._aval.dtype, like=self)

    def __setitem__(self, idx, v):
        if not self.npmode:
            raise TypeError("JAX arrays are immutable (in place assignment)")
        ni = self._np_index(idx)
        if ni is None:
            ni = tuple(np.array([concretize_int(x) for x in i.payload.reshape(-1)], dtype=int).reshape(i.payload.shape)
                       if isinstance(i, SymTracer) else i for i in (idx if isinstance(idx, tuple) else (idx,)))
        v = payload_cast(lift(v, self), self._aval.dtype)
        cur = self.payload[ni]
        shape = cur.shape if isinstance(cur, np.ndarray) else ()
        while v.ndim > len(shape) and v.shape[0] == 1:
            v = v[0]
        if shape == ():
            b = np.broadcast_to(v, ())
            self.payload[ni] = b[()]
        else:
            self.payload[ni] = np.broadcast_to(v, shape)
        self.conc = None

    def _inplace(self, op, o):
        r = op(self, o)
        if not self.npmode:
            return r
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inplace(lambda a, b: a + b, o)

    def __isub__(self, o):
        return self._inplace(lambda a, b: a - b, o)

    def __imul__(self, o):
        return self._inplace(lambda a, b: a * b, o)

    def __itruediv__(self, o):
        return self._inplace(lambda a, b: a / b, o)

    # ---- numpy protocol -------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import npshim

        return npshim.ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim

        return npshim.function(func, args, kwargs)

    def __array__(self, *a, **k):
        if all_concrete(self.payload):
            return to_np(self.payload, self._aval.dtype)
        raise Unsupported("numpy conversion of a symbolic array")


def _nd(r):
    if isinstance(r, np.ndarray):
        return r
    out = np.empty((), dtype=object)
    out[()] = r
    return out


def jnp_getitem(t, idx):
    return core.Tracer.__getitem__(t, idx) if hasattr(core.Tracer, "__getitem__") else t.aval._getitem(t, idx)


def mk(payload, dtype, like=None, trace=None, weak=False, npmode=None):
    tr = trace or like._trace
    p = _nd(payload)
    return SymTracer(tr, p, core.ShapedArray(p.shape, np.dtype(dtype), weak_type=weak),
                     npmode=like.npmode if npmode is None and like is not None else bool(npmode))


def lift(v, like):
    if isinstance(v, SymTracer):
        return v
    if isinstance(v, (list, tuple)):
        from . import npshim

        v = npshim.build_array(v, None)
        if isinstance(v, SymTracer):
            return v
    a = np.asarray(v)
    return SymTracer(like._trace, payload_of(a), core.ShapedArray(a.shape, a.dtype if a.dtype != np.float64 else np.dtype(np.float32)))


def payload_cast(t, dtype):
    return cast_payload(t.payload, _kind(t._aval.dtype), _kind(dtype), np.dtype(dtype))


def cast_payload(p, k0, k1, dtype=None):
    if k0 == k1:
        if k1 == "i" and dtype is not None and dtype.kind == "u" and all_concrete(p):
            bits = dtype.itemsize * 8
            return emap(lambda x: x % (1 << bits), p)
        return p

    def c(x):
        if k1 == "f":
            if E.is_sym(x):
                if isinstance(x, E.NF):
                    return x
                return E.zreal(x)
            return Fraction(int(x))
        if k1 == "i":
            if k0 == "b":
                return E.zint(x) if E.is_sym(x) else int(x)
            return E.etrunc_int(x)
        if E.is_sym(x):
            if isinstance(x, E.NF):
                return E.b_or(x.flag, E.ne(x.val, Fraction(0)))
            return x != 0 if not E.z3.is_bool(x) else x
        return bool(x)

    return emap(c, p)


class SymTrace(core.Trace):
    def pure(self, val):
        a = val
        dt = jax.dtypes.canonicalize_dtype(np.result_type(a) if not hasattr(a, "dtype") else a.dtype) \
            if not (hasattr(a, "dtype") and jax.dtypes.issubdtype(a.dtype, jax.dtypes.extended)) else a.dtype
        if jax.dtypes.issubdtype(dt, jax.dtypes.extended):
            return OpaqueTracer(self, a)
        aval = jcore.raise_to_shaped(jcore.get_aval(a))
        return SymTracer(self, payload_of(a), aval, conc=a)

    lift = pure

    def lift(self, tracer):
        return self.pure(tracer)

    def sublift(self, t):
        if isinstance(t, OpaqueTracer):
            return OpaqueTracer(self, t.val)
        return SymTracer(self, t.payload, t._aval, t.conc, t.npmode)

    def process_primitive(self, prim, tracers, params):
        rule = RULES.get(prim.name)
        if rule is None or any(isinstance(t, OpaqueTracer) for t in tracers) and prim.name not in CONTROL:
            if all(isinstance(t, OpaqueTracer) or all_concrete(t.payload) for t in tracers):
                return self.concrete(prim, tracers, params)
            raise Unsupported(f"primitive {prim.name}")
        if prim.name in CONTROL:
            return rule(self, tracers, params)
        try:
            out_aval, _ = prim.abstract_eval(*[t._aval for t in tracers], **params)
        except TypeError:
            out_aval = prim.abstract_eval(*[t._aval for t in tracers], **params)
        try:
            res = rule(self, [t.payload for t in tracers], [t._aval for t in tracers], out_aval, params)
        except (ValueError, TypeError, IndexError, KeyError, AttributeError) as e:
            # JAX accepted the operands: a limit of the encoding, not an error of the code under check
            raise Unsupported(f"primitive {prim.name}: {e!r}") from e
        if prim.multiple_results:
            return [SymTracer(self, r, a, npmode=False) for r, a in zip(res, out_aval)]
        return SymTracer(self, res, out_aval, npmode=any(t.npmode for t in tracers))

    def concrete(self, prim, tracers, params):
        args = []
        for t in tracers:
            if isinstance(t, OpaqueTracer):
                args.append(t.val)
            else:
                args.append(jnp.asarray(t.conc if t.conc is not None and np.shape(t.conc) == t.payload.shape else to_np(t.payload, t._aval.dtype), dtype=t._aval.dtype))
        with jcore.eval_context():
            out = prim.bind(*args, **params)
        if prim.multiple_results:
            return [self.pure(o) for o in out]
        return self.pure(out)

    def process_call(self, call_primitive, f, tracers, params):
        return f.call_wrapped(*tracers)

    def process_map(self, map_primitive, f, tracers, params):
        raise Unsupported("pmap")

    def process_custom_jvp_call(self, prim, fun, jvp, tracers, *, symbolic_zeros=False):
        return fun.call_wrapped(*tracers)

    def process_custom_vjp_call(self, prim, fun, fwd, bwd, tracers, **_):
        return fun.call_wrapped(*tracers)


class OpaqueTracer(core.Tracer):
    """a concrete value of an extended dtype (PRNG key arrays)"""

    __slots__ = ("val",)

    def __init__(self, trace, val):
        self._trace = trace
        self.val = val

    @property
    def aval(self):
        return jcore.raise_to_shaped(jcore.get_aval(self.val))

    @property
    def _aval(self):
        return self.aval

    def full_lower(self):
        return self


# =================================================================== jaxpr evaluation
def eval_jaxpr(trace, jaxpr, consts, args):
    env = {}

    def read(v):
        return v.val if isinstance(v, jcore.Literal) else env[v]

    def unwrap(x):
        if isinstance(x, OpaqueTracer):
            return x.val
        if isinstance(x, SymTracer) and x.conc is not None:
            return x.conc
        return x

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = unwrap(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = unwrap(a)
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        if any(isinstance(x, (SymTracer,)) for x in ins) or (eqn.primitive.name in CONTROL and _consts_have_tracers(eqn.params)):
            tr = []
            for x in ins:
                tr.append(x if isinstance(x, (SymTracer, OpaqueTracer)) else trace.pure_aval(x))
            outs = trace.process_primitive(eqn.primitive, tr, eqn.params)
        else:
            with jcore.eval_context():
                subfuns, bp = eqn.primitive.get_bind_params(eqn.params)
                outs = eqn.primitive.bind(*subfuns, *ins, **bp)
        if not eqn.primitive.multiple_results:
            outs = [outs]
        for v, o in zip(eqn.outvars, outs):
            env[v] = unwrap(o)
    outs = []
    for v in jaxpr.outvars:
        o = read(v)
        outs.append(o if isinstance(o, (SymTracer, OpaqueTracer)) else trace.pure_aval(o))
    return outs


def _consts_have_tracers(params):
    for v in params.values():
        vs = v if isinstance(v, (tuple, list)) else (v,)
        for x in vs:
            if isinstance(x, jcore.ClosedJaxpr) and any(isinstance(c, core.Tracer) for c in x.consts):
                return True
    return False


def _pure_aval(self, x):
    return self.pure(x)


SymTrace.pure_aval = _pure_aval

RULES = {}
CONTROL = set()


def rule(*names):
    def d(f):
        for n in names:
            RULES[n] = f
        return f

    return d


def control(*names):
    def d(f):
        for n in names:
            RULES[n] = f
            CONTROL.add(n)
        return f

    return d


@control("pjit")
def _pjit(trace, tracers, params):
    j = params["jaxpr"]
    return eval_jaxpr(trace, j.jaxpr, j.consts, tracers)


@control("closed_call", "core_call", "core_closed_call")
def _ccall(trace, tracers, params):
    j = params["call_jaxpr"]
    if isinstance(j, jcore.ClosedJaxpr):
        return eval_jaxpr(trace, j.jaxpr, j.consts, tracers)
    return eval_jaxpr(trace, j, (), tracers)


@control("custom_jvp_call")
def _cjvp(trace, tracers, params):
    j = params["call_jaxpr"]
    return eval_jaxpr(trace, j.jaxpr, j.consts, tracers)


@control("custom_vjp_call_jaxpr")
def _cvjp(trace, tracers, params):
    j = params["fun_jaxpr"]
    return eval_jaxpr(trace, j.jaxpr, j.consts, tracers)


@control("checkpoint", "remat", "remat2")
def _remat(trace, tracers, params):
    j = params["jaxpr"]
    if isinstance(j, jcore.ClosedJaxpr):
        return eval_jaxpr(trace, j.jaxpr, j.consts, tracers)
    return eval_jaxpr(trace, j, (), tracers)


@control("custom_lin")
def _clin(trace, tracers, params):
    raise Unsupported("custom_lin")


@control("debug_callback")
def _dbg(trace, tracers, params):
    return []


@control("pure_callback")
def _pure_cb(trace, tracers, params):
    cb = params["callback"]
    args = [t.conc if t.conc is not None else t for t in tracers]
    out = cb(*args)
    return [o if isinstance(o, SymTracer) else trace.pure(np.asarray(o)) for o in jax.tree_util.tree_leaves(out)]


@control("scan")
def _scan(trace, tracers, params):
    nc, nk = params["num_consts"], params["num_carry"]
    j = params["jaxpr"]
    length, reverse = params["length"], params["reverse"]
    consts, carry, xs = tracers[:nc], tracers[nc:nc + nk], tracers[nc + nk:]
    ys = [None] * length
    order = range(length - 1, -1, -1) if reverse else range(length)
    out_avals = j.out_avals[nk:]
    carry = list(carry)
    for i in order:
        xi = [_index0(trace, x, i) for x in xs]
        outs = eval_jaxpr(trace, j.jaxpr, j.consts, consts + carry + xi)
        carry, ys[i] = list(outs[:nk]), outs[nk:]
    res = []
    for k, av in enumerate(out_avals):
        shape = (length,) + tuple(av.shape)
        p = np.empty(shape, dtype=object)
        for i in range(length):
            p[i] = ys[i][k].payload if av.shape else ys[i][k].payload[()]
        res.append(SymTracer(trace, p, core.ShapedArray(shape, av.dtype)))
    return carry + res


def _index0(trace, x, i):
    if isinstance(x, OpaqueTracer):
        return OpaqueTracer(trace, x.val[i])
    return SymTracer(trace, _nd(x.payload[i]), core.ShapedArray(x._aval.shape[1:], x._aval.dtype),
                     conc=np.asarray(x.conc)[i] if x.conc is not None else None)


MAX_UNROLL = 64


@control("while")
def _while(trace, tracers, params):
    cn, bn = params["cond_nconsts"], params["body_nconsts"]
    cc, bc, carry = tracers[:cn], tracers[cn:cn + bn], list(tracers[cn + bn:])
    cj, bj = params["cond_jaxpr"], params["body_jaxpr"]
    for _ in range(100000):
        (c,) = eval_jaxpr(trace, cj.jaxpr, cj.consts, cc + carry)
        v = c.payload[()]
        if E.is_sym(v):
            if _ > MAX_UNROLL:
                raise Unsupported("while loop beyond the unrolling bound")
            v = branch(v)
        if not v:
            return carry
        carry = list(eval_jaxpr(trace, bj.jaxpr, bj.consts, bc + carry))
    raise Unsupported("while loop too long")


@control("cond")
def _cond(trace, tracers, params):
    idx, ops = tracers[0], tracers[1:]
    branches = params["branches"]
    v = idx.payload[()]
    if not E.is_sym(v):
        i = min(max(int(v), 0), len(branches) - 1)
        return eval_jaxpr(trace, branches[i].jaxpr, branches[i].consts, ops)
    if MERGE_COND:
        outs = [eval_jaxpr(trace, b.jaxpr, b.consts, ops) for b in branches]
        n = len(branches)
        res = []
        for k in range(len(outs[0])):
            acc = outs[n - 1][k]
            p = acc.payload
            for i in range(n - 2, -1, -1):
                c = E.eq(v, i) if i > 0 else E.le(v, 0)
                p = emap(lambda a, b: E.ite(c, a, b), outs[i][k].payload, p)
            res.append(SymTracer(trace, p, acc._aval))
        return res
    i = None
    for k in range(len(branches) - 1):
        if branch(E.eq(v, k)):
            i = k
            break
    if i is None:
        i = len(branches) - 1
    return eval_jaxpr(trace, branches[i].jaxpr, branches[i].consts, ops)


MERGE_COND = True


# =================================================================== elementwise
def _bin(f):
    def r(trace, ps, avals, out, params):
        return emap(f, *ps)

    return r


def _un(f):
    def r(trace, ps, avals, out, params):
        return emap(f, ps[0])

    return r


def _wrap_uint(f):
    def r(trace, ps, avals, out, params):
        res = emap(f, *ps)
        dt = np.dtype(out.dtype)
        if dt.kind == "u":
            bits = dt.itemsize * 8
            if all_concrete(res):
                return emap(lambda x: x % (1 << bits), res)
        return res

    return r


def _addf(x, y):
    if isinstance(x, bool) or isinstance(y, bool) or E.is_z3(x) and E.z3.is_bool(x):
        return E.b_or(x, y)
    return E.add(x, y)


RULES["add"] = RULES["add_any"] = _wrap_uint(_addf)
RULES["sub"] = _wrap_uint(E.sub)


def _mulf(x, y):
    bx = isinstance(x, bool) or E.is_z3(x) and E.z3.is_bool(x)
    by = isinstance(y, bool) or E.is_z3(y) and E.z3.is_bool(y)
    if bx and by:
        return E.b_and(x, y)
    return E.mul(x, y)


RULES["mul"] = _wrap_uint(_mulf)
RULES["neg"] = _un(E.neg)
RULES["abs"] = _un(E.eabs)
RULES["sign"] = _un(E.esign)


def _maxf(x, y):
    if isinstance(x, bool) or E.is_z3(x) and E.z3.is_bool(x):
        return E.b_or(x, y)
    return E.emax(x, y)


def _minf(x, y):
    if isinstance(x, bool) or E.is_z3(x) and E.z3.is_bool(x):
        return E.b_and(x, y)
    return E.emin(x, y)


RULES["max"] = _bin(_maxf)
RULES["min"] = _bin(_minf)
RULES["floor"] = _un(E.efloor)
RULES["ceil"] = _un(E.eceil)
RULES["exp"] = _un(E.eexp)
RULES["log"] = _un(E.elog)
RULES["log1p"] = _un(lambda x: E.elog(E.add(x, Fraction(1))))
RULES["expm1"] = _un(lambda x: E.sub(E.eexp(x), Fraction(1)))
RULES["sqrt"] = _un(E.esqrt)
RULES["rsqrt"] = _un(lambda x: E.div(Fraction(1), E.esqrt(x)))
RULES["exp2"] = _un(lambda x: E.epow(Fraction(2), x))
RULES["copy"] = RULES["copy_p"] = RULES["reduce_precision"] = RULES["stop_gradient"] = _un(lambda x: x)
RULES["optimization_barrier"] = lambda tr, ps, av, out, pa: ps
RULES["square"] = _un(lambda x: E.mul(x, x))
RULES["real"] = _un(lambda x: x)
RULES["erfc"] = _un(lambda x: E.sub(Fraction(1), E.euf("erf", x)))
RULES["tan"] = _un(lambda x: E.div(E.euf("sin", x), E.euf("cos", x)))
for _n in ("sin", "cos", "tanh", "erf", "erf_inv", "lgamma", "digamma", "atan", "sinh", "cosh", "asin", "acos", "cbrt"):
    RULES[_n] = _un(lambda x, _n=_n: E.euf(_n, x))


def _logistic(x):
    """1/(1+exp(-x)) kept algebraic in exp"""
    if E.isnonfinite(x):
        return E.euf("logistic", x)
    return E.div(Fraction(1), E.add(Fraction(1), E.eexp(E.neg(x))))


RULES["logistic"] = _un(_logistic)
RULES["lt"] = _bin(E.lt)
RULES["le"] = _bin(E.le)
RULES["gt"] = _bin(E.gt)
RULES["ge"] = _bin(E.ge)
RULES["eq"] = _bin(E.eq)
RULES["ne"] = _bin(E.ne)
RULES["lt_to"] = _bin(E.lt)
RULES["le_to"] = _bin(E.le)
RULES["eq_to"] = _bin(E.eq)


@rule("div")
def _div(trace, ps, avals, out, params):
    if _kind(out.dtype) == "i":
        return emap(E.int_div, *ps)
    return emap(E.div, *ps)


@rule("rem")
def _rem(trace, ps, avals, out, params):
    if _kind(out.dtype) == "i":
        return emap(E.int_rem, *ps)
    return emap(E.real_rem, *ps)


@rule("pow")
def _pow(trace, ps, avals, out, params):
    if _kind(avals[1].dtype) == "i":
        return emap(lambda x, y: E.einteger_pow(x, int(y)) if not E.is_sym(y) else E.epow(x, E.zreal(y)), *ps)
    return emap(E.epow, *ps)


@rule("integer_pow")
def _ipow(trace, ps, avals, out, params):
    n = params["y"]
    if _kind(out.dtype) == "i":
        def f(x):
            r = 1
            for _ in range(n):
                r = E.mul(r, x)
            return r
        return emap(f, ps[0])
    return emap(lambda x: E.einteger_pow(x, n), ps[0])


@rule("round")
def _round(trace, ps, avals, out, params):
    he = int(params["rounding_method"]) == 1
    return emap(lambda x: E.eround(x, he), ps[0])


@rule("is_finite")
def _isfin(trace, ps, avals, out, params):
    def f(x):
        if isinstance(x, E.NF):
            return E.b_not(x.flag)
        return not E.isnonfinite(x)

    return emap(f, ps[0])


def _bitop(fb, fi):
    def r(trace, ps, avals, out, params):
        if _kind(out.dtype) == "b":
            return emap(fb, *ps)

        def g(*xs):
            if any(E.is_sym(x) for x in xs):
                raise Unsupported("bitwise operation on symbolic integers")
            return fi(*xs)

        return emap(g, *ps)

    return r


RULES["and"] = _bitop(E.b_and, lambda x, y: x & y)
RULES["or"] = _bitop(E.b_or, lambda x, y: x | y)
RULES["xor"] = _bitop(E.b_xor, lambda x, y: x ^ y)


@rule("not")
def _not(trace, ps, avals, out, params):
    if _kind(out.dtype) == "b":
        return emap(E.b_not, ps[0])
    return emap(lambda x: ~x, ps[0])


@rule("select_n")
def _select_n(trace, ps, avals, out, params):
    which, cases = ps[0], ps[1:]
    if which.shape == ():
        which = np.broadcast_to(which, cases[0].shape)
    if _kind(avals[0].dtype) == "b":
        return emap(lambda c, f, t: E.ite(c, t, f), which, *cases)

    def f(w, *cs):
        r = cs[-1]
        for i in range(len(cs) - 2, -1, -1):
            r = E.ite(E.eq(w, i), cs[i], r)
        return r

    return emap(f, which, *cases)


@rule("clamp")
def _clamp(trace, ps, avals, out, params):
    lo, x, hi = ps
    lo, hi = np.broadcast_to(lo, x.shape), np.broadcast_to(hi, x.shape)
    return emap(lambda l, v, h: E.emin(E.emax(v, l), h), lo, x, hi)


@rule("nextafter")
def _nextafter(trace, ps, avals, out, params):
    return ps[0]


@rule("convert_element_type")
def _convert(trace, ps, avals, out, params):
    return cast_payload(ps[0], _kind(avals[0].dtype), _kind(out.dtype), np.dtype(out.dtype))


# =================================================================== reductions
def _reduce(f, init):
    def r(trace, ps, avals, out, params):
        axes = params["axes"]
        p = ps[0]
        keep = [i for i in range(p.ndim) if i not in axes]
        q = p.transpose(keep + list(axes)).reshape(tuple(p.shape[i] for i in keep) + (-1,))
        res = np.empty(q.shape[:-1], dtype=object)
        for ix in np.ndindex(*q.shape[:-1]):
            acc = None
            for x in q[ix]:
                acc = x if acc is None else f(acc, x)
            res[ix] = init(out.dtype) if acc is None else acc
        return res

    return r


RULES["reduce_sum"] = _reduce(_addf, lambda d: E.to_elem(0, _kind(d)))


def _psum(trace, ps, avals, out, params):
    """the positional form that vmap leaves behind"""
    if any(not isinstance(a, int) for a in params["axes"]) or params["axis_index_groups"] is not None:
        raise Unsupported("psum over a named axis")
    return [_reduce(_addf, lambda d: E.to_elem(0, _kind(d)))(trace, [p], [a], o, params) if params["axes"] else p for p, a, o in zip(ps, avals, out)]


RULES["psum"] = _psum
RULES["reduce_prod"] = _reduce(_mulf, lambda d: E.to_elem(1, _kind(d)))
RULES["reduce_max"] = _reduce(_maxf, lambda d: -E.INF)
RULES["reduce_min"] = _reduce(_minf, lambda d: E.INF)
RULES["reduce_and"] = _reduce(E.b_and, lambda d: True)
RULES["reduce_or"] = _reduce(E.b_or, lambda d: False)


def _arg(better):
    def r(trace, ps, avals, out, params):
        (ax,) = params["axes"]
        p = np.moveaxis(ps[0], ax, -1)
        res = np.empty(p.shape[:-1], dtype=object)
        for ix in np.ndindex(*p.shape[:-1]):
            best, bi = p[ix][0], 0
            for k in range(1, p.shape[-1]):
                c = better(p[ix][k], best)
                best = E.ite(c, p[ix][k], best)
                bi = E.ite(c, k, bi)
            res[ix] = bi
        return res

    return r


RULES["argmax"] = _arg(lambda a, b: E.gt(a, b))
RULES["argmin"] = _arg(lambda a, b: E.lt(a, b))


def _cum(f):
    def r(trace, ps, avals, out, params):
        ax, rev = params["axis"], params["reverse"]
        p = np.moveaxis(ps[0], ax, -1)
        if rev:
            p = p[..., ::-1]
        res = np.empty(p.shape, dtype=object)
        for ix in np.ndindex(*p.shape[:-1]):
            acc = None
            for k in range(p.shape[-1]):
                acc = p[ix][k] if acc is None else f(acc, p[ix][k])
                res[ix + (k,)] = acc
        if rev:
            res = res[..., ::-1]
        return np.moveaxis(res, -1, ax)

    return r


RULES["cumsum"] = _cum(_addf)
RULES["cumprod"] = _cum(E.mul)
RULES["cummax"] = _cum(E.emax)
RULES["cummin"] = _cum(E.emin)
RULES["cumlogsumexp"] = _cum(lambda a, b: E.elog(E.add(E.eexp(a), E.eexp(b))))


@rule("dot_general")
def _dot(trace, ps, avals, out, params):
    (lc, rc), (lb, rb) = params["dimension_numbers"]
    l, r = ps
    lf = [i for i in range(l.ndim) if i not in lc and i not in lb]
    rf = [i for i in range(r.ndim) if i not in rc and i not in rb]
    L = l.transpose(list(lb) + lf + list(lc))
    R = r.transpose(list(rb) + rf + list(rc))
    bs = tuple(l.shape[i] for i in lb)
    ls = tuple(l.shape[i] for i in lf)
    rs = tuple(r.shape[i] for i in rf)
    n_in = int(np.prod([l.shape[i] for i in lc]))
    L = L.reshape((int(np.prod(bs)), int(np.prod(ls)), n_in))
    R = R.reshape((int(np.prod(bs)), int(np.prod(rs)), n_in))
    zero = E.to_elem(0, _kind(out.dtype))
    res = np.empty((L.shape[0], L.shape[1], R.shape[1]), dtype=object)
    for b in range(L.shape[0]):
        for i in range(L.shape[1]):
            for k in range(R.shape[1]):
                acc = zero
                for m in range(L.shape[2]):
                    acc = E.add(acc, E.mul(L[b, i, m], R[b, k, m]))
                res[b, i, k] = acc
    return res.reshape(bs + ls + rs)


# =================================================================== sorting
def _lex_lt(a, b):
    """strict lexicographic order on key tuples"""
    r = False
    for x, y in zip(reversed(a), reversed(b)):
        r = E.b_or(E.lt(x, y), E.b_and(E.eq(x, y), r))
    return r


def sort_columns(cols, num_keys):
    """stable sort of parallel columns by the first num_keys; returns the sorted columns"""
    n = len(cols[0])
    keys = [tuple(c[i] for c in cols[:num_keys]) for i in range(n)]
    if not any(E.is_sym(k) for t in keys for k in t):
        order = sorted(range(n), key=lambda i: tuple(float("inf") if E.isnonfinite(k) and math.isnan(k) else k for k in keys[i]))
        return [[c[i] for i in order] for c in cols]
    if n == 1:
        return [list(c) for c in cols]
    before = {}
    for i in range(n):
        for j in range(i + 1, n):
            # i precedes j unless key_j < key_i
            before[i, j] = E.b_not(_lex_lt(keys[j], keys[i]))
            before[j, i] = E.b_not(before[i, j])
    if n == 2:
        c = before[0, 1]
        return [[E.ite(c, col[0], col[1]), E.ite(c, col[1], col[0])] for col in cols]
    rank = []
    for i in range(n):
        r = 0
        for j in range(n):
            if j != i:
                r = E.add(r, E.ite(before[j, i], 1, 0))
        rank.append(r)
    res = []
    for col in cols:
        o = []
        for k in range(n):
            if all(not E.is_sym(x) for x in col) and all(x == col[0] for x in col):
                o.append(col[0])
                continue
            v = col[n - 1]
            for i in range(n - 2, -1, -1):
                v = E.ite(E.eq(rank[i], k), col[i], v)
            o.append(v)
        res.append(o)
    # single key of reals: min/max networks give simpler extreme elements
    return res


def sort_network(col):
    """values only: odd-even transposition network of min/max"""
    a = list(col)
    n = len(a)
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            lo, hi = E.emin(a[i], a[i + 1]), E.emax(a[i], a[i + 1])
            a[i], a[i + 1] = lo, hi
    return a


@rule("sort")
def _sort(trace, ps, avals, out, params):
    d, nk = params["dimension"], params["num_keys"]
    qs = [np.moveaxis(p, d, -1) for p in ps]
    res = [np.empty(q.shape, dtype=object) for q in qs]
    for ix in np.ndindex(*qs[0].shape[:-1]):
        if len(qs) == 1 and qs[0].shape[-1] <= 3:
            cols = [sort_network(qs[0][ix])] if not all_concrete(qs[0][ix]) else sort_columns([list(qs[0][ix])], 1)
        else:
            cols = sort_columns([list(q[ix]) for q in qs], nk)
        for r, c in zip(res, cols):
            for k, v in enumerate(c):
                r[ix + (k,)] = v
    return [np.moveaxis(r, -1, d) for r in res]


@rule("top_k")
def _topk(trace, ps, avals, out, params):
    k = params["k"]
    p = ps[0]
    v = np.empty(p.shape[:-1] + (k,), dtype=object)
    w = np.empty(p.shape[:-1] + (k,), dtype=object)
    for ix in np.ndindex(*p.shape[:-1]):
        cols = sort_columns([[E.neg(x) for x in p[ix]], list(range(p.shape[-1]))], 1)
        for j in range(k):
            v[ix + (j,)] = E.neg(cols[0][j])
            w[ix + (j,)] = cols[1][j]
    return [v, w]


# =================================================================== structure
@rule("broadcast_in_dim")
def _bid(trace, ps, avals, out, params):
    p = ps[0]
    shape, bd = tuple(out.shape), params["broadcast_dimensions"]
    s = [1] * len(shape)
    for i, d in enumerate(bd):
        s[d] = p.shape[i]
    return np.broadcast_to(p.reshape(s), shape).copy()


@rule("reshape")
def _reshape(trace, ps, avals, out, params):
    p = ps[0]
    if params.get("dimensions") is not None:
        p = p.transpose(params["dimensions"])
    return p.reshape(tuple(out.shape))


@rule("transpose")
def _transpose(trace, ps, avals, out, params):
    return ps[0].transpose(params["permutation"])


@rule("squeeze", "expand_dims")
def _squeeze(trace, ps, avals, out, params):
    return ps[0].reshape(tuple(out.shape))


@rule("slice")
def _slice(trace, ps, avals, out, params):
    st = params["strides"] or (1,) * ps[0].ndim
    return ps[0][tuple(slice(a, b, c) for a, b, c in zip(params["start_indices"], params["limit_indices"], st))]


@rule("rev")
def _rev(trace, ps, avals, out, params):
    p = ps[0]
    return p[tuple(slice(None, None, -1) if i in params["dimensions"] else slice(None) for i in range(p.ndim))]


@rule("concatenate")
def _concat(trace, ps, avals, out, params):
    return np.concatenate(ps, axis=params["dimension"])


@rule("pad")
def _pad(trace, ps, avals, out, params):
    p, v = ps
    cfg = params["padding_config"]
    res = fill(tuple(out.shape), v[()])
    src, dst = [], []
    for d, (lo, hi, it) in enumerate(cfg):
        n = p.shape[d]
        s, t = [], []
        for i in range(n):
            pos = lo + i * (it + 1)
            if 0 <= pos < out.shape[d]:
                s.append(i)
                t.append(pos)
        src.append(s)
        dst.append(t)
    if all(len(s) for s in src) or p.ndim == 0:
        res[np.ix_(*dst)] = p[np.ix_(*src)] if p.ndim else p[()]
    return res


@rule("iota")
def _iota(trace, ps, avals, out, params):
    raise Unsupported("iota")


@rule("dynamic_slice")
def _dslice(trace, ps, avals, out, params):
    p = ps[0]
    sz = params["slice_sizes"]
    ss = [s[()] for s in ps[1:]]
    combos = int(np.prod([p.shape[d] - sz[d] + 1 for d, s in enumerate(ss) if E.is_sym(s)] or [1]))

    def go(d, st):
        if d == len(ss):
            return p[tuple(slice(a, a + n) for a, n in zip(st, sz))]
        s, hi = ss[d], p.shape[d] - sz[d]
        if not E.is_sym(s) or combos > 64:
            return go(d + 1, st + [min(max(concretize_int(s), 0), hi)])
        res = _nd(go(d + 1, st + [0]))
        for v in range(1, hi + 1):
            nxt = _nd(go(d + 1, st + [v]))
            c = E.ge(s, v)
            new = np.empty(res.shape, dtype=object)
            for i in np.ndindex(*res.shape):
                new[i] = E.ite(c, nxt[i], res[i])
            res = new
        return res

    return go(0, [])


@rule("dynamic_update_slice")
def _dus(trace, ps, avals, out, params):
    p, u = ps[0].copy(), ps[1]
    st = []
    for d, s in enumerate(ps[2:]):
        st.append(min(max(concretize_int(s[()]), 0), p.shape[d] - u.shape[d]))
    p[tuple(slice(a, a + n) for a, n in zip(st, u.shape))] = u
    return p


def _ids(shape, start=0):
    n = int(np.prod(shape))
    return np.arange(start, start + n, dtype=np.int32).reshape(shape)


@rule("gather")
def _gather(trace, ps, avals, out, params):
    op, idx = ps
    prm = dict(params)
    prm["fill_value"] = -1
    dn = prm["dimension_numbers"]

    def run(ix):
        with jcore.eval_context():
            return np.asarray(lax.gather_p.bind(jnp.asarray(_ids(op.shape)), jnp.asarray(ix, dtype=jnp.int32), **prm))

    flat = op.reshape(-1)
    fillv = E.NAN if _kind(out.dtype) == "f" else (False if _kind(out.dtype) == "b" else -2**31)

    def take(o):
        res = np.empty(o.shape, dtype=object)
        r = res.reshape(-1)
        for i, v in enumerate(o.reshape(-1)):
            r[i] = flat[v] if v >= 0 else fillv
        return res

    if all_concrete(idx):
        return take(run(to_np(idx, np.int32)))
    K = idx.shape[-1]
    dims = [op.shape[d] - prm["slice_sizes"][d] + 1 for d in dn.start_index_map]
    if int(np.prod(dims)) > 256:
        ci = emap(lambda x: concretize_int(x), idx)
        return take(run(to_np(ci, np.int32)))
    bpos = [d for d in range(len(out.shape)) if d not in dn.offset_dims]
    clip = "clip" in str(prm["mode"]).lower() or "promise" in str(prm["mode"]).lower()
    res = None
    # start from the out-of-bounds value
    combos = list(itertools.product(*[range(d) for d in dims]))
    outs = {v: take(run(np.broadcast_to(np.array(v, dtype=np.int32), idx.shape))) for v in combos}
    res = np.empty(tuple(out.shape), dtype=object)
    for pos in np.ndindex(*out.shape):
        iv = idx[tuple(pos[d] for d in bpos)]
        if clip:
            iv = [E.emin(E.emax(x, 0), d - 1) for x, d in zip(iv, dims)]
            acc = outs[combos[-1]][pos]
            rest = combos[:-1]
        else:
            acc = fillv
            rest = combos
        if not clip:
            oob = E.b_any([E.b_or(E.lt(x, 0), E.gt(x, d - 1)) for x, d in zip(iv, dims)])
            last = outs[combos[-1]][pos]
            # prune: is the index provably in range?
            if PATH is not None and PATH.implied(E.b_not(oob)):
                acc = last
                rest = combos[:-1]
        for v in reversed(rest):
            c = E.b_all([E.eq(x, k) for x, k in zip(iv, v)])
            acc = E.ite(c, outs[v][pos], acc)
        res[pos] = acc
    return res


def _scatter_positions(prim_set, op, idx, upd, params):
    prm = dict(params)
    n = int(np.prod(op.shape))
    with jcore.eval_context():
        r = prim_set(jnp.asarray(_ids(op.shape)), jnp.asarray(idx, dtype=jnp.int32), jnp.asarray(_ids(upd.shape, n)), prm)
    return np.asarray(r)


@rule("scatter")
def _scatter(trace, ps, avals, out, params):
    op, idx, upd = ps
    ci = to_np(emap(concretize_int, idx), np.int32)
    n = int(np.prod(op.shape))

    def run(o, i, u, prm):
        return lax.scatter(o, i, u, prm["dimension_numbers"], indices_are_sorted=prm["indices_are_sorted"],
                           unique_indices=prm["unique_indices"], mode=prm["mode"])

    pos = _scatter_positions(run, op, ci, upd, params)
    src = np.concatenate([op.reshape(-1), upd.reshape(-1)])
    return src[pos]


@rule("scatter-add", "scatter_add")
def _scatter_add(trace, ps, avals, out, params):
    op, idx, upd = ps
    ci = to_np(emap(concretize_int, idx), np.int32)
    res = op.copy()
    m = int(np.prod(upd.shape))
    uf = upd.reshape(-1)
    with jcore.eval_context():
        for k in range(m):
            oh = np.zeros(m, np.int32)
            oh[k] = 1
            r = np.asarray(lax.scatter_add(jnp.zeros(op.shape, jnp.int32), jnp.asarray(ci), jnp.asarray(oh.reshape(upd.shape)),
                                           params["dimension_numbers"], indices_are_sorted=params["indices_are_sorted"],
                                           unique_indices=params["unique_indices"], mode=params["mode"]))
            for pos in np.argwhere(r):
                res[tuple(pos)] = _addf(res[tuple(pos)], uf[k])
    return res


@rule("split")
def _split(trace, ps, avals, out, params):
    offs = np.cumsum(params["sizes"])[:-1]
    return np.split(ps[0], offs, axis=params["axis"])


# =================================================================== linear algebra
@rule("cholesky")
def _chol(trace, ps, avals, out, params):
    p = ps[0]
    res = np.empty(p.shape, dtype=object)
    n = p.shape[-1]
    for ix in np.ndindex(*p.shape[:-2]):
        A = p[ix]
        L = fill((n, n), Fraction(0))
        for i in range(n):
            for j in range(i + 1):
                s = A[i, j]
                for k in range(j):
                    s = E.sub(s, E.mul(L[i, k], L[j, k]))
                L[i, j] = E.esqrt(s) if i == j else E.div(s, L[j, j])
        res[ix] = L
    return res


@rule("triangular_solve")
def _trsolve(trace, ps, avals, out, params):
    a, b = ps
    left, lower, ta, unit = params["left_side"], params["lower"], params["transpose_a"], params["unit_diagonal"]
    res = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(*b.shape[:-2]):
        A, B = a[ix], b[ix]
        low = lower
        if ta:
            A, low = A.T, not low
        if not left:  # X A = B  ->  A^T X^T = B^T
            A, B, low = A.T, B.T, not low
        n = A.shape[0]
        X = np.empty(B.shape, dtype=object)
        order = range(n) if low else range(n - 1, -1, -1)
        for c in range(B.shape[1]):
            for i in order:
                s = B[i, c]
                for k in (range(i) if low else range(i + 1, n)):
                    s = E.sub(s, E.mul(A[i, k], X[k, c]))
                X[i, c] = s if unit else E.div(s, A[i, i])
        res[ix] = X if left else X.T
    return res


_eig_n = [0]


@rule("eigh")
def _eigh(trace, ps, avals, out, params):
    """fresh orthonormal eigenvectors / eigenvalues constrained by A = Z diag(l) Z^T"""
    p = ps[0]
    n = p.shape[-1]
    ov = np.empty(p.shape, dtype=object)
    ow = np.empty(p.shape[:-1], dtype=object)
    for ix in np.ndindex(*p.shape[:-2]):
        _eig_n[0] += 1
        w = [E.z3.Real(f"eigw!{_eig_n[0]}_{i}") for i in range(n)]
        z = [[E.z3.Real(f"eigz!{_eig_n[0]}_{i}_{j}") for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(i, n):
                sym = E.zreal(p[ix][j, i])
                PATH.assume(sym == sum(w[k] * z[i][k] * z[j][k] for k in range(n)))
                PATH.assume(sum(z[k][i] * z[k][j] for k in range(n)) == (1 if i == j else 0))
        PATH.eig_subst.append((ix, w, z))
        for i in range(n):
            ow[ix + (i,)] = w[i]
            for j in range(n):
                ov[ix + (i, j)] = z[i][j]
    return [ov, ow]


@rule("erf_inv_")
def _dummy(*a):
    raise Unsupported("dummy")


@rule("random_bits", "random_wrap", "random_unwrap", "random_split", "random_fold_in", "threefry2x32")
def _rand(trace, ps, avals, out, params):
    raise Unsupported("random bits from symbolic keys")


for _n in ("random_bits", "random_wrap", "random_unwrap", "random_split", "random_fold_in", "threefry2x32", "iota", "erf_inv_"):
    RULES.pop(_n, None)


@rule("conv_general_dilated")
def _conv(trace, ps, avals, out, params):
    """convolution by linearity: the concrete convolution of index one-hots gives the pairing"""
    lhs, rhs = ps
    res = fill(tuple(out.shape), Fraction(0))
    with jcore.eval_context():
        for k, w in enumerate(rhs.reshape(-1)):
            oh = np.zeros(int(np.prod(rhs.shape)), np.float32)
            oh[k] = 1
            sel = np.asarray(lax.conv_general_dilated_p.bind(
                jnp.asarray(_ids(lhs.shape, 1).astype(np.float32)), jnp.asarray(oh.reshape(rhs.shape)), **params)).astype(int)
            for pos in np.argwhere(sel):
                pos = tuple(pos)
                res[pos] = E.add(res[pos], E.mul(lhs.reshape(-1)[sel[pos] - 1], w))
    return res


# =================================================================== top level
class SymMain:
    """context manager installing the symbolic trace"""

    def __enter__(self):
        self._cm = jcore.new_main(SymTrace)
        self.main = self._cm.__enter__()
        self.trace = self.main.with_cur_sublevel()
        return self.trace

    def __exit__(self, *a):
        # leak checks would trip over tracers kept by the harness; do not drop the main's reference
        return self._cm.__exit__(*a)
