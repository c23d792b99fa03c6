"""Scalar domain of the symbolic executor.

An element is one of
  * a Python bool / int / Fraction            (concrete, exact)
  * a Python float inf / -inf / nan           (concrete, non finite)
  * a z3 Bool / Int / Real term               (symbolic)
  * NF(val, flag): a real term which is not finite (nan or +-inf) whenever `flag` holds.
Floating point numbers are exact reals; a concrete float is read as the shortest decimal that
denotes it (so a float32 0.1 is 1/10).
"""
import math
import sys
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
import numpy as np  # noqa: E402

INF = float("inf")
NAN = float("nan")


class Unsupported(Exception):
    """The symbolic executor cannot encode something."""


class NF:
    __slots__ = ("val", "flag")

    def __init__(self, val, flag):
        self.val = val
        self.flag = flag

    def __repr__(self):
        return f"NF({self.val},{self.flag})"


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_sym(x):
    return isinstance(x, (z3.ExprRef, NF))


def from_float(x):
    """numpy/python float -> element."""
    if isinstance(x, (float, np.floating)):
        if np.isnan(x):
            return NAN
        if np.isinf(x):
            return INF if x > 0 else -INF
    if type(x) is float:
        fr = Fraction(repr(x))
    else:
        fr = Fraction(str(x))
    return fr


def to_elem(x, kind):
    """concrete python/numpy scalar -> element of kind b/i/f"""
    if is_sym(x):
        return x
    if kind == "b":
        return bool(x)
    if kind == "i":
        return int(x)
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    return from_float(x)


def isnonfinite(x):
    return type(x) is float


def zreal(x):
    """element (no NF) -> z3 real term"""
    if isinstance(x, z3.ExprRef):
        if z3.is_int(x):
            return z3.ToReal(x)
        if z3.is_bool(x):
            return z3.If(x, z3.RealVal(1), z3.RealVal(0))
        return x
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    raise Unsupported(f"zreal({x!r})")


def zint(x):
    if isinstance(x, z3.ExprRef):
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction) and x.denominator == 1:
        return z3.IntVal(x.numerator)
    raise Unsupported(f"zint({x!r})")


def zbool(x):
    if isinstance(x, z3.ExprRef):
        if z3.is_bool(x):
            return x
        return x != 0
    return z3.BoolVal(bool(x))


def _z(x, y):
    """coerce a pair to common sort z3 terms"""
    if is_z3(x) and z3.is_bool(x) and (not is_z3(y) and isinstance(y, bool) or is_z3(y) and z3.is_bool(y)):
        return zbool(x), zbool(y)
    if is_z3(y) and z3.is_bool(y) and isinstance(x, bool):
        return zbool(x), zbool(y)
    isint = lambda t: (is_z3(t) and (z3.is_int(t) or z3.is_bool(t))) or isinstance(t, (bool, int)) and not isinstance(t, Fraction)
    if isint(x) and isint(y):
        return zint(x), zint(y)
    return zreal(x), zreal(y)


# ---------------------------------------------------------------- booleans
def b_not(x):
    if is_z3(x):
        if z3.is_not(x):
            return x.arg(0)
        return z3.Not(x)
    return not x


def b_and(x, y):
    if not is_z3(x):
        return y if x else False
    if not is_z3(y):
        return x if y else False
    if x.eq(y):
        return x
    return z3.And(x, y)


def b_or(x, y):
    if not is_z3(x):
        return True if x else y
    if not is_z3(y):
        return True if y else x
    if x.eq(y):
        return x
    return z3.Or(x, y)


def b_xor(x, y):
    if not is_z3(x):
        return b_not(y) if x else y
    if not is_z3(y):
        return b_not(x) if y else x
    return z3.Xor(x, y)


def b_all(xs):
    r = True
    for x in xs:
        r = b_and(r, x)
    return r


def b_any(xs):
    r = False
    for x in xs:
        r = b_or(r, x)
    return r


def split_nf(x):
    if isinstance(x, NF):
        return x.val, x.flag
    return x, False


def mk_nf(val, flag):
    if flag is False:
        return val
    if flag is True:
        return NAN
    if isinstance(val, NF):
        return NF(val.val, b_or(val.flag, flag))
    if isnonfinite(val):
        return val
    return NF(val, flag)


# ---------------------------------------------------------------- arithmetic
def _lift2(f):
    """binary arithmetic op over finite elements -> op with NF propagation"""

    def g(x, y):
        if isinstance(x, NF) or isinstance(y, NF):
            xv, xf = split_nf(x)
            yv, yf = split_nf(y)
            return mk_nf(f(xv, yv), b_or(xf, yf))
        return f(x, y)

    return g


def _sgn_inf(x):
    return 1 if x > 0 else -1


@_lift2
def add(x, y):
    if isnonfinite(x) or isnonfinite(y):
        if isnonfinite(x) and isnonfinite(y):
            return x + y
        return x if isnonfinite(x) else y
    if not is_z3(x) and not is_z3(y):
        return x + y
    if not is_z3(x) and x == 0:
        return y if not (isinstance(x, Fraction) and z3.is_int(y)) else zreal(y)
    if not is_z3(y) and y == 0:
        return x if not (isinstance(y, Fraction) and z3.is_int(x)) else zreal(x)
    a, b = _z(x, y)
    if z3.is_bool(a):
        a, b = zint(a), zint(b)
    return a + b


@_lift2
def sub(x, y):
    if isnonfinite(x) or isnonfinite(y):
        if isnonfinite(x) and isnonfinite(y):
            return x - y
        return x if isnonfinite(x) else -y
    if not is_z3(x) and not is_z3(y):
        return x - y
    if not is_z3(y) and y == 0:
        return x
    a, b = _z(x, y)
    if z3.is_bool(a):
        a, b = zint(a), zint(b)
    if is_z3(x) and is_z3(y) and a.eq(b):
        return Fraction(0) if z3.is_real(a) else 0
    return a - b


def neg(x):
    if isinstance(x, NF):
        return NF(neg(x.val), x.flag)
    if is_z3(x) and z3.is_bool(x):
        x = zint(x)
    return -x


@_lift2
def mul(x, y):
    if isnonfinite(x) or isnonfinite(y):
        if is_z3(x) or is_z3(y):
            s = x if is_z3(x) else y
            o = y if is_z3(x) else x
            if math.isnan(o):
                return NAN
            return NAN  # sign dependent infinity: treated as non finite
        return float(x) * float(y)
    if not is_z3(x) and not is_z3(y):
        return x * y
    if not is_z3(x):
        if x == 0:
            return Fraction(0) if (isinstance(x, Fraction) or z3.is_real(y)) else 0
        if x == 1:
            return y if not (isinstance(x, Fraction) and not z3.is_real(y)) else zreal(y)
    if not is_z3(y):
        if y == 0:
            return Fraction(0) if (isinstance(y, Fraction) or z3.is_real(x)) else 0
        if y == 1:
            return x if not (isinstance(y, Fraction) and not z3.is_real(x)) else zreal(x)
    # 0/1 indicators: keep the product linear
    bx, by = _as_indicator(x), _as_indicator(y)
    if bx is not None and by is not None:
        r = z3.If(z3.And(bx, by), 1, 0)
        return r if (_isint(x) and _isint(y)) else z3.If(z3.And(bx, by), z3.RealVal(1), z3.RealVal(0))
    if bx is not None:
        return ite(bx, y if is_z3(y) else y, Fraction(0) if not _isint(y) else 0) if _isint(y) == _isint(x) else ite(bx, zreal(y), Fraction(0))
    if by is not None:
        return ite(by, x, Fraction(0) if not _isint(x) else 0) if _isint(y) == _isint(x) else ite(by, zreal(x), Fraction(0))
    a, b = _z(x, y)
    if z3.is_bool(a):
        return z3.If(z3.And(a, b), 1, 0)
    return a * b


def _isint(x):
    if is_z3(x):
        return z3.is_int(x) or z3.is_bool(x)
    return isinstance(x, (bool, int))


def _as_indicator(x):
    if not is_z3(x):
        return None
    if z3.is_bool(x):
        return x
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return _as_indicator(x.arg(0))
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        t, e = x.arg(1), x.arg(2)
        if _numval(t) == 1 and _numval(e) == 0:
            return x.arg(0)
    return None


def _numval(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return t.as_fraction()
    return None


def div(x, y):
    """real division"""
    if isinstance(x, NF) or isinstance(y, NF):
        xv, xf = split_nf(x)
        yv, yf = split_nf(y)
        return mk_nf(div(xv, yv), b_or(xf, yf))
    if isnonfinite(y):
        return Fraction(0) if math.isinf(y) and not isnonfinite(x) else NAN
    if isnonfinite(x):
        return NAN if math.isnan(x) or is_z3(y) else (x if y >= 0 else -x)
    if not is_z3(y):
        if y == 0:
            if not is_z3(x) and x != 0:
                return INF if x > 0 else -INF
            return NAN
        if not is_z3(x):
            return Fraction(x) / Fraction(y)
        return mul(zreal(x), 1 / Fraction(y))
    a, b = zreal(x), zreal(y)
    if _has_exp(b):
        n = _div_exp(x, a, b)
        if n is not None:
            return n
    if is_z3(x) and a.eq(b):
        q = Fraction(1)
    elif not is_z3(x) and x == 0:
        q = Fraction(0)
    else:
        q = a / b
    z = known_nonzero(b)
    if z:
        return q
    return NF(q, b == 0)


def _div_exp(x, a, b):
    """quotient of sums of exponentials: rescaled by a common factor so that equal quotients meet"""
    eb = exp_sum(b)
    if not eb:
        return None
    if len(eb) == 1 and _numval(eb[0][1]) == 0:
        return None
    ea = exp_sum(a)
    if ea is None:
        return None
    piv = exp_pivot(eb)
    if len(eb) == 1:
        n = exp_unsum(ea, piv)
        return div(n, _py(eb[0][0]))
    if _numval(piv) == 0:
        return None
    return div(exp_unsum(ea, piv), exp_unsum(eb, piv))


_pos_cache = {}


def known_nonzero(t):
    s = sign_of(t)
    return s in ("+", "-")


def sign_of(t, depth=0):
    """cheap syntactic sign: '+', '-', '0+', '0-', None"""
    if not is_z3(t):
        if isinstance(t, NF) or isnonfinite(t):
            return None
        return "+" if t > 0 else "-" if t < 0 else "0"
    key = t.get_id()
    hit = _pos_cache.get(key)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    r = _sign_of(t, depth)
    _pos_cache[key] = (t, r)
    return r


def _sign_of(t, depth):
    if depth > 60:
        return None
    v = _numval(t)
    if v is not None:
        return "+" if v > 0 else "-" if v < 0 else "0"
    k = t.decl().kind()
    name = t.decl().name()
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and name == "exp":
        return "+"
    if k == z3.Z3_OP_UNINTERPRETED and name.startswith("sqrt!"):
        return "0+"
    if name in POSVARS:
        return POSVARS[name]
    if k == z3.Z3_OP_ADD:
        ss = {sign_of(c, depth + 1) for c in t.children()}
        if None in ss:
            return None
        if ss <= {"+", "0+", "0"}:
            return "+" if "+" in ss else ("0+" if "0+" in ss else "0")
        if ss <= {"-", "0-", "0"}:
            return "-" if "-" in ss else ("0-" if "0-" in ss else "0")
        return None
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        ch = t.children()
        ss = [sign_of(c, depth + 1) for c in ch]
        if k == z3.Z3_OP_MUL and len(ch) == 2 and ch[0].eq(ch[1]):
            return "+" if ss[0] in ("+", "-") else "0+"
        if None in ss:
            return None
        s, strict = 1, True
        for x in ss:
            if x == "0":
                return "0"
            if x.endswith("-") :
                s = -s
            if x.startswith("0"):
                strict = False
        return ("" if strict else "0") + ("+" if s > 0 else "-")
    if k == z3.Z3_OP_UMINUS:
        s = sign_of(t.arg(0), depth + 1)
        return {"+": "-", "-": "+", "0+": "0-", "0-": "0+", "0": "0"}.get(s)
    if k == z3.Z3_OP_ITE:
        a, b = sign_of(t.arg(1), depth + 1), sign_of(t.arg(2), depth + 1)
        if a is None or b is None:
            return None
        if a == b:
            return a
        if {a, b} <= {"+", "0+", "0"}:
            return "0+"
        if {a, b} <= {"-", "0-", "0"}:
            return "0-"
        return None
    if k == z3.Z3_OP_TO_REAL:
        return sign_of(t.arg(0), depth + 1)
    return None


POSVARS = {}  # names of fresh variables with a declared sign


# ---------------------------------------------------------------- comparisons
def _cmp(op, x, y):
    """op in lt le eq ; nan compares false"""
    if isinstance(x, NF) or isinstance(y, NF):
        xv, xf = split_nf(x)
        yv, yf = split_nf(y)
        return b_and(b_not(b_or(xf, yf)), _cmp(op, xv, yv))
    if isnonfinite(x) or isnonfinite(y):
        if isnonfinite(x) and math.isnan(x) or isnonfinite(y) and math.isnan(y):
            return False
        fx = x if isnonfinite(x) else 0.0
        fy = y if isnonfinite(y) else 0.0
        return {"lt": fx < fy, "le": fx <= fy, "eq": fx == fy}[op]
    if not is_z3(x) and not is_z3(y):
        return {"lt": x < y, "le": x <= y, "eq": x == y}[op]
    a, b = _z(x, y)
    if a.eq(b):
        return op != "lt"
    if op == "eq":
        if z3.is_bool(a):
            if not is_z3(x):
                return b if x else b_not(b)
            if not is_z3(y):
                return a if y else b_not(a)
        ia, ib = _as_indicator(a), _as_indicator(b)
        if ia is not None and not is_z3(y) and not z3.is_bool(a):
            return ia if y == 1 else b_not(ia) if y == 0 else False
        if ib is not None and not is_z3(x) and not z3.is_bool(b):
            return ib if x == 1 else b_not(ib) if x == 0 else False
        return a == b
    if z3.is_bool(a):
        a, b = zint(a), zint(b)
    # indicator vs constant: stay propositional
    ia, ib = _as_indicator(a), _as_indicator(b)
    if ia is not None and not is_z3(y):
        t, f = (1 < y if op == "lt" else 1 <= y), (0 < y if op == "lt" else 0 <= y)
        return True if t and f else False if not t and not f else ia if t else b_not(ia)
    if ib is not None and not is_z3(x):
        t, f = (x < 1 if op == "lt" else x <= 1), (x < 0 if op == "lt" else x <= 0)
        return True if t and f else False if not t and not f else ib if t else b_not(ib)
    return a < b if op == "lt" else a <= b


def lt(x, y):
    return _cmp("lt", x, y)


def le(x, y):
    return _cmp("le", x, y)


def gt(x, y):
    return _cmp("lt", y, x)


def ge(x, y):
    return _cmp("le", y, x)


def eq(x, y):
    return _cmp("eq", x, y)


def ne(x, y):
    return b_not(_cmp("eq", x, y))


# ---------------------------------------------------------------- ite / min / max
DECIDE = None      # optional oracle: condition -> True / False / None under the current path condition


def ite(c, x, y):
    if not is_z3(c):
        return x if c else y
    if DECIDE is not None:
        d = DECIDE(c)
        if d is not None:
            return x if d else y
    if isinstance(x, NF) or isinstance(y, NF) or isnonfinite(x) or isnonfinite(y):
        if isnonfinite(x) and isnonfinite(y) and (x == y or math.isnan(x) and math.isnan(y)):
            return x
        xv, xf = (Fraction(0), True) if isnonfinite(x) else split_nf(x)
        yv, yf = (Fraction(0), True) if isnonfinite(y) else split_nf(y)
        v = xv if xf is True else None
        # value under a raised flag is irrelevant
        if xf is True:
            val = yv
        elif yf is True:
            val = xv
        else:
            val = ite(c, xv, yv)
        fl = b_or(b_and(c, xf), b_and(b_not(c), yf))
        return mk_nf(val, fl)
    if not is_z3(x) and not is_z3(y):
        if isinstance(x, bool) and isinstance(y, bool):
            return x if x == y else (c if x else b_not(c))
        if x == y:
            return x
    if is_z3(x) and is_z3(y) and x.eq(y):
        return x
    if (isinstance(x, bool) or is_z3(x) and z3.is_bool(x)) and (isinstance(y, bool) or is_z3(y) and z3.is_bool(y)):
        return b_or(b_and(c, x), b_and(b_not(c), y))
    a, b = _z(x, y)
    return z3.If(c, a, b)


def emax(x, y):
    if isnonfinite(x):
        return x if math.isnan(x) or x > 0 else y
    if isnonfinite(y):
        return y if math.isnan(y) or y > 0 else x
    if isinstance(x, NF) or isinstance(y, NF):
        xv, xf = split_nf(x)
        yv, yf = split_nf(y)
        return mk_nf(emax(xv, yv), b_or(xf, yf))
    return ite(le(y, x), x, y)


def emin(x, y):
    if isnonfinite(x):
        return x if math.isnan(x) or x < 0 else y
    if isnonfinite(y):
        return y if math.isnan(y) or y < 0 else x
    if isinstance(x, NF) or isinstance(y, NF):
        xv, xf = split_nf(x)
        yv, yf = split_nf(y)
        return mk_nf(emin(xv, yv), b_or(xf, yf))
    return ite(le(x, y), x, y)


def eabs(x):
    if isinstance(x, NF):
        return NF(eabs(x.val), x.flag)
    if not is_z3(x):
        return abs(x)
    s = sign_of(x)
    if s in ("+", "0+"):
        return x
    return z3.If(x >= 0, x, -x)


def esign(x):
    if isinstance(x, NF):
        return NF(esign(x.val), x.flag)
    if not is_z3(x):
        if isnonfinite(x):
            return NAN if math.isnan(x) else Fraction(1 if x > 0 else -1)
        return type(x)((x > 0) - (x < 0))
    if z3.is_int(x):
        return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))
    return z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))


def efloor_int(x):
    if isinstance(x, NF):
        x = x.val
    if not is_z3(x):
        return math.floor(x)
    if z3.is_int(x):
        return x
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    return z3.ToInt(x)


def efloor(x):
    if isinstance(x, NF):
        return NF(efloor(x.val), x.flag)
    if isnonfinite(x):
        return x
    r = efloor_int(x)
    return Fraction(r) if not is_z3(r) else z3.ToReal(r)


def eceil(x):
    return neg(efloor(neg(x)))


def etrunc_int(x):
    """float -> int conversion (truncation)"""
    if isinstance(x, NF):
        x = x.val
    if isnonfinite(x):
        raise Unsupported("conversion of a non finite number to int")
    if not is_z3(x):
        return math.trunc(x)
    if z3.is_int(x):
        return x
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def eround(x, half_even=True):
    if isinstance(x, NF):
        return NF(eround(x.val, half_even), x.flag)
    if isnonfinite(x):
        return x
    if not is_z3(x):
        if half_even:
            return Fraction(round(x))
        return Fraction(math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1))
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    h = z3.Q(1, 2)
    if half_even:
        up = z3.Or(d > h, z3.And(d == h, f % 2 == 1))
    else:
        up = z3.Or(d > h, z3.And(d == h, x >= 0))
    return z3.ToReal(z3.If(up, f + 1, f))


def int_div(x, y, trunc=True):
    if not is_z3(x) and not is_z3(y):
        if y == 0:
            return -1
        q = abs(x) // abs(y)
        if not trunc:
            return x // y
        return q if (x >= 0) == (y >= 0) else -q
    a, b = zint(x), zint(y)
    # z3 int division: a = b*q + r, 0<=r<|b| (euclidean)
    q = a / b
    if trunc:
        return z3.If(z3.Or(a >= 0, a % b == 0), q, z3.If(b > 0, q + 1, q - 1))
    return z3.If(z3.Or(b > 0, a % b == 0), q, q - 1)


def int_rem(x, y):
    """lax.rem: sign of dividend"""
    if not is_z3(x) and not is_z3(y):
        if y == 0:
            return x
        return int(math.fmod(x, y)) if abs(x) < 2**52 else x - y * int_div(x, y)
    a, b = zint(x), zint(y)
    m = a % b
    if sign_of(a) in ("+", "0+", "0"):
        return m
    return z3.If(z3.Or(a >= 0, m == 0), m, m - z3.If(b > 0, b, -b))


def real_rem(x, y):
    if not is_z3(x) and not is_z3(y):
        if isnonfinite(x) or y == 0:
            return NAN
        return x - y * math.trunc(x / y)
    q = div(x, y)
    return sub(x, mul(y, z3.ToReal(zint(etrunc_int(q)))))


# ---------------------------------------------------------------- transcendental functions
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
UF = {}


def uf(name, arity=1):
    if (name, arity) not in UF:
        UF[(name, arity)] = z3.Function(name, *([z3.RealSort()] * (arity + 1)))
    return UF[(name, arity)]


class Axioms:
    """applications of non algebraic functions met on the current path"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.apps = {}      # name -> list of (arg, app)
        self.defs = []      # definitional constraints (sqrt)
        self.sqrt_cache = {}
        self.n = 0
        self.base_cache = {}
        self.log_args = []
        self.bounded = []

    def record(self, name, arg, app):
        lst = self.apps.setdefault(name, [])
        for a, p in lst:
            if a.eq(arg):
                return p
        lst.append((arg, app))
        return app


AX = Axioms()


def simp(t):
    if not is_z3(t):
        return t
    s = z3.simplify(t, som=False)
    return s


def _lower(t):
    v = _numval(t)
    return v


def canon(t):
    """canonical polynomial form used as key for function arguments"""
    return z3.simplify(t, som=True, sort_sums=True)


def eexp(x):
    if isinstance(x, NF):
        return mk_nf(eexp(x.val), x.flag)
    if isnonfinite(x):
        return NAN if math.isnan(x) else (INF if x > 0 else Fraction(0))
    if not is_z3(x):
        if x == 0:
            return Fraction(1)
        t = zreal(x)
    else:
        t = canon(zreal(x))
        v = _numval(t)
        if v is not None:
            if v == 0:
                return Fraction(1)
            t = zreal(Fraction(v))
        # exp(a + log u - log v) = exp(a) u / v   (log is only ever applied to positive arguments: other
        # arguments carry a not-finite flag)
        parts = t.children() if z3.is_app_of(t, z3.Z3_OP_ADD) else [t]
        rest, fac = [], None
        for c in parts:
            neg_, u = _log_arg(c)
            if u is None:
                rest.append(c)
            else:
                f = u if not neg_ else z3.RealVal(1) / u
                fac = f if fac is None else fac * f
        if fac is not None:
            if not rest:
                return fac
            r = eexp(z3.Sum(rest) if len(rest) > 1 else rest[0])
            return mul(r, fac)
    return AX.record("exp", t, EXP(t))


def _log_arg(c):
    """(negated, u) when c is log(u) or -log(u)"""
    if z3.is_app_of(c, z3.Z3_OP_UNINTERPRETED) and c.num_args() == 1 and c.decl().name() == "log":
        return False, c.arg(0)
    if z3.is_app_of(c, z3.Z3_OP_MUL) and c.num_args() == 2 and _numval(c.arg(0)) == -1:
        n, u = _log_arg(c.arg(1))
        if u is not None:
            return not n, u
    return False, None


def _has_exp(t, seen=None):
    key = t.get_id()
    hit = _hasexp_cache.get(key)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    r = (t.num_args() == 1 and t.decl().name() == "exp" and t.decl().kind() == z3.Z3_OP_UNINTERPRETED) or any(_has_exp(c) for c in t.children())
    _hasexp_cache[key] = (t, r)
    return r


_hasexp_cache = {}


def exp_sum(t, limit=24):
    """t as a list of (coefficient, argument) with t = sum coefficient * exp(argument), coefficients free of exp at the top level; None when
    t is not of that form"""
    out = {}

    def product(u):
        """(coef, arg) of a product"""
        if z3.is_app_of(u, z3.Z3_OP_UNINTERPRETED) and u.num_args() == 1 and u.decl().name() == "exp":
            return None, u.arg(0)
        if z3.is_app_of(u, z3.Z3_OP_UMINUS):
            r = product(u.arg(0))
            return None if r is None else (-(r[0] if r[0] is not None else z3.RealVal(1)), r[1])
        if z3.is_app_of(u, z3.Z3_OP_MUL):
            co, ar = None, None
            for c in u.children():
                r = product(c)
                if r is None:
                    return None
                if r[0] is not None:
                    co = r[0] if co is None else co * r[0]
                if r[1] is not None:
                    ar = r[1] if ar is None else ar + r[1]
            return co, ar
        if _has_exp(u):
            return None
        return u, None

    def walk(u):
        if z3.is_app_of(u, z3.Z3_OP_ADD):
            return all(walk(c) for c in u.children())
        if z3.is_app_of(u, z3.Z3_OP_SUB) and u.num_args() == 2 and _has_exp(u):
            return walk(u.arg(0)) and walk(-u.arg(1))
        r = product(u)
        if r is None or len(out) > limit:
            return False
        co, ar = r
        ar = canon(ar) if ar is not None else z3.RealVal(0)
        co = co if co is not None else z3.RealVal(1)
        k = ar.sexpr()
        if k in out:
            out[k] = (canon(out[k][0] + co), ar)
        else:
            out[k] = (canon(co), ar)
        return True

    if not walk(t):
        return None
    return [(c, a) for c, a in out.values() if _numval(c) != 0]


def exp_pivot(terms):
    """a member argument chosen independently of a common shift of the arguments"""
    best = None
    for i, (ci, ai) in enumerate(terms):
        key = sorted((canon(aj - ai).sexpr(), cj.sexpr()) for cj, aj in terms)
        if best is None or key < best[0]:
            best = (key, ai)
    return best[1]


def exp_unsum(terms, shift):
    r = Fraction(0)
    for c, a in sorted(terms, key=lambda x: canon(x[1] - shift).sexpr()):
        r = add(r, mul(_py(c), eexp(_py(canon(a - shift)))))
    return r


def elog(x):
    if isinstance(x, NF):
        return mk_nf(elog(x.val), x.flag)
    if isnonfinite(x):
        return x if x > 0 else NAN
    if not is_z3(x):
        if x == 1:
            return Fraction(0)
        if x == 0:
            return -INF
        if x < 0:
            return NAN
        t = zreal(x)
        return AX.record("log", t, LOG(t))
    t = zreal(x)
    if z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED) and t.decl().name() == "exp" and t.num_args() == 1:
        return t.arg(0)
    s = sign_of(t)
    if s == "+":
        if z3.is_app_of(t, z3.Z3_OP_DIV) and sign_of(t.arg(0)) == "+" and sign_of(t.arg(1)) == "+":
            return sub(elog(_py(t.arg(0))), elog(_py(t.arg(1))))
        if z3.is_app_of(t, z3.Z3_OP_MUL) and all(sign_of(c) == "+" for c in t.children()):
            r = Fraction(0)
            for c in t.children():
                r = add(r, elog(_py(c)))
            return r
    t2 = z3.simplify(t)
    v = _numval(t2)
    if v is not None:
        return elog(Fraction(v))
    if t2.num_args() == 1 and t2.decl().name() == "exp":
        return t2.arg(0)
    if _has_exp(t2) and s == "+":
        es = exp_sum(t2)
        if es:
            piv = exp_pivot(es)
            if len(es) == 1 and _numval(es[0][0]) is not None and _numval(es[0][0]) > 0:
                return add(_py(piv), elog(Fraction(_numval(es[0][0]))))
            if _numval(piv) != 0:
                return add(_py(piv), elog(exp_unsum(es, piv)))
    app = AX.record("log", t2, LOG(t2))
    if s == "+":
        return app
    return NF(app, t2 <= 0)


def _py(t):
    v = _numval(t)
    return t if v is None else Fraction(v)


def esqrt(x):
    if isinstance(x, NF):
        return mk_nf(esqrt(x.val), x.flag)
    if isnonfinite(x):
        return x if x > 0 else NAN
    if not is_z3(x):
        if x < 0:
            return NAN
        fr = Fraction(x)
        n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
        if n * n == fr.numerator and d * d == fr.denominator:
            return Fraction(n, d)
        t = zreal(fr)
        s = "+"
    else:
        t = zreal(x)
        s = sign_of(t)
        t = canon(t)
        v = _numval(t)
        if v is not None:
            return esqrt(Fraction(v))
    for a, p in AX.apps.get("sqrt", []):
        if a.eq(t):
            return p if s in ("+", "0+", "0") else NF(p, t < 0)
    AX.n += 1
    r = z3.Real(f"sqrt!{AX.n}")
    POSVARS[f"sqrt!{AX.n}"] = "+" if s == "+" else "0+"
    AX.apps.setdefault("sqrt", []).append((t, r))
    AX.defs.append(z3.And(r >= 0, z3.Implies(t >= 0, r * r == t)))
    if s == "+":
        AX.defs.append(r > 0)
    if s in ("+", "0+", "0"):
        return r
    return NF(r, t < 0)


def euf(name, x, nf=False):
    """uninterpreted unary function (congruence + the axioms in axioms_for)"""
    if isinstance(x, NF):
        return mk_nf(euf(name, x.val), x.flag)
    if isnonfinite(x):
        if name == "tanh" or name == "erf":
            return NAN if math.isnan(x) else Fraction(1 if x > 0 else -1)
        if name == "logistic":
            return NAN if math.isnan(x) else Fraction(1 if x > 0 else 0)
        return NAN
    if not is_z3(x) and x == 0 and name in ("tanh", "erf", "sin", "erf_inv", "atan"):
        return Fraction(0)
    if not is_z3(x) and x == 0 and name == "cos":
        return Fraction(1)
    t = canon(zreal(x)) if is_z3(x) else zreal(x)
    return AX.record(name, t, uf(name)(t))


def einteger_pow(x, n):
    if n == 0:
        return Fraction(1)
    if n < 0:
        return div(Fraction(1), einteger_pow(x, -n))
    if isinstance(x, NF):
        return mk_nf(einteger_pow(x.val, n), x.flag)
    r = x
    for _ in range(n - 1):
        r = mul(r, x)
    return r


def epow(x, y):
    if not is_sym(y) and not isnonfinite(y):
        fy = Fraction(y)
        if fy.denominator == 1 and abs(fy) <= 8:
            return einteger_pow(x, int(fy))
        if fy == Fraction(1, 2):
            return esqrt(x)
        if fy == Fraction(-1, 2):
            return div(Fraction(1), esqrt(x))
        if not is_sym(x) and not isnonfinite(x):
            f = float(x) ** float(y)
            return from_float(f) if not isinstance(f, complex) else NAN
    if isnonfinite(x) or isnonfinite(y):
        return NAN
    if not is_sym(x) and x == 0:
        # 0**y : 1 if y==0, 0 if y>0, inf otherwise
        yv, yf = split_nf(y)
        return mk_nf(ite(eq(yv, Fraction(0)), Fraction(1), Fraction(0)), b_or(yf, lt(yv, Fraction(0))))
    xv, xf = split_nf(x)
    yv, yf = split_nf(y)
    t = mul(yv, split_nf(elog(xv))[0])
    e = eexp(t)
    s = sign_of(xv)
    if s != "+":
        # x==0 -> 0 for y>0, 1 for y==0
        e = ite(eq(xv, Fraction(0)), ite(eq(yv, Fraction(0)), Fraction(1), Fraction(0)), e)
        e = mk_nf(e, b_or(lt(xv, Fraction(0)), b_and(eq(xv, Fraction(0)), lt(yv, Fraction(0)))))
    return mk_nf(e, b_or(xf, yf))


MONO = {"exp", "log", "tanh", "erf", "erf_inv", "logistic", "ndtri", "atan"}


def numeric(name, v):
    v = float(v)
    try:
        if name == "exp":
            return math.exp(v)
        if name == "log":
            return math.log(v) if v > 0 else None
        if name == "cos":
            return math.cos(v)
        if name == "sin":
            return math.sin(v)
        if name == "tanh":
            return math.tanh(v)
        if name == "erf":
            return math.erf(v)
        if name == "logistic":
            return 1 / (1 + math.exp(-v))
        if name == "lgamma":
            return math.lgamma(v)
        if name == "erf_inv":
            from scipy.special import erfinv

            return float(erfinv(v))
        if name == "digamma":
            from scipy.special import digamma

            return float(digamma(v))
    except (OverflowError, ValueError):
        return None
    return None


def _q(f):
    return zreal(Fraction(f).limit_denominator(10**12))


def axioms(level=1):
    """instantiated axioms for the recorded applications.
    level 1: sign, monotonicity, numeric brackets for concrete arguments, tangent at 0
    level 2: + product/sum rules of exp and log"""
    out = list(AX.defs)
    zero, one = z3.RealVal(0), z3.RealVal(1)
    for name, lst in AX.apps.items():
        if name == "sqrt":
            for i in range(len(lst)):
                for j in range(i):
                    a, p = lst[i]
                    b, q = lst[j]
                    out.append(z3.Implies(z3.And(a >= 0, b >= 0), z3.And((a < b) == (p < q), (a == b) == (p == q))))
            continue
        for a, p in lst:
            if name == "exp":
                out += [p > 0, p >= 1 + a, (a > 0) == (p > 1), (a < 0) == (p < 1)]
            elif name == "log":
                out += [z3.Implies(a > 0, z3.And(p <= a - 1, (a > 1) == (p > 0), (a < 1) == (p < 0),
                                                p * a >= a - 1))]
            elif name in ("cos", "sin"):
                out += [p >= -1, p <= 1]
            elif name in ("tanh", "erf"):
                out += [p > -1, p < 1, (a > 0) == (p > 0), (a < 0) == (p < 0)]
            elif name == "logistic":
                out += [p > 0, p < 1, (a > 0) == (2 * p > 1), (a < 0) == (2 * p < 1)]
            elif name == "erf_inv":
                out += [(a > 0) == (p > 0), (a < 0) == (p < 0)]
            elif name == "atan":
                out += [(a > 0) == (p > 0), (a < 0) == (p < 0), p < zreal(Fraction(16, 10)), p > zreal(Fraction(-16, 10))]
            v = _numval(a)
            if v is not None:
                f = numeric(name, v)
                if f is not None:
                    eps = max(1e-9, abs(f) * 1e-9)
                    out += [p >= _q(f - eps), p <= _q(f + eps)]
        if name in MONO:
            for i in range(len(lst)):
                for j in range(i):
                    a, p = lst[i]
                    b, q = lst[j]
                    ax = z3.And((a < b) == (p < q), (b < a) == (q < p))
                    if name == "log":
                        ax = z3.Implies(z3.And(a > 0, b > 0), ax)
                    out.append(ax)
    # odd functions
    for name in ("tanh", "erf", "erf_inv", "sin", "atan"):
        lst = AX.apps.get(name, [])
        for i in range(len(lst)):
            for j in range(i):
                if _is_zero(lst[i][0] + lst[j][0]):
                    out.append(lst[i][1] == -lst[j][1])
    lst = AX.apps.get("logistic", [])
    for i in range(len(lst)):
        for j in range(i):
            if _is_zero(lst[i][0] + lst[j][0]):
                out.append(lst[i][1] + lst[j][1] == 1)
    for i, (a, p) in enumerate(AX.apps.get("cos", [])):
        for b, q in AX.apps["cos"][:i]:
            if _is_zero(a + b):
                out.append(p == q)
            # decreasing on [0, pi] (the tolerance covers the float32 value of pi)
            hi, tiny = zreal(Fraction(31416, 10000)), zreal(Fraction(1, 10**10))
            out.append(z3.Implies(z3.And(a >= 0, b >= a, b <= hi), q <= p + tiny))
            out.append(z3.Implies(z3.And(b >= 0, a >= b, a <= hi), p <= q + tiny))
    if level >= 2:
        out += product_axioms()
    return out


def _is_zero(t):
    s = z3.simplify(t, som=True)
    return _numval(s) == 0


def product_axioms(limit=14):
    out = []
    E = AX.apps.get("exp", [])[:limit]
    n = len(E)
    for i in range(n):
        for j in range(i, n):
            a, p = E[i]
            b, q = E[j]
            if _is_zero(a + b):
                out.append(p * q == 1)
                continue
            for k in range(n):
                if k in (i, j):
                    continue
                c, r = E[k]
                if _is_zero(a + b - c):
                    out.append(r == p * q)
    L = AX.apps.get("log", [])[:limit]
    n = len(L)
    for i in range(n):
        for j in range(i, n):
            a, p = L[i]
            b, q = L[j]
            out_added = False
            prod = z3.simplify(a * b, som=True)
            if _numval(prod) == 1:
                out.append(z3.Implies(z3.And(a > 0, b > 0), p + q == 0))
                continue
            for k in range(n):
                c, r = L[k]
                if _is_zero(a * b - c):
                    out.append(z3.Implies(z3.And(a > 0, b > 0), r == p + q))
    # exp/log inverse links
    for a, p in AX.apps.get("exp", []):
        for b, q in AX.apps.get("log", []):
            out.append(z3.Implies(b > 0, z3.And((a == q) == (p == b), (a < q) == (p < b))))
    return out
