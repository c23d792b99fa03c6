"""Path exploration, obligations, solver portfolio, replay."""
import contextlib
import itertools
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import elem as E
from .elem import Unsupported, z3

import jax
import jax.numpy as jnp
from jax import core

from . import npshim
from . import trace as T

TOL = 1e-3


_MISSING = object()


class AssumeFailed(Exception):
    pass


class PathAbort(BaseException):
    """the current path is infeasible"""


class Budget(BaseException):
    pass


class Violated(Exception):
    def __init__(self, info):
        self.info = info


class V:
    """symbolic scalar of the property language"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def un(x):
        if isinstance(x, V):
            return x.e
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        if isinstance(x, (int, np.integer)):
            return int(x)
        if isinstance(x, Fraction):
            return x
        return E.from_float(x)

    def __add__(s, o):
        return V(E.add(_n(s.e), _n(V.un(o))))

    __radd__ = __add__

    def __sub__(s, o):
        return V(E.sub(_n(s.e), _n(V.un(o))))

    def __rsub__(s, o):
        return V(E.sub(_n(V.un(o)), _n(s.e)))

    def __mul__(s, o):
        return V(E.mul(_n(s.e), _n(V.un(o))))

    __rmul__ = __mul__

    def __truediv__(s, o):
        return V(E.div(_n(s.e), _n(V.un(o))))

    def __rtruediv__(s, o):
        return V(E.div(_n(V.un(o)), _n(s.e)))

    def __neg__(s):
        return V(E.neg(_n(s.e)))

    def __abs__(s):
        return V(E.eabs(_n(s.e)))

    def __pow__(s, k):
        return V(E.einteger_pow(s.e, int(k)))

    def __lt__(s, o):
        return V(E.lt(s.e, V.un(o)))

    def __le__(s, o):
        return V(E.le(s.e, V.un(o)))

    def __gt__(s, o):
        return V(E.gt(s.e, V.un(o)))

    def __ge__(s, o):
        return V(E.ge(s.e, V.un(o)))

    def __eq__(s, o):
        return V(E.eq(s.e, V.un(o)))

    def __ne__(s, o):
        return V(E.ne(s.e, V.un(o)))

    __hash__ = None

    def __and__(s, o):
        return V(E.b_and(s.e, V.un(o)))

    __rand__ = __and__

    def __or__(s, o):
        return V(E.b_or(s.e, V.un(o)))

    __ror__ = __or__

    def __invert__(s):
        return V(E.b_not(s.e))

    def __bool__(s):
        if E.is_z3(s.e):
            return T.branch(s.e)
        if isinstance(s.e, E.NF):
            raise Unsupported("bool of NF")
        return bool(s.e)

    def __repr__(s):
        return f"V({s.e})"


def _n(e):
    """booleans count as integers in arithmetic"""
    if isinstance(e, bool):
        return int(e)
    if E.is_z3(e) and z3.is_bool(e):
        return E.zint(e)
    return e


class Path:
    def __init__(self, ex, trace, prefix, npmode):
        self.ex = ex
        self.trace = trace
        self.prefix = prefix
        self.dec = []
        self.pc = []
        self.npmode = npmode
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.branch_timeout)
        self.decided = {}
        self.dcache = {}
        self.eig_subst = []
        self.ndefs = 0
        self.nconc = 0

    def _sync_defs(self):
        while self.ndefs < len(E.AX.defs):
            self.solver.add(E.AX.defs[self.ndefs])
            self.ndefs += 1

    def assume(self, c):
        if not E.is_z3(c):
            if not c:
                raise PathAbort()
            return
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *cs):
        self._sync_defs()
        t = time.time()
        r = self.solver.check(*cs)
        self.ex.solver_time += time.time() - t
        self.ex.queries += 1
        return r

    def implied(self, c):
        if not E.is_z3(c):
            return bool(c)
        return self.check(E.b_not(c)) == z3.unsat

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        if key in self.decided:
            return self.decided[key][1]
        i = len(self.dec)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if time.time() > self.ex.deadline:
                raise Budget("time")
            ft = self.check(c) != z3.unsat
            ff = self.check(z3.Not(c)) != z3.unsat
            if not ft and not ff:
                raise PathAbort()
            if ft and ff:
                self.ex.stack.append(self.dec + [False])
                d = True
            else:
                d = ft
        self.dec.append(d)
        self.decided[key] = (c, d)
        self.pc.append(c if d else z3.Not(c))
        self.solver.add(c if d else z3.Not(c))
        return d

    def decide(self, c):
        key = c.get_id()
        hit = self.dcache.get(key)
        if hit is not None and hit[0].eq(c) and (hit[1] is not None or hit[2] == len(self.pc)):
            return hit[1]
        r = True if self.implied(c) else (False if self.check(c) == z3.unsat else None)
        self.dcache[key] = (c, r, len(self.pc))
        return r

    def concretize(self, t):
        if isinstance(t, E.NF):
            t = t.val
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(self.ex.max_concretize):
            i = len(self.dec)
            if i < len(self.prefix):
                v = self.ex.conc_memo[tuple(self.dec), self.nconc]
            else:
                memo = self.ex.conc_memo.get((tuple(self.dec), self.nconc))
                if memo is not None:
                    v = memo
                else:
                    if self.check() != z3.sat:
                        raise PathAbort()
                    v = self.solver.model().eval(t, model_completion=True)
                    v = v.as_long() if z3.is_int_value(v) else v.as_fraction()
                    self.ex.conc_memo[tuple(self.dec), self.nconc] = v
            self.nconc += 1
            if self.branch(t == v):
                return v
        raise Unsupported("integer with too many values")


class Explorer:
    """explores one harness"""

    def __init__(self, name, body, seconds=240, max_paths=4000, npmode=False, branch_timeout=1500, obl_timeout=20,
                 axiom_level=2, known=(), max_concretize=64, portfolio=True, replay=True, order=None, decide_ite=False):
        self.name = name
        self.body = body
        self.seconds = seconds
        self.max_paths = max_paths
        self.npmode = npmode
        self.branch_timeout = branch_timeout
        self.obl_timeout = obl_timeout
        self.axiom_level = axiom_level
        self.decide_ite = decide_ite
        self.max_concretize = max_concretize
        self.stack = [[]]
        self.queries = 0
        self.solver_time = 0.0
        self.obl_proved = 0
        self.obl_names = {}
        self.conc_memo = {}
        self.paths = 0
        self.unknown = []
        self.violations = []
        self.errors = []
        self.notes = []
        self.decls = {}
        self.functions = set()
        self.twin_runs = 0
        self.samples = []

    # --------------------------------------------------------------
    def run(self):
        t0 = time.time()
        self.deadline = t0 + self.seconds
        mon = FunctionMonitor()
        covered = set()
        with mon:
            try:
                while self.stack:
                    if self.paths >= self.max_paths:
                        raise Budget("paths")
                    if time.time() > self.deadline:
                        raise Budget("time")
                    prefix = self.stack.pop()
                    self.one_path(prefix, covered)
                    if self.violations:
                        break
            except Budget as b:
                self.unknown.append(f"exploration stopped: {b} budget exhausted after {self.paths} paths")
        self.functions = mon.names
        if not self.violations and not self.errors and not self.unknown:
            if not self.obl_names:
                self.errors.append("vacuous: no obligation reached")
            else:
                missing = set(self.obl_names) - covered
                if missing:
                    self.errors.append(f"vacuous obligations (no satisfiable path): {sorted(missing)}")
        return dict(harness=self.name, paths=self.paths, queries=self.queries, solver_s=round(self.solver_time, 3),
                    obligations=self.obl_proved, names=self.obl_names, unknown=self.unknown[:20], violations=self.violations,
                    errors=self.errors[:5], functions=sorted(self.functions), wall_s=round(time.time() - t0, 2),
                    twin_runs=self.twin_runs, samples=self.samples[:2])

    def one_path(self, prefix, covered):
        E.AX.reset()
        E.POSVARS.clear()
        E._pos_cache.clear()
        T._eig_n[0] = 0
        reached = []
        with T.SymMain() as trace, npshim.active():
            path = Path(self, trace, prefix, self.npmode)
            T.PATH = path
            E.DECIDE = path.decide if self.decide_ite else None
            h = H(self, path, reached)
            exc = None
            try:
                self.body(h)
            except PathAbort:
                self.paths += 1
                return
            except Violated:
                self.paths += 1
                return
            except AssumeFailed:
                self.paths += 1
                return
            except Exception as e:  # noqa
                exc = e
                tb = traceback.format_exc()
            finally:
                T.PATH = None
                E.DECIDE = None
                h.unpatch()
        self.paths += 1
        if exc is not None:
            self.handle_exception(path, h, exc, tb)
            return
        new = [n for n in reached if n not in covered]
        if new:
            m = self.sat_model(path)
            if m is not None:
                covered.update(reached)
                self.twin(h, m)
            elif m is None and self._last == "unknown":
                # non linear witness not found by the solver: try concrete inputs from a sampled model of the branch solver
                covered.update(self.try_witness(path, h, reached))

    def sat_model(self, path):
        """an input of the path; the definitions of the functions are left out where the solver cannot settle them (the input is run)"""
        for cons in (list(path.pc) + E.axioms(1), list(path.pc)):
            s = z3.Solver()
            s.set("timeout", int(min(self.obl_timeout, 8) * 1000))
            s.add(*cons)
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            self.queries += 1
            self._last = str(r)
            if r == z3.sat:
                return s.model()
            if r == z3.unsat and len(cons) > len(path.pc):
                return None
        self._last = "unknown"
        return None

    def try_witness(self, path, h, reached):
        rnd = random.Random(1)
        for _ in range(200):
            vals = {}
            for n, (kind, shape, lo, hi, zs) in h.inputs.items():
                vals[n] = [self._rand(rnd, kind, lo, hi) for _ in zs]
            ok, bad, seen = self.concrete(vals, tuple(path.dec))
            if ok and set(reached) <= set(seen):
                self.twin_runs += 1
                if bad:
                    self.report(h, vals, bad, "twin")
                return set(reached)
        return set()

    @staticmethod
    def _rand(rnd, kind, lo, hi):
        if kind == "b":
            return rnd.random() < 0.5
        if kind == "i":
            return rnd.randint(lo, hi)
        return Fraction(round(rnd.uniform(float(lo), float(hi)) * 16), 16)

    def model_values(self, h, m):
        vals = {}
        for n, (kind, shape, lo, hi, zs) in h.inputs.items():
            out = []
            for z in zs:
                v = m.eval(z, model_completion=True)
                if kind == "b":
                    out.append(z3.is_true(v))
                elif kind == "i":
                    out.append(v.as_long())
                else:
                    if z3.is_rational_value(v):
                        out.append(v.as_fraction())
                    elif z3.is_algebraic_value(v):
                        out.append(v.approx(20).as_fraction())
                    else:
                        out.append(Fraction(0))
            vals[n] = out
        return vals

    def twin(self, h, m):
        """run the real code concretely on a model of the path: the reachability witness"""
        vals = self.model_values(h, m)
        best = None
        # rounding of the floats is outside the claim: a witness on which the float run disagrees by a tie is replaced by
        # a perturbed one; only when every witness fails is the failure reported
        for cand in self.candidates(vals, h, 4) + self.perturbed(vals, h, 12):
            ok, bad, seen = self.concrete(cand)
            self.twin_runs += 1
            if ok:
                if bad:
                    best = best or (cand, bad)
                    continue
                self.samples.append({k: [str(x) for x in v] for k, v in cand.items()})
                return
        if not best:
            # every rounding of the model left the assumptions: look for one that floats represent exactly
            for vals in self.dyadic(h, []):
                ok, bad, seen = self.concrete(vals)
                self.twin_runs += 1
                if ok and not bad:
                    self.samples.append({k: [str(x) for x in v] for k, v in vals.items()})
                    return
                if ok:
                    best = (vals, bad)
                    break
        if best:
            # proved for reals by the solver but failing on the floats of the real code
            cand, bad = best
            ok2, bad2, _ = self.concrete(cand)
            if ok2 and bad2:
                self.report(h, cand, bad2, "twin")

    def dyadic(self, h, cons):
        """models of the path in which every real input is a short binary fraction"""
        base = list(h.path.pc) + E.axioms(1) + list(cons)
        for den in (64, 4096, 65536):
            ks = []
            for n, (kind, shape, lo, hi, zs) in h.inputs.items():
                if kind == "f":
                    ks += [z == z3.ToReal(z3.Int(f"dy!{n}!{i}")) / den for i, z in enumerate(zs)]
            if not ks:
                return
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*base, *ks)
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            self.queries += 1
            if r == z3.sat:
                yield self.model_values(h, s.model())

    def concrete(self, vals, decisions=None):
        """run the body on concrete inputs. returns (assumptions hold, failed obligations, names seen)"""
        h = H(self, None, [], values=vals)
        try:
            self.body(h)
        except AssumeFailed:
            return False, [], []
        except PathAbort:
            return False, [], []
        except Exception as e:
            if getattr(h, "bad_input", False):
                return False, [], []
            return True, [("exception", "exception", repr(e)[:300], traceback.format_exc()[-1500:])], h.reached
        finally:
            h.unpatch()
        return True, h.failed, h.reached

    def handle_exception(self, path, h, exc, tb):
        m = self.sat_model(path)
        if m is None and self._last == "unsat":
            return
        rep = []
        if m is not None:
            vals = self.model_values(h, m)
            for cand in self.candidates(vals, h, 4):
                ok, bad, seen = self.concrete(cand)
                if ok and bad:
                    self.report(h, cand, bad, "exception")
                    return
        if len(self.errors) < 3 and self.random_search(h, "exception"):
            return
        if len(self.errors) < 20:
            self.errors.append(f"{self.name}: {type(exc).__name__}: {exc}\n{tb[-1800:]}")

    def candidates(self, vals, h, n=8):
        def rounded(k):
            out = {}
            for name, vs in vals.items():
                kind, shape, lo, hi, zs = h.inputs[name]
                out[name] = [Fraction(round(v * k), k) if kind == "f" else v for v in vs]
            return out

        cs = [vals, rounded(4096), rounded(256), rounded(64), rounded(16), rounded(8), rounded(4), rounded(2)]
        return cs[:n]

    def perturbed(self, vals, h, n):
        rnd = random.Random(3)
        out = []
        for k in range(n):
            d = {}
            for name, vs in vals.items():
                kind, shape, lo, hi, zs = h.inputs[name]
                d[name] = list(vs)
                if kind == "f":
                    for i, v in enumerate(vs):
                        w = v + Fraction(rnd.randint(-64, 64), 64 * 10 ** (1 + k % 4))
                        d[name][i] = max(Fraction(lo) if lo is not None else w, min(Fraction(hi) if hi is not None else w, w))
            out.append(d)
        return out

    def report(self, h, vals, bad, kind):
        self.violations.append(dict(
            harness=self.name, kind=kind, failed=[list(map(str, b)) for b in bad][:5],
            inputs={k: dict(kind=h.inputs[k][0], shape=list(h.inputs[k][1]), values=[str(x) for x in v]) for k, v in vals.items()}))

    # --------------------------------------------------------------
    def decide(self, h, path, name, idx, goal, strict_goal=None, negkind=None):
        """goal: z3 Bool. weak: a weaker goal (with tolerance) that decides violation."""
        self.queries += 1
        pc = path.pc
        self.current = f"{name}[{idx}]"
        neg = z3.Not(goal)
        r, m = self.solve(pc, neg)
        if r == z3.unsat:
            self.obl_proved += 1
            return True
        if strict_goal is not None:
            neg = z3.Not(strict_goal)
            r2, m2 = self.solve(pc, neg)
            if r2 == z3.unsat:
                self.obl_proved += 1
                self.notes.append(f"{name}: within tolerance")
                return True
            if r2 == z3.sat:
                r, m = r2, m2
            elif r == z3.sat:
                pass
            else:
                r, m = r2, m2
        if r == z3.sat:
            rounds = 0
            extra = []
            while r == z3.sat and rounds < 8:
                vals = self.model_values(h, m)
                for cand in self.candidates(vals, h):
                    ok, bad, seen = self.concrete(cand)
                    if ok and bad:
                        self.report(h, cand, bad, "obligation " + name)
                        raise Violated(None)
                if rounds == 0:
                    for cand in self.dyadic(h, [neg]):
                        ok, bad, seen = self.concrete(cand)
                        if ok and bad:
                            self.report(h, cand, bad, "obligation " + name)
                            raise Violated(None)
                rounds += 1
                new = refine(m, extra) + jitter(m, h, rounds)
                if not new:
                    break
                extra += [x for x in new if not isinstance(x, tuple)]
                r, m = self.solve(pc, neg, extra)
                if r == z3.unsat:
                    # unsat because of jitter constraints is no proof
                    if any(isinstance(x, tuple) for x in new):
                        pass
                    self.obl_proved += 1
                    return True
            if self.random_search(h, name):
                raise Violated(None)
            self.unknown.append(f"{name}[{idx}]: counterexample of the encoding did not reproduce on the real code")
            return False
        if self.random_search(h, name):
            raise Violated(None)
        self.unknown.append(f"{name}[{idx}]: solver answered unknown")
        return False

    def random_search(self, h, name):
        """the solver could not produce a usable model for a goal it did not prove: look for a concrete witness nearby"""
        rnd = random.Random(7)
        t0 = time.time()
        for _ in range(60):
            if time.time() - t0 > 30:
                return False
            vals = {}
            for n, (kind, shape, lo, hi, zs) in h.inputs.items():
                vals[n] = [self._rand(rnd, kind, lo, hi) for _ in zs]
            ok, bad, seen = self.concrete(vals)
            if ok and bad:
                self.report(h, vals, bad, "obligation " + name)
                return True
        return False

    def solve(self, pc, neg, extra=()):
        if z3.is_false(z3.simplify(neg)):
            return z3.unsat, None
        t0 = time.time()
        budget = max(2.0, min(self.obl_timeout, self.deadline - time.time() + 2))
        try:
            levels = [1, 2] if self.axiom_level >= 2 and E.AX.apps and any(k in E.AX.apps for k in ("exp", "log")) else [1]
            last = (z3.unknown, None)
            for lv in levels:
                ax = E.axioms(lv)
                cons = list(pc) + ax + list(extra) + [neg]
                cons = relevant(cons, neg)
                ab = abstract(cons)
                if ab is not None:
                    s = z3.Solver()
                    s.set("timeout", 2000)
                    s.add(*ab)
                    self.queries += 1
                    if s.check() == z3.unsat:
                        return z3.unsat, None
                r, m = portfolio(cons, budget)
                self.queries += 1
                if r == z3.unsat:
                    return r, None
                if r == z3.sat and len(cons) < len(pc) + len(ax) + len(extra) + 1:
                    # a slice was satisfiable: need the full system
                    r, m = portfolio(list(pc) + ax + list(extra) + [neg], budget)
                    if r == z3.unsat:
                        return r, None
                last = (r, m) if not (r == z3.unknown and last[0] == z3.sat) else last
            return last
        finally:
            self.solver_time += time.time() - t0
            if os.environ.get("SYMX_SLOW") and time.time() - t0 > float(os.environ["SYMX_SLOW"]):
                print(f"slow {self.current} {time.time() - t0:.1f}s", flush=True)


def vars_of(t, cache={}):
    key = t.get_id()
    hit = cache.get(key)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    seen, out, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        todo.extend(x.children())
    cache[key] = (t, frozenset(out))
    if len(cache) > 20000:
        cache.clear()
    return frozenset(out)


def abstract(cons):
    """the same constraints with every product of unknowns replaced by an unknown (squares: a non-negative one); weaker, and linear.
    None if nothing is nonlinear"""
    memo, prods = {}, []

    def go(root):
        todo = [(root, False)]
        while todo:
            x, ready = todo.pop()
            i = x.get_id()
            if i in memo:
                continue
            if not z3.is_app(x) or x.num_args() == 0:
                memo[i] = x
                continue
            ch = x.children()
            if not ready:
                todo.append((x, True))
                todo.extend((c, False) for c in ch if c.get_id() not in memo)
                continue
            new = [memo[c.get_id()] for c in ch]
            k = x.decl().kind()
            nonlinear = False
            if k == z3.Z3_OP_MUL:
                nonlinear = sum(not z3.is_rational_value(c) for c in new) > 1
            elif k == z3.Z3_OP_POWER:
                nonlinear = True
            elif k == z3.Z3_OP_DIV:
                nonlinear = not z3.is_rational_value(new[1])
            if nonlinear:
                v = z3.FreshConst(x.sort(), "prod")
                if len(ch) == 2 and k == z3.Z3_OP_MUL and ch[0].eq(ch[1]):
                    prods.append(v >= 0)
                else:
                    prods.append(None)
                memo[i] = v
            elif all(a.eq(b) for a, b in zip(new, ch)):
                memo[i] = x
            else:
                memo[i] = x.decl()(*new)
        return memo[root.get_id()]

    out = [go(c) for c in cons]
    if not prods:
        return None
    return out + [p for p in prods if p is not None]


def relevant(cons, neg):
    """cone of influence of the goal"""
    vs = set(vars_of(neg))
    rest = [(c, vars_of(c)) for c in cons[:-1]]
    out, changed = [], True
    while changed:
        changed = False
        keep = []
        for c, v in rest:
            if v & vs:
                out.append(c)
                vs |= v
                changed = True
            else:
                keep.append((c, v))
        rest = keep
    return out + [neg]


def portfolio(cons, budget):
    def go(mk, tmo):
        s = mk()
        s.set("timeout", int(tmo * 1000))
        s.add(*cons)
        try:
            r = s.check()
        except z3.Z3Exception:
            return z3.unknown, None
        return r, (s.model() if r == z3.sat else None)

    r, m = go(z3.Solver, min(5.0, budget))
    if r != z3.unknown:
        return r, m
    for mk, frac in ((lambda: z3.Tactic("qfnra-nlsat").solver(), 0.25),
                     (lambda: z3.Then("simplify", "solve-eqs", "purify-arith", "elim-term-ite", "solve-eqs", "smt").solver(), 0.25),
                     (lambda: _nla(), 0.3),
                     (z3.Solver, 1.0)):
        try:
            r, m = go(mk, max(1.0, budget * frac))
        except z3.Z3Exception:
            continue
        if r != z3.unknown:
            return r, m
    r = cvc5_check(cons, budget)
    if r == "unsat":
        return z3.unsat, None
    return z3.unknown, None


def _nla():
    s = z3.SimpleSolver()
    s.set("arith.solver", 6)
    return s


def cvc5_check(cons, budget):
    import subprocess

    s = z3.Solver()
    s.add(*cons)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={int(budget * 500)}", "-"], input=txt, capture_output=True, text=True,
                           timeout=budget + 5)
    except Exception:
        return "unknown"
    out = p.stdout.strip().splitlines()
    if any("error" in ln for ln in out):
        return "unknown"
    return out[-1] if out else "unknown"


def refine(m, have):
    """numeric lemmas for the function applications at the model's argument values"""
    out = []
    for name, lst in E.AX.apps.items():
        if name == "sqrt":
            continue
        for a, p in lst:
            av = m.eval(a, model_completion=True)
            if z3.is_algebraic_value(av):
                av = av.approx(10)
            if not z3.is_rational_value(av):
                continue
            f = E.numeric(name, av.as_fraction())
            if f is None:
                continue
            v = av.as_fraction()
            zv = E.zreal(v)
            eps = max(1e-9, abs(f) * 1e-9)
            lo, hi = E._q(f - eps), E._q(f + eps)
            if name == "exp":
                out.append(p >= lo * (1 + a - zv))
                out.append(z3.Implies(a >= zv, p >= lo))
                out.append(z3.Implies(a <= zv, p <= hi))
            elif name == "log":
                out.append(z3.Implies(a > 0, p <= hi + (a - zv) / zv))
                out.append(z3.Implies(a >= zv, p >= lo))
                out.append(z3.Implies(z3.And(a > 0, a <= zv), p <= hi))
            elif name in E.MONO:
                out.append(z3.Implies(a >= zv, p >= lo))
                out.append(z3.Implies(a <= zv, p <= hi))
            else:
                out.append(z3.Implies(a == zv, z3.And(p >= lo, p <= hi)))
    return out


def jitter(m, h, rnd):
    return []


class FunctionMonitor:
    """names of the functions of the code under test that were executed (sys.monitoring)"""

    def __init__(self):
        self.names = set()

    def __enter__(self):
        mon = sys.monitoring
        self.tid = 3
        try:
            mon.use_tool_id(self.tid, "symx")
        except ValueError:
            self.tid = None
            return self

        def start(code, off):
            fn = code.co_filename
            i = fn.find("/fortuna/")
            if i >= 0 and "site-packages" not in fn:
                self.names.add(fn[i + 1:] + ":" + code.co_qualname)
            return mon.DISABLE

        mon.register_callback(self.tid, mon.events.PY_START, start)
        mon.set_events(self.tid, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        if self.tid is not None:
            sys.monitoring.set_events(self.tid, 0)
            sys.monitoring.register_callback(self.tid, sys.monitoring.events.PY_START, None)
            sys.monitoring.free_tool_id(self.tid)


class H:
    """what a harness body sees, in symbolic or in concrete mode"""

    def __init__(self, ex, path, reached, values=None):
        self.ex = ex
        self.path = path
        self.sym = values is None
        self.values = values
        self.inputs = {}
        self.reached = reached
        self.failed = []
        self._patches = []
        self._fresh = {}

    # ------------------------------------------------- inputs
    def _decl(self, name, kind, shape, lo, hi):
        n = int(np.prod(shape)) if shape != () else 1
        if name in self.inputs:
            k = self._fresh[name] = self._fresh.get(name, 0) + 1
            name = f"{name}#{k}"
        mkv = {"f": z3.Real, "i": z3.Int, "b": z3.Bool}[kind]
        zs = [mkv(name if n == 1 and shape == () else f"{name}_{i}") for i in range(n)]
        self.inputs[name] = (kind, shape, lo, hi, zs)
        return name, zs

    def _input(self, name, kind, shape, lo, hi, np_=False, dtype=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        name, zs = self._decl(name, kind, shape, lo, hi)
        if self.sym:
            if kind != "b":
                for z in zs:
                    if lo is not None:
                        self.path.assume(z >= (E.zreal(Fraction(lo)) if kind == "f" else int(lo)))
                    if hi is not None:
                        self.path.assume(z <= (E.zreal(Fraction(hi)) if kind == "f" else int(hi)))
                    if kind == "f" and lo is not None and lo >= 0:
                        E.POSVARS[z.decl().name()] = "+" if lo > 0 else "0+"
            if n0(shape) == 0:
                p = np.empty(shape, dtype=object)
            else:
                p = np.empty(len(zs), dtype=object)
                p[:] = zs
                p = p.reshape(shape)
            dt = dtype or {"f": np.float32, "i": np.int32, "b": np.bool_}[kind]
            return T.mk(p, dt, trace=self.path.trace, weak=(shape == () and not np_), npmode=np_)
        vs = self.values.get(name)
        if vs is None:
            vs = [0] * len(zs)
        if kind == "f":
            a = np.array([float(v) for v in vs], dtype=np.float32)
            for v in vs:
                fv = Fraction(v)
                if (lo is not None and fv < Fraction(lo)) or (hi is not None and fv > Fraction(hi)):
                    raise AssumeFailed()
        elif kind == "i":
            a = np.array([int(v) for v in vs], dtype=np.int32)
            for v in vs:
                if (lo is not None and v < lo) or (hi is not None and v > hi):
                    raise AssumeFailed()
        else:
            a = np.array([bool(v) for v in vs], dtype=bool)
        a = a[: n0(shape)].reshape(shape) if n0(shape) else a[:0].reshape(shape)
        if shape == ():
            return {"f": float, "i": int, "b": bool}[kind](float(vs[0]) if kind == "f" else vs[0])
        return a if np_ else jnp.asarray(a)

    def real(self, name, shape=(), lo=-4, hi=4, np=False):
        return self._input(name, "f", shape, lo, hi, np)

    def int(self, name, shape=(), lo=0, hi=3, np=False):
        return self._input(name, "i", shape, lo, hi, np)

    def bool(self, name, shape=(), np=False):
        return self._input(name, "b", shape, None, None, np)

    # ------------------------------------------------- values
    def arr(self, x):
        """object array of property-language scalars (symbolic) or float64/bool/int numpy array (concrete)"""
        if not self.sym:
            if isinstance(x, (list, tuple)) and any(isinstance(e, jax.Array) for e in x):
                x = np.stack([np.asarray(e) for e in x])
            a = np.asarray(x)
            if a.dtype.kind == "f" or a.dtype.name == "bfloat16":
                return a.astype(np.float64)
            return a
        if isinstance(x, np.ndarray) and x.dtype == object and not npshim.any_sym(x):
            return x
        if isinstance(x, (list, tuple)):
            if not x:
                return np.empty((0,), dtype=object)
            parts = [self.arr(e) for e in x]
            out = np.empty((len(parts),) + parts[0].shape, dtype=object)
            for i, p in enumerate(parts):
                out[i] = p if p.shape else p[()]
            return out
        if isinstance(x, V):
            return T._nd(x)
        if isinstance(x, T.SymTracer):
            p = x.payload
        elif isinstance(x, np.ndarray) and x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                out[i] = self.val(x[i])
            return out
        elif isinstance(x, core.Tracer):
            raise Unsupported(f"tracer {type(x)}")
        else:
            a = np.asarray(x)
            if a.dtype.kind not in "fiub" and a.dtype.name != "bfloat16":
                raise Unsupported(f"array of {a.dtype}")
            p = T.payload_of(a)
        out = np.empty(p.shape, dtype=object)
        for i in np.ndindex(*p.shape):
            out[i] = V(p[i])
        return out

    def val(self, x):
        """scalar"""
        a = self.arr(x)
        if a.size != 1:
            raise ValueError(f"scalar expected, got shape {a.shape}")
        return a.reshape(-1)[0]

    # ------------------------------------------------- logic helpers
    def And(self, *xs):
        xs = _flat(xs)
        if self.sym:
            return V(E.b_all([V.un(x) for x in xs]))
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        xs = _flat(xs)
        if self.sym:
            return V(E.b_any([V.un(x) for x in xs]))
        return any(bool(x) for x in xs)

    def Not(self, x):
        if self.sym:
            return V(E.b_not(V.un(x)))
        return not bool(x)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def ite(self, c, a, b):
        if self.sym:
            return V(E.ite(V.un(c), V.un(a), V.un(b)))
        return a if c else b

    def max(self, xs):
        xs = list(xs)
        if self.sym:
            r = V.un(xs[0])
            for x in xs[1:]:
                r = E.emax(r, V.un(x))
            return V(r)
        return max(xs)

    def min(self, xs):
        xs = list(xs)
        if self.sym:
            r = V.un(xs[0])
            for x in xs[1:]:
                r = E.emin(r, V.un(x))
            return V(r)
        return min(xs)

    def sum(self, xs):
        xs = list(xs)
        if self.sym:
            r = V(Fraction(0))
            for x in xs:
                r = r + x
            return r
        return sum(float(x) for x in xs)

    def count(self, xs):
        """number of true conditions"""
        xs = list(xs)
        if self.sym:
            r = 0
            for x in xs:
                r = E.add(r, E.ite(V.un(x), 1, 0))
            return V(r)
        return sum(1 for x in xs if bool(x))

    def exp(self, x):
        return V(E.eexp(_n(V.un(x)))) if self.sym else float(np.exp(x))

    def log(self, x):
        return V(E.elog(_n(V.un(x)))) if self.sym else float(np.log(x))

    def sqrt(self, x):
        return V(E.esqrt(_n(V.un(x)))) if self.sym else float(np.sqrt(x))

    def floor(self, x):
        return V(E.efloor_int(_n(V.un(x)))) if self.sym else int(math.floor(x))

    def uf(self, name, x):
        return V(E.euf(name, _n(V.un(x)))) if self.sym else E.numeric(name, x)

    def ceil(self, x):
        return V(E.neg(E.efloor_int(E.neg(_n(V.un(x)))))) if self.sym else int(math.ceil(x - 1e-6))

    # ------------------------------------------------- assumptions / obligations
    def assume(self, c):
        if self.sym:
            self.path.assume(V.un(c))
            # assumptions are not retroactive; give up at once when they contradict the path
        elif not bool(c):
            raise AssumeFailed()

    def assume_eq(self, a, b, tol=1e-5):
        """equality, up to float rounding in concrete replays"""
        if self.sym:
            self.assume(a == b)
        elif not abs(float(a) - float(b)) <= tol:
            raise AssumeFailed()

    def branch(self, c):
        """case split in the harness"""
        if self.sym:
            return T.branch(V.un(c)) if E.is_z3(V.un(c)) else bool(V.un(c))
        return bool(c)

    def _fresh_obligation(self):
        return len(self.path.dec) >= len(self.path.prefix)

    def _oblige(self, name, idx, goal, weak=None):
        self.reached.append(name)
        self.ex.obl_names[name] = self.ex.obl_names.get(name, 0) + 1
        if not self._fresh_obligation():
            return
        goal = V.un(goal)
        if not E.is_z3(goal):
            if goal:
                self.ex.obl_proved += 1
                return
            goal = z3.BoolVal(False)
        w = V.un(weak) if weak is not None else None
        if w is not None and not E.is_z3(w):
            w = z3.BoolVal(bool(w))
        T_PATH = T.PATH
        T.PATH = None
        try:
            with npshim_inactive():
                self.ex.decide(self, self.path, name, idx, goal, w)
        finally:
            T.PATH = T_PATH

    def check(self, name, cond, info=""):
        if self.sym:
            self._oblige(name, 0, cond)
        else:
            self.reached.append(name)
            if not bool(cond):
                self.failed.append((name, "check", info))

    def eq(self, name, a, b, tol=TOL):
        a, b = self.arr(a), self.arr(b)
        if a.shape != b.shape:
            if self.sym:
                self._oblige(name, "shape", False)
            else:
                self.reached.append(name)
                self.failed.append((name, "shape", f"{a.shape} != {b.shape}"))
            return
        if self.sym:
            for i in np.ndindex(*a.shape):
                x, y = a[i], b[i]
                d = x - y
                self._oblige(name, i, (x == y), self.And(d <= tol, d >= -tol))
        else:
            self.reached.append(name)
            for i in np.ndindex(*a.shape):
                if a.dtype.kind == "f" or b.dtype.kind == "f":
                    if not abs(float(a[i]) - float(b[i])) <= 0.5 * tol + 3e-5 * abs(float(b[i])):
                        self.failed.append((name, i, float(a[i]), float(b[i])))
                elif a[i] != b[i]:
                    self.failed.append((name, i, a[i], b[i]))

    def le(self, name, a, b, tol=TOL):
        a, b = self.arr(a), self.arr(b)
        a, b = np.broadcast_arrays(a, b)
        if self.sym:
            for i in np.ndindex(*a.shape):
                x, y = a[i], b[i]
                self._oblige(name, i, x <= y, x - y <= tol)
        else:
            self.reached.append(name)
            for i in np.ndindex(*a.shape):
                if not float(a[i]) <= float(b[i]) + 0.5 * tol + 3e-5 * abs(float(b[i])):
                    self.failed.append((name, i, float(a[i]), float(b[i])))

    def finite(self, name, a):
        a = self.arr(a)
        if self.sym:
            for i in np.ndindex(*a.shape):
                e = a[i].e
                g = E.b_not(e.flag) if isinstance(e, E.NF) else not E.isnonfinite(e)
                self._oblige(name, i, g)
        else:
            self.reached.append(name)
            if not np.all(np.isfinite(a)):
                self.failed.append((name, "finite", str(a)))

    def shape(self, name, x, shape):
        s = tuple(np.shape(x)) if not isinstance(x, core.Tracer) else tuple(x.shape)
        self.check(name, s == tuple(shape), f"shape {s} != {tuple(shape)}")

    def raises(self, fn, exc=Exception):
        """(raised?, result)"""
        try:
            r = fn()
        except (Unsupported, AssumeFailed, Violated):
            raise
        except exc:
            return True, None
        return False, r

    # ------------------------------------------------- stubs
    def patch(self, obj, attr, value):
        self._patches.append((obj, attr, obj.__dict__.get(attr, _MISSING) if hasattr(obj, "__dict__") else getattr(obj, attr)))
        setattr(obj, attr, value)

    def unpatch(self):
        while self._patches:
            o, a, v = self._patches.pop()
            if v is _MISSING:
                delattr(o, a)
            else:
                setattr(o, a, v)

    def stub_random(self, lo=-3, hi=3):
        """jax.random.normal / uniform return arbitrary values of their type"""
        def normal(key, shape=(), dtype=None):
            return self._as_jax(self.real("noise", tuple(shape), lo, hi))

        def uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0):
            return self._as_jax(self.real("unif", tuple(shape), 0, 1)) * (maxval - minval) + minval

        self.patch(jax.random, "normal", normal)
        self.patch(jax.random, "uniform", uniform)

    def _as_jax(self, x):
        return x if isinstance(x, core.Tracer) else jnp.asarray(x)

    def concrete_rng(self):
        pass


def n0(shape):
    return int(np.prod(shape)) if shape != () else 1


@contextlib.contextmanager
def npshim_inactive():
    # constructors only act when T.PATH is set: nothing to undo
    yield


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out.extend(_flat(x))
        elif isinstance(x, np.ndarray):
            out.extend(x.reshape(-1))
        else:
            out.append(x)
    return out
