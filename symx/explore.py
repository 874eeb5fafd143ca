"""Path exploration of one harness, and models turned into replayable cases."""
from __future__ import annotations

import sys
import time
import traceback
from fractions import Fraction

import z3

from . import core
from .ctx import CheckFailed, Skip, SymCtx
from .sstr import zstr


def model_values(e, model):
    out = {}
    for name, v in e.vars.items():
        x = model.eval(v, model_completion=True)
        if z3.is_bool(v):
            out[name] = bool(z3.is_true(x))
        elif z3.is_string(v):
            out[name] = zstr(x)
        elif z3.is_int(v):
            out[name] = x.as_long()
        else:
            if z3.is_algebraic_value(x):
                x = x.approx(30)
            f = Fraction(x.numerator_as_long(), x.denominator_as_long())
            out[name] = f
    return out


def _jsonable(vals):
    return {k: (float(v) if isinstance(v, Fraction) else v) for k, v in vals.items()}


def _frac(m, t):
    x = m.eval(t, model_completion=True)
    if z3.is_algebraic_value(x):
        x = x.approx(30)
    return Fraction(x.numerator_as_long(), x.denominator_as_long())


def rounded_models(e, extra, hints=(), timeout=3000, limit=3, tries=12):
    """models in which every narrow float is the true rounding of its value,
    found by refinement: a model that rounds a value wrongly is excluded by
    the right rounding of that value."""
    import numpy as np

    s, res, lemmas = e.solver, [], []
    s.set("timeout", timeout)
    try:
        for mixed, g, hs in [(1, 10, hints), (1, 20, hints), (0, 10, hints), (0, 100, hints), (1, 10, ()), (0, 10, ())]:
            s.push()
            try:
                for t in list(extra) + lemmas + [core.btrue(h) for h in hs]:
                    s.add(t)
                for n, v in e.vars.items():
                    if z3.is_real(v):
                        s.add(v * (g if not mixed or n in e.decimals else 64) == z3.ToReal(z3.Int(f"__grid_{n}")))
                for _ in range(tries):
                    if s.check() != z3.sat:
                        break
                    m, ok = s.model(), True
                    for x, y, name in e.rounded:
                        xv = _frac(m, x)
                        yv = Fraction(float(np.dtype(name).type(float(xv))))
                        if _frac(m, y) != yv:
                            ok = False
                            lemmas.append(z3.Implies(x == z3.Q(xv.numerator, xv.denominator), y == z3.Q(yv.numerator, yv.denominator)))
                            s.add(lemmas[-1])
                    if ok:
                        res.append(_jsonable(model_values(e, m)))
                        break
            finally:
                s.pop()
            if len(res) >= limit:
                break
    finally:
        s.set("timeout", 20000)
    return res


def nice_models(e, extra, grids=(16, 256, 2**20), limit=3, timeout=3000, hints=()):
    """models of pc & extra whose reals are (where possible) dyadic floats."""
    res = rounded_models(e, extra, hints, timeout) if e.rounded else []
    limit += len(res)
    reals = [(n, v) for n, v in e.vars.items() if z3.is_real(v)]
    s = e.solver
    s.push()
    try:
        for t in extra:
            s.add(t)
        s.set("timeout", timeout)
        todo = [(g, ()) for g in grids]
        if hints:
            todo = [(grids[0], hints), (grids[-1], hints)] + todo
            limit += 2
        for g, hs in todo:
            s.push()
            for h in hs:
                s.add(core.btrue(h))
            for n, v in reals:
                k = z3.Int(f"__grid_{n}")
                s.add(v * g == z3.ToReal(k))
            if s.check() == z3.sat:
                res.append(_jsonable(model_values(e, s.model())))
            s.pop()
            if len(res) >= limit:
                break
        if len(res) < limit and s.check() == z3.sat:
            res.append(_jsonable(model_values(e, s.model())))
    finally:
        s.set("timeout", 20000)
        s.pop()
    return res


def decimal_model(e, rng, hints=(), timeout=1000, tries=2):
    """a model of the path in which stored-and-compared values are decimal
    fractions picked at random where the path leaves a choice."""
    s, depth = e.solver, 1
    s.push()
    s.set("timeout", timeout)
    try:
        for h in hints:
            s.add(core.btrue(h))
        for n, v in e.vars.items():
            if z3.is_real(v):
                k = z3.Int(f"__grid_{n}")
                s.add(v * (20 if n in e.decimals else 64) == z3.ToReal(k))
        if s.check() != z3.sat:
            return []
        m = s.model()
        names = list(e.decimals)
        rng.shuffle(names)
        for n in names[:8]:
            lo, hi = e.decimals[n]
            for _ in range(tries):
                k = rng.randint(round(lo * 10), round(hi * 10))
                s.push()
                s.add(e.vars[n] == z3.Q(k, 10))
                if s.check() == z3.sat:
                    m = s.model()
                    depth += 1
                    break
                s.pop()
        return [_jsonable(model_values(e, m))]
    finally:
        s.set("timeout", 20000)
        s.pop(depth)


class Result:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.degraded = 0
        self.unknown = 0
        self.checks = 0
        self.decisions = 0
        self.max_decisions = 0
        self.failures = []
        self.witnesses = []
        self.unsupported = {}
        self.degraded_cases = []
        self.functions = set()

    def merge(self, o):
        for k in ("paths", "infeasible", "degraded", "unknown", "checks", "decisions"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.max_decisions = max(self.max_decisions, o.max_decisions)
        self.failures += o.failures
        self.witnesses += o.witnesses
        self.degraded_cases += o.degraded_cases
        self.functions |= o.functions
        for k, v in o.unsupported.items():
            self.unsupported[k] = self.unsupported.get(k, 0) + v


_CURRENT_FUNCS = None


def _tracer(root):
    seen = set()

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(root):
                seen.add(co.co_filename[len(root):].lstrip("/") + ":" + co.co_qualname)

    return seen, prof


def explore(task, harness, config, world, engine, prefixes, budget_s, want_witness, root="/repo/src", trace=False, rng=None):
    """DFS from the given prefixes for at most budget_s seconds.

    returns (Result, leftover prefixes)."""
    res = Result()
    stack = list(prefixes)
    t_end = time.monotonic() + budget_s
    first = True
    while stack:
        if not first and time.monotonic() > t_end:
            break
        prefix = stack.pop()
        engine.begin(prefix)
        ctx = SymCtx(engine, world)
        seen = None
        if first and trace:
            seen, prof = _tracer(root)
            sys.setprofile(prof)
        first = False
        failed = None
        try:
            try:
                harness(ctx, **config)
            finally:
                if seen is not None:
                    sys.setprofile(None)
                    res.functions |= seen
            res.paths += 1
            if engine.unsupported:
                for u in engine.unsupported:
                    res.unsupported[u] = res.unsupported.get(u, 0) + 1
                res.degraded += 1
                ms = nice_models(engine, [], grids=(16, 2**20), limit=2, timeout=1000, hints=ctx.hints)
                for m in ms:
                    res.degraded_cases.append(case(task, config, ctx, m, "degraded path"))
            elif want_witness(res.paths):
                ms = []
                if rng is not None and engine.decimals and rng.random() < 0.7:
                    ms = decimal_model(engine, rng, ctx.hints)
                if not ms:
                    ms = nice_models(engine, [], grids=(64, 2**20), limit=1, timeout=1000, hints=ctx.hints)
                for m in ms[:1]:
                    res.witnesses.append(case(task, config, ctx, m, "witness"))
        except core.PathInfeasible:
            res.infeasible += 1
        except (core.PathBudget, core.SolverUnknown) as ex:
            res.unknown += 1
            try:
                for m in nice_models(engine, [], grids=(16,), limit=1, timeout=1000):
                    res.degraded_cases.append(case(task, config, ctx, m, "unknown path"))
            except BaseException:
                pass
        except CheckFailed as ex:
            failed = ex
            extra = [z3.Not(core.btrue(ex.cond))] if isinstance(ex.cond, core.SymBase) else []
            res.paths += 1
            cases = [case(task, config, ctx, m, ex.msg) for m in nice_models(engine, extra, hints=ctx.hints)]
            if not cases and ex.model is not None:
                cases = [case(task, config, ctx, _jsonable(model_values(engine, ex.model)), ex.msg)]
            res.failures.append({"kind": "assert", "msg": ex.msg, "cases": cases, "unsupported": list(engine.unsupported)})
        except Skip:
            res.infeasible += 1
        except Exception as ex:
            res.paths += 1
            tb = traceback.format_exc(limit=-6)
            cases = []
            try:
                cases = [case(task, config, ctx, m, f"raised {type(ex).__name__}: {ex}") for m in nice_models(engine, [], hints=ctx.hints)]
            except BaseException:
                pass
            res.failures.append({"kind": "exception", "msg": f"raised {type(ex).__name__}: {ex}", "tb": tb, "cases": cases, "unsupported": list(engine.unsupported)})
        finally:
            res.checks += ctx.checks
            res.decisions += len(engine.decisions)
            res.max_decisions = max(res.max_decisions, len(engine.decisions))
            stack.extend(engine.pending)
            engine.end()
            ctx.cleanup()
        if len(res.failures) >= 4:
            break
    return res, stack


def case(task, config, ctx, values, msg):
    return {
        "task": task,
        "config": config,
        "values": values,
        "choices": dict(ctx.choice_idx),
        "msg": msg,
    }
