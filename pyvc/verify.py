"""Verification of one function against its contract."""
import importlib
import sys
import time
import traceback
from . import ir, solve, sym, loops, models
from .ir import *
from .vals import *
from .sym import *


class Result:
    def __init__(self, qual):
        self.qual = qual
        self.obligations = []      # (name, tags, status, seconds)
        self.error = None
        self.time = 0.0
        self.inlined = set()
        self.used = set()
        self.loops = []
        self.canary = None
        self.notes = []

    @property
    def ok(self):
        return self.error is None and all(o[2] == "proved" for o in self.obligations)


def resolve(qual):
    """function object (or property getter) for a dotted name"""
    parts_ = qual.split(".")
    for k in range(len(parts_), 0, -1):
        try:
            o = importlib.import_module(".".join(parts_[:k]))
        except ImportError:
            continue
        cls = None
        for p in parts_[k:]:
            if isinstance(o, type):
                cls = o
                o = o.__dict__[p] if p in o.__dict__ else getattr(o, p)
            else:
                o = getattr(o, p)
        if isinstance(o, property):
            o = o.fget
        return o, cls
    raise Unsupported(f"no such function {qual}")


def param(ex, st, name, kind):
    """a symbolic argument -> program value"""
    if kind == "num":
        return NumV(var(name + ".inf", "Bool"), var(name, "Int"))
    if kind in ("str", "int", "bool"):
        return var(name, et_sort(kind))
    if kind == "ignore":
        return None
    if kind[0] == "list":
        return st.alloc(HList(seq=var(name, Seq(et_sort(kind[1]))), et=kind[1], owned=False))
    if kind[0] == "tuple":
        return tuple(param(ex, st, f"{name}.{i}", k) for i, k in enumerate(kind[1]))
    if kind[0] == "const":
        return kind[1]
    raise Unsupported(f"parameter kind {kind}")


def run_case(ex, c, fv, a, st0):
    ex.sinks = [[]]
    outs = ex.run_body(fv, st0.copy())
    raised = ex.sinks.pop()
    names_back = {}
    for kind, s, v in outs:
        if s.dead():
            continue
        ex.lineno = fv.node.lineno
        r = ex.spec(s, v, c.rkind if hasattr(c, "rkind") else None)
        for label, tg, t in (c.ensures(a, r, s) if getattr(c, "wantstate", False) else c.ensures(a, r)) if c.ensures else []:
            ex.oblige(s, t, f"postcondition: {label}", tg)
        if c.final:
            for label, tg, t in c.final(ex, st0, s, a, ("return", r)):
                ex.oblige(s, t, f"postcondition: {label}", tg)
        state_kept(ex, s)
    for s, exc in raised:
        state_kept(ex, s)
        ex.lineno = exc.args[0] if exc.args and isinstance(exc.args[0], int) else 0
        cond = FALSE
        for e, f in c.raises.items():
            if issubclass(exc.cls, e):
                cond = TRUE if f is None else or_(cond, f(a))
        ex.oblige(s, cond, f"no {exc.cls.__name__} escapes", ("C03",) if cond is FALSE or cond.op != "bool" else ("C03",))
        if c.final:
            for label, tg, t in c.final(ex, st0, s, a, ("raise", exc)):
                ex.oblige(s, t, f"on {exc.cls.__name__}: {label}", tg)
    return outs


def verify(contract, contracts, tags, timeout_ms=2500, reveal=None, loop_templates=(), quiet=True):
    res = Result(contract.qual)
    t0 = time.time()
    solve.REVEAL.clear()
    solve.REVEAL.update(contract.reveal)
    solve.OPAQUE.clear()
    solve.OPAQUE.update(contract.opaque)
    try:
        _verify(res, contract, contracts, set(tags), timeout_ms, loop_templates)
    except Unsupported as e:
        res.error = f"unsupported: {e}"
        res.tb = traceback.format_exc()
    except RecursionError as e:
        res.error = f"recursion: {e}"
    res.time = time.time() - t0
    return res


def state_kept(ex, s):
    """logging levels and module attributes are as the function found them"""
    for g, v in s.ghost.items():
        if g[0] == "logger":
            ex.oblige(s, eq(v, var(f"level:{g[1]}", "Int")), f"the level of logger {g[1]} is restored", ("C18",))
        elif g[0] == "mod":
            import logging
            was = var(f"{g[1]}.{g[2]}", "Int") if g[1] == "logging" and g[2] in models.LOG_LEVELS else None
            ex.oblige(s, eq(v, was) if was is not None and isinstance(v, Term) and v.sort == "Int" else FALSE, f"{g[1]}.{g[2]} is restored", ("C18",))


def _verify(res, c, contracts, tags, timeout_ms, loop_templates):
    fn, cls = resolve(c.qual)
    fv = funcv(fn, cls)
    ex = Ex(contracts, tags)
    ex.cur = c
    ex.curfv = fv
    ex.loop_templates = tuple(loop_templates)
    st = St()
    names = [p.arg for p in fv.node.args.args]
    if len(names) != len(c.params):
        raise Unsupported("parameters do not match the contract")
    env = {}
    for n, (pn, k) in zip(names, c.params):
        if k == "self":
            env[n] = c.selfobj(ex, st)
        else:
            env[n] = param(ex, st, pn, k)
    if c.setup:
        c.setup(ex, st, env)
    a, st = ex.contract_args(st, c, env)
    ex.args0 = a
    for label, tg, t in (c.requires(a) if c.requires else []):
        if ex.want(tg):
            st.assume(t)
    st.env = env
    st0 = st
    if c.measure:
        ex.measure0 = c.measure(a)
    cases = c.cases(a) if c.cases and ex.want(c.case_tags) else [TRUE]
    if len(cases) > 1:
        ex.oblige(st0, or_(*cases), "the cases are exhaustive", sorted(tags)[:1])
    outs = []
    for case in cases:
        sc = st0.copy()
        sc.assume(case)
        if not sc.dead():
            outs += run_case(ex, c, fv, a, sc)
    res.inlined, res.used, res.loops = ex.inlined, ex.used, ex.loopinfo
    # identical obligations once
    seen = set()
    todo = []
    for ob in ex.obs:
        key = (ob.name, ob.goal.id, frozenset(t.id for t in ob.pc))
        if key not in seen:
            seen.add(key)
            todo.append(ob)
    # obligations with the same assumptions together
    groups = {}
    for ob in todo:
        groups.setdefault(tuple(t.id for t in ob.pc), []).append(ob)
    for obs in groups.values():
        pc = obs[0].pc
        t1 = time.time()
        quick = ("light", "words")
        rs = solve.prove_many(pc, [o.goal for o in obs], timeout_ms=timeout_ms, modes=quick)
        for o, r in zip(obs, rs):
            t1 = time.time()
            if r != "unsat":
                r = solve.prove_split(pc, o.goal, timeout_ms, modes=quick, known=r)
            if r != "unsat":
                r = solve.prove_many(pc, [o.goal], timeout_ms, modes=("full",))[0]
                if r != "unsat":
                    r = solve.prove_split(pc, o.goal, timeout_ms, modes=("full",), known=r)
            if r != "unsat":
                for rounds in (4,):
                    if solve.prove_many(pc, [o.goal], timeout_ms=timeout_ms * 4, rounds=rounds)[0] == "unsat":
                        r = "unsat"
                        break
            res.obligations.append((o.name, o.tags, "proved" if r == "unsat" else "failed:" + r, time.time() - t1, o))
    vac = list(solve.OPAQUE)
    solve.OPAQUE.clear()
    for n in c.opaque:
        sort, body = solve.DEFS[n]
        xs = [var(f"x{i}", "Str") for i in range(body.__code__.co_argcount)]
        for label, f in solve.DLEMMAS.get(n, ()):
            ex.lemma(f(*xs), f"{n}: {label}")
    for o in ex.lemmas:
        t1 = time.time()
        r = solve.prove_many([], [o.goal], timeout_ms=timeout_ms * 4)[0]
        if r != "unsat":
            r = solve.prove_split([], o.goal, timeout_ms * 4)
        res.obligations.append((o.name, o.tags, "proved" if r == "unsat" else "failed:" + r, time.time() - t1, o))
    solve.OPAQUE.update(vac)
    # vacuity: the precondition must be satisfiable, and some return must be reachable
    r = solve.prove_many(st0.conds(), [FALSE], timeout_ms=1500)[0]
    res.canary = "vacuous" if r == "unsat" else "ok"
    if res.canary != "ok":
        res.error = "vacuous precondition"
    if outs and all(solve.prove_many(s.conds(), [FALSE], timeout_ms=600)[0] == "unsat" for k, s, v in outs[:6] if not s.dead()) and len(outs) <= 6:
        res.error = "vacuous: no return is reachable"
