"""Loops over sequences of unknown length: cut at an invariant found by Houdini over typed templates.

The loop body is executed once from an arbitrary state satisfying the surviving candidates; a
candidate survives if it holds on entry and every path back to the loop head re-establishes it.
"""
import ast
import os
import sys
import time
from . import ir, solve
from .ir import *
from .vals import *

HOUDINI_MS = int(os.environ.get("PYVC_HOUDINI_MS", "400"))
DROPPED = []
RETRY_MS = 2500
DEBUG = os.environ.get("PYVC_DEBUG")       # print why a candidate of that name is dropped
TRACE = bool(os.environ.get("PYVC_TRACE"))
STATS = {"loops": 0, "invariants": 0, "candidates": 0}


def assigned_names(nodes):
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for n in nodes:
        visit(n)
    return out


class Handle:
    """something the loop changes (or could): a local variable or a list on the heap"""
    def __init__(self, ctx, name, kind, get):
        self.name, self.kind, self.get = name, kind, get
        self.init = get(ctx.entry)

    def __repr__(self):
        return self.name


class Ctx:
    pass


class Dummy:
    def __init__(self, seq):
        self.seq = seq


def listterm(ex, st, r, et=None):
    o = st.heap[r]
    if not isinstance(o, HList) or o.moved == "stale":
        return None
    if o.seq is not None:
        return o.seq
    try:
        s = st.copy()
        return ex.lseq(s, r, et)[0]
    except Unsupported:
        return None


def valterm(ex, st, v, sort=None):
    """term view of a value, or None"""
    if isinstance(v, Term):
        return v if sort is None or v.sort == sort else None
    if isinstance(v, Ref):
        et = et_of_sort(sort[1]) if sort is not None and isseq(sort) else None
        t = listterm(ex, st, v, et)
        return t if t is not None and (sort is None or t.sort == sort) else None
    if isinstance(v, NumV) and sort == "num":
        return v
    return None


def havoc_value(ex, st, name, old, samples):
    """an arbitrary value of the kind shared by old and the samples [(state, value)]"""
    vals = [old] + [v for _, v in samples]
    states = [st] + [s for s, _ in samples]
    if all(v is old or (isinstance(v, PyV) and v == old) for v in vals):
        if not isinstance(old, (Term, Ref, NumV, tuple)):
            return old
    if all(isinstance(v, Term) for v in vals) and len({v.sort for v in vals}) == 1:
        if all(v is old for v in vals):
            return old
        h = fresh(name, old.sort)
        return h
    if all(isinstance(v, (Term, NumV)) for v in vals) and all(isinstance(v, NumV) or v.sort == "Int" for v in vals):
        if all(v is old for v in vals):
            return old
        return NumV(fresh(name + ".inf", "Bool"), fresh(name, "Int"))
    if isinstance(old, tuple) and all(isinstance(v, tuple) and len(v) == len(old) for v in vals):
        return tuple(havoc_value(ex, st, f"{name}.{i}", old[i], [(s, v[i]) for s, v in samples]) for i in range(len(old)))
    if all(isinstance(v, Ref) for v in vals):
        if all(v is old for v in vals):
            return old
        et = None
        owned = True
        for s, v in zip(states, vals):
            o = s.heap[v]
            if not isinstance(o, HList):
                return Undef(f"object reassigned in a loop ({name})")
            owned = owned and o.owned
            e = o.et
            if e is None and o.items:
                try:
                    e = ex.lseq(s.copy(), v)[1]
                except Unsupported:
                    return Undef(f"list of mixed values ({name})")
            if e is not None:
                if et is not None and et != e:
                    return Undef(f"lists of different types ({name})")
                et = e
        if et is None:
            et = "str"
        return st.alloc(HList(seq=fresh(name, Seq(et_sort(et))), et=et, owned=owned))
    return Undef(f"{name} has different kinds of values in a loop")


def run(ex, f):
    """run f with obligations and exceptions captured -> (outs, obligations, raised)"""
    obs, ex.obs = ex.obs, []
    ex.sinks.append([])
    try:
        outs = f()
    finally:
        raised = ex.sinks.pop()
        mine, ex.obs = ex.obs, obs
    return outs, mine, raised


def loop(ex, x, st, guard, names, view, target, kind, it=None):
    """guard(head, i) -> [(state with target bound, stays)]; see for_loop and while_loop"""
    STATS["loops"] += 1
    ex.loopcount = getattr(ex, "loopcount", 0) + 1
    entry = st
    i = fresh("k", "Int")
    bound = [n for n in names if n in entry.env and not isinstance(entry.env[n], Undef)]
    H = {}                     # heap lists that change: ref -> element type
    samples = {n: [] for n in names}
    ghosts = {}

    def make_head():
        hs = entry.copy()
        hs.env = dict(entry.env)
        for r, et in H.items():
            o = entry.heap[r]
            hs.heap[r] = HList(seq=fresh("L", Seq(et_sort(et))), et=et, owned=o.owned, origin=None)
        for n in names:
            if n in bound:
                hs.env[n] = havoc_value(ex, hs, n, entry.env[n], samples[n])
            else:
                hs.env[n] = Undef(f"{n} before the loop assigns it")
        for g, v in ghosts.items():
            hs.ghost[g] = v
        hs.assume(le(I(0), i))
        return hs

    def body_from(hs):
        def f():
            outs = []
            for s in guard(hs, i):
                outs.extend(ex.block(x.body, s))
            return outs
        return run(ex, f)

    # 1. which parts of the state change, and of what kind are they
    for attempt in range(12):
        hs = make_head()
        outs, obs, raised = body_from(hs)
        changed = False
        allouts = [s for k, s, v in outs] + [s for s, e in raised]
        for s in allouts:
            for r, o in hs.heap.items():
                n = s.heap.get(r)
                if n is o or n is None:
                    continue
                if r not in entry.heap:
                    # a list that a loop variable refers to, modified in place
                    continue
                if isinstance(o, HIter):
                    raise Unsupported("iterator advanced inside a loop")
                if not isinstance(n, HList):
                    if isinstance(n, HObj) and not any(n.attrs.get(a) is not b for a, b in o.attrs.items()):
                        continue
                    raise Unsupported("object changed in a loop")
                if n.moved != o.moved and n.seq is o.seq and n.items is o.items:
                    continue
                et = n.et
                if et is None and n.items:
                    et = ex.lseq(s.copy(), r)[1]
                if r not in H and et is not None:
                    H[r] = et
                    changed = True
                elif r in H and et is not None and H[r] != et:
                    raise Unsupported("list changes its element type in a loop")
        for k, s, v in outs:
            if k not in ("next", "continue"):
                continue
            for n in bound:
                v2 = s.env.get(n)
                if v2 is None and n not in s.env:
                    raise Unsupported("variable deleted in a loop")
                if isinstance(v2, Undef):
                    continue
                if v2 is not hs.env[n]:
                    if hs.env[n] is entry.env[n] and not (isinstance(v2, (Term, PyV, type(None))) and v2 == hs.env[n]) or not compatible(ex, hs, hs.env[n], s, v2):
                        samples[n].append((s, v2))
                        changed = True
            for g in set(s.ghost) | set(hs.ghost):
                was, now = (t.ghost[g] if g in t.ghost else ex.models.ghost_default(g) if isinstance(g, tuple) else None for t in (hs, s))
                if was is not now and was != now:
                    if g not in ghosts:
                        ghosts[g] = ex.models.ghost_havoc(ex, g, was, now)
                        changed = True
        if not changed:
            break
    else:
        raise Unsupported("loop state does not stabilise")

    # 2. candidates
    ctx = Ctx()
    ctx.ex, ctx.entry, ctx.head, ctx.i, ctx.x, ctx.view, ctx.kind, ctx.line = ex, entry, hs, i, x, view, kind, x.lineno
    ctx.mods = []
    seen = set()
    for n in names:
        if n not in bound:
            continue
        v = hs.env[n]
        if isinstance(v, Term) and v is not entry.env[n]:
            ctx.mods.append(Handle(ctx, n, v.sort, lambda s, n=n, k=v.sort: valterm(ex, s, s.env.get(n), k)))
        elif isinstance(v, Ref) and v is not entry.env[n] and isinstance(hs.heap[v], HList):
            k = hs.heap[v].seq.sort
            ctx.mods.append(Handle(ctx, n, k, lambda s, n=n, k=k: valterm(ex, s, s.env.get(n), k)))
    for r in H:
        k = hs.heap[r].seq.sort
        nm = next((n for n, v in entry.env.items() if v is r), f"@{r.id}")
        ctx.mods.append(Handle(ctx, nm, k, lambda s, r=r, k=k: valterm(ex, s, r, k)))
    for g in ghosts:
        if isinstance(hs.ghost[g], Term):
            ctx.mods.append(Handle(ctx, f"ghost {g}", hs.ghost[g].sort, lambda s, g=g: s.ghost[g] if g in s.ghost else ex.models.ghost_default(g) if isinstance(g, tuple) else None))
    ctx.mods = [h for h in ctx.mods if h.init is not None]
    ctx.scope = []
    for n, v in entry.env.items():
        if n in names:
            continue
        t = valterm(ex, entry, v)
        if isinstance(v, Ref) and v in H:
            continue
        if t is not None:
            ctx.scope.append((n, t))
    havoced = set()
    for h in ctx.mods:
        havoced |= set(freevars(h.get(hs)))
    ctx.havoced = havoced
    ctx.known = set()
    for t in list(entry.conds()) + [t for n, t in ctx.scope]:
        ctx.known |= set(freevars(t))
    cands = []
    tset = set()

    def addc(label, fn):
        try:
            t = fn(hs, i)
        except (Unsupported, AssertionError, KeyError, TypeError):
            return
        if t is None or t is TRUE or t.id in tset:
            return
        tset.add(t.id)
        cands.append((label, fn, t))

    outs_, mark = outs, len(hs.pc)
    for label, fn in builtin_templates(ctx, outs, mark):
        addc(label, fn)
    guesses = {c3[0] for c3 in cands}
    c = ex.cur
    pools = list(getattr(ex, "loop_templates", ()))
    if c is not None:
        pools += list(c.templates)
    for tm in pools:
        try:
            for label, fn in tm(ctx):
                addc(label, fn)
        except Unsupported:
            pass
    STATS["candidates"] += len(cands)
    # 3. hold on entry
    goals = []
    keep = []
    for c3 in cands:
        try:
            g = c3[1](entry, I(0))
        except (Unsupported, AssertionError, KeyError, TypeError):
            continue
        if g is None:
            continue
        keep.append(c3)
        goals.append(g)
    res = pm([t for t in entry.conds()], goals, HOUDINI_MS)
    cands = [c3 for c3, r in zip(keep, res) if r == "unsat"]
    dropped0 = [c3[0] for c3, r in zip(keep, res) if r != "unsat"]
    # 4. Houdini
    rounds = 0
    while True:
        rounds += 1
        head = hs.copy()
        for label, fn, t in cands:
            head.assume(t)
        outs, obs, raised = body_from(head)
        bad = set()
        for k, s, v in outs:
            if k not in ("next", "continue") or s.dead():
                continue
            live = [(j, c3) for j, c3 in enumerate(cands) if j not in bad]
            goals, idx = [], []
            for j, c3 in live:
                try:
                    g = c3[1](s, add(i, I(1)))
                except (Unsupported, AssertionError, KeyError, TypeError):
                    g = None
                if g is None:
                    bad.add(j)
                    continue
                goals.append(g)
                idx.append(j)
            t0 = time.time()
            answers = pm(s.conds(), goals, HOUDINI_MS)
            if TRACE and time.time() - t0 > 2:
                print(f"  loop {x.lineno}: {len(goals)} candidates on path of {len(outs)} took {time.time() - t0:.1f} s, not proved",
                      [cands[j][0] for j, r in zip(idx, answers) if r != "unsat"], file=sys.stderr)
            for j, r in zip(idx, answers):
                if r != "unsat":
                    bad.add(j)
                    if DEBUG and DEBUG in cands[j][0]:
                        DROPPED.append((cands[j][0], s.conds(), goals[idx.index(j)]))
                        A, G = solve.solve_eqs(s.conds(), [goals[idx.index(j)]])
                        print("DROP", cands[j][0], r, *map(str, A), "  |-  " + str(G[0]), sep="\n   ", file=sys.stderr)
        if not bad:
            break
        # guesses of the engine go before those of the contract, which may fail only because of them
        worse = {j for j in bad if cands[j][0] in guesses}
        bad = worse or bad
        if TRACE:
            print(f"  loop {x.lineno}: dropped", [cands[j][0] for j in sorted(bad)], file=sys.stderr)
        cands = [c3 for j, c3 in enumerate(cands) if j not in bad]
    STATS["invariants"] += len(cands)
    if TRACE:
        print(f"  loop {x.lineno} ({ex.curfv.qual}): entry-dropped {dropped0}; kept {[c3[0] for c3 in cands]}", file=sys.stderr)
    ex.loopinfo.append((ex.curfv.qual, x.lineno, [c3[0] for c3 in cands], rounds))
    ex.obs.extend(obs)
    for s, exc in raised:
        ex.raise_(s, exc)
    # 5. outcomes
    res = []
    exitst = hs.copy()
    for label, fn, t in cands:
        exitst.assume(t)
    return ctx, exitst, outs, cands


def compatible(ex, hs, a, s, b):
    if isinstance(a, Undef):
        return True
    if isinstance(a, Term):
        return isinstance(b, Term) and a.sort == b.sort and a.op == "var" or a is b
    if isinstance(a, NumV):
        return (isinstance(b, NumV) or (isinstance(b, Term) and b.sort == "Int")) and a.val.op == "var"
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(compatible(ex, hs, x, s, y) for x, y in zip(a, b))
    if isinstance(a, Ref):
        if not isinstance(b, Ref):
            return False
        if a is b:
            return True
        oa, ob = hs.heap[a], s.heap[b]
        if not (isinstance(oa, HList) and isinstance(ob, HList)):
            return False
        if oa.seq is None or oa.seq.op != "var":
            return False
        if oa.owned and not ob.owned:
            return False
        e = ob.et
        if e is None and ob.items:
            e = ex.lseq(s.copy(), b)[1]
        return e is None or e == oa.et
    return a is b or (isinstance(a, PyV) and a == b)


def pm(asserts, goals, ms, chunk=24):
    out = []
    for k in range(0, len(goals), chunk):
        out += solve.prove_many(asserts, goals[k:k + chunk], timeout_ms=ms)
    # no answer is not a refutation: ask again, alone and for longer
    for j, r in enumerate(out):
        if r == "unknown":
            out[j] = solve.prove_many(asserts, [goals[j]], timeout_ms=RETRY_MS)[0]
    return out


# ---- templates -----------------------------------------------------------------------------------
def builtin_templates(ctx, outs, mark):
    out = []
    mods, i = ctx.mods, ctx.i
    ints = [h for h in mods if h.kind == "Int"]
    bools = [h for h in mods if h.kind == "Bool"]
    strs = [h for h in mods if h.kind == "Str"]
    seqs = [h for h in mods if isseq(h.kind)]
    vw = ctx.view
    Q = off = None
    if vw is not None and vw.base is not None:
        Q, off = vw.base, vw.off
    N = vw.n if vw is not None else None
    if Q is None and N is not None and N.op == "len":
        Q, off = N.args[0], I(0)
    if vw is not None and N is not None:
        out.append(("i <= n", lambda s, k: le(k, N)))
    sconst = [(n, t) for n, t in ctx.scope if t.sort == "Str" or isseq(t.sort)]
    inits = [(h.name + "0", h.init) for h in mods if h.init is not None and h.kind != "Int" and h.kind != "Bool"]
    for h in ints:
        out.append((f"{h} >= 0", lambda s, k, h=h: le(I(0), h.get(s))))
        if h.init.op != "int" or h.init.data != 0:
            out.append((f"{h} >= {h}0", lambda s, k, h=h: le(h.init, h.get(s))))
        out.append((f"{h} == {h}0 + i", lambda s, k, h=h: eq(h.get(s), add(h.init, k))))
        if vw is not None:
            out.append((f"{h} <= {h}0 + i", lambda s, k, h=h: le(h.get(s), add(h.init, k))))
        for n, t in sconst:
            out.append((f"{h} <= len({n})", lambda s, k, h=h, t=t: le(h.get(s), length(t))))
        for g in ints:
            if g is not h:
                out.append((f"{h} <= {g}", lambda s, k, h=h, g=g: le(h.get(s), g.get(s))))
    for h in bools:
        out.append((f"{h}", lambda s, k, h=h: h.get(s)))
        out.append((f"not {h}", lambda s, k, h=h: not_(h.get(s))))
        for L in seqs:
            out.append((f"{h} == ({L} == [])", lambda s, k, h=h, L=L: eq(h.get(s), eq(length(L.get(s)), I(0)))))
    for a in seqs:
        e = a.kind
        out.append((f"len({a}) == len({a}0) + i", lambda s, k, a=a: eq(length(a.get(s)), add(length(a.init), k))))
        out.append((f"{a} != []", lambda s, k, a=a: lt(I(0), length(a.get(s)))))
        for b in seqs:
            if b is not a:
                if b.name > a.name:
                    out.append((f"len({a}) == len({b})", lambda s, k, a=a, b=b: eq(length(a.get(s)), length(b.get(s)))))
                if a.kind == b.kind:
                    for n, t in dict((id(t), (n, t)) for n, t in sconst + inits if t.sort == e).values():
                        out.append((f"{a} + {b} == {n}", lambda s, k, a=a, b=b, t=t: eq(concat(a.get(s), b.get(s)), t)))
        if Q is not None and Q.sort == e:
            out.append((f"{a} == {a}0 + Q[:i]", lambda s, k, a=a: eq(a.get(s), concat(a.init, slice_(Q, off, add(off, k))))))
    for a in strs:
        if Q is not None and Q.sort == "Str":
            out.append((f"{a} == {a}0 + Q[:i]", lambda s, k, a=a: eq(a.get(s), concat(a.init, slice_(Q, off, add(off, k))))))
    while Q is not None and Q.op == "fold" and Q.data[0] == "seq" and Q.args[1].op == "unit":
        Q = Q.args[0]           # a list made element by element of another: the other's elements
    if Q is not None:
        out += accumulators(ctx, outs, mark, Q, off)
        out += callfacts(ctx, outs, mark, Q, off)
    # every element processed so far took one of the paths that continue
    conds = []
    ok = True
    for k, s, v in outs:
        if k not in ("next", "continue") or s.dead():
            continue
        conds.append([t for t, f in s.pc[mark:] if not f])
    if conds and Q is not None:
        el = nth(Q, add(off, i))
        b = fresh("ch" if Q.sort == "Str" else "bx", esort(Q))
        hv = set(ctx.havoced) | {i.id}
        cl = []
        for cs in conds:
            ts = []
            for t in cs:
                u = subst(t, {el: b})
                if not (set(freevars(u)) & hv):
                    ts.append(u)
            cl.append(and_(*ts))
        body = or_(*cl)
        if body is not TRUE and occurs(b, body):
            out.append(("all processed elements continue", lambda s, k: mkfold(slice_(Q, off, add(off, k)), "and", b, body)))
        for a in seqs:
            if a.kind == Q.sort and body is not TRUE and occurs(b, body):
                pass
    # while loops that move elements from the front of one list to the end of another
    if ctx.kind == "while" and conds:
        for R in seqs:
            r = R.get(ctx.head)
            el = nth(r, I(0))
            b = fresh("bx", esort(r))
            cl = []
            for cs in conds:
                ts = [subst(t, {el: b}) for t in cs]
                ts = [t for t in ts if set(freevars(t)) <= ctx.known | {b.id}]
                cl.append(and_(*ts))
            body = or_(*cl)
            if body is TRUE or not occurs(b, body):
                continue
            for a in seqs:
                if a is not R and a.kind == R.kind:
                    out.append((f"the first line of {R}0 continues",
                                lambda s, k, a=a, R=R, b=b, body=body: implies(lt(length(a.init), length(a.get(s))), subst(body, {b: nth(R.init, I(0))}))))
                    out.append((f"all of {a} added so far continue",
                                lambda s, k, a=a, b=b, body=body: mkfold(slice_(a.get(s), length(a.init), length(a.get(s))), "and", b, body)))
                    out.append((f"{a}0 is a prefix of {a}",
                                lambda s, k, a=a: and_(le(length(a.init), length(a.get(s))), eq(slice_(a.get(s), I(0), length(a.init)), a.init))))
    return out


def callfacts(ctx, outs, mark, Q, off):
    """what the functions called for an element promised, holds of every element processed"""
    el = nth(Q, add(off, ctx.i))
    hv = set(ctx.havoced) | {ctx.i.id}
    out = []
    live = [s for k, s, v in outs if k in ("next", "continue") and not s.dead()]
    if not live:
        return out
    common = set.intersection(*[{t.id for t, f in s.pc[mark:] if not f} for s in live])
    for s in live:
        b = fresh("ch" if Q.sort == "Str" else "bx", esort(Q))
        sub_ = {el: b}
        cond = and_(*[u for u in (subst(t, sub_) for t, f in s.pc[mark:] if not f and t.id not in common) if not set(freevars(u)) & hv])
        for t, f in s.pc[mark:]:
            if f and t.id in ctx.ex.callfacts:
                u = subst(t, sub_)
                if occurs(b, u) and not set(freevars(u)) & hv:
                    out.append((f"what is promised of each element: {str(u)[:60]}", lambda s, k, u=u, cond=cond, b=b: mkfold(slice_(Q, off, add(off, k)), "and", b, implies(cond, u))))
    return out


def accumulators(ctx, outs, mark, Q, off):
    """what is added to a list, string or number in one iteration depends on the element alone: a fold"""
    el = nth(Q, add(off, ctx.i))
    hv = set(ctx.havoced) | {ctx.i.id}
    out = []
    for h in ctx.mods:
        if h.kind != "Int" and h.kind != "Str" and not isseq(h.kind):
            continue
        b = fresh("ch" if Q.sort == "Str" else "bx", esort(Q))
        h0 = h.get(ctx.head)
        paths = []
        for k, s, v in outs:
            if k not in ("next", "continue") or s.dead():
                continue
            t = h.get(s)
            if t is None:
                break
            if h.kind == "Int":
                d = sub(t, h0)
            elif t is h0:
                d = S("") if h.kind == "Str" else empty(h.kind)
            elif parts(t)[0] is h0:
                d = concat(*parts(t)[1:], sort=h.kind)
            else:
                break
            d = subst(d, {el: b})
            if set(freevars(d)) & hv:
                break
            ts = [u for u in (subst(t, {el: b}) for t, f in s.pc[mark:] if not f) if not set(freevars(u)) & hv]
            paths.append((and_(*ts), d))
        else:
            if not paths:
                continue
            body = paths[-1][1]
            for c, d in reversed(paths[:-1]):
                body = ite(c, d, body)
            m = m_of(h.kind) or "sum"
            if not occurs(b, body) and m == "sum":
                continue
            op = add if m == "sum" else concat
            out.append((f"{h} == {h}0 + what each element adds",
                        lambda s, k, h=h, m=m, b=b, body=body, op=op: eq(h.get(s), op(h.init, mkfold(slice_(Q, off, add(off, k)), m, b, body)))))
    return out


# ---- the two kinds of loop --------------------------------------------------------------------------
def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def for_loop(ex, x, vw, st, it):
    names = assigned_names(x.body) | target_names(x.target)
    body_assigned = assigned_names(x.body)
    tn = target_names(x.target)
    iterated = it if isinstance(it, Ref) and isinstance(st.heap.get(it), HList) else None
    before = st.heap.get(iterated) if iterated is not None else None
    state = st.copy()

    def guard(hs, i):
        s = hs.copy()
        if vw.n is not None:
            s = s.plus(lt(i, vw.n))
        if s.dead():
            return []
        v = vw.elem(s, i)
        return ex.assign(x.target, v, s)

    # the relation between targets and the position holds at every head: added as candidates
    def target_templates(ctx):
        out = []
        for n in tn:
            if n in body_assigned or n not in st.env:
                continue

            def fn(s, k, n=n):
                a, b = s.env.get(n), st.env.get(n)
                s2 = s.copy()
                v = vw.elem(s2, sub(k, I(1)))
                ss = ex.assign(x.target, v, s2)
                c = ss[0].env.get(n)
                if isinstance(a, Term) and isinstance(b, Term) and isinstance(c, Term) and a.sort == b.sort == c.sort:
                    return ite(le(k, I(0)), eq(a, b), eq(a, c))
                return None
            out.append((f"target {n}", fn))
        return out
    old = getattr(ex, "loop_templates", ())
    ex.loop_templates = tuple(old) + (target_templates,)
    try:
        ctx, exitst, outs, cands = loop(ex, x, state, guard, names, vw, x.target, "for", it)
    finally:
        ex.loop_templates = old
    i = ctx.i
    if iterated is not None and ctx.head.heap.get(iterated) is not before:
        raise Unsupported("list modified while iterating over it")
    res = []

    def advance(s, k):
        if isinstance(it, Ref) and isinstance(st.heap.get(it), HIter):
            o = st.heap[it]
            s = s.copy()
            s.heap[it] = HIter(o.view, add(o.pos, k))
        return s
    for k, s, v in outs:
        if k == "break":
            res.append(("next", advance(s, add(i, I(1))), None))
        elif k == "return":
            res.append((k, s, v))
    if vw.n is not None:
        e = exitst.copy()
        n = vw.n
        # substitute nothing; just state that the whole sequence was consumed
        e = e.plus(eq(i, n))
        for nme in tn | body_assigned:
            if nme not in st.env:
                e.env = dict(e.env)
                e.env[nme] = Undef(f"{nme} only assigned inside a loop")
        e = advance(e, i)
        if not e.dead():
            if x.orelse:
                for k, s, v in ex.block(x.orelse, e):
                    res.append((k, s, v))
            else:
                res.append(("next", e, None))
    return res


def while_loop(ex, x, st):
    names = assigned_names(x.body) | assigned_names([x.test])
    tests = {}

    def guard(hs, i):
        out = []
        for s, c in ex.ev(x.test, hs):
            t = ex.truth(s, c)
            s2 = s.plus(t)
            if not s2.dead():
                out.append(s2)
        return out
    ctx, exitst, outs, cands = loop(ex, x, st, guard, names, None, None, "while")
    i = ctx.i
    res = []
    for k, s, v in outs:
        if k == "break":
            res.append(("next", s, None))
        elif k == "return":
            res.append((k, s, v))
    # termination: some list gets shorter in every iteration
    if ex.want(("C20",)):
        nexts = [s for k, s, v in outs if k in ("next", "continue") and not s.dead()]
        variants = [h for h in ctx.mods if isseq(h.kind) or h.kind == "Str"]
        best = None
        for h in variants:
            h0 = h.get(ctx.head)
            rs = [solve.prove(s.conds(), lt(length(h.get(s)), length(h0)), 2000) for s in nexts]
            if all(rs):
                best = h
                break
            if best is None or sum(rs) > best[1]:
                best = (h, sum(rs))
        if isinstance(best, tuple):
            best = best[0]
        for s in nexts:
            ex.lineno = x.lineno
            g = FALSE if best is None else lt(length(best.get(s)), length(best.get(ctx.head)))
            ex.oblige(s, g, "termination: the while loop makes progress", ("C20",))
    for s, c in ex.ev(x.test, exitst):
        e = s.plus(not_(ex.truth(s, c)))
        if e.dead():
            continue
        e.env = dict(e.env)
        for n in names:
            if n not in st.env:
                e.env[n] = Undef(f"{n} only assigned inside a loop")
        if x.orelse:
            res.extend(ex.block(x.orelse, e))
        else:
            res.append(("next", e, None))
    return res
