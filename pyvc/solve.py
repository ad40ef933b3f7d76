"""From terms to SMT-LIB: ground axiom instances for the library functions and the folds, printing,
and running the solvers."""
import hashlib
import os
import re
import subprocess
import tempfile
import time
from . import ir, chars
from .ir import *

CVC5 = "/opt/veriftools/bin/cvc5"
STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0}


def which(name):
    for d in os.environ.get("PATH", "").split(":") + ["/usr/local/bin", "/opt/veriftools/bin"]:
        if os.path.exists(os.path.join(d, name)):
            return os.path.join(d, name)
    return name


# ---- axiom schemas: functions from an application term to formulas --------------------------
SCHEMAS = {}   # app name or prefix (before ':') -> function(term) -> [formulas]
OP_SCHEMAS = {}


def schema(name):
    def deco(f):
        SCHEMAS[name] = f
        return f
    return deco


def is_all(t):
    return t.op == "fold" and t.data[0] == "and"


def allchars(s, pred):
    return fold(s, "and", pred)


def allws(s):
    return fold(s, "and", chars.isws)


def charset_pred(cs):
    """the predicate of membership in a literal set of characters"""
    return lambda c: or_(*[eq(c, S(x)) for x in cs])


def strip_pred(t):
    kind = t.data.split(":", 1)[1]
    if kind == "ws":
        return chars.isws
    if kind == "$":
        setterm = t.args[1]
        return lambda c: contains(setterm, c)
    return charset_pred(kind[2:])


def ind_t(s, kind="ws", extra=()):
    if s.op == "str" and kind in ("ws",):
        return I(len(s.data) - len(s.data.lstrip()))
    if s.op == "str" and kind.startswith("c:"):
        return I(len(s.data) - len(s.data.lstrip(kind[2:])))
    return app("ind:" + kind, (s,) + tuple(extra), "Int")


def rend_t(s, kind="ws", extra=()):
    if s.op == "str" and kind in ("ws",):
        return I(len(s.data.rstrip()))
    if s.op == "str" and kind.startswith("c:"):
        return I(len(s.data.rstrip(kind[2:])))
    return app("rend:" + kind, (s,) + tuple(extra), "Int")


def send_t(s, kind="ws", extra=()):
    if s.op == "str":
        i = ind_t(s, kind)
        if i.op == "int":
            return I(len(s.data)) if i.data == len(s.data) else rend_t(s, kind)
    return app("send:" + kind, (s,) + tuple(extra), "Int")


def register_strip(kind):
    if kind.startswith("c:"):
        ir.STRIPSETS[kind] = kind[2:]
    for p in ("ind:", "rend:", "send:"):
        ir.NONNEG_APPS.add(p + kind)
        if kind == "ws" or kind.startswith("c:"):
            ir.APP_SIMP.setdefault(p + kind, strip_simp(p, kind))


def unstrippable(s, kind):
    """no character of s could be stripped"""
    if s.op not in ("fold", "rep") or not (kind == "ws" or kind.startswith("c:")):
        return False
    p = chars.isws if kind == "ws" else charset_pred(kind[2:])
    return fold(s, "and", lambda c: not_(p(c))) is TRUE


def strip_simp(which, kind):
    def simp(s):
        if unstrippable(s, kind):
            return I(0) if which == "ind:" else length(s)
        return None
    return simp


register_strip("ws")
register_strip("$")


def strip_hook(t, i, j):
    left = i.op == "app" and i.data.startswith("ind:") and len(i.args) == 1 and i.args[0] is t
    right = j.op == "app" and j.data.startswith(("rend:", "send:")) and len(j.args) == 1 and j.args[0] is t
    kind = (i if left else j).data.split(":", 1)[1] if left or right else None
    if kind is None or kind == "$":
        return None
    if left and right and j.data == "send:" + kind:
        return strip(t, kind)
    if left and j is length(t):
        return strip_end(t, kind, True)
    if right and j.data.startswith("rend:") and i.op == "int" and i.data == 0:
        return strip_end(t, kind, False)
    return None


ir.STRIP_HOOK = strip_hook


def kindpred(kind):
    return chars.isws if kind == "ws" else charset_pred(kind[2:])


def strip_end(s, kind, left):
    """strip a concatenation or a choice by its parts"""
    if not (kind == "ws" or kind.startswith("c:")):
        return None
    f = lstrip if left else rstrip
    if s.op == "ite":
        return ite(s.args[0], f(s.args[1], kind), f(s.args[2], kind))
    if s.op == "concat":
        x = s.args[0 if left else -1]
        rest = concat(*(s.args[1:] if left else s.args[:-1]))
        gone = fold(x, "and", kindpred(kind))
        kept = concat(f(x, kind), rest) if left else concat(rest, f(x, kind))
        return ite(gone, f(rest, kind), kept) if gone is not FALSE else kept
    return None


def strip_offset(e, base, which, kind):
    """e = a0 + strip position of that kind in w = base[a0:b0]  ->  (a0, b0, w)"""
    d, c = ir._lin(e)
    for x, k in d.items():
        if k == 1 and x.op == "app" and x.data == which + kind and len(x.args) == 1:
            w, a0 = x.args[0], sub(e, x)
            if w is base and a0.op == "int" and a0.data == 0:
                return a0, length(base), w
            if w.op == "xslice" and w.args[0] is base and w.args[1] is a0:
                return a0, w.args[2], w
    return None


def stripped_left(s, kind):
    if s.op != "xslice":
        return False
    b, i, j = s.args
    r = strip_offset(i, b, "ind:", kind)
    if r is None:
        return False
    a0, b0, w = r
    return j is b0 or any(j is add(a0, app(p + kind, (w,), "Int")) for p in ("send:", "rend:"))


def stripped_right(s, kind):
    if s.op != "xslice":
        return False
    b, i, j = s.args
    r = strip_offset(j, b, "rend:", kind)
    if r is not None and nonneg(sub(i, r[0])):
        return True
    r = strip_offset(j, b, "send:", kind)
    return r is not None and i is add(r[0], app("ind:" + kind, (r[2],), "Int"))


def lstrip(s, kind="ws", extra=()):
    register_strip(kind)
    if stripped_left(s, kind):
        return s
    r = strip_end(s, kind, True)
    if r is not None:
        return r
    if s.op == "xslice" and s.args[1].op == "int" and s.args[1].data == 0 and s.args[2].op == "app" and s.args[2].data == "rend:" + kind and s.args[2].args[0] is s.args[0] and not extra:
        return strip(s.args[0], kind)
    if s.op == "str" and (kind == "ws" or kind.startswith("c:")):
        return S(s.data.lstrip(None if kind == "ws" else kind[2:]))
    if unstrippable(s, kind):
        return s
    if s.op == "xslice" and s.args[1].op == "app" and s.args[1].data == "ind:" + kind and s.args[1].args[0] is s.args[0] and not extra:
        return s            # already stripped on the left (an all-blank string is left empty)
    return xslice(s, ind_t(s, kind, extra), length(s))


def rstrip(s, kind="ws", extra=()):
    register_strip(kind)
    if stripped_right(s, kind):
        return s
    r = strip_end(s, kind, False)
    if r is not None:
        return r
    if s.op == "str" and (kind == "ws" or kind.startswith("c:")):
        return S(s.data.rstrip(None if kind == "ws" else kind[2:]))
    if unstrippable(s, kind):
        return s
    if s.op == "xslice" and s.args[2].op == "app" and s.args[2].data in ("rend:" + kind, "send:" + kind) and s.args[2].args[0] is s.args[0] and not extra \
            and s.args[1].op == "int" and s.args[1].data == 0:
        return s
    if s.op == "xslice" and s.args[2] is length(s.args[0]) and s.args[1].op == "app" and s.args[1].data == "ind:" + kind and s.args[1].args[0] is s.args[0] and not extra:
        return strip(s.args[0], kind)
    return xslice(s, I(0), rend_t(s, kind, extra))


def strip(s, kind="ws", extra=()):
    register_strip(kind)
    if stripped_left(s, kind) and stripped_right(s, kind):
        return s
    if s.op in ("concat", "ite", "str") and (kind == "ws" or kind.startswith("c:")):
        return lstrip(rstrip(s, kind), kind)
    if unstrippable(s, kind):
        return s
    if s.op == "xslice" and s.args[2].op == "app" and s.args[2].data == "send:" + kind and s.args[2].args[0] is s.args[0] and not extra \
            and s.args[1].op == "app" and s.args[1].data == "ind:" + kind:
        return s
    return xslice(s, ind_t(s, kind, extra), send_t(s, kind, extra))


@schema("ind")
def _ax_ind(t):
    s = t.args[0]
    p = strip_pred(t)
    n = length(s)
    out = [le(I(0), t), le(t, n), allchars(xslice(s, I(0), t), p),
           or_(eq(t, n), not_(p(nth(s, t)))), eq(allchars(s, p), eq(t, n))]
    if t.data[4:].startswith("c:") and len(t.data) > 8:
        out.append(implies(lt(I(0), t), p(nth(s, I(0)))))
    return out


@schema("rend")
def _ax_rend(t):
    s = t.args[0]
    p = strip_pred(t)
    n = length(s)
    return [le(I(0), t), le(t, n), allchars(xslice(s, t, n), p),
            or_(eq(t, I(0)), not_(p(nth(s, sub(t, I(1))))))]


@schema("send")
def _ax_send(t):
    s = t.args[0]
    kind = t.data.split(":", 1)[1]
    n = length(s)
    i, r = app("ind:" + kind, t.args, "Int"), app("rend:" + kind, t.args, "Int")
    return [eq(t, ite(eq(i, n), n, r)), le(i, t), le(t, n), or_(eq(i, n), lt(i, r)),
            implies(eq(i, n), eq(r, I(0)))]


@schema("str_of_int")
def _ax_soi(t):
    n = t.args[0]
    return [lt(I(0), length(t)), implies(le(I(0), n), fold(t, "and", charset_pred("0123456789")))]


@schema("splitlines")
def _ax_splitlines(t):
    s = t.args[0]
    return [fold(t, "and", lambda x: fold(x, "and", lambda c: not_(chars.islsep(c)))),
            implies(eq(s, S("")), eq(t, empty(t.sort))),
            implies(eq(t, empty(t.sort)), eq(s, S(""))),
            # without a separator, the string is its only line
            implies(and_(fold(s, "and", lambda c: not_(chars.islsep(c))), ne(s, S(""))), eq(t, unit(s)))] + joined_lines(t)


def joined_lines(t):
    """lines joined by newlines, with one at the end, are split into those lines"""
    ps = parts(t.args[0])
    if len(ps) < 2 or ps[-1].op != "str" or not ps[-1].data.endswith("\n"):
        return []
    ps = list(ps[:-1]) + ([S(ps[-1].data[:-1])] if len(ps[-1].data) > 1 else [])
    f = ps[-1]
    if len(ps) == 1 and f.op == "app" and f.data == "join" and f.args[0].op == "str" and f.args[0].data == "\n":
        L = f.args[1]
    elif f.op == "fold" and f.data[0] == "str" and isseq(f.args[0].sort) and f.args[1] is concat(S("\n"), f.data[1]):
        L = concat(unit(concat(*ps[:-1]) if len(ps) > 1 else S("")), f.args[0])
    elif f.op == "fold" and f.data[0] == "str" and isseq(f.args[0].sort) and parts(f.args[1])[0] is S("\n"):
        rest = concat(*parts(f.args[1])[1:]) if len(parts(f.args[1])) > 1 else S("")
        L = concat(unit(concat(*ps[:-1]) if len(ps) > 1 else S("")), mkfold(f.args[0], "seq", f.data[1], unit(rest)))
    else:
        L = unit(concat(*ps))
    nosep = fold(L, "and", lambda x: fold(x, "and", lambda c: not_(chars.islsep(c))))
    return [implies(and_(ne(L, empty(L.sort)), nosep), and_(eq(t, L), eq(length(t), length(L)), eq(nth(t, I(0)), nth(L, I(0)))))]


@schema("words")
def _ax_words(t):
    s = t.args[0]
    return [fold(t, "and", lambda x: and_(ne(x, S("")), fold(x, "and", lambda c: not_(chars.isws(c))))),
            eq(allws(s), eq(t, empty(t.sort)))]


@schema("split")
def _ax_split(t):
    s, sep = t.args
    out = [lt(I(0), length(t)),
           eq(app("join", (sep, t), "Str"), s)]
    if sep.op == "str" and len(sep.data) == 1:
        out.append(fold(t, "and", lambda x: fold(x, "and", lambda c: ne(c, sep))))
    return out


@schema("join")
def _ax_join(t):
    sep, L = t.args
    jp = fold(L, "str", lambda x: concat(sep, x))
    return [ite(eq(L, empty(L.sort)), eq(t, S("")), eq(concat(sep, t), jp))]


def join_simp(sep, L):
    if L.op == "empty":
        return S("")
    if L.op == "unit":
        return L.args[0]
    ps = parts(L)
    if all(p.op == "unit" for p in ps):
        out = []
        for i, p in enumerate(ps):
            if i:
                out.append(sep)
            out.append(p.args[0])
        return concat(*out)
    if len(ps) > 1 and (ps[0].op == "unit"):
        rest = concat(*ps[1:])
        return concat(ps[0].args[0], fold(rest, "str", lambda x: concat(sep, x)))
    if L.op == "app" and L.data == "split" and L.args[1] is sep:
        return L.args[0]
    if sep.op == "str" and sep.data == "" and L.op == "app" and L.data == "words":
        return fold(L.args[0], "str", lambda c: ite(chars.isws(c), S(""), c))
    if sep.op == "str" and sep.data == "" and L.op == "app" and L.data == "split" and L.args[1].op == "str" and len(L.args[1].data) == 1:
        return fold(L.args[0], "str", lambda c: ite(eq(c, L.args[1]), S(""), c))
    return None


ir.APP_SIMP["join"] = join_simp


def splitlines_simp(s):
    if s.op == "str":
        return concat(*[unit(S(x)) for x in s.data.splitlines()], sort=Seq("Str"))
    return None


ir.APP_SIMP["splitlines"] = splitlines_simp


def const_strip(which):
    def simp(s, *cs):
        if len(cs) == 1 and cs[0].op == "str" and cs[0].data:
            kind = "c:" + "".join(dict.fromkeys(cs[0].data))
            register_strip(kind)
            return app(which + kind, (s,), "Int")
        return None
    return simp


for _w in ("ind:", "rend:", "send:"):
    ir.APP_SIMP[_w + "$"] = const_strip(_w)


# ---- instantiation ---------------------------------------------------------------------------
def schema_for(t):
    if t.op == "app":
        f = SCHEMAS.get(t.data)
        if f is None:
            f = SCHEMAS.get(t.data.split(":", 1)[0])
        return f
    return OP_SCHEMAS.get(t.op)


def flatten_and(ts):
    for t in ts:
        if t.op == "and":
            yield from flatten_and(t.args)
        else:
            yield t


def solve_consts(asserts, goals):
    """terms known to equal a constant are replaced by it elsewhere (the equations stay)"""
    for _ in range(4):
        mm, keep = {}, []
        for t in asserts:
            if t.op == "eq0":
                dd, c = ir._lin(t.args[0])
                if len(dd) == 1:
                    a, k = next(iter(dd.items()))
                    if k in (1, -1) and (a.op == "app" or a.op == "len" and a.args[0].op == "app") and a not in mm:
                        mm[a] = I(-c * k)
                        keep.append(t)
            elif t.op == "eq" and t.args[0].sort == "Str":
                for x, y in (t.args, t.args[::-1]):
                    if x.op == "nth" and y.op == "str" and x not in mm:
                        mm[x] = y
                        keep.append(t)
        if not mm:
            break
        # innermost first: an argument may contain another of the terms
        memo = {}
        new = list(flatten_and([t if t in keep else subst(t, mm, memo) for t in asserts]))
        goals2 = [subst(t, mm, memo) for t in goals]
        if all(a is b for a, b in zip(new, asserts)) and len(new) == len(asserts) and goals2 == goals:
            break
        asserts, goals = new, goals2
    return asserts, goals


def solve_by_length(asserts):
    """X == (a term in which only X's length occurs), and X's length is known"""
    for i, t in enumerate(asserts):
        if t.op != "eq" or t.args[0].sort == "Bool":
            continue
        for x, y in (t.args, t.args[::-1]):
            if x.op != "var" or not occurs(x, y) or not (isseq(x.sort) or x.sort == "Str"):
                continue
            n = length(x)
            for u in asserts:
                if u.op != "eq0":
                    continue
                k = ir._lin(u.args[0])[0].get(n)
                if k not in (1, -1):
                    continue
                e = scale(-k, sub(u.args[0], scale(k, n)))
                if occurs(x, e):
                    continue
                y2 = subst(y, {n: e})
                if not occurs(x, y2):
                    return x, y2, i, e
    return None


def solve_eqs(asserts, goals):
    """use equations var == term to eliminate variables"""
    asserts = list(flatten_and(asserts))
    asserts, goals = solve_consts(asserts, goals)
    for _ in range(60):
        m = None
        for i, t in enumerate(asserts):
            if t.op == "eq":
                a, b = t.args
                for x, y in ((a, b), (b, a)):
                    if x.op == "var" and not occurs(x, y):
                        m = (x, y)
                        break
            elif t.op == "eq0":
                d = t.args[0]
                dd, c = ir._lin(d)
                for a, k in dd.items():
                    if a.op == "var" and k in (1, -1):
                        rest = sub(d, scale(k, a))
                        y = scale(-k, rest)
                        if not occurs(a, y):
                            m = (a, y)
                            break
                    # a list of length one is the list of its element
                    if a.op == "len" and a.args[0].op == "var" and isseq(a.args[0].sort) and len(dd) == 1 and k in (1, -1) and c * k in (0, -1):
                        q = a.args[0]
                        m = (q, empty(q.sort) if c == 0 else unit(var(q.data + ".only", q.sort[1])))
                        break
            if m:
                break
        if not m:
            m = solve_by_length(asserts)
            if m:
                i, lens = m[2], {length(m[0]): m[3]}
                memo = {}
                asserts = [t if j == i else subst(t, lens, memo) for j, t in enumerate(asserts)] + [eq(length(m[0]), m[3])]
                goals = [subst(t, lens, memo) for t in goals]
        if not m:
            break
        memo = {}
        mm = {m[0]: m[1]}
        del asserts[i]
        if nonneg(m[0]):
            asserts.append(le(I(0), m[1]))
        asserts = list(flatten_and([subst(t, mm, memo) for t in asserts]))
        goals = [subst(t, mm, memo) for t in goals]
    # dedupe, and use literal truths
    seen = {}
    for t in asserts:
        if t is FALSE:
            return [FALSE], goals
        if t is not TRUE:
            seen[t.id] = t
    return list(seen.values()), goals


def fold_key(t):
    return (t.data[0], t.data[1].id, t.args[1].id)


LEMMA_HOOK = None
LIGHT_MS = 300
WORDS_MS = 1000


SORT_KEYS = {}


LIGHT = {"ind", "rend", "send"}


def light(t):
    """schemas that only talk about sequences and integers"""
    return t.op != "app" or not t.args or t.data.split(":", 1)[0] in LIGHT or not any(a.sort == "Str" for a in t.args)


def instantiate(asserts, goals, rounds=3, limit=1500, lightly=False):
    """ground axiom instances relevant to the terms present"""
    done = set()
    axioms = []
    axid = set()
    allterms = {}
    ctx = {"gen": set(), "kinds": {}}

    def emit(f):
        for t in flatten_and([f]):
            if t is TRUE or t.id in axid:
                continue
            axid.add(t.id)
            axioms.append(t)

    frontier = list(asserts) + list(goals)
    for rnd in range(rounds):
        subterms(frontier, allterms)
        n0 = len(axioms)
        # 1. library schemas
        for t in list(allterms.values()):
            f = schema_for(t)
            if f and ("s", t.id) not in done and not (lightly and not light(t)):
                done.add(("s", t.id))
                for ax in f(t):
                    emit(ax)
            if not OPAQUE and lightly or t.op != "app" or not t.data.startswith("def:"):
                continue
            n = t.data[4:]
            if n in OPAQUE:
                if ("d", t.id) not in done and t.ht == 0:
                    done.add(("d", t.id))
                    for _, f in DLEMMAS.get(n, ()):
                        emit(f(*t.args))
            elif not lightly and t.ht == 0 and ("d", t.id) not in done:
                done.add(("d", t.id))
                emit(eq(t, DEFS[t.data[4:]][1](*t.args)))
        subterms(axioms[n0:], allterms)
        # facts that construction takes for granted
        for t in list(allterms.values()):
            if t.sort == "Int" and t.op in ("var", "app", "fold") and ("nn", t.id) not in done:
                done.add(("nn", t.id))
                if nonneg(t):
                    emit(ir._mk("ge0", (t,), "Bool"))
        if rnd == 0:
            for t in allterms.values():
                if t.op == "fold":
                    ctx["kinds"][fold_key(t)] = t
            if not lightly:
                for t in subterms(list(asserts) + list(goals), into_binders=True).values():
                    if is_all(t) and t.op == "fold" and t.args[0].op == "bv":
                        ctx["kinds"].setdefault(fold_key(t), t)
        # 2. folds over slices and elements
        slice_axioms(allterms, emit, done)
        fold_axioms({k: t for k, t in allterms.items() if not (t.op == "fold" and t.args[0].sort == "Str")} if lightly else allterms,
                    emit, done, ctx)
        # 3. equations between sequences, under every fold of interest
        eq_axioms(allterms, emit, done, ctx)
        # 4. relations between folds over the same sequence
        if not lightly:
            fold_relations(allterms, emit, done)
        else:
            fold_relations({k: t for k, t in allterms.items() if not (t.op == "fold" and t.args[0].sort == "Str")}, emit, done)
        if len(axioms) == n0 or len(axioms) > limit:
            break
        frontier = axioms[n0:]
    return axioms


def slice_axioms(allterms, emit, done):
    """adjacent slices of one sequence"""
    bybase = {}
    for t in allterms.values():
        if t.op in ("slice", "xslice") and isseq(t.sort):
            bybase.setdefault(t.args[0].id, (t.args[0], []))[1].append(t)
    for b, ts in bybase.values():
        for t in ts:
            for u in ts:
                if t is u or ("sl", t.id, u.id) in done:
                    continue
                done.add(("sl", t.id, u.id))
                i, j = t.args[1], t.args[2]
                i2, j2 = u.args[1], u.args[2]
                if i is i2:
                    d = sub(j2, j)
                    if d.op == "int" and d.data == 1:
                        emit(implies(and_(le(I(0), i), le(i, j), lt(j, length(b))), eq(u, concat(t, unit(nth(b, j))))))
                if j is j2:
                    d = sub(i2, i)
                    if d.op == "int" and d.data == 1:
                        emit(implies(and_(le(I(0), i), lt(i, j), le(j, length(b))), eq(t, concat(unit(nth(b, i)), u))))


HEAVY = {"prefixof", "suffixof", "contains", "inre"}


class Abstraction:
    """replace string-level terms by opaque constants (sound: only weakens what is assumed,
    and the goal is replaced by the same opaque constants)"""
    def __init__(self, words=False):
        self.memo = {}
        self.words = words          # keep concatenations, choices and equations of strings

    def bound(self, t):
        return t.ht > 0 or any(x.op == "bv" for x in subterms([t], into_binders=True).values())

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.do(t)
        return r

    def do(self, t):
        if not t.args:
            return t
        opaque = False
        if self.words and (t.sort == "Str" and t.op in ("concat", "ite") or t.op == "eq" and t.args[0].sort == "Str"):
            pass
        elif t.sort == "Bool" and (t.op in HEAVY or (t.op == "eq" and t.args[0].sort == "Str" and not all(
                a.op in ("var", "str") or (a.op == "nth" and isseq(a.args[0].sort)) for a in t.args)) or (
                t.op == "fold" and t.args[0].sort == "Str") or t.op == "app"):
            opaque = True
        elif t.sort == "Str" and not (t.op == "nth" and isseq(t.args[0].sort)) and t.op not in ("sel", "ite"):
            opaque = True
        elif t.sort == "Int" and t.op in ("fold", "app"):
            if t.op == "app" or t.args[0].sort == "Str":
                opaque = True
        elif isseq(t.sort) and (t.op == "app" or (t.op == "fold" and t.args[0].sort == "Str")):
            opaque = True
        if opaque:
            if t.op == "app" and t.args and False:
                return t
            return ir.var(f"abs{t.id}", t.sort)
        if t.op in ("fold", "bigcat"):
            s = self(t.args[0])
            if s is t.args[0]:
                return t
            return ir._mk(t.op, (s,) + t.args[1:], t.sort, t.data)
        args = tuple(self(a) for a in t.args)
        if all(a is b for a, b in zip(args, t.args)):
            return t
        return ir._mk(t.op, args, t.sort, t.data)


def _bounds_base(t):
    if t.op in ("slice", "xslice"):
        return t.args[0], t.args[1], t.args[2]
    return t, I(0), length(t)


def fold_axioms(allterms, emit, done, ctx):
    bykey = {}
    for t in allterms.values():
        if t.op != "fold" or t.id in ctx["gen"]:
            continue
        base, i, j = _bounds_base(t.args[0])
        if base.op == "fold":
            continue
        bykey.setdefault((fold_key(t), base.id), [base, t, {}])[2][(i.id, j.id)] = (i, j)
    nths = {}
    for t in allterms.values():
        if t.op == "nth":
            nths.setdefault(t.args[0].id, []).append(t.args[1])
    for (k, bid), (base, f, ivs) in bykey.items():
        m = f.data[0]
        b, body = f.data[1], f.args[1]
        n = length(base)
        at = lambda i: subst(body, {b: nth(base, i)})

        def F(i, j, gen=True):
            r = foldlike(f, base if i.op == "int" and i.data == 0 and j is n else slice_(base, i, j))
            if gen and r.op == "fold" and r.id not in allterms:
                ctx["gen"].add(r.id)
            return r
        pts = {p.id: p for p in nths.get(bid, [])}
        if k not in ctx["kinds"]:
            pts = {}
        for i, j in list(ivs.values()):
            whole = F(i, j, False)
            key = ("iv", k, bid, i.id, j.id)
            if key not in done:
                done.add(key)
                if whole.op == "fold":
                    if not (i.op == "int" and j is n):
                        emit(implies(le(j, i), eq(whole, m_id(m, whole.sort))))
                    if m == "max0":
                        emit(le(I(0), whole))
                    if m == "sum":
                        sum_bounds(whole, emit)
                    if m == "seq" and whole.args[1].op == "unit":
                        emit(eq(_rawlen(whole), length(whole.args[0])))
                    if m == "and":
                        s = whole.args[0]
                        first = subst(body, {b: nth(s, I(0))})
                        cl = [first]
                        if s.sort != "Str":
                            cl.append(subst(body, {b: nth(s, sub(length(s), I(1)))}))
                        emit(or_(not_(whole), eq(s, empty(s.sort)), and_(*cl)))
            g0 = [le(I(0), i), le(j, n)]
            for i2, j2 in list(ivs.values()):
                if i2 is i and j2 is j:
                    continue
                key = ("sub", k, bid, i.id, j.id, i2.id, j2.id)
                if key in done:
                    continue
                done.add(key)
                g = and_(*g0, le(i, i2), le(i2, j2), le(j2, j))
                if g is FALSE:
                    continue
                emit(implies(g, eq(whole, m_op(m, m_op(m, F(i, i2), F(i2, j2)), F(j2, j)))))
                if m == "sum":
                    for part in (F(i, i2), F(j2, j)):
                        if part.op == "fold":
                            sum_bounds(part, emit)
            for p in pts.values():
                key = ("pt", k, bid, i.id, j.id, p.id)
                if key in done:
                    continue
                done.add(key)
                g = and_(*g0, le(i, p), lt(p, j))
                if g is FALSE:
                    continue
                if m == "and":
                    emit(implies(and_(g, whole), at(p)))
                elif m == "or":
                    emit(implies(and_(g, at(p)), whole))
                elif m == "max0":
                    emit(implies(g, le(at(p), whole)))
                q = add(p, I(1))
                emit(implies(g, eq(whole, m_op(m, m_op(m, F(i, p), at(p)), F(q, j)))))


    # a part of a part
    for t in list(allterms.values()):
        if t.op == "fold" and t.data[0] == "and" and ("part", t.id) not in done:
            q = t.args[0]
            if q.op in ("slice", "xslice") and q.args[0].op in ("slice", "xslice"):
                q = q.args[0]
                while q.op in ("slice", "xslice"):
                    q = q.args[0]
                    w = foldlike(t, q)
                    if w.id in allterms:
                        done.add(("part", t.id))
                        emit(implies(w, t))


def sum_bounds(t, emit):
    """a sum of numbers of at least 1 (or 0)"""
    body = t.args[1]
    if nonneg(sub(body, I(1))):
        emit(ir._mk("ge0", (sub(t, length(t.args[0])),), "Bool"))
    elif nonneg(body):
        emit(ir._mk("ge0", (t,), "Bool"))


def _rawlen(t):
    return ir._mk("len", (t,), "Int")


def _imagey(t):
    return any(p.op == "fold" for p in parts(t))


_defnames = {}


def defnames(ts):
    """the named functions that occur in the terms"""
    out = set()
    for t in ts:
        if t.id not in _defnames:
            _defnames[t.id] = {x.data for x in subterms([t], into_binders=True).values() if x.op == "app" and x.data.startswith("def:")}
        out |= _defnames[t.id]
    return out


def eq_axioms(allterms, emit, done, ctx):
    kinds, applied = {}, {}
    for k, t in ctx["kinds"].items():
        kinds.setdefault(t.args[0].sort, {})[k] = t
    for t in allterms.values():
        if t.op == "fold" and t.id not in ctx["gen"]:
            applied.setdefault(fold_key(t), set()).add(_bounds_base(t.args[0])[0].id)
    for t in list(allterms.values()):
        if t.op == "eq" and t.args[0].sort in kinds:
            a, b = t.args
            for u, v in ((a, b), (b, a)):
                # the lines of a text have its characters but for the separators
                if u.op == "app" and u.data == "splitlines" and v.op != "var":
                    for f in [f for f in allterms.values() if f.op == "fold" and f.args[0] is u.args[0]]:
                        key = ("lines", t.id, f.id)
                        if key not in done and chars.vanishes_on(f.data[0], f.data[1], f.args[1], "islsep"):
                            done.add(key)
                            x = fresh("ln", "Str")
                            emit(implies(t, eq(f, mkfold(v, f.data[0], x, foldlike(f, x)))))
            if a.sort == "Str" and (_imagey(a) or _imagey(b)):
                continue
            mapped = a.sort != "Str" and _imagey(a) + _imagey(b)
            sides = {_bounds_base(x)[0].id for y in (a, b) if not _imagey(y) for x in parts(y)} if mapped == 1 else None
            for k, f in kinds[a.sort].items():
                key = ("eq", t.id, k)
                if key in done or sides is not None and not sides & applied.get(k, set()):
                    continue            # (what is asked of the image is asked of its elements, not the other way round)
                done.add(key)
                emit(implies(t, eq(foldlike(f, a), foldlike(f, b))))
        elif t.op in ("prefixof", "suffixof") and t.args[0].sort == "Str":
            p, s = t.args
            n = length(s)
            rest = slice_(s, length(p), n) if t.op == "prefixof" else slice_(s, I(0), sub(n, length(p)))
            for k, f in kinds.get("Str", {}).items():
                key = ("pre", t.id, k)
                if key in done:
                    continue
                done.add(key)
                x, y = foldlike(f, p), foldlike(f, rest)
                m = f.data[0]
                emit(implies(t, eq(foldlike(f, s), m_op(m, x, y) if t.op == "prefixof" else m_op(m, y, x))))


_relcache = {}


def char_relation(p, f):
    """p: and-fold over characters; f: another fold over characters.
    -> True when p(c) for all characters makes f the identity"""
    key = ("c", fold_key(p), fold_key(f))
    r = _relcache.get(key)
    if r is None:
        b1, p1 = p.data[1], p.args[1]
        b2, p2 = f.data[1], f.args[1]
        mid = m_id(f.data[0], p2.sort)
        r = True
        try:
            for c in chars.reps_for(p1, p2):
                x = subst(p1, {b1: S(c)})
                if x is FALSE:
                    continue
                y = subst(p2, {b2: S(c)})
                if y is not mid:
                    r = False
                    break
        except RecursionError:
            r = False
        _relcache[key] = r
    return r


def char_equiv_empty(p, f):
    """all p  <->  f is the identity (f a 'str' fold): for every c, p(c) iff f_body(c) empty"""
    key = ("e", fold_key(p), fold_key(f))
    r = _relcache.get(key)
    if r is None:
        b1, p1 = p.data[1], p.args[1]
        b2, p2 = f.data[1], f.args[1]
        mid = m_id(f.data[0], p2.sort)
        r = True
        for c in chars.reps_for(p1, p2):
            x = subst(p1, {b1: S(c)})
            y = subst(p2, {b2: S(c)})
            if not ((x is TRUE and y is mid) or (x is FALSE and y is not mid and (isconst(y)))):
                r = False
                break
        _relcache[key] = r
    return r


def slice_relations(allterms, emit, done):
    """a slice all of whose characters a fold ignores can be left out of what the fold is taken over"""
    ps, fs = {}, {}
    for t in allterms.values():
        if t.op == "fold" and t.args[0].sort == "Str" and not freevars(t.args[1]):
            u = t.args[0]
            base = u.args[0] if u.op in ("slice", "xslice") else u
            if t.data[0] == "and":
                if u is not base:
                    ps.setdefault(base.id, []).append(t)
            elif t.data[0] == "str" and ("slrel", t.id) not in done:
                fs.setdefault(base.id, []).append(t)
    for b, pl in ps.items():
        for f in fs.get(b, ()):
            for p in pl:
                key = ("slrel", p.id, f.id)
                if key in done or p.args[0] is f.args[0] or not char_relation(p, f):
                    continue
                done.add(key)
                base, i, j = p.args[0].args
                u = f.args[0]
                i0, j0 = (I(0), length(base)) if u is base else u.args[1:]
                conds = [le(i0, i), le(i, j), le(j, j0)]
                if any(c is FALSE for c in conds):
                    continue
                l, r = foldlike(f, slice_(base, i0, i)), foldlike(f, slice_(base, j, j0))
                for x in (l, r):
                    if x.op == "fold":
                        done.add(("slrel", x.id))
                emit(implies(and_(p, *conds), eq(f, m_op(f.data[0], l, r))))


def fold_relations(allterms, emit, done):
    slice_relations(allterms, emit, done)
    groups = {}
    for t in allterms.values():
        if t.op == "fold":
            groups.setdefault(t.args[0].id, []).append(t)
    for sid, fs in groups.items():
        for p in fs:
            if p.data[0] != "and":
                continue
            for f in fs:
                if f is p:
                    continue
                key = ("rel", p.id, f.id)
                if key in done:
                    continue
                done.add(key)
                if p.args[0].sort == "Str":
                    if freevars(p.args[1]) or freevars(f.args[1]):
                        continue
                    if char_relation(p, f):
                        emit(implies(p, eq(f, m_id(f.data[0], f.sort))))
                        if f.data[0] in ("str", "and") and char_equiv_empty(p, f):
                            emit(implies(eq(f, m_id(f.data[0], f.sort)), p))
                elif LEMMA_HOOK is not None:
                    LEMMA_HOOK(p, f, emit)
        if LEMMA_HOOK is not None and len(fs) > 1:
            for i, f in enumerate(fs):
                for g in fs[i + 1:]:
                    if f.data[0] == g.data[0] and f.sort == g.sort and f.data[0] != "and" and f.args[0].sort != "Str":
                        key = ("ext", f.id, g.id)
                        if key not in done:
                            done.add(key)
                            LEMMA_HOOK(None, (f, g), emit)


class Tighten:
    """rewrite clamping slices into in-bounds ones (and merge them) where the bounds follow from the
    linear facts among the assumptions; the facts themselves are left alone"""
    def __init__(self, asserts):
        self.facts = {}
        for t in flatten_and(asserts):
            if t.op == "ge0":
                self.facts[t.args[0].id] = t.args[0]
            elif t.op == "eq0":
                d = t.args[0]
                self.facts[d.id] = d
                m = scale(-1, d)
                self.facts[m.id] = m
        self.memo = {}
        self.cmemo = {}

    def known(self, a, b):
        """a <= b follows"""
        d = sub(b, a)
        r = self.cmemo.get(d.id)
        if r is None:
            r = self.cmemo[d.id] = self._known(d, 2)
        return r

    def _known(self, d, depth):
        if nonneg(d):
            return True
        if depth == 0:
            return False
        # subtract a fact that cancels a negative coefficient
        dd, c = ir._lin(d)
        neg = [a for a, k in dd.items() if k < 0]
        if not neg and c >= 0:
            neg = [a for a, k in dd.items() if k < 0]
        for f in self.facts.values():
            fd, _ = ir._lin(f)
            if (neg and any(fd.get(a, 0) < 0 for a in neg)) or (not neg and any(k > 0 and fd.get(a, 0) > 0 for a, k in dd.items())) :
                if self._known(sub(d, f), depth - 1):
                    return True
        return False

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.do(t)
        return r

    def do(self, t):
        if not t.args:
            return t
        if t.op in ("fold", "bigcat"):
            s = self(t.args[0])
            if s is t.args[0]:
                return t
            return ir._mkfold(s, t.data[0], t.data[1], t.args[1]) if t.op == "fold" else ir._mkbig(s, t.data[0], t.data[1], t.args[1])
        args = [self(a) for a in t.args]
        if t.op == "slice":
            b, i, j = args
            n = length(b)
            if self.known(I(0), i):
                if self.known(n, j):
                    j = n
                if self.known(i, j) and self.known(j, n):
                    return xslice(b, i, j)
                if self.known(j, i) or self.known(n, i):
                    return empty(t.sort)
        if t.op == "concat":
            out = []
            for p in args:
                for q in parts(p):
                    x = q.args[0] if q.op == "unit" else q
                    if x.op == "nth" and x.args[0].sort == t.sort and self.known(I(0), x.args[1]) and self.known(add(x.args[1], I(1)), length(x.args[0])):
                        q = ir._mk("xslice", (x.args[0], x.args[1], add(x.args[1], I(1))), t.sort)
                    out.append(q)
            k = 0
            while k + 1 < len(out):
                a, b = out[k], out[k + 1]
                if a.op == "xslice" and b.op == "xslice" and a.args[0] is b.args[0] and a.args[2] is b.args[1]:
                    out[k:k + 2] = [xslice(a.args[0], a.args[1], b.args[2])]
                else:
                    k += 1
            for k, q in enumerate(out):
                if q.op == "xslice" and sub(q.args[2], q.args[1]) is I(1):
                    x = nth(q.args[0], q.args[1])
                    out[k] = x if t.sort == "Str" else unit(x)
            return concat(*out, sort=t.sort)
        if all(a is b for a, b in zip(args, t.args)):
            return t
        return ir.rebuild(t, args)


# ---- SMT-LIB printing -------------------------------------------------------------------------
def smt_sort(s):
    if s in ("Int", "Bool"):
        return s
    if s == "Str":
        return "String"
    if s[0] == "Seq":
        return f"(Seq {smt_sort(s[1])})"
    if s[0] == "U":
        return s[1]
    if s[0] == "Tup":
        return tupname(s)
    raise AssertionError(s)


def tupname(s):
    return "T_" + re.sub(r"[^A-Za-z0-9]", "", repr(s[1]).replace("(", "L").replace(")", "R").replace(",", "_"))


def smt_str(s):
    out = []
    for c in s:
        if c == '"':
            out.append('""')
        elif 32 <= ord(c) < 127 and c != "\\":
            out.append(c)
        else:
            out.append("\\u{%x}" % ord(c))
    return '"' + "".join(out) + '"'


def sym(name):
    return "|" + name.replace("|", "!").replace("\\", "!") + "|"


class Printer:
    def __init__(self):
        self.decls = []
        self.declared = set()
        self.tups = []
        self.tupset = set()
        self.defs = []
        self.memo = {}
        self.us = set()

    def sort(self, s):
        if isinstance(s, tuple):
            if s[0] == "Seq":
                self.sort(s[1])
            elif s[0] == "Tup" and s not in self.tupset:
                for x in s[1]:
                    self.sort(x)
                self.tupset.add(s)
                n = tupname(s)
                fields = " ".join(f"({n}_{i} {smt_sort(x)})" for i, x in enumerate(s[1]))
                self.decls.append(f"(declare-datatypes (({n} 0)) (((mk_{n} {fields}))))")
            elif s[0] == "U" and s not in self.us:
                self.us.add(s)
                self.decls.append(f"(declare-sort {s[1]} 0)")
        return smt_sort(s)

    def declare(self, name, argsorts, sort):
        if name not in self.declared:
            self.declared.add(name)
            a = " ".join(self.sort(x) for x in argsorts)
            self.decls.append(f"(declare-fun {name} ({a}) {self.sort(sort)})")
        return name

    def p(self, t):
        # iterative post-order
        stack = [(t, False)]
        while stack:
            u, ready = stack.pop()
            if u.id in self.memo:
                continue
            kids = (u.args[0],) if u.op in ("fold", "bigcat") else u.args
            if u.op in ("fold", "bigcat"):
                kids = kids + tuple(sorted(freevars(u.args[1]).values(), key=lambda v: v.id)) + tuple(
                    outer_bvs(u))
            if not ready:
                stack.append((u, True))
                for a in kids:
                    if a.id not in self.memo:
                        stack.append((a, False))
            else:
                s = self.one(u, kids)
                if len(s) > 60 and not any(x.op == "bv" for x in subterms([u]).values()):
                    n = f"d{u.id}"
                    self.defs.append(f"(define-fun {n} () {self.sort(u.sort)} {s})")
                    s = n
                self.memo[u.id] = s
        return self.memo[t.id]

    def one(self, t, kids):
        a = [self.memo[k.id] for k in kids]
        op = t.op
        if op == "var":
            return self.declare(sym(t.data), (), t.sort)
        if op == "bv":
            return self.declare(f"bv{t.data[1]}_{re.sub(r'[^A-Za-z0-9]', '', repr(t.sort))}", (), t.sort)
        if op == "int":
            return str(t.data) if t.data >= 0 else f"(- {-t.data})"
        if op == "bool":
            return "true" if t.data else "false"
        if op == "str":
            return smt_str(t.data)
        if op == "lin":
            ps = []
            for x, k in zip(a, t.data[0]):
                ps.append(x if k == 1 else f"(- {x})" if k == -1 else f"(* {k if k >= 0 else '(- %d)' % -k} {x})")
            c = t.data[1]
            if c:
                ps.append(str(c) if c > 0 else f"(- {-c})")
            return ps[0] if len(ps) == 1 else "(+ " + " ".join(ps) + ")"
        if op == "mul":
            return self.declare("mul", ("Int", "Int"), "Int") and f"(mul {a[0]} {a[1]})"
        if op == "div":
            return f"(div {a[0]} {t.data})"
        if op == "ge0":
            return f"(>= {a[0]} 0)"
        if op == "eq0":
            return f"(= {a[0]} 0)"
        if op in ("not", "and", "or", "ite"):
            return f"({op} {' '.join(a)})"
        if op == "eq":
            return f"(= {a[0]} {a[1]})"
        isstr = lambda s: s == "Str"
        if op == "empty":
            return f"(as seq.empty {self.sort(t.sort)})"
        if op == "unit":
            return f"(seq.unit {a[0]})"
        if op == "concat":
            return f"({'str' if isstr(t.sort) else 'seq'}.++ {' '.join(a)})"
        if op == "len":
            return f"({'str' if isstr(t.args[0].sort) else 'seq'}.len {a[0]})"
        if op in ("slice", "xslice"):
            f = "str.substr" if isstr(t.sort) else "seq.extract"
            n = sub(t.args[2], t.args[1])
            return f"({f} {a[0]} {a[1]} {self.p_sub(n)})"
        if op == "nth":
            if isstr(t.sort) and isstr(t.args[0].sort):
                return f"(str.at {a[0]} {a[1]})"
            return f"(seq.nth {a[0]} {a[1]})"
        if op == "rep":
            n = f"rep_{'s' if isstr(t.sort) else re.sub(r'[^A-Za-z0-9]', '', repr(t.sort))}"
            return f"({self.declare(n, (t.sort, 'Int'), t.sort)} {a[0]} {a[1]})"
        if op == "prefixof":
            return f"(str.prefixof {a[0]} {a[1]})"
        if op == "suffixof":
            return f"(str.suffixof {a[0]} {a[1]})"
        if op == "contains":
            return f"(str.contains {a[0]} {a[1]})"
        if op == "inre":
            return f"(str.in_re {a[0]} {t.data})"
        if op == "mk":
            self.sort(t.sort)
            return f"(mk_{tupname(t.sort)} {' '.join(a)})"
        if op == "sel":
            self.sort(t.args[0].sort)
            return f"({tupname(t.args[0].sort)}_{t.data} {a[0]})"
        if op == "app":
            n = self.declare(sym(t.data), [x.sort for x in t.args], t.sort)
            return f"({n} {' '.join(a)})" if a else n
        if op in ("fold", "bigcat"):
            # one symbol per body up to its free variables
            ks = kids[1:]
            body = t.args[1]
            gen = subst(body, {v: ir.var(f"__p{i}", v.sort) for i, v in enumerate(ks) if v.op == "var"})
            n = self.declare(sym(f"{op}_{t.data[0]}_{t.data[1].id}_{gen.id}"), [k.sort for k in kids], t.sort)
            return f"({n} {' '.join(a)})"
        raise AssertionError(op)

    def p_sub(self, n):
        return Printer.p(self, n)


def outer_bvs(t):
    """bound variables of enclosing binders occurring in the body (only when printing inside one)"""
    out = {}
    for s in subterms([t.args[1]], into_binders=True).values():
        if s.op == "bv" and s is not t.data[1] and s.ht == 0 and s.data[1] > t.data[1].data[1]:
            out[s.id] = s
    return [out[k] for k in sorted(out)]


def script(asserts, goals, timeout_ms, models=False, rounds=3, lightly=False, words=False):
    """SMT-LIB text checking, for each goal, asserts & not goal"""
    if not lightly:
        both = expand(list(asserts) + list(goals))
        asserts, goals = both[:len(asserts)], both[len(asserts):]
    asserts, goals = solve_eqs(asserts, goals)
    for _ in range(3):
        tt = Tighten(asserts)
        new = [tt(t) for t in asserts]
        # keep the facts the rewriting used
        new = list({x.id: x for t, u in zip(asserts, new) for x in flatten_and([u] + ([t] if t.op in ("ge0", "eq0") else [])) if x is not TRUE}.values())
        goals2 = [tt(t) for t in goals]
        same = goals2 == goals and {t.id for t in new} == {t.id for t in asserts}
        asserts, goals = new, goals2
        if same:
            break
    for _ in range(3):
        was, goals = goals, by_elements(asserts, goals)
        if all(a is b for a, b in zip(was, goals)):
            break
    asserts, goals = same_images(asserts, goals)
    axioms = instantiate(asserts, goals, rounds=rounds, lightly=lightly)
    if lightly or words:
        ab = Abstraction(words)
        asserts, axioms, goals = [ab(t) for t in asserts], [ab(t) for t in axioms], [ab(t) for t in goals]
    pr = Printer()
    A = [pr.p(t) for t in asserts + axioms]
    G = [pr.p(t) for t in goals]
    lines = ["(set-logic ALL)"]
    lines += pr.decls + pr.defs
    lines += [f"(assert {x})" for x in A]
    for g in G:
        lines.append(f"(push 1)\n(assert (not {g}))\n(check-sat)\n(pop 1)")
    return "\n".join(lines) + "\n"


def by_elements(asserts, goals):
    """where every element of a list makes two terms equal, folds over that list use the smaller of the two"""
    eqs = {}
    for t in asserts:
        if t.op == "fold" and t.data[0] == "and" and isseq(t.args[0].sort):
            for e in flatten_and([t.args[1]]):
                if e.op == "eq" and occurs(t.data[1], e):
                    a, b = sorted(e.args, key=lambda u: len(subterms([u], into_binders=True)))
                    if not occurs(b, a) and occurs(t.data[1], b):
                        eqs.setdefault(t.args[0].id, []).append((t.data[1], b, a))
    if not eqs:
        return goals
    m = {}
    for t in subterms(list(goals)).values():
        if t.op == "fold" and t.data[0] != "and" and t.args[0].id in eqs:
            body = t.args[1]
            for x, b, a in eqs[t.args[0].id]:
                y = {x: t.data[1]}
                body = subst(body, {subst(b, y): subst(a, y)})
            if body is not t.args[1]:
                m[t] = mkfold(t.args[0], t.data[0], t.data[1], body)
    memo = {}
    return [subst(t, m, memo) for t in goals] if m else goals


def same_images(asserts, goals):
    """what two functions make of a list is the same if they agree on every element"""
    if _depth[0]:
        return asserts, goals
    for _ in range(4):
        groups = {}
        for t in subterms(list(asserts) + list(goals)).values():
            if t.op == "fold" and t.data[0] != "and" and isseq(t.args[0].sort) and t.ht <= 3 and (not freevars(t.args[1]) or len(subterms([t.args[1]], into_binders=True)) < 60):
                groups.setdefault((t.args[0].id, t.data[0], t.sort), []).append(t)
        m = {}
        for fs in groups.values():
            fs.sort(key=lambda t: t.id)
            for j, g in enumerate(fs):
                for f in fs[:j]:
                    if f not in m and same_bodies(f, g):
                        m[g] = f
                        break
        # what is made of a part of a list, as what is made of the whole
        for fs in list(groups.values()):
            g = fs[0]
            q = g.args[0]
            if len(fs) == 1 and g not in m and q.op in ("slice", "xslice"):
                for f in groups.get((q.args[0].id, g.data[0], g.sort), ()):
                    if fold_key(f) != fold_key(g) and same_bodies(f, g):
                        m[g] = mkfold(q, f.data[0], f.data[1], f.args[1])
                        break
        if not m:
            break
        memo = {}
        asserts, goals = [subst(t, m, memo) for t in asserts], [subst(t, m, memo) for t in goals]
    return asserts, goals


def same_bodies(f, g):
    key = ("same", fold_key(f), fold_key(g))
    r = _lemmas.get(key)
    if r is None:
        x = fresh("lm", esort(f.args[0]))
        goal = eq(subst(f.args[1], {f.data[1]: x}), subst(g.args[1], {g.data[1]: x}))
        _depth[0] += 1
        try:
            r = _lemmas[key] = goal is not FALSE and not refuted(TRUE, goal) and prove([], goal, LEMMA_MS * 4)
        finally:
            _depth[0] -= 1
    return r


CACHE = {}


def run_cvc5(text, timeout_ms, opts=()):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        name = f.name
    try:
        cmd = [which("cvc5"), "--lang=smt2", "--incremental", "--strings-exp", f"--tlimit-per={timeout_ms}", *opts, name]
        n = text.count("(check-sat)")
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=(timeout_ms / 1000) * n + 20)
        res = [l for l in p.stdout.split("\n") if l in ("sat", "unsat", "unknown")]
        if len(res) < n:
            if "error" in p.stdout or "error" in p.stderr or "rror" in p.stderr:
                if "interrupted" not in p.stderr and "timeout" not in p.stderr:
                    raise RuntimeError("cvc5: " + (p.stdout + p.stderr)[:2000] + "\n" + name)
            res += ["unknown"] * (n - len(res))
        return res
    except subprocess.TimeoutExpired:
        return ["unknown"] * text.count("(check-sat)")
    finally:
        try:
            os.unlink(name)
        except OSError:
            pass


MODES = ("light", "words", "full")


def prove_many(asserts, goals, timeout_ms=3000, rounds=3, opts=(), modes=MODES):
    """for each goal: 'unsat' (proved), 'sat', or 'unknown'"""
    out = [None] * len(goals)
    todo = []
    aset = {t.id for t in flatten_and(asserts)}
    for i, g in enumerate(goals):
        if g is TRUE or g.id in aset:
            out[i] = "unsat"
        else:
            todo.append(i)
    if not todo:
        return out
    t0 = time.time()
    for mode in modes:
        if not todo:
            break
        lightly = mode == "light"
        text = script(asserts, [goals[i] for i in todo], timeout_ms, rounds=2 if lightly else rounds, lightly=lightly, words=mode == "words")
        key = hashlib.sha256(text.encode('utf-8', 'surrogatepass')).digest()
        r = CACHE.get((key, timeout_ms))
        if r is None:
            r = run_cvc5(text, min(timeout_ms, LIGHT_MS) if lightly else min(timeout_ms, WORDS_MS) if mode == 'words' else timeout_ms, opts)
            CACHE[(key, timeout_ms)] = r
            STATS["queries"] += len(todo)
            for x in r:
                STATS[x] += 1
        left = []
        for i, x in zip(todo, r):
            out[i] = x
            if x != "unsat":
                left.append(i)
        todo = left
    STATS["time"] += time.time() - t0
    return out


def find_ite(t):
    """a condition on which the term branches (outside binders)"""
    for x in sorted(subterms([t]).values(), key=lambda x: x.id):
        if x.op == "ite":
            return x.args[0]
    for x in sorted(subterms([t], into_binders=True).values(), key=lambda x: x.id):
        if x.op == "ite" and all(y.op != "bv" for y in subterms([x.args[0]], into_binders=True).values()):
            return x.args[0]
    return None


def prove_split(asserts, goal, timeout_ms, depth=3, modes=MODES, known=None):
    """prove a goal by cases on the conditions it branches on"""
    r = known or prove_many(asserts, [goal], timeout_ms, modes=modes)[0]
    if r == "unsat" or depth == 0:
        return r
    if goal.op == "and":
        for g in goal.args:
            r = prove_split(asserts, g, timeout_ms, depth - 1, modes)
            if r != "unsat":
                return r
        return "unsat"
    if goal.op == "fold" and goal.data[0] == "and" and isseq(goal.args[0].sort):
        # of every element: of one that all that is known of every element holds of
        x = fresh("elt", esort(goal.args[0]))
        q = goal.args[0]
        lists = [q] + ([q.args[0]] if q.op in ("slice", "xslice") else [])
        known_ = [subst(t.args[1], {t.data[1]: x}) for t in flatten_and(asserts) if t.op == "fold" and t.data[0] == "and" and t.args[0] in lists]
        g = subst(goal.args[1], {goal.data[1]: x})
        return prove_split(list(asserts) + known_, g, timeout_ms, depth - 1, modes)
    asserts, gs = solve_eqs(list(flatten_and(asserts)), [goal])
    goal = by_elements(asserts, gs)[0]
    c = find_ite(goal)
    if c is None:
        return r
    for case, val in ((c, TRUE), (not_(c), FALSE)):
        g = subst(goal, {c: val})
        r = prove_split([subst(t, {c: val}) for t in asserts] + [case], g, timeout_ms, depth - 1, modes)
        if r != "unsat":
            return r
    return "unsat"


def prove(asserts, goal, timeout_ms=3000, **k):
    return prove_many(asserts, [goal], timeout_ms, **k)[0] == "unsat"


def _ax_nth(t):
    """an element of a concatenation"""
    s, i = t.args
    if s.op != "concat":
        return []
    a, rest = s.args[0], concat(*s.args[1:])
    n = length(a)
    return [implies(and_(le(I(0), i), lt(i, length(s))), ite(lt(i, n), eq(t, nth(a, i)), eq(t, nth(rest, sub(i, n)))))]


OP_SCHEMAS["nth"] = _ax_nth


@schema("splitn")
def _ax_splitn(t):
    return [le(I(0), t), le(t, length(t.args[0]))]


REVEAL = set()      # predicates whose definitions may be used
PDEFS = {}
PLEMMAS = {}        # what follows of them: "lemma:<name>" in REVEAL


@schema("P")
def _ax_p(t):
    n = t.data[2:]
    out = [implies(t, f(t.args[0])) for _, f in PLEMMAS[n]] if "lemma:" + n in REVEAL else []
    if n in REVEAL and n in PDEFS:
        out.append(eq(t, PDEFS[n](t.args[0])))
    return out


# ---- named functions: opaque under a binder, replaced by their definition elsewhere -----------------
DEFS = {}
OPAQUE = set()      # names whose definitions are not used (only their lemmas)
DLEMMAS = {}        # name -> [(label, fact of its arguments)]


def define(name, sort, body):
    """the function name(*args) = body(*args)"""
    DEFS[name] = (sort, body)

    def F(*args):
        if all(isconst(a) for a in args):
            return body(*args)
        return app("def:" + name, args, sort)
    return F


def expand(ts):
    """the terms with the definitions of the named functions in place of ground applications"""
    for _ in range(6):
        m = {}
        for t in subterms(ts).values():
            if t.op == "app" and t.data.startswith("def:") and t.ht == 0 and t.data[4:] not in OPAQUE:
                m[t] = DEFS[t.data[4:]][1](*t.args)
        if not m:
            return ts
        memo = {}
        ts = [subst(t, m, memo) for t in ts]
    return ts


# ---- recursive functions of the specifications: folds from the left with a state -----------------
LFOLDS = {}


def lfold(name, sort, init, step):
    """the function F(seq, *params) with F([]) = init(*params) and F(seq + [x]) = step(F(seq), x, len(seq), *params)"""
    LFOLDS[name] = (sort, init, step)
    ir.APP_SIMP["lf:" + name] = lambda seq, *ps: lf_simp(name, seq, ps)

    def F(seq, *ps):
        return app("lf:" + name, (seq,) + ps, sort)
    return F


def lf_simp(name, seq, ps):
    sort, init, step = LFOLDS[name]
    if isempty(seq):
        return init(*ps)
    ps_ = parts(seq)
    if len(ps_) >= 1 and ps_[-1].op == "unit":
        rest = concat(*ps_[:-1], sort=seq.sort) if len(ps_) > 1 else empty(seq.sort)
        return step(app("lf:" + name, (rest,) + ps, sort), ps_[-1].args[0], length(rest), *ps)
    return None


@schema("lf")
def _ax_lf(t):
    name = t.data[3:]
    sort, init, step = LFOLDS[name]
    seq, ps = t.args[0], t.args[1:]
    out = [implies(eq(seq, empty(seq.sort)), eq(t, init(*ps)))]
    if seq.op in ("slice", "xslice") and seq.args[1].op == "int" and seq.args[1].data == 0:
        Q, j = seq.args[0], seq.args[2]
        d, c = ir._lin(j)
        cut = slice_ if seq.op == "slice" else xslice
        if c >= 1 and d:
            k = sub(j, I(1))
            out.append(implies(and_(le(I(0), k), lt(k, length(Q))),
                               eq(t, step(app("lf:" + name, (cut(Q, I(0), k),) + ps, sort), nth(Q, k), k, *ps))))
        elif j.op == "int" and 1 <= j.data <= 2:
            k = sub(j, I(1))
            out.append(implies(lt(k, length(Q)), eq(t, step(app("lf:" + name, (cut(Q, I(0), k),) + ps, sort), nth(Q, k), k, *ps))))
    return out


_lemmas = {}
_depth = [0]
LEMMA_MS = 500


def refuted(a, g):
    """concrete values show that g does not follow from a (so no solver is asked)"""
    import random
    from . import ev
    return ev.refuted([a], g, random.Random(1))


def element_lemma(p, f, emit):
    """what holds of every element for one body, holds for another"""
    if _depth[0]:
        return
    if p is not None:
        if f.data[0] != "and":
            return
        key = (fold_key(p), fold_key(f))
        r = _lemmas.get(key)
        if r is None:
            x = fresh("lm", esort(p.args[0]))
            _depth[0] += 1
            try:
                a, g = subst(p.args[1], {p.data[1]: x}), subst(f.args[1], {f.data[1]: x})
                r = _lemmas[key] = not refuted(a, g) and prove([a], g, LEMMA_MS)
            finally:
                _depth[0] -= 1
        if r:
            emit(implies(p, f))


LEMMA_HOOK = element_lemma
