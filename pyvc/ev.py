"""Evaluation of terms on concrete values: used to discard false lemmas before a solver sees them
(never to accept one), and by selftest.py to test the axioms and simplifications."""
import time
import re
from . import ir, solve, chars


class Unknown(Exception):
    pass


APPS = {}
PAT = {}


def ev(t, env, memo=None):
    """the value of t: int, bool, str, list or tuple; env: term -> value"""
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    r = _ev(t, env, memo)
    memo[t.id] = r
    return r


def _ev(t, env, memo):
    op = t.op
    if op in ("int", "bool", "str"):
        return t.data
    if op in ("var", "bv"):
        if t in env:
            return env[t]
        raise Unknown(t)
    if op == "empty":
        return []
    if op == "ite":
        return ev(t.args[1], env, memo) if ev(t.args[0], env, memo) else ev(t.args[2], env, memo)
    if op == "and":
        unk = None
        for a in t.args:
            try:
                if not ev(a, env, memo):
                    return False
            except Unknown as e:
                unk = e
        if unk:
            raise unk
        return True
    if op == "or":
        unk = None
        for a in t.args:
            try:
                if ev(a, env, memo):
                    return True
            except Unknown as e:
                unk = e
        if unk:
            raise unk
        return False
    if op in ("fold", "bigcat"):
        s = ev(t.args[0], env, memo)
        m, b = t.data[0], t.data[1]
        xs = range(s) if op == "bigcat" else s
        vals = []
        for x in xs:
            e2 = dict(env)
            e2[b] = x
            v = ev(t.args[1], e2, {})
            if m == "and" and not v:
                return False
            if m == "or" and v:
                return True
            vals.append(v)
        if m == "str":
            return "".join(vals)
        if m == "seq":
            return [y for v in vals for y in v]
        if m == "sum":
            return sum(vals)
        if m == "max0":
            return max([0] + vals)
        return m == "and"
    a = [ev(x, env, memo) for x in t.args]
    if op == "lin":
        return t.data[1] + sum(k * x for x, k in zip(a, t.data[0]))
    if op == "mul":
        return a[0] * a[1]
    if op == "div":
        return a[0] // t.data
    if op == "ge0":
        return a[0] >= 0
    if op == "eq0":
        return a[0] == 0
    if op == "not":
        return not a[0]
    if op == "eq":
        return a[0] == a[1]
    if op == "unit":
        return [a[0]]
    if op == "concat":
        r = a[0]
        for x in a[1:]:
            r = r + x
        return r
    if op == "len":
        return len(a[0])
    if op in ("slice", "xslice"):
        if op == "xslice" and not 0 <= a[1] <= a[2] <= len(a[0]):
            raise Unknown("slice out of range")
        if a[1] < 0:
            raise Unknown("negative slice")
        return a[0][a[1]:max(a[2], 0)]
    if op == "nth":
        if not 0 <= a[1] < len(a[0]):
            raise Unknown("index out of range")
        return a[0][a[1]]
    if op == "rep":
        return a[0] * a[1]
    if op == "prefixof":
        return a[1][:len(a[0])] == a[0]
    if op == "suffixof":
        return len(a[0]) <= len(a[1]) and a[1][len(a[1]) - len(a[0]):] == a[0]
    if op == "contains":
        return a[1] in a[0]
    if op == "mk":
        return tuple(a)
    if op == "sel":
        return a[0][t.data]
    if op == "app":
        f = APPS.get(t.data) or APPS.get(t.data.split(":", 1)[0])
        if f is None:
            raise Unknown(t.data)
        return f(t, *a)
    raise Unknown(op)


def _cs(t, a):
    kind = t.data.split(":", 1)[1]
    return None if kind == "ws" else a[1] if kind == "$" else kind[2:]


def _strip(t, a, f):
    cs = _cs(t, a)
    return f(a[0], cs) if cs != "" else a[0]


APPS["ind"] = lambda t, *a: len(a[0]) - len(_strip(t, a, str.lstrip))
APPS["rend"] = lambda t, *a: len(_strip(t, a, str.rstrip))
APPS["send"] = lambda t, *a: len(a[0]) if not _strip(t, a, str.lstrip) else len(_strip(t, a, str.rstrip))
APPS["splitlines"] = lambda t, s: s.splitlines()
APPS["words"] = lambda t, s: s.split()


def _split(t, s, sep):
    if sep == "":
        raise Unknown("split")
    return s.split(sep)


APPS["split"] = _split
APPS["join"] = lambda t, sep, L: sep.join(L)
APPS["str_of_int"] = lambda t, n: str(n)


def _int(t, s):
    try:
        return int(s)
    except ValueError:
        raise Unknown("int")


APPS["int_of_str"] = _int


def _indexof(t, s, x):
    i = s.find(x)
    if i < 0:
        raise Unknown("indexof")
    return i


APPS["indexof"] = _indexof
for _n, _f in chars.BASE.items():
    APPS[_n] = lambda t, c, _f=_f: _f(c)


def _lf(t, seq, *ps):
    sort, init, step = solve.LFOLDS[t.data[3:]]
    vs = [ir.fresh("ev", p.sort) for p in t.args[1:]]
    env = dict(zip(vs, ps))
    acc = ev(init(*vs), env)
    A, X, N = ir.fresh("ev", sort), ir.fresh("ev", ir.esort(t.args[0])), ir.fresh("ev", "Int")
    body = step(A, X, N, *vs)
    for i, x in enumerate(seq):
        acc = ev(body, {**env, A: acc, X: x, N: i})
    return acc


APPS["lf"] = _lf


def _p(t, x):
    f = solve.PDEFS.get(t.data[2:])
    if f is None or t.args[0].sort != "Str":
        raise Unknown(t.data)
    key = (t.data, x)
    r = _pcache.get(key)
    if r is None:
        v = ir.var("ev.p", "Str")
        body = _pbody.get(t.data)
        if body is None:
            body = _pbody[t.data] = f(v)
        r = ev(body, {v: x})
        if len(_pcache) < 20000:
            _pcache[key] = r
    return r


_pcache, _pbody = {}, {}


APPS["P"] = _p


def _def(t, *a):
    vs = [ir.fresh("ev", x.sort) for x in t.args]
    return ev(solve.DEFS[t.data[4:]][1](*vs), dict(zip(vs, a)))


APPS["def"] = _def


# ---- values to try ---------------------------------------------------------------------------------
ALPHABET = " \t>-=`~*_#|+0123.)ab\n[]()<>\\!:\"'X\r\u00a0"
LINES = ["", " ", "a", "  a", "# a", "#", "    a", "> a", ">", ">> a", " >a", "- a", "-", "1. a", "10) a", "***", "- - -", "===", "---", "```", "~~~ x", "| a |", "|-|",
         "[a]: b", "[a]: b 'c'", "a  ", "|\n", "    \n", "\ta", "`a b`", "[a](b c)", "<br />", "a\nb", "\n", "a b", "a  b", "\\|", "aa", "-a", "0", "- ", "a\n", " a ", "1"]


def sample(sort, rng, d=0, ints=()):
    if sort == "Int":
        if ints and rng.random() < .6:
            return rng.choice(ints)
        return rng.choice([0, 1, 2, 3, 4, 5, 7, 10, -1, -2, 80])
    if sort == "Bool":
        return rng.random() < .5
    if sort == "Str":
        if rng.random() < .5:
            return rng.choice(LINES)
        return "".join(rng.choice(ALPHABET) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 8])))
    if ir.isseq(sort):
        return [sample(sort[1], rng, d + 1, ints) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    if isinstance(sort, tuple) and sort[0] == "Tup":
        return tuple(sample(s, rng, d + 1, ints) for s in sort[1])
    raise Unknown(sort)


APPS["raises"] = lambda t, *a: hash((t.data, repr(a))) % 2 == 0


def refuted(assumed, goal, rng, tries=400):
    """a value of the variables makes everything assumed true and the goal false"""
    vs = [v for v in {v.id: v for t in list(assumed) + [goal] for v in free(t)}.values()]
    good = 0
    ints = constants(list(assumed) + [goal])
    end = time.time() + .08
    for _ in range(tries):
        if time.time() > end:
            return False
        try:
            env = {v: sample(v.sort, rng, 0, ints) for v in vs}
            memo = {}
            if ev(goal, env, memo):
                continue
            if all(ev(t, env, memo) for t in assumed):
                return True
        except (Unknown, RecursionError):
            good += 1
            if good > 40:
                return False
    return False


def constants(ts):
    """the numbers the terms mention"""
    out = set()
    for x in ir.subterms(ts).values():
        if x.op == "int":
            out.add(abs(x.data))
        elif x.sort == "Int":
            c = ir._lin(x)[1]
            if c:
                out.add(abs(c))
    return sorted(out)


def free(t, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op == "var":
        acc.append(t)
    for a in t.args:
        free(a, acc, seen)
    return acc
