"""Hash-consed terms, with simplification at construction.

Sorts: 'Int', 'Bool', 'Str', ('Seq', S), ('Tup', (S, ...)), ('U', name).
Everything the verifier reasons about is a Term; `fold` is the one binder: fold(seq, monoid,
x. body) is body(seq[0]) * body(seq[1]) * ... in the monoid.  It is pushed through concatenation,
units and literals when a term is built, so "NS of a concatenation is the concatenation of the
NS's" never needs a solver.
"""
import functools
import sys

sys.setrecursionlimit(20000)


class Term:
    __slots__ = ("op", "args", "sort", "data", "id", "ht", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_memo = {}


def memo1(f):
    """remember the results of a constructor of one term"""
    mem = _memo.setdefault(f.__name__, {})

    @functools.wraps(f)
    def g(t):
        r = mem.get(t.id)
        if r is None:
            r = mem[t.id] = f(t)
        return r
    return g


def memon(f):
    """remember the results of a constructor of several terms"""
    mem = _memo.setdefault(f.__name__, {})

    @functools.wraps(f)
    def g(*ts):
        k = tuple([t.id for t in ts])
        r = mem.get(k)
        if r is None:
            r = mem[k] = f(*ts)
        return r
    return g


def _mk(op, args, sort, data=None):
    key = (op, tuple(a.id for a in args), sort, data)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.data = op, tuple(args), sort, data
        t.id = len(_table)
        h = max([a.ht for a in args], default=0)
        if op == "fold":
            h = max(h, data[1].data[1])
        t.ht = h
        _table[key] = t
    return t


def Seq(s):
    return ("Seq", s)


def isseq(s):
    return isinstance(s, tuple) and s[0] == "Seq"


# ---- leaves ---------------------------------------------------------------------------
def var(name, sort):
    return _mk("var", (), sort, name)


_fresh = {}


def fresh(name, sort):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    return var(f"{name}!{n}", sort)


def reset_fresh():
    _fresh.clear()


def bvar(h, sort, ch=False):
    return _mk("bv", (), sort, ("bv", h, ch))


def ischar(t):
    """a term known to be a string of exactly one character"""
    return (t.op == "nth" and t.sort == "Str" and t.args[0].sort == "Str") or (t.op == "bv" and t.data[2]) or (
        t.op == "var" and t.data.startswith("ch!")) or (t.op == "str" and len(t.data) == 1)


def I(n):
    return _mk("int", (), "Int", int(n))


def B(b):
    return TRUE if b else FALSE


TRUE = _mk("bool", (), "Bool", True)
FALSE = _mk("bool", (), "Bool", False)


def S(s):
    return _mk("str", (), "Str", s)


def empty(sort):
    if sort == "Str":
        return S("")
    return _mk("empty", (), sort)


def isconst(t):
    return t.op in ("int", "bool", "str")


# ---- integers: linear normal form ------------------------------------------------------
def _lin(t):
    """-> (dict atom->coef, const)"""
    if t.op == "int":
        return {}, t.data
    if t.op == "lin":
        return dict(zip(t.args, t.data[0])), t.data[1]
    return {t: 1}, 0


def _unlin(d, c):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        a, k = next(iter(d.items()))
        if k == 1:
            return a
    items = sorted(d.items(), key=lambda p: p[0].id)
    return _mk("lin", tuple(a for a, _ in items), "Int", (tuple(k for _, k in items), c))


def add(*ts):
    d, c = {}, 0
    for t in ts:
        e, k = _lin(t)
        c += k
        for a, q in e.items():
            d[a] = d.get(a, 0) + q
    return _unlin(d, c)


def scale(k, t):
    d, c = _lin(t)
    return _unlin({a: k * q for a, q in d.items()}, k * c)


@memon
def sub(a, b):
    return add(a, scale(-1, b))


def mul(a, b):
    if a.op == "int":
        return scale(a.data, b)
    if b.op == "int":
        return scale(b.data, a)
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b), "Int")


def floordiv(a, k):
    """a // k for a constant k > 0"""
    if a.op == "int":
        return I(a.data // k)
    return _mk("div", (a,), "Int", k)


NONNEG_OPS = {"len"}
NONNEG_APPS = set()


def nonneg(t):
    if t.op == "int":
        return t.data >= 0
    if t.op == "lin":
        return t.data[1] >= 0 and all(k >= 0 and nonneg(a) for a, k in zip(t.args, t.data[0]))
    if t.op == "app":
        return t.data in NONNEG_APPS
    if t.op == "fold":
        return t.data[0] == "max0" or (t.data[0] == "sum" and nonneg(t.args[1]))
    if t.op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    if t.op == "var":
        return t.data.startswith("k!")
    return t.op in NONNEG_OPS


@memon
def le(a, b):
    d = sub(b, a)  # d >= 0
    if d.op == "int":
        return B(d.data >= 0)
    if nonneg(d):
        return TRUE
    m = scale(-1, d)
    # -d >= 0 known and not d == 0: can't decide; -d >= 1 known -> false
    if nonneg(sub(m, I(1))):
        return FALSE
    if nonneg(m):
        return eq(d, I(0))
    return _mk("ge0", (d,), "Bool")


def lt(a, b):
    return le(add(a, I(1)), b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


# ---- booleans ----------------------------------------------------------------------------
@memo1
def not_(t):
    if t.op == "bool":
        return B(not t.data)
    if t.op == "not":
        return t.args[0]
    if t.op == "eq0":
        d = t.args[0]
        m = scale(-1, d)
        if nonneg(d):
            return le(I(1), d)
        if nonneg(m):
            return le(I(1), m)
    if t.op == "ge0":  # not (d >= 0)  <->  -d - 1 >= 0
        return le(I(0), sub(scale(-1, t.args[0]), I(1)))
    if t.op == "or":
        return and_(*[not_(a) for a in t.args])
    if t.op == "and":
        return or_(*[not_(a) for a in t.args])
    return _mk("not", (t,), "Bool")


@memon
def and_(*ts):
    out = {}
    for t in ts:
        for a in (t.args if t.op == "and" else (t,)):
            if a is FALSE:
                return FALSE
            if a is not TRUE:
                out[a.id] = a
    for a in list(out.values()):
        if not_(a).id in out:
            return FALSE
    # unit propagation into the disjunctions
    for a in list(out.values()):
        if a.op == "or" and a.id in out:
            ks = a.args
            if any(k.id in out for k in ks):
                del out[a.id]
                continue
            left = [k for k in ks if not_(k).id not in out]
            if len(left) < len(ks):
                del out[a.id]
                return and_(*out.values(), or_(*left))
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk("and", tuple(sorted(out.values(), key=lambda a: a.id)), "Bool")


@memon
def or_(*ts):
    out = {}
    for t in ts:
        for a in (t.args if t.op == "or" else (t,)):
            if a is TRUE:
                return TRUE
            if a is not FALSE:
                out[a.id] = a
    for a in list(out.values()):
        if a.op == "not" and a.args[0].id in out or (a.op == "ge0" and not_(a).id in out):
            return TRUE
    for a in list(out.values()):
        if a.op == "and" and a.id in out:
            ks = a.args
            if any(k.id in out for k in ks):
                del out[a.id]
                continue
            left = [k for k in ks if not_(k).id not in out]
            if len(left) < len(ks):
                del out[a.id]
                return or_(*out.values(), and_(*left))
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return _mk("or", tuple(sorted(out.values(), key=lambda a: a.id)), "Bool")


def implies(a, b):
    return or_(not_(a), b)


@memon
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "Bool":
        return and_(or_(not_(c), a), or_(c, b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b), a.sort)


def parts(t):
    return t.args if t.op == "concat" else ((t,) if not isempty(t) else ())


def isempty(t):
    return t.op == "empty" or (t.op == "str" and t.data == "")


def _isunit(t):
    return t.op == "unit" or (t.op == "str" and len(t.data) == 1)


@memon
def eq(a, b):
    if a is b:
        return TRUE
    assert a.sort == b.sort, (a, a.sort, b, b.sort)
    if isconst(a) and isconst(b):
        return FALSE
    if a.sort == "Int":
        d = sub(a, b)
        if d.op == "int":
            return B(d.data == 0)
        if nonneg(sub(d, I(1))) or nonneg(sub(scale(-1, d), I(1))):
            return FALSE
        d2 = scale(-1, d)
        if d.id > d2.id:
            d = d2
        return _mk("eq0", (d,), "Bool")
    if a.sort == "Bool":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
    if a.sort == "Str" or isseq(a.sort):
        pa, pb = list(parts(a)), list(parts(b))
        # strip common ends
        while pa and pb and pa[0] is pb[0]:
            pa.pop(0), pb.pop(0)
        while pa and pb and pa[-1] is pb[-1]:
            pa.pop(), pb.pop()
        if not pa and not pb:
            return TRUE
        if not pa or not pb:
            rest = pa or pb
            if any(p.op == "unit" or (p.op == "str" and p.data) for p in rest):
                return FALSE
            if len(rest) > 1:
                return and_(*[eq(p, empty(p.sort)) for p in rest])
            if rest[0].op == "rep" and (ischar(rest[0].args[0]) or rest[0].args[0].op in ("str", "unit")):
                return le(rest[0].args[1], I(0))
        if pa and pb and pa[0].op == "str" and pb[0].op == "str":
            x, y = pa[0].data, pb[0].data
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return FALSE
        if pa and pb and pa[0].op == "unit" and pb[0].op == "unit":
            return and_(eq(pa[0].args[0], pb[0].args[0]), eq(concat(*pa[1:], sort=a.sort), concat(*pb[1:], sort=a.sort)))
        if len(pa) < len(parts(a)):
            return eq(concat(*pa, sort=a.sort), concat(*pb, sort=a.sort))
    if isinstance(a.sort, tuple) and a.sort[0] == "Tup" and (a.op == "mk" or b.op == "mk"):
        return and_(*[eq(sel(a, i), sel(b, i)) for i in range(len(a.sort[1]))])
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), "Bool")


def ne(a, b):
    return not_(eq(a, b))


# ---- sequences and strings -------------------------------------------------------------
def unit(x):
    return _mk("unit", (x,), Seq(x.sort))


def concat(*ts, sort=None):
    out = []
    for t in ts:
        sort = t.sort
        for a in parts(t):
            if out and a.op == "str" and out[-1].op == "str":
                out[-1] = S(out[-1].data + a.data)
            else:
                out.append(a)
    # adjacent slices of the same base
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if a.op == "xslice" and b.op == "xslice" and a.args[0] is b.args[0] and a.args[2] is b.args[1]:
            out[i:i + 2] = list(parts(xslice(a.args[0], a.args[1], b.args[2])))
        else:
            i += 1
    if not out:
        return empty(sort)
    if len(out) == 1:
        return out[0]
    return _mk("concat", tuple(out), sort)


def length(t):
    if t.sort == "Str" and ischar(t):
        return I(1)
    if t.op == "str":
        return I(len(t.data))
    if t.op == "empty":
        return I(0)
    if t.op == "unit":
        return I(1)
    if t.op == "concat":
        return add(*[length(a) for a in t.args])
    if t.op == "xslice":
        return sub(t.args[2], t.args[1])
    if t.op == "rep":
        return ite(le(I(0), t.args[1]), mul(length(t.args[0]), t.args[1]), I(0))
    if t.op == "ite":
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op == "fold" and t.data[0] == "seq" and t.args[1].op == "unit":
        return length(t.args[0])
    return _mk("len", (t,), "Int")


def xslice(t, i, j):
    """slice with 0 <= i <= j <= len(t) guaranteed by construction"""
    if i.op == "int" and i.data == 0 and j is length(t):
        return t
    if i is j:
        return empty(t.sort)
    if t.op == "xslice":
        return xslice(t.args[0], add(t.args[1], i), add(t.args[1], j))
    if t.op == "str" and i.op == "int" and j.op == "int":
        return S(t.data[i.data:j.data])
    if t.op in ("concat", "ite") and t.sort == "Str" and STRIP_HOOK is not None:
        r = STRIP_HOOK(t, i, j)
        if r is not None:
            return r
    r = _slice_concat(t, i, j, xslice)
    if r is not None:
        return r
    return _mk("xslice", (t, i, j), t.sort)


STRIP_HOOK = None           # the slice a strip makes of a concatenation or a choice, by its parts


def _slice_concat(t, i, j, mk):
    if t.op == "concat":
        ps = list(t.args)
        n0 = length(ps[0])
        d = sub(i, n0)
        if nonneg(d):
            return mk(concat(*ps[1:]), d, sub(j, n0))
        d = sub(sub(length(t), length(ps[-1])), j)
        if nonneg(d):
            return mk(concat(*ps[:-1]), i, j)
        if j is length(t) and i.op == "int" and ps[0].op == "str" and i.data <= len(ps[0].data):
            return concat(S(ps[0].data[i.data:]), *ps[1:])
        if i.op == "int" and i.data == 0 and nonneg(sub(j, n0)):
            return concat(ps[0], mk(concat(*ps[1:]), I(0), sub(j, n0)))
    return None


def slice_(t, i, j):
    """t[i:j] for i >= 0 (callers normalise negative indices); empty when j <= i"""
    if i.op == "int" and i.data == 0:
        if j is length(t) or nonneg(sub(j, length(t))):
            return t
        if j.op == "int" and j.data <= 0:
            return empty(t.sort)
    if nonneg(sub(j, length(t))):
        j = length(t)
    if nonneg(sub(i, j)):
        return empty(t.sort)
    if t.op == "str" and i.op == "int" and j.op == "int":
        return S(t.data[i.data:max(j.data, 0)])
    if t.op in ("slice", "xslice") and j is length(t):
        # t = b[a:c]; t[i:] = b[a+i:c]   (i >= 0)
        return slice_(t.args[0], add(t.args[1], i), t.args[2])
    if t.op in ("slice", "xslice") and t.args[2] is length(t.args[0]):
        # b[a:][i:j] = b[a+i:a+j]   (both clamp at the end of b)
        return slice_(t.args[0], add(t.args[1], i), add(t.args[1], j))
    if t.op in ("slice", "xslice") and i.op == "int" and i.data == 0 and nonneg(sub(t.args[2], add(t.args[1], j))):
        return slice_(t.args[0], t.args[1], add(t.args[1], j))
    r = _slice_concat(t, i, j, slice_)
    if r is not None:
        return r
    if nonneg(i) and nonneg(sub(j, i)) and nonneg(sub(length(t), j)):
        return xslice(t, i, j)
    if j.op == "len" or True:
        return _mk("slice", (t, i, j), t.sort)


def nth(t, i):
    """t[i] for 0 <= i < len(t); a one-character string when t is a string"""
    if t.op == "str" and i.op == "int" and 0 <= i.data < len(t.data):
        return S(t.data[i.data])
    if t.op == "unit" and i.op == "int" and i.data == 0:
        return t.args[0]
    if t.op in ("slice", "xslice"):
        return nth(t.args[0], add(t.args[1], i))
    if t.op == "concat":
        ps = t.args
        d = sub(i, length(ps[0]))
        if nonneg(d):
            return nth(concat(*ps[1:]), d)
        if i.op == "int":
            if ps[0].op == "str" and 0 <= i.data < len(ps[0].data):
                return S(ps[0].data[i.data])
            if ps[0].op == "unit" and i.data == 0:
                return ps[0].args[0]
        d = sub(sub(length(t), i), length(ps[-1]))  # >= 1: not in the last part
        if nonneg(sub(d, I(1))):
            return nth(concat(*ps[:-1]), i)
    if t.op == "ite":
        return ite(t.args[0], nth(t.args[1], i), nth(t.args[2], i))
    if t.op == "rep" and ischar(t.args[0]):
        return t.args[0]
    if t.op == "rep" and t.args[0].op == "unit":
        return t.args[0].args[0]
    if t.op == "fold" and t.data[0] == "seq" and t.args[1].op == "unit" and t.args[0].sort != "Str":
        return subst(t.args[1].args[0], {t.data[1]: nth(t.args[0], i)})
    sort = "Str" if t.sort == "Str" else t.sort[1]
    return _mk("nth", (t, i), sort)


def rep(s, n):
    """s * n for a string or sequence s"""
    if n.op == "int":
        if n.data <= 0:
            return empty(s.sort)
        if s.op == "str":
            return S(s.data * n.data)
        if n.data == 1:
            return s
    if isempty(s):
        return s
    if s.op == "ite":
        return ite(s.args[0], rep(s.args[1], n), rep(s.args[2], n))
    return _mk("rep", (s, n), s.sort)


def prefixof(p, s):
    """s.startswith(p)"""
    if isempty(p):
        return TRUE
    ps = parts(s)
    if ps and ps[0] is p:
        return TRUE
    if p.op == "str" and s.op == "str":
        return B(s.data.startswith(p.data))
    if p.op == "str" and ps and ps[0].op == "str":
        h = ps[0].data
        n = min(len(h), len(p.data))
        if h[:n] != p.data[:n]:
            return FALSE
        if len(h) >= len(p.data):
            return TRUE
    if not ps:
        return eq(p, s)
    return _mk("prefixof", (p, s), "Bool")


def suffixof(p, s):
    if isempty(p):
        return TRUE
    ps = parts(s)
    if ps and ps[-1] is p:
        return TRUE
    if p.op == "str" and s.op == "str":
        return B(s.data.endswith(p.data))
    if p.op == "str" and ps and ps[-1].op == "str":
        h = ps[-1].data
        n = min(len(h), len(p.data))
        if h[len(h) - n:] != p.data[len(p.data) - n:]:
            return FALSE
        if len(h) >= len(p.data):
            return TRUE
    if not ps:
        return eq(p, s)
    return _mk("suffixof", (p, s), "Bool")


def contains(s, p):
    """p in s"""
    if s.op == "str" and p.op == "str":
        return B(p.data in s.data)
    if isempty(p):
        return TRUE
    if p.op == "str" and any(a.op == "str" and p.data in a.data for a in parts(s)) or p in parts(s):
        return TRUE
    return _mk("contains", (s, p), "Bool")


def inre(s, rx):
    """s is in the language rx (an SMT-LIB regular expression, as text, with a name)"""
    return _mk("inre", (s,), "Bool", rx)


def mk(*xs):
    sort = ("Tup", tuple(x.sort for x in xs))
    if all(x.op == "sel" and x.data == i and x.args[0] is xs[0].args[0] for i, x in enumerate(xs)) \
            and xs[0].args[0].sort == sort:
        return xs[0].args[0]
    return _mk("mk", xs, sort)


def sel(t, i):
    if t.op == "mk":
        return t.args[i]
    if t.op == "ite":
        return ite(t.args[0], sel(t.args[1], i), sel(t.args[2], i))
    return _mk("sel", (t,), t.sort[1][i], i)


def app(name, args, sort):
    f = APP_SIMP.get(name)
    if f:
        r = f(*args)
        if r is not None:
            return r
    return _mk("app", tuple(args), sort, name)


APP_SIMP = {}


# ---- monoids and folds -------------------------------------------------------------------
def m_id(m, sort):
    if m == "str":
        return S("")
    if m == "seq":
        return empty(sort)
    return {"sum": I(0), "and": TRUE, "or": FALSE, "max0": I(0)}[m]


def m_op(m, a, b):
    if m in ("str", "seq"):
        return concat(a, b)
    if m == "sum":
        return add(a, b)
    if m == "and":
        return and_(a, b)
    if m == "or":
        return or_(a, b)
    if m == "max0":
        return max_(a, b)
    raise AssertionError(m)


def max_(a, b):
    if a.op == "int" and a.data == 0 and nonneg(b):
        return b
    if b.op == "int" and b.data == 0 and nonneg(a):
        return a
    return ite(le(a, b), b, a)


def min_(a, b):
    return ite(le(a, b), a, b)


def m_fold(m, xs, sort):
    r = m_id(m, sort)
    for x in xs:
        r = m_op(m, r, x)
    return r


def m_of(sort):
    return "str" if sort == "Str" else "seq" if isseq(sort) else None


def esort(t):
    return "Str" if t.sort == "Str" else t.sort[1]


def fold(t, m, fn):
    x = fresh("ch" if t.sort == "Str" else "bx", esort(t))
    body = fn(x)
    return mkfold(t, m, x, body)


def mkfold(t, m, x, body):
    # canonical bound variable
    h = max(body.ht + 1, 1)
    # height of free occurrences of outer bound variables does not matter for naming
    b = bvar(h, x.sort)
    if b is not x:
        body = subst(body, {x: b})
        h2 = max(body.ht + 1, 1)
        if h2 != h:
            b2 = bvar(h2, x.sort)
            body = subst(body, {b: b2})
            b = b2
    return _mkfold(t, m, b, body)


def _mkfold(t, m, b, body):
    rsort = body.sort
    mid = m_id(m, rsort)
    if body is mid:
        return mid
    inst = lambda e: subst(body, {b: e})
    if isempty(t):
        return mid
    if t.op == "concat":
        return m_fold(m, [_mkfold(a, m, b, body) for a in t.args], rsort)
    if t.op == "unit":
        return inst(t.args[0])
    if ischar(t):
        return inst(t)
    if t.op == "str":
        return m_fold(m, [inst(S(c)) for c in t.data], rsort)
    if t.op == "ite" and t.sort != "Bool":
        x, y = _mkfold(t.args[1], m, b, body), _mkfold(t.args[2], m, b, body)
        return ite(t.args[0], x, y)
    if t.op == "fold" and t.data[0] in ("str", "seq"):
        # fold(fold(u, concat, x.p), m, y.q)  =  fold(u, m, x. fold(p, m, y.q))
        b1, p = t.data[1], t.args[1]
        x = fresh("ch" if t.args[0].sort == "Str" else "bx", b1.sort)
        return mkfold(t.args[0], m, x, _mkfold(subst(p, {b1: x}), m, b, body))
    if (m in ("seq", "str")) and body.op == "unit" and body.args[0] is b:
        return t
    r = _fold_special(t, m, b, body, mid)
    if r is not None:
        return r
    if m == "str" and body is b:
        if t.sort == "Str":
            return t
    if m == "sum" and body.op == "int":
        return scale(body.data, length(t))
    if m == "and" and body.op == "and":
        return and_(*[_mkfold2(t, m, b, q) for q in body.args])
    if m in ("and", "or") and not occurs(b, body):
        e = eq(t, empty(t.sort))
        return or_(e, body) if m == "and" else and_(not_(e), body)
    return _mk("fold", (t, body), rsort, (m, b))


def _fold_special(t, m, b, body, mid):
    """rewrites that hold for the library functions: joins, splits, strips, repetition"""
    from .chars import vanishes_on
    if t.sort == "Str":
        if t.op in ("xslice", "slice"):
            s, i, j = t.args

            def droppable(e, which):
                """e = i0 + strip position inside u = s[i0:j0] of a class the fold ignores -> i0, j0"""
                d, c = _lin(e)
                for x, k in d.items():
                    if k != 1 or x.op != "app" or not x.data.startswith(which) or len(x.args) != 1:
                        continue
                    cls = STRIPSETS.get(x.data.split(":", 1)[1])
                    if cls is None:
                        continue
                    u = x.args[0]
                    i0 = sub(e, x)
                    if u is s and i0.op == "int" and i0.data == 0:
                        j0 = length(s)
                    elif u.op == "xslice" and u.args[0] is s and u.args[1] is i0:
                        j0 = u.args[2]
                    else:
                        continue
                    if vanishes_on(m, b, body, cls):
                        return i0, j0
                return None
            i2, j2 = i, j
            r = droppable(i, ("ind:",))
            if r:
                i2 = r[0]
            r = droppable(j, ("rend:", "send:"))
            if r:
                j2 = r[1]
            if i2 is not i or j2 is not j:
                return _mkfold(xslice(s, i2, j2) if t.op == "xslice" else slice_(s, i2, j2), m, b, body)
            r = droppable(j, ("ind:",))
            if r:
                return mid if r[0] is i else _mkfold(slice_(s, i, r[0]), m, b, body)
            r = droppable(i, ("rend:", "send:"))
            if r and r[1] is j:
                return mid
        elif t.op == "rep":
            f = _mkfold(t.args[0], m, b, body)
            if f is mid:
                return mid
            if m == "and":
                return or_(le(t.args[1], I(0)), f)
            if m == "or":
                return and_(lt(I(0), t.args[1]), f)
            if m in ("str", "seq"):
                return rep(f, t.args[1])
        elif t.op == "app" and t.data == "join":
            sep, L = t.args
            f = _mkfold(sep, m, b, body)
            if f is mid:
                x = fresh("bx", "Str")
                return mkfold(L, m, x, _mkfold(x, m, b, body))
            if m == "and":
                x = fresh("bx", "Str")
                return and_(mkfold(L, m, x, _mkfold(x, m, b, body)), or_(le(length(L), I(1)), f))
        elif t.op == "app" and t.data == "str_of_int" and body.op == "ite":
            if vanishes_on(m, b, body, "0123456789-"):
                return mid
            if m == "and" and vanishes_on(m, b, body, "0123456789-"):
                return TRUE
        elif t.op == "app" and t.data.startswith("fresub:"):
            pass
    elif t.op == "app" and body.op == "fold" and body.data[0] == m and body.args[0] is b and b.sort == "Str":
        b2, body2 = body.data[1], body.args[1]
        if t.data == "splitlines" and vanishes_on(m, b2, body2, "islsep"):
            return _mkfold(t.args[0], m, b2, body2)
        if t.data == "words" and vanishes_on(m, b2, body2, "isws"):
            return _mkfold(t.args[0], m, b2, body2)
        if t.data == "split" and t.args[1].op == "str" and vanishes_on(m, b2, body2, t.args[1].data):
            return _mkfold(t.args[0], m, b2, body2)
    return None


STRIPSETS = {"ws": "isws"}


def _mkfold2(t, m, b, body):
    return mkfold(t, m, b, body)


@memon
def foldlike(f, t):
    """the fold term f applied to another sequence"""
    return _mkfold(t, f.data[0], f.data[1], f.args[1])


_occ = {}


def occurs(v, t):
    key = (v.id, t.id)
    r = _occ.get(key)
    if r is None:
        if t is v:
            r = True
        elif t.op == "fold":
            r = occurs(v, t.args[0]) or (t.data[1] is not v and occurs(v, t.args[1]))
        elif t.op == "bigcat":
            r = occurs(v, t.args[0]) or (t.data[1] is not v and occurs(v, t.args[1]))
        else:
            r = any(occurs(v, a) for a in t.args)
        _occ[key] = r
    return r


def bigcat(n, m, fn):
    """body(0) * body(1) * ... * body(n-1)"""
    x = fresh("bx", "Int")
    body = fn(x)
    h = max(body.ht + 1, 1)
    b = bvar(h, "Int")
    return _mkbig(n, m, b, subst(body, {x: b}))


def _mkbig(n, m, b, body):
    if n.op == "int" and 0 <= n.data <= 3:
        return m_fold(m, [subst(body, {b: I(i)}) for i in range(n.data)], body.sort)
    t = _mk("bigcat", (n, body), body.sort, (m, b))
    t.ht = max(t.ht, b.data[1])
    return t


# ---- substitution ---------------------------------------------------------------------------
def rebuild(t, args):
    op = t.op
    if op == "lin":
        r = I(t.data[1])
        for a, k in zip(args, t.data[0]):
            r = add(r, scale(k, a))
        return r
    if op == "mul":
        return mul(*args)
    if op == "div":
        return floordiv(args[0], t.data)
    if op == "ge0":
        return le(I(0), args[0])
    if op == "eq0":
        return eq(args[0], I(0))
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "ite":
        return ite(*args)
    if op == "eq":
        return eq(*args)
    if op == "unit":
        return unit(args[0])
    if op == "concat":
        return concat(*args, sort=t.sort)
    if op == "len":
        return length(args[0])
    if op == "xslice":
        return xslice(*args)
    if op == "slice":
        return slice_(*args)
    if op == "nth":
        return nth(*args)
    if op == "rep":
        return rep(*args)
    if op == "prefixof":
        return prefixof(*args)
    if op == "suffixof":
        return suffixof(*args)
    if op == "contains":
        return contains(*args)
    if op == "inre":
        return inre(args[0], t.data)
    if op == "mk":
        return mk(*args)
    if op == "sel":
        return sel(args[0], t.data)
    if op == "app":
        return app(t.data, args, t.sort)
    raise AssertionError(op)


def subst(t, m, memo=None):
    if not m:
        return t
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not t.args:
        r = t
    elif t.op in ("fold", "bigcat"):
        s = subst(t.args[0], m, memo)
        b = t.data[1]
        m2 = {k: v for k, v in m.items() if k is not b} if b in m else m
        body = subst(t.args[1], m2, memo if m2 is m else None)
        if s is t.args[0] and body is t.args[1]:
            r = t
        elif body is t.args[1]:
            r = _mkfold(s, t.data[0], b, body) if t.op == "fold" else _mkbig(s, t.data[0], b, body)
        else:
            # the body changed: avoid capture, re-canonicalise
            x = fresh("ch" if b.data[2] else "bx", b.sort)
            body = subst(t.args[1], {**m2, b: x})
            if t.op == "fold":
                r = mkfold(s, t.data[0], x, body)
            else:
                h = max(body.ht + 1, 1)
                b2 = bvar(h, "Int")
                r = _mkbig(s, t.data[0], b2, subst(body, {x: b2}))
    else:
        args = [subst(a, m, memo) for a in t.args]
        if all(x is y for x, y in zip(args, t.args)):
            r = t
        else:
            r = rebuild(t, args)
    memo[t.id] = r
    return r


def subterms(ts, acc=None, into_binders=False):
    """all ground subterms (not inside binders, unless asked)"""
    acc = {} if acc is None else acc
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.id in acc:
            continue
        acc[t.id] = t
        if t.op in ("fold", "bigcat"):
            stack.append(t.args[0])
            if into_binders:
                stack.append(t.args[1])
        else:
            stack.extend(t.args)
    return acc


def freevars(t, acc=None, seen=None):
    acc = {} if acc is None else acc
    for s in subterms([t], into_binders=True).values():
        if s.op == "var":
            acc[s.id] = s
    return acc


# ---- printing -----------------------------------------------------------------------------
def show(t, d=0):
    op = t.op
    if op in ("var",):
        return t.data
    if op == "bv":
        return f"#{t.data[1]}"
    if op in ("int", "bool", "str"):
        return repr(t.data)
    if d > 12:
        return "..."
    a = [show(x, d + 1) for x in t.args]
    if op == "lin":
        s = " + ".join((x if k == 1 else f"{k}*{x}") for x, k in zip(a, t.data[0]))
        return f"({s} + {t.data[1]})" if t.data[1] else f"({s})"
    if op == "ge0":
        return f"(0 <= {a[0]})"
    if op == "eq0":
        return f"({a[0]} == 0)"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(a) + ")"
    if op == "eq":
        return f"({a[0]} == {a[1]})"
    if op == "concat":
        return "(" + " ++ ".join(a) + ")"
    if op in ("slice", "xslice"):
        return f"{a[0]}[{a[1]}:{a[2]}]" + ("" if op == "slice" else "!")
    if op == "nth":
        return f"{a[0]}[{a[1]}]"
    if op == "fold":
        return f"fold[{t.data[0]} #{t.data[1].data[1]}. {a[1]}]({a[0]})"
    if op == "bigcat":
        return f"big[{t.data[0]} #{t.data[1].data[1]}. {a[1]}]({a[0]})"
    if op == "app":
        return f"{t.data}({', '.join(a)})"
    if op == "sel":
        return f"{a[0]}.{t.data}"
    return f"{op}({', '.join(a)})"
