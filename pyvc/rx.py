"""Regular expressions.

Patterns whose matching is deterministic (every repetition is of one character class and what
follows cannot begin with a character of that class) are executed symbolically and exactly, from
the tree the interpreter's own parser produces.  Other patterns give uninterpreted positions with
the facts that hold for every match of the pattern.
"""
import re
import functools
import warnings
from . import ir, chars, solve
from .ir import *
from .vals import *

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import sre_parse
    import sre_constants as sc

DIGITS = "0123456789"
_preds = {"ws": chars.isws}


def kind_pred(kind):
    if kind == "ws":
        return chars.isws
    if kind == "nws":
        return lambda c: not_(chars.isws(c))
    if kind.startswith("c:"):
        return solve.charset_pred(kind[2:])
    if kind.startswith("n:"):
        return lambda c: and_(*[ne(c, S(x)) for x in kind[2:]])
    if kind.startswith("m:"):         # not whitespace and not in the set
        return lambda c: and_(not_(chars.isws(c)), *[ne(c, S(x)) for x in kind[2:]])
    raise Unsupported("character class " + kind)


_sp = solve.strip_pred


def strip_pred(t):
    kind = t.data.split(":", 1)[1]
    if kind == "$":
        return _sp(t)
    return kind_pred(kind)


solve.strip_pred = strip_pred


def kind_py(kind):
    """the class as a Python predicate"""
    if kind == "ws":
        return str.isspace
    if kind == "nws":
        return lambda c: not c.isspace()
    if kind.startswith("c:"):
        return lambda c: c in kind[2:]
    if kind.startswith("n:"):
        return lambda c: c not in kind[2:]
    if kind.startswith("m:"):
        return lambda c: not c.isspace() and c not in kind[2:]


def disjoint(k1, k2):
    p, q = kind_py(k1), kind_py(k2)
    cs = set(chars.classes().values()) | set(k1[2:]) | set(k2[2:]) | set(map(chr, range(256)))
    return not any(p(c) and q(c) for c in cs)


def single(item):
    """kind of a one-character item, or None"""
    op, av = item
    if op is sc.LITERAL:
        return "c:" + chr(av)
    if op is sc.NOT_LITERAL:
        return "n:" + chr(av)
    if op is sc.ANY:
        return "n:\n"
    if op is sc.CATEGORY:
        if av is sc.CATEGORY_SPACE:
            return "ws"
        if av is sc.CATEGORY_NOT_SPACE:
            return "nws"
        return None
    if op is sc.IN:
        neg = False
        cs, cats = [], []
        for o, v in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                cs.append(chr(v))
            elif o is sc.RANGE:
                if v[1] - v[0] > 200:
                    return None
                cs += [chr(i) for i in range(v[0], v[1] + 1)]
            elif o is sc.CATEGORY:
                cats.append(v)
            else:
                return None
        s = "".join(dict.fromkeys(cs))
        if not cats:
            return ("n:" if neg else "c:") + s
        if cats == [sc.CATEGORY_SPACE]:
            if neg:
                return "m:" + s if s else "nws"
            return "ws" if all(c.isspace() for c in s) else None
        if cats == [sc.CATEGORY_NOT_SPACE] and not s:
            return "ws" if neg else "nws"
        return None
    return None


@functools.lru_cache(None)
def tree(pattern, flags):
    return sre_parse.parse(pattern, flags)


def flatten(items):
    """capturing groups as open/close marks"""
    out = []
    for op, av in items:
        if op is sc.SUBPATTERN:
            g, addf, delf, sub_ = av
            if addf or delf:
                raise Unsupported("regex flags")
            if g is not None:
                out.append(("open", g))
            out += flatten(sub_)
            if g is not None:
                out.append(("close", g))
        else:
            out.append((op, av))
    return out


def first_kinds(items, i):
    """kinds of the characters that can come first in items[i:], and whether it can match empty
    ('end': only at the end of the string)"""
    ks = []
    while i < len(items):
        op, av = items[i]
        if op in ("open", "close"):
            i += 1
            continue
        k = single(items[i])
        if k:
            return ks + [k], False
        if op in (sc.MAX_REPEAT,):
            lo, hi, sub_ = av
            fs = flatten(sub_)
            k = [x for x in fs if x[0] not in ("open", "close")]
            if len(k) != 1 or not single(k[0]):
                raise Unsupported("regex repetition")
            ks.append(single(k[0]))
            if lo > 0:
                return ks, False
            i += 1
            continue
        if op is sc.AT and av in (sc.AT_END, sc.AT_END_STRING):
            return ks + (["c:\n"] if av is sc.AT_END else []), "end"
        if op is sc.BRANCH:
            res, e = [], False
            for alt in av[1]:
                k, e1 = first_kinds(flatten(alt) + items[i + 1:], 0)
                res += k
                e = e or e1
            return ks + res, e
        raise Unsupported(f"regex construct {op}")
    return ks, True


def ind_of(kind, s):
    solve.register_strip(kind)
    if s.op == "str":
        p = kind_py(kind)
        n = 0
        while n < len(s.data) and p(s.data[n]):
            n += 1
        return I(n)
    ir.STRIPSETS.setdefault(kind, kind[2:] if kind.startswith("c:") else "isws" if kind == "ws" else None)
    return app("ind:" + kind, (s,), "Int")


def exclusive(alts, items, i, s, pos, groups, full, safe):
    """(condition, end, groups) of alternatives of which at most one can match, whatever follows; None if that is not known"""
    firsts = []
    for alt in alts:
        ks, e = first_kinds(flatten(alt), 0)
        if e is True:
            return None
        firsts.append((ks, e))
    for j, (ks, e) in enumerate(firsts):
        for ks2, e2 in firsts[j + 1:]:
            if e and e2 or not all(disjoint(k, k2) for k in ks for k2 in ks2):
                return None
    res = []
    for alt in alts:
        run(flatten(alt) + items[i + 1:], 0, s, pos, groups, full)        # each alternative is deterministic before what follows
        r = run(flatten(alt), 0, s, pos, groups, False, safe)
        if len(r) != 1:
            return None
        res.append(r[0])
    if len({frozenset(g) for c, e, g in res}) > 1:
        return None

    def choose(values):
        """the value of the alternative that matches"""
        out = values[-1]
        for (c, _, _), v in reversed(list(zip(res[:-1], values[:-1]))):
            if v is out:
                continue
            if out.op == "ite" and out.args[1] is v:
                out = ite(or_(c, out.args[0]), v, out.args[2])
            else:
                out = ite(c, v, out)
        return out
    g = {k: (choose([r[2][k][0] for r in res]), None if res[0][2][k][1] is None else choose([r[2][k][1] for r in res])) for k in res[0][2]}
    return or_(*[c for c, _, _ in res]), choose([r[1] for r in res]), g


def run(items, i, s, pos, groups, full, safe=False):
    """ordered alternatives: [(condition, end, groups)], to be tried in order"""
    n = length(s)
    cond = TRUE
    safe = safe or pos.op == "int" and pos.data == 0   # pos is no further than the end, whatever was matched
    cut = lambda: (xslice if safe else slice_)(s, pos, n)
    groups = dict(groups)
    while i < len(items):
        op, av = items[i]
        if op == "open":
            groups[av] = (pos, None)
            i += 1
            continue
        if op == "close":
            groups[av] = (groups[av][0], pos)
            i += 1
            continue
        if op is sc.LITERAL:
            lit = ""
            while i < len(items) and items[i][0] is sc.LITERAL:
                lit += chr(items[i][1])
                i += 1
            cond = and_(cond, prefixof(S(lit), cut()))
            safe = False
            pos = add(pos, I(len(lit)))
            continue
        k = single(items[i])
        if k:
            p = kind_pred(k)
            cond = and_(cond, lt(pos, n), p(nth(s, pos)))
            pos = add(pos, I(1))
            safe = False
            i += 1
            continue
        if op is sc.MAX_REPEAT:
            lo, hi, sub_ = av
            fs = flatten(sub_)
            core = [x for x in fs if x[0] not in ("open", "close")]
            if len(core) != 1 or not single(core[0]) or len(fs) != 1:
                raise Unsupported("regex repetition")
            k = single(core[0])
            ks, e = first_kinds(items, i + 1)
            if not all(disjoint(k, q) for q in ks):
                raise Unsupported("ambiguous regex repetition")
            cnt = ind_of(k, cut())
            hi_ = None if hi is sc.MAXREPEAT else hi
            if lo:
                cond = and_(cond, le(I(lo), cnt))
            if hi_ is not None:
                if e is True and not ks:
                    cnt = ite(le(cnt, I(hi_)), cnt, I(hi_))
                elif e is True:
                    raise Unsupported("ambiguous regex repetition")
                else:
                    cond = and_(cond, le(cnt, I(hi_)))
            pos = add(pos, cnt)
            i += 1
            continue
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                cond = and_(cond, eq(pos, I(0)))
            elif av is sc.AT_END:
                cond = and_(cond, or_(eq(pos, n), and_(eq(pos, sub(n, I(1))), eq(slice_(s, pos, n), S("\n")))))
            elif av is sc.AT_END_STRING:
                cond = and_(cond, eq(pos, n))
            else:
                raise Unsupported("regex anchor")
            i += 1
            continue
        if op is sc.BRANCH:
            one = exclusive(av[1], items, i, s, pos, groups, full, safe)
            if one is not None:
                c, pos, groups = one
                safe = False
                cond = and_(cond, c)
                i += 1
                continue
            out = []
            for alt in av[1]:
                for c, e, g in run(flatten(alt) + items[i + 1:], 0, s, pos, groups, full, safe):
                    out.append((and_(cond, c), e, g))
            return out
        raise Unsupported(f"regex construct {op}")
    if full:
        cond = and_(cond, eq(pos, n))
    return [(cond, pos, groups)]


def match_at(pattern, flags, s, pos, full=False):
    """[(condition, end, groups)], exclusive alternatives"""
    if flags & ~re.UNICODE.value & ~re.DEBUG.value:
        raise Unsupported("regex flags")
    alts = run(flatten(tree(pattern, flags)), 0, s, pos, {}, full)
    out = []
    neg = TRUE
    for c, e, g in alts:
        out.append((and_(neg, c), e, g))
        neg = and_(neg, not_(c))
    return out


def anchored(pattern, flags):
    t = list(tree(pattern, flags))
    return bool(t) and t[0][0] is sc.AT and t[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and not flags & re.M


def min_width(pattern, flags):
    return tree(pattern, flags).getwidth()[0]


def deterministic(pattern, flags):
    try:
        match_at(pattern, flags, var("__rx", "Str"), I(0))
        return True
    except Unsupported:
        return False


# ---- facts that hold of every match, for patterns searched anywhere -------------------------
@functools.lru_cache(None)
def body_items(pattern, flags):
    """items of the pattern without lookarounds and groups; None if it is not a plain sequence"""
    out = []

    def go(items):
        for op, av in items:
            if op is sc.SUBPATTERN:
                go(av[3])
            elif op in (sc.ASSERT, sc.ASSERT_NOT):
                continue
            elif op is sc.MAX_REPEAT and len(av[2]) == 1 and av[2][0][0] is sc.SUBPATTERN:
                inner = []
                save = list(out)
                out.clear()
                go(av[2])
                inner = list(out)
                out[:] = save
                if len(inner) == 1:
                    out.append((op, (av[0], av[1], inner)))
                else:
                    raise Unsupported("regex repetition")
            elif op is sc.MAX_REPEAT:
                inner = []
                save = list(out)
                out.clear()
                go(av[2])
                inner = list(out)
                out[:] = save
                out.append((op, (av[0], av[1], inner)))
            else:
                out.append((op, av))
    try:
        go(tree(pattern, flags))
    except Unsupported:
        return None
    return out


@functools.lru_cache(None)
def group_facts(pattern, flags):
    """[function(group text) -> fact] for the text of any match"""
    items = body_items(pattern, flags)
    facts = []
    w = min_width(pattern, flags)
    if items is None:
        return [lambda g: le(I(w), length(g))]
    if len(items) == 1 and items[0][0] is sc.MAX_REPEAT and len(items[0][1][2]) == 1 and items[0][1][2][0][0] is sc.LITERAL:
        c = chr(items[0][1][2][0][1])
        facts.append(lambda g: eq(g, rep(S(c), length(g))))
        facts.append(lambda g: fold(g, "and", lambda x: eq(x, S(c))))
    # runs of literals
    lit = ""
    runs = []
    for op, av in list(items) + [(None, None)]:
        if op is sc.LITERAL:
            lit += chr(av)
        else:
            if lit:
                runs.append(lit)
            lit = ""
    for l in runs:
        if len(l) > 1:
            facts.append(lambda g, l=l: ir.contains(g, S(l)))
    if len(items) and items[-1][0] is sc.LITERAL and runs:
        facts.append(lambda g, l=runs[-1]: suffixof(S(l[-1]), g))
    if items and items[0][0] is sc.LITERAL and runs:
        facts.append(lambda g, l=runs[0]: prefixof(S(l[0]), g))
    if len(items) == len(runs[0]) if runs else False:
        facts.append(lambda g, l=runs[0]: eq(g, S(l)))
    try:
        match_at(pattern, flags, var("__rx", "Str"), I(0), True)
        facts.append(lambda g: or_(*[c for c, e, gr in match_at(pattern, flags, g, I(0), True)]))
    except Unsupported:
        pass
    for l in runs:
        if len(l) > 1 and occurs_once(pattern, flags, l):
            facts.append(lambda g, l=l: not_(ir.contains(slice_(g, add(indexof(g, S(l)), I(len(l))), length(g)), S(l))))
            facts.append(lambda g, l=l: eq(length(app("split", (g, S(l)), Seq("Str"))), I(2)))
    facts.append(lambda g: le(I(w), length(g)))
    return facts


def indexof(s, sub_):
    return app("indexof", (s, sub_), "Int")


@solve.schema("indexof")
def _ax_indexof(t):
    s, p = t.args
    n = length(s)
    c = ir.contains(s, p)
    w = length(p)
    before = slice_(s, I(0), t)
    after = slice_(s, add(t, w), n)
    return [implies(not_(c), eq(t, I(-1))),
            implies(c, and_(le(I(0), t), le(add(t, w), n), eq(s, concat(before, p, after)), not_(ir.contains(before, p)), eq(length(before), t)))]


@functools.lru_cache(None)
def occurs_once(pattern, flags, lit):
    """no match of the pattern contains lit twice (overlaps excluded): decided on automata"""
    from . import automata
    return automata.at_most_once(pattern, flags, lit)
