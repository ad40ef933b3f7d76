"""Finite automata over character classes, for facts about the language of a pattern."""
import re
import warnings
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    import sre_parse
    import sre_constants as sc
from .vals import Unsupported


class NFA:
    def __init__(self):
        self.eps = []
        self.tr = []      # per state: [(predicate, target)]
        self.lits = set()

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1


def pred_of(op, av, lits):
    if op is sc.LITERAL:
        lits.add(chr(av))
        return lambda c: c == chr(av)
    if op is sc.NOT_LITERAL:
        lits.add(chr(av))
        return lambda c: c != chr(av)
    if op is sc.ANY:
        lits.add("\n")
        return lambda c: c != "\n"
    if op is sc.IN:
        neg = False
        ps = []
        for o, v in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                lits.add(chr(v))
                ps.append(lambda c, v=v: c == chr(v))
            elif o is sc.RANGE:
                lits.update([chr(v[0]), chr(v[1])])
                ps.append(lambda c, v=v: v[0] <= ord(c) <= v[1])
            elif o is sc.CATEGORY and v in (sc.CATEGORY_SPACE, sc.CATEGORY_NOT_SPACE):
                ps.append(str.isspace if v is sc.CATEGORY_SPACE else (lambda c: not c.isspace()))
            else:
                raise Unsupported("regex class")
        if neg:
            return lambda c: not any(p(c) for p in ps)
        return lambda c: any(p(c) for p in ps)
    if op is sc.CATEGORY:
        return pred_of(sc.IN, [(op, av)], lits)
    return None


def build(nfa, items, start):
    """an over-approximation: lookarounds and anchors are ignored"""
    cur = start
    for op, av in items:
        p = pred_of(op, av, nfa.lits) if op not in (sc.SUBPATTERN, sc.MAX_REPEAT, sc.MIN_REPEAT, sc.BRANCH, sc.ASSERT, sc.ASSERT_NOT, sc.AT) else None
        if p:
            nx = nfa.new()
            nfa.tr[cur].append((p, nx))
            cur = nx
        elif op is sc.SUBPATTERN:
            cur = build(nfa, av[3], cur)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 50 or (hi is not sc.MAXREPEAT and hi > 50):
                hi = sc.MAXREPEAT        # over-approximation
            for _ in range(lo):
                cur = build(nfa, sub, cur)
            if hi is sc.MAXREPEAT:
                loop = nfa.new()
                nfa.eps[cur].append(loop)
                e = build(nfa, sub, loop)
                nfa.eps[e].append(loop)
                cur = loop
            else:
                end = nfa.new()
                nfa.eps[cur].append(end)
                for _ in range(hi - lo):
                    cur = build(nfa, sub, cur)
                    nfa.eps[cur].append(end)
                cur = end
        elif op is sc.BRANCH:
            end = nfa.new()
            for alt in av[1]:
                nfa.eps[build(nfa, alt, cur)].append(end)
            cur = end
        elif op in (sc.ASSERT, sc.ASSERT_NOT, sc.AT):
            continue
        else:
            raise Unsupported(f"regex {op}")
    return cur


def closure(nfa, states):
    st = set(states)
    todo = list(states)
    while todo:
        s = todo.pop()
        for t in nfa.eps[s]:
            if t not in st:
                st.add(t)
                todo.append(t)
    return frozenset(st)


def at_most_once(pattern, flags, lit):
    """no string of the (over-approximated) language contains lit twice without overlap"""
    nfa = NFA()
    s0 = nfa.new()
    end = build(nfa, sre_parse.parse(pattern, flags), s0)
    alphabet = set(nfa.lits) | set(lit) | {" ", "\n", "a", "0", "\u00e9", "\u2003", "-"}
    for c in list(nfa.lits):
        alphabet.update([chr(ord(c) + 1), chr(max(0, ord(c) - 1))])
    # co-reachable states
    seen = set()
    todo = [(closure(nfa, [s0]), 0, 0)]      # states, prefix of lit matched, count
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > 20000:
            return False
        q, k, n = x
        if n >= 2 and end in q:
            return False
        for c in alphabet:
            nq = closure(nfa, [t for s in q for p, t in nfa.tr[s] if p(c)])
            if not nq:
                continue
            # leftmost non-overlapping occurrences: restart on mismatch (KMP by brute force)
            w = lit[:k] + c
            n2 = n
            while w and not lit.startswith(w):
                w = w[1:]
            k2 = len(w)
            if k2 == len(lit):
                n2, k2 = min(2, n + 1), 0
            todo.append((nq, k2, n2))
    return True
