"""Character classes, decided by looking at every code point once (the interpreter's own tables)."""
import functools
import sys
from . import ir
from .ir import S, B

BASE = {
    "isws": lambda c: c.isspace(),
    "isalpha": lambda c: c.isalpha(),
    "isdigit": lambda c: c.isdigit(),       # what \d-free code uses through str.isdigit
    "islsep": lambda c: len(("a" + c + "b").splitlines()) == 2,
}
# the regular expression \s and str.strip() agree (checked below over all code points)


@functools.lru_cache(None)
def classes():
    """one representative per combination of base predicates, with all ASCII characters"""
    import re
    reps = {}
    rx = re.compile(r"\s")
    for i in range(sys.maxunicode + 1):
        c = chr(i)
        sp = c.isspace()
        if (not sp) and i > 127:
            key = (False, c.isalpha(), c.isdigit(), len(("a" + c + "b").splitlines()) == 2)
        else:
            key = tuple(f(c) for f in BASE.values())
            assert bool(rx.match(c)) == sp and (not c.strip()) == sp and (not c.split()) == sp, hex(i)
        if key not in reps:
            reps[key] = c
    return reps


def wschars():
    return [chr(i) for i in range(0x3001) if chr(i).isspace()]


def _simp(name):
    f = BASE[name]

    def g(c):
        if c.op == "str" and len(c.data) == 1:
            return B(f(c.data))
        return None
    return g


for _n in BASE:
    ir.APP_SIMP[_n] = _simp(_n)


def isws(c):
    return ir.app("isws", (c,), "Bool")


def isalpha(c):
    return ir.app("isalpha", (c,), "Bool")


def islsep(c):
    return ir.app("islsep", (c,), "Bool")


def literals(t, acc):
    for s in ir.subterms([t], into_binders=True).values():
        if s.op == "str":
            acc.update(s.data)
    return acc


def reps_for(*bodies):
    """characters such that a body over one character behaves on every character as on one of
    these: one per combination of base predicates, and every character the bodies mention"""
    acc = set(classes().values())
    for b in bodies:
        literals(b, acc)
    # a representative that is not itself mentioned, per class
    out = set(acc)
    ment = set()
    for b in bodies:
        literals(b, ment)
    for key, c in classes().items():
        if c in ment:
            # look for another member of the same class
            for i in range(sys.maxunicode + 1):
                d = chr(i)
                if d not in ment and tuple(f(d) for f in BASE.values()) == key:
                    out.add(d)
                    break
    return out


_vcache = {}


def char_all(pred_b, pred, body_b, test):
    """for every character c with pred(c): test(body(c), c)"""
    key = None
    for c in sorted(reps_for(pred, body_b[1])):
        cs = S(c)
        p = ir.subst(pred, {pred_b: cs})
        if p is ir.FALSE:
            continue
        r = ir.subst(body_b[1], {body_b[0]: cs})
        if p is not ir.TRUE:
            return False
        if not test(r):
            return False
    return True


def vanishes_on(m, b, body, cls):
    """the fold body is the identity on every character of class cls (a base predicate name, or a
    string of characters)"""
    key = (m, b.id, body.id, cls)
    r = _vcache.get(key)
    if r is None:
        mid = ir.m_id(m, body.sort)
        if cls in BASE:
            chars = [c for c in reps_for(body) if BASE[cls](c)]
        else:
            chars = list(cls)
        r = all(ir.subst(body, {b: S(c)}) is mid for c in chars)
        _vcache[key] = r
    return r
