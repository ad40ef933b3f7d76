"""What the verifier knows about Python's own types and functions."""
import ast
import builtins
import contextlib
import enum
import itertools
import logging
import math
import re
import string
import types
from . import ir, solve, rx, chars
from .ir import *
from .vals import *
from .sym import DictV, CtxV, GenV, RatV, OptV, FuncV, funcv, inrepo, isgenerator, mkbigcat

SECTION_CODES = {}       # enum member name -> code   (filled by the contracts)
CLASS_CODES = {}         # class name -> code
_enumtab = {}
_mutable = {}
EXTRA_CALLS = {}         # python object id -> handler(ex, st, args, kw, node)
EXTRA_METHODS = {}       # (type tag) -> handler
WITH_HOOKS = []
ATTR_HOOKS = []


def enum_code(m):
    cls = type(m)
    if cls.__name__ == "MarkdownSectionEnum" and m.name in SECTION_CODES:
        return SECTION_CODES[m.name]
    tab = _enumtab.setdefault(cls, {x.name: i for i, x in enumerate(cls)})
    return tab[m.name] + (1000 if cls.__name__ == "MarkdownSectionEnum" else 0)


def class_code(ex, cls):
    if isinstance(cls, tuple) and cls[0] == "sym":
        return cls[1]
    if cls.__name__ in CLASS_CODES:
        return I(CLASS_CODES[cls.__name__])
    raise Unsupported(f"class {cls.__name__}")


def mutable_globals(fv):
    """module-level names some function of the module reassigns"""
    name = fv.glob.get("__name__")
    if name not in _mutable:
        import sys
        from .sym import module_ast
        s = set()
        for n in ast.walk(module_ast(sys.modules[name])):
            if isinstance(n, ast.Global):
                s.update(n.names)
        _mutable[name] = s
    return _mutable[name]


def equal_hook(ex, st, a, b):
    if isinstance(a, PyV) != isinstance(b, PyV):
        o = b if isinstance(a, PyV) else a
        if isinstance(o, (Term, NumV, Ref, tuple)):
            return None
    return None


def binop_hook(ex, st, op, a, b):
    for h in BINOP_HOOKS:
        r = h(ex, st, op, a, b)
        if r is not None:
            return r
    return None


BINOP_HOOKS = []
INDEX_HOOKS = []


def index_hook(ex, st, o, i):
    for h in INDEX_HOOKS:
        r = h(ex, st, o, i)
        if r is not None:
            return r
    return None


# ---- repr / str -----------------------------------------------------------------------------
def do_repr(ex, st, v):
    if isinstance(v, Ref) and isinstance(st.heap[v], HObj):
        return call_method(ex, st, v, "__repr__", [], {})
    if isinstance(v, Term) or v is None or isinstance(v, (NumV, tuple, PyV, Ref)):
        return [(st, fresh("repr", "Str"))]
    raise Unsupported("repr")


def do_str(ex, st, v):
    if isinstance(v, Term):
        if v.sort == "Str":
            return [(st, v)]
        if v.sort == "Int":
            return [(st, str_of_int(v))]
    if isinstance(v, Ref) and isinstance(st.heap[v], HObj):
        return call_method(ex, st, v, "__repr__", [], {})
    if isinstance(v, (NumV, tuple, PyV, Ref)) or v is None or isinstance(v, Term):
        return [(st, fresh("str", "Str"))]
    raise Unsupported("str()")


def str_of_int(t):
    if t.op == "int":
        return S(str(t.data))
    return app("str_of_int", (t,), "Str")


def _opt_repr(ex, st, v):
    return [(st, fresh("repr", "Str"))]


# ---- attributes --------------------------------------------------------------------------
STR_METHODS = {"strip", "lstrip", "rstrip", "startswith", "endswith", "splitlines", "split", "join", "format", "isspace",
               "find", "rsplit", "replace", "count", "index", "removeprefix", "removesuffix", "ljust", "rjust", "center",
               "lower", "upper", "isdigit", "partition"}
LIST_METHODS = {"append", "extend", "sort", "pop", "insert", "copy", "index", "count", "reverse", "clear"}


def getattr_(ex, st, o, name):
    for h in ATTR_HOOKS:
        r = h(ex, st, o, name)
        if r is not None:
            return r
    if isinstance(o, PyV):
        p = o.o
        if isinstance(p, types.ModuleType):
            key = ("mod", p.__name__, name)
            if key in st.ghost:
                return [(st, st.ghost[key])]
            if not hasattr(p, name):
                raise Unsupported(f"attribute {name}")
            if p is logging and name in LOG_LEVELS:
                return [(st, var("logging." + name, "Int"))]
            return [(st, ex.lift(getattr(p, name)))]
        if isinstance(p, logging.Logger):
            if name == "level":
                return [(st, logger_level(st, p))]
            return [(st, Bound(o, name))]
        if isinstance(p, type):
            if issubclass(p, enum.Enum) and name in p.__members__:
                return [(st, ex.lift(p[name]))]
            if name == "__name__":
                return [(st, S(p.__name__))]
            raise Unsupported(f"class attribute {p.__name__}.{name}")
        if isinstance(p, (re.Pattern, dict, str, itertools.chain.__class__)):
            if isinstance(p, re.Pattern) and name == "pattern":
                return [(st, S(p.pattern))]
            return [(st, Bound(o, name))]
        if isinstance(p, (list, tuple, set, frozenset)):
            return [(st, Bound(o, name))]
        if p is itertools.chain and name == "from_iterable":
            raise Unsupported("chain.from_iterable")
        raise Unsupported(f"attribute {name} of {p!r}")
    if isinstance(o, Term):
        if o.sort == "Str":
            if name not in STR_METHODS:
                raise Unsupported(f"str.{name}")
            return [(st, Bound(o, name))]
        if o.sort == "Int" and name in ("value", "name"):
            return [(st, app("enum_" + name, (o,), "Str"))]
    if isinstance(o, Ref):
        h = st.heap[o]
        if isinstance(h, HList):
            if name not in LIST_METHODS:
                raise Unsupported(f"list.{name}")
            return [(st, Bound(o, name))]
        if isinstance(h, HObj):
            if name in h.attrs:
                return [(st, h.attrs[name])]
            if name == "__class__":
                if isinstance(h.cls, tuple):
                    raise Unsupported("class of an object of unknown class")
                return [(st, PyV(h.cls))]
            return obj_attr(ex, st, o, h, name)
        if isinstance(h, HExc):
            if name == "args":
                return [(st, ex.newlist(st, list(h.args))) if False else (st, tuple(x for x in h.args))]
    if isinstance(o, (MatchV, CondMatch)):
        return [(st, Bound(o, name))]
    if isinstance(o, (DictV, PatSym)):
        return [(st, Bound(o, name))]
    if isinstance(o, RatV):
        raise Unsupported("attribute of a fraction")
    if o is None:
        ex.raise_(st, AttributeError)
        return []
    raise Unsupported(f"attribute {name} of {o!r}")


class CondMatch:
    """placeholder"""


def class_member(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c, c.__dict__[name]
    return None, None


def obj_attr(ex, st, ref, h, name):
    if isinstance(h.cls, tuple):
        return [(st, Bound(ref, name))]
    c, m = class_member(h.cls, name)
    if m is None:
        ex.raise_(st, AttributeError)
        return []
    if isinstance(m, property):
        f = funcv(m.fget, cls=c)
        return ex.call_func(st, f, [ref], {})
    if isinstance(m, types.FunctionType):
        return [(st, Bound(ref, name))]
    if isinstance(m, (str, int, float, re.Pattern, tuple, list, dict)):
        return [(st, ex.lift(m))]
    if isinstance(m, staticmethod):
        return [(st, funcv(m.__func__, cls=c))]
    raise Unsupported(f"class member {name}")


def setattr_(ex, st, o, name, v):
    if isinstance(o, PyV) and isinstance(o.o, types.ModuleType):
        s = st.copy()
        s.ghost[("mod", o.o.__name__, name)] = v
        return [s]
    if isinstance(o, Ref) and isinstance(st.heap[o], HObj):
        s = st.copy()
        h = s.heap[o]
        if isinstance(h.cls, tuple):
            raise Unsupported("attribute assignment")
        s.heap[o] = HObj(h.cls, {**h.attrs, name: v})
        return [s]
    if isinstance(o, Ref) and isinstance(st.heap[o], HExc):
        return [st]
    for h in SETATTR_HOOKS:
        r = h(ex, st, o, name, v)
        if r is not None:
            return r
    raise Unsupported("attribute assignment")


SETATTR_HOOKS = []


def logger_level(st, lg):
    return st.ghost.get(("logger", lg.name), var(f"level:{lg.name}", "Int"))


def ghost_default(g):
    """the value of a ghost variable nothing was assigned to"""
    if g[0] == "logger":
        return var(f"level:{g[1]}", "Int")
    if g[0] == "mod" and g[1] == "logging" and g[2] in LOG_LEVELS:
        return var("logging." + g[2], "Int")
    return None


# ---- calls ---------------------------------------------------------------------------------
def call(ex, st, f, args, kw, node):
    if isinstance(f, Bound):
        return call_method(ex, st, f.obj, f.name, args, kw)
    if isinstance(f, SymClass):
        return construct_sym(ex, st, f, args, kw)
    if isinstance(f, PyV):
        h = EXTRA_CALLS.get(id(f.o))
        if h:
            return h(ex, st, args, kw, node)
        p = f.o
        if isinstance(p, type) and inrepo(p):
            if issubclass(p, BaseException):
                return [(st, HExc(p, tuple(args)))]
            if issubclass(p, enum.Enum):
                raise Unsupported("enum call")
            return construct(ex, st, p, args, kw)
        if isinstance(p, type) and issubclass(p, BaseException):
            return [(st, HExc(p, tuple(args)))]
        name = getattr(p, "__name__", None)
        if getattr(builtins, name or "", None) is p:
            m = globals().get("b_" + name)
            if m:
                return m(ex, st, args, kw)
        key = (getattr(p, "__module__", None), name)
        if isinstance(p, types.BuiltinFunctionType) and p.__self__ is math or key[0] == "math":
            m = globals().get("math_" + name)
            if m:
                return m(ex, st, args, kw)
        if p is itertools.chain:
            return it_chain(ex, st, args, kw)
        if key[0] == "re":
            m = globals().get("re_" + name)
            if m:
                return m(ex, st, args, kw)
        if key[0] == "typing" and name == "cast":
            return [(st, args[1])]
        if key == ("logging", "getLogger"):
            raise Unsupported("getLogger")
    raise Unsupported(f"call of {f!r}")


def construct(ex, st, cls, args, kw):
    st = st.copy()
    r = st.alloc(HObj(cls, {}))
    c, init = class_member(cls, "__init__")
    if not isinstance(init, types.FunctionType):
        if init is object.__init__ and not args and not kw:
            return [(st, r)]
        raise Unsupported("constructor")
    return [(s, r) for s, v in ex.inline(st, funcv(init, cls=c), ex.bind(st, funcv(init, cls=c), [r] + args, kw), merge=False)]


def construct_sym(ex, st, f, args, kw):
    """an object whose class is one of several: all must build the same attributes"""
    st = st.copy()
    attrs = None
    for code, cls in f.cases:
        outs = construct(ex, st, cls, args, kw)
        if len(outs) != 1 or outs[0][0].pc != st.pc or outs[0][0].ghost != st.ghost:
            raise Unsupported("constructors with effects")
        s2, r = outs[0]
        a = s2.heap[r].attrs
        if attrs is None:
            attrs, keep = a, s2
        elif set(a) != set(attrs) or any(a[k] is not attrs[k] and not (isinstance(a[k], Term) and a[k] is attrs[k]) for k in a):
            raise Unsupported("constructors that differ")
    return [(keep, keep.alloc(HObj(("sym", f.cond), attrs)))]


def dict_index(ex, st, o, i):
    pairs = o.pairs if isinstance(o, DictV) else [(ex.lift(k), ex.lift(v)) for k, v in o.o.items()]
    if isinstance(i, Term) and all(isinstance(k, Term) for k, v in pairs):
        for k, v in pairs:
            if k is i:
                return [(st, v)]
        if i.op in ("int", "str"):
            ex.raise_(st, KeyError)
            return []
        if all(isinstance(v, PyV) and isinstance(v.o, type) and inrepo(v.o) for k, v in pairs):
            code = I(-1)
            for k, v in reversed(pairs):
                code = ite(eq(i, k), class_code(ex, v.o), code)
            # the identity mapping is written as the index itself
            if all(class_code(ex, v.o) is k for k, v in pairs):
                code = i
            out = []
            for s in ex.ensure(st, or_(*[eq(i, k) for k, v in pairs]), KeyError):
                out.append((s, SymClass(code, [(class_code(ex, v.o), v.o) for k, v in pairs])))
            return out
        out = []
        for s in ex.ensure(st, or_(*[eq(i, k) for k, v in pairs]), KeyError):
            outs = [(s.plus(eq(i, k)), v) for k, v in pairs]
            outs = [x for x in outs if not x[0].dead()]
            m = ex.merge_values(s, outs, len(s.pc)) if outs else None
            out += m if m is not None else outs
        return out
    raise Unsupported("dictionary lookup")


# builtins
def b_len(ex, st, args, kw):
    v = args[0]
    if isinstance(v, Term) and (v.sort == "Str" or isseq(v.sort)):
        return [(st, length(v))]
    items = ex.concrete(st, v)
    if items is not None:
        return [(st, I(len(items)))]
    if isinstance(v, Ref) and isinstance(st.heap[v], HList):
        return [(st, ex.llen(st, v))]
    raise Unsupported("len")


def b_bool(ex, st, args, kw):
    return [(st, ex.truth(st, args[0]))] if args else [(st, FALSE)]


def b_str(ex, st, args, kw):
    if not args:
        return [(st, S(""))]
    return do_str(ex, st, args[0])


def b_repr(ex, st, args, kw):
    return do_repr(ex, st, args[0])


def int_ok(s):
    return and_(lt(I(0), length(s)), le(length(s), I(4300)), fold(s, "and", solve.charset_pred("0123456789")))


def int_of_str(s):
    if s.op == "str":
        return I(int(s.data))
    return app("int_of_str", (s,), "Int")


ir.NONNEG_APPS.add("int_of_str")


def b_int(ex, st, args, kw):
    v = args[0]
    if isinstance(v, Term) and v.sort == "Int":
        return [(st, v)]
    if isinstance(v, Term) and v.sort == "Bool":
        return [(st, ite(v, I(1), I(0)))]
    if isinstance(v, Term) and v.sort == "Str" and len(args) == 1 and not kw:
        return [(s, int_of_str(v)) for s in ex.ensure(st, int_ok(v), ValueError)]
    raise Unsupported("int()")


def b_list(ex, st, args, kw):
    st = st.copy()
    if not args:
        return [(st, ex.newlist(st, []))]
    v = ex.force(st, args[0])
    items = ex.concrete(st, v)
    if items is not None:
        return [(st, ex.newlist(st, items))]
    seq, et = ex.view_seq(st, ex.iter_view(st, v))
    return [(st, ex.seqlist(st, seq, et))]


def b_tuple(ex, st, args, kw):
    if not args:
        return [(st, ())]
    items = ex.concrete(st, args[0])
    if items is not None:
        return [(st, tuple(items))]
    return b_list(ex, st, args, kw)


def b_sorted(ex, st, args, kw):
    out = []
    for s, r in b_list(ex, st, args[:1], {}):
        out += list_sort(ex, s, r, kw, ret=True)
    return out


def b_enumerate(ex, st, args, kw):
    st = st.copy()
    start = args[1] if len(args) > 1 else kw.get("start", I(0))
    vw = ex.iter_view(st, args[0])
    if vw.items is not None:
        nv = View(vw.n, None, items=[(add(start, I(k)), x) for k, x in enumerate(vw.items)])
    else:
        nv = View(vw.n, lambda s, i: (add(start, i), vw.elem(s, i)), base=vw.base, off=vw.off)
    return [(st, st.alloc(HIter(nv, I(0))))]


def b_iter(ex, st, args, kw):
    st = st.copy()
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap[v], HIter):
        return [(st, v)]
    return [(st, st.alloc(HIter(ex.iter_view(st, v), I(0))))]


def b_next(ex, st, args, kw):
    it = args[0]
    if isinstance(it, GenV):
        raise Unsupported("next() of a fresh generator")
    if not (isinstance(it, Ref) and isinstance(st.heap[it], HIter)):
        ex.raise_(st, TypeError)
        return []
    h = st.heap[it]
    out = []
    if h.view.items is not None:
        if h.pos.data >= len(h.view.items):
            if len(args) > 1:
                return [(st, args[1])]
            ex.raise_(st, StopIteration)
            return []
        s = st.copy()
        s.heap[it] = HIter(h.view, add(h.pos, I(1)))
        return [(s, h.view.items[h.pos.data])]
    more = lt(h.pos, h.view.n)
    if len(args) > 1:
        s0 = st.plus(not_(more))
        if not s0.dead():
            out.append((s0, args[1]))
        ss = [st.plus(more)] if more is not FALSE else []
    else:
        ss = ex.ensure(st, more, StopIteration)
    for s in ss:
        s = s.copy()
        v = h.view.elem(s, h.pos)
        s.heap[it] = HIter(h.view, add(h.pos, I(1)))
        out.append((s, v))
    return out


def b_zip(ex, st, args, kw):
    if kw:
        raise Unsupported("zip arguments")
    st = st.copy()
    vs = [ex.iter_view(st, ex.force(st, a)) for a in args]
    if all(v.items is not None for v in vs):
        return [(st, View(None, None, items=[tuple(t) for t in zip(*[v.items for v in vs])]))]
    n = None
    for v in vs:
        if v.n is not None:
            n = v.n if n is None or n is v.n else min_(n, v.n)

    def at(v):
        if v.items is not None:
            if not v.items:
                return lambda s, i: None

            def pick(s, i):
                conds = [eq(i, I(k)) for k in range(len(v.items))]
                if not ex.mergeable(v.items):
                    raise Unsupported("zip")
                return ex.merge_v(conds, v.items)
            return pick
        return v.elem
    els = [at(v) for v in vs]
    out = View(n, lambda s, i: tuple(e(s, i) for e in els))
    out.zipped = vs
    return [(st, out)]


def b_range(ex, st, args, kw):
    a, b = (I(0), args[0]) if len(args) == 1 else (args[0], args[1])
    if len(args) == 3 and not (isinstance(args[2], Term) and args[2] is I(1)):
        raise Unsupported("range step")
    d = sub(b, a)
    n = d if nonneg(d) else ite(le(I(0), d), d, I(0))
    if a.op == "int" and n.op == "int" and n.data <= 50:
        return [(st, View(n, None, items=[I(a.data + k) for k in range(n.data)]))]
    return [(st, View(n, lambda s, i: add(a, i)))]


def b_reversed(ex, st, args, kw):
    items = ex.concrete(st, args[0])
    if items is None:
        raise Unsupported("reversed")
    return [(st, View(I(len(items)), None, items=items[::-1]))]


def _anyall(ex, st, v, m):
    items = ex.concrete(st, v)
    if items is not None:
        ts = [ex.truth(st, x) for x in items]
        return [(st, or_(*ts) if m == "or" else and_(*ts))]
    st = st.copy()
    seq, et = ex.view_seq(st, ex.iter_view(st, v))
    s0 = st.copy()

    def f(x):
        return ex.truth(s0, ex.decode(s0, x, et))
    return [(st, fold(seq, m, f))]


def b_any(ex, st, args, kw):
    return _anyall(ex, st, args[0], "or")


def b_all(ex, st, args, kw):
    return _anyall(ex, st, args[0], "and")


def b_sum(ex, st, args, kw):
    items = ex.concrete(st, args[0])
    if items is not None and all(isinstance(x, Term) and x.sort == "Int" for x in items):
        return [(st, add(I(0), *items))]
    seq, et = ex.view_seq(st, ex.iter_view(st, args[0]))
    if et not in ("int", "bool"):
        raise Unsupported("sum")
    return [(st, fold(seq, "sum", lambda x: x if x.sort == "Int" else ite(x, I(1), I(0))))]


def _minmax(ex, st, args, kw, ismax):
    if len(args) == 1:
        default = kw.get("default")
        items = ex.concrete(st, args[0])
        if items is None:
            st = st.copy()
            seq, et = ex.view_seq(st, ex.iter_view(st, args[0]))
            if et != "int" or not ismax or (set(kw) - {"default"}):
                raise Unsupported("max")
            s0 = lt(I(0), length(seq))
            r = fold(seq, "max0", lambda x: x)
            body = r.args[1] if r.op == "fold" else None
            if r.op == "fold" and not nonneg(body):
                raise Unsupported("max of possibly negative numbers")
            if default is not None:
                return [(st, ite(s0, r, default))]
            return [(s, r) for s in ex.ensure(st, s0, ValueError)]
        if not items:
            if default is not None:
                return [(st, default)]
            ex.raise_(st, ValueError)
            return []
        args = items
    r = args[0]
    for x in args[1:]:
        if isinstance(r, NumV) or isinstance(x, NumV):
            a, b = ex.num(r), ex.num(x)
            v = max_(a.val, b.val) if ismax else None
            if v is None:
                raise Unsupported("min of line lengths")
            r = NumV(or_(a.inf, b.inf), v)
        else:
            if not (isinstance(r, Term) and r.sort == "Int" and isinstance(x, Term) and x.sort == "Int"):
                raise Unsupported("max")
            r = max_(r, x) if ismax else min_(r, x)
    return [(st, r)]


def b_max(ex, st, args, kw):
    return _minmax(ex, st, args, kw, True)


def b_min(ex, st, args, kw):
    return _minmax(ex, st, args, kw, False)


def b_abs(ex, st, args, kw):
    a = args[0]
    return [(st, ite(le(I(0), a), a, scale(-1, a)))]


def b_isinstance(ex, st, args, kw):
    v, c = args
    cs = [x.o for x in (c if isinstance(c, tuple) else (c,))]
    if isinstance(v, NumV):
        t = FALSE
        if float in cs:
            t = or_(t, v.inf)
        if int in cs:
            t = or_(t, not_(v.inf))
        return [(st, t)]
    if isinstance(v, Term):
        py = {"Str": str, "Int": int, "Bool": bool}[v.sort]
        return [(st, B(any(issubclass(py, x) for x in cs)))]
    if v is None:
        return [(st, B(type(None) in cs))]
    if isinstance(v, Ref):
        h = st.heap[v]
        if isinstance(h, HExc):
            if any(issubclass(x, h.cls) and x is not h.cls for x in cs):
                raise Unsupported("isinstance of an exception of unknown subclass")
            return [(st, B(any(issubclass(h.cls, x) for x in cs)))]
        if isinstance(h, HList):
            return [(st, B(list in cs))]
        if isinstance(h, HObj) and not isinstance(h.cls, tuple):
            return [(st, B(issubclass(h.cls, tuple(cs))))]
    raise Unsupported("isinstance")


def b_print(ex, st, args, kw):
    return [(st, None)]


def math_floor(ex, st, args, kw):
    v = args[0]
    if isinstance(v, RatV):
        return [(st, floordiv(v.a, v.k))]
    if isinstance(v, Term) and v.sort == "Int":
        return [(st, v)]
    raise Unsupported("floor")


def math_ceil(ex, st, args, kw):
    v = args[0]
    if isinstance(v, RatV):
        return [(st, scale(-1, floordiv(scale(-1, v.a), v.k)))]
    if isinstance(v, Term) and v.sort == "Int":
        return [(st, v)]
    raise Unsupported("ceil")


def it_chain(ex, st, args, kw):
    st = st.copy()
    vs = []
    for a in args:
        vs.append(ex.iter_view(st, a))
        if isinstance(a, Ref) and isinstance(st.heap[a], HIter):
            st.heap[a] = HIter(st.heap[a].view, fresh("pos", "Int"))
    if all(v.items is not None for v in vs):
        return [(st, View(None, None, items=[x for v in vs for x in v.items]))]
    if len(vs) == 2 and vs[0].items is not None:
        k = len(vs[0].items)

        def elem(s, i):
            vals = list(vs[0].items) + [vs[1].elem(s, sub(i, I(k)))]
            conds = [eq(i, I(j)) for j in range(k)] + [le(I(k), i)]
            if not ex.mergeable(vals):
                raise Unsupported("chain")
            return ex.merge_v(conds, vals)
        return [(st, View(add(vs[1].n, I(k)), elem))]
    raise Unsupported("chain")


def gen_view(ex, st, g):
    """a generator function of the form `for x in it: yield e` (without other state)"""
    body = [s for s in g.f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) == 1 and isinstance(body[0], ast.For) and not body[0].orelse and len(body[0].body) == 1 and \
            isinstance(body[0].body[0], ast.Expr) and isinstance(body[0].body[0].value, ast.Yield) and body[0].body[0].value.value is not None:
        loop = body[0]
        s = st.copy()
        s.env = g.env
        save = ex.curfv
        ex.curfv = g.f
        try:
            outs = ex.ev(loop.iter, s)
            if len(outs) != 1:
                raise Unsupported("generator")
            s1, it = outs[0]
            vw = ex.iter_view(s1, it)
        finally:
            ex.curfv = save
        for r, o in s1.heap.items():
            st.heap.setdefault(r, o)

        def elem(s2, i):
            save_env = s2.env
            x = vw.elem(s2, i) if vw.items is None else None
            save = ex.curfv
            ex.curfv = g.f
            s3 = s2.copy()
            s3.env = dict(s1.env)
            try:
                ss = ex.assign(loop.target, x, s3)
                outs = ex.ev(loop.body[0].value.value, ss[0])
            finally:
                ex.curfv = save
            if len(ss) != 1 or len(outs) != 1:
                raise Unsupported("generator")
            s4, v = outs[0]
            s2.heap.update({r: o for r, o in s4.heap.items() if r not in s2.heap})
            s2.pc = s4.pc
            return v
        if vw.items is not None:
            raise Unsupported("generator over a known sequence")
        out = View(vw.n, elem)
        return out
    raise Unsupported("generator function")


# ---- methods -------------------------------------------------------------------------------
def call_method(ex, st, o, name, args, kw):
    for h in METHOD_HOOKS:
        r = h(ex, st, o, name, args, kw)
        if r is not None:
            return r
    if isinstance(o, Term) and o.sort == "Str":
        return str_method(ex, st, o, name, args, kw)
    if isinstance(o, Ref):
        h = st.heap[o]
        if isinstance(h, HList):
            return list_method(ex, st, o, name, args, kw)
        if isinstance(h, HObj):
            if isinstance(h.cls, tuple):
                c = ex.contracts.get("*." + name)
                if c is None:
                    raise Unsupported(f"method {name} of an object of unknown class")
                env = {"self": o}
                for (n, k), v in zip(c.params[1:], args):
                    env[n] = v
                for k, v in kw.items():
                    env[k] = v
                if len(env) != len(c.params):
                    raise Unsupported("arguments of an abstract method")
                return ex.apply_contract(st, c, env)
            cc, m = class_member(h.cls, name)
            if isinstance(m, types.FunctionType):
                return ex.call_func(st, funcv(m, cls=cc), [o] + args, kw)
            raise Unsupported(f"method {name}")
    if isinstance(o, MatchV):
        return match_method(ex, st, o, name, args)
    if isinstance(o, PyV):
        if isinstance(o.o, re.Pattern):
            return pattern_method(ex, st, o.o, name, args, kw)
        if isinstance(o.o, logging.Logger):
            return logger_method(ex, st, o.o, name, args, kw)
        if isinstance(o.o, dict) and name in ("items", "keys", "values"):
            its = {"items": lambda: [(ex.lift(a), ex.lift(b)) for a, b in o.o.items()], "keys": lambda: [ex.lift(a) for a in o.o],
                   "values": lambda: [ex.lift(a) for a in o.o.values()]}[name]()
            return [(st, View(None, None, items=its))]
        if isinstance(o.o, dict) and name == "get" and len(args) in (1, 2):
            raise Unsupported("dict.get")
        if isinstance(o.o, (list,)) and name == "index":
            raise Unsupported("list.index")
    if isinstance(o, PatSym):
        return patsym_method(ex, st, o, name, args, kw)
    raise Unsupported(f"method {name} of {o!r}")


METHOD_HOOKS = []
LOG_LEVELS = ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")


def logger_method(ex, st, lg, name, args, kw):
    if name in ("debug", "info", "warning", "error", "critical", "exception", "log"):
        return [(st, None)]
    if name == "setLevel":
        s = st.copy()
        s.ghost[("logger", lg.name)] = args[0]
        return [(s, None)]
    if name == "getEffectiveLevel":
        return [(st, fresh("efflevel", "Int"))]
    if name == "isEnabledFor":
        return [(st, fresh("enabled", "Bool"))]
    raise Unsupported(f"logger.{name}")


def strip_kind(args):
    if not args or args[0] is None:
        return "ws", ()
    a = args[0]
    if a.op == "str":
        return ("c:" + "".join(dict.fromkeys(a.data))), ()
    return "$", (a,)


def str_method(ex, st, s, name, args, kw):
    if name in ("strip", "lstrip", "rstrip"):
        kind, extra = strip_kind(args)
        return [(st, {"strip": solve.strip, "lstrip": solve.lstrip, "rstrip": solve.rstrip}[name](s, kind, extra))]
    if name in ("startswith", "endswith"):
        if len(args) != 1:
            raise Unsupported(name)
        ps = args[0] if isinstance(args[0], tuple) else (args[0],)
        return [(st, or_(*[(prefixof if name == "startswith" else suffixof)(p, s) for p in ps]))]
    if name == "splitlines":
        if args or kw:
            raise Unsupported("splitlines(keepends)")
        st = st.copy()
        return [(st, ex.unspec(st, app("splitlines", (s,), Seq("Str"))))]
    if name == "join":
        return str_join(ex, st, s, args[0])
    if name == "split":
        return str_split(ex, st, s, args, kw)
    if name == "format":
        if s.op == "str":
            return str_format(ex, st, s.data, args, kw)
        return [(st, fresh("fmt", "Str"))]
    if name == "isspace":
        return [(st, and_(ne(s, S("")), fold(s, "and", chars.isws)))]
    if name == "isdigit":
        raise Unsupported("isdigit")
    if name == "find" and len(args) == 1:
        return [(st, rx.indexof(s, args[0]))]
    if name == "index" and len(args) == 1:
        return [(s2, rx.indexof(s, args[0])) for s2 in ex.ensure(st, ir.contains(s, args[0]), ValueError)]
    if name in ("removeprefix", "removesuffix") and len(args) == 1:
        p, n = args[0], length(s)
        if name == "removeprefix":
            return [(st, ite(prefixof(p, s), slice_(s, length(p), n), s))]
        return [(st, ite(suffixof(p, s), slice_(s, I(0), sub(n, length(p))), s))]
    if name in ("ljust", "rjust") and len(args) == 1:
        pad = rep(S(" "), sub(args[0], length(s)))
        return [(st, concat(s, pad) if name == "ljust" else concat(pad, s))]
    if name == "partition" and len(args) == 1:
        p = args[0]
        k = rx.indexof(s, p)
        n = length(s)
        c = ir.contains(s, p)
        return [(st, (ite(c, slice_(s, I(0), k), s), ite(c, p, S("")), ite(c, slice_(s, add(k, length(p)), n), S(""))))]
    if name in ("replace", "count", "lower", "upper", "center", "rsplit"):
        raise Unsupported(f"str.{name}")
    raise Unsupported(f"str.{name}")


def str_format(ex, st, fmt, args, kw):
    out = []
    auto = 0
    outs = [(st, [])]
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        nxt = []
        for s, vs in outs:
            vs = vs + ([S(lit)] if lit else [])
            if field is None:
                nxt.append((s, vs))
                continue
            if spec:
                nxt.append((s, vs + [fresh("fmt", "Str")]))
                continue
            if field == "":
                v = args[auto]
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupported("format field")
            for s2, t in (do_repr if conv == "r" else do_str)(ex, s, v):
                nxt.append((s2, vs + [t]))
        if field == "":
            auto += 1
        outs = nxt
    return [(s, concat(*vs, sort="Str")) for s, vs in outs]


def str_join(ex, st, sep, v):
    v = ex.force(st, v)
    items = ex.concrete(st, v)
    if items is not None:
        for x in items:
            if not (isinstance(x, Term) and x.sort == "Str"):
                raise Unsupported("join of non-strings")
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(sep)
            out.append(x)
        return [(st, concat(*out, sort="Str"))]
    st = st.copy()
    seq, et = ex.view_seq(st, ex.iter_view(st, v))
    if et != "str":
        raise Unsupported("join of non-strings")
    return [(st, app("join", (sep, seq), "Str"))]


def str_split(ex, st, s, args, kw):
    sep = args[0] if args else kw.get("sep")
    maxsplit = args[1] if len(args) > 1 else kw.get("maxsplit")
    st = st.copy()
    if maxsplit is not None:
        if not (maxsplit.op == "int" and maxsplit.data == 1):
            raise Unsupported("split(maxsplit)")
        out = []
        n = length(s)
        if sep is None:
            t = solve.lstrip(s)
            m = length(t)
            e = rx.ind_of("nws", t)
            rest = solve.lstrip(slice_(t, e, m))
            word = slice_(t, I(0), e)
            for c, items in ((eq(t, S("")), []), (and_(ne(t, S("")), eq(rest, S(""))), [t if False else word]),
                             (and_(ne(t, S("")), ne(rest, S(""))), [word, rest])):
                s2 = st.plus(c)
                if not s2.dead():
                    out.append((s2, ex.newlist(s2, items)))
            return out
        k = rx.indexof(s, sep)
        c = ir.contains(s, sep)
        for cond, items in ((not_(c), [s]), (c, [slice_(s, I(0), k), slice_(s, add(k, length(sep)), n)])):
            s2 = st.plus(cond)
            if not s2.dead():
                out.append((s2, ex.newlist(s2, items)))
        return out
    if sep is None:
        return [(st, ex.unspec(st, app("words", (s,), Seq("Str"))))]
    if sep.op != "str" or not sep.data:
        raise Unsupported("split by a variable separator")
    return [(st, ex.unspec(st, app("split", (s, sep), Seq("Str"))))]


def list_method(ex, st, r, name, args, kw):
    st = st.copy()
    if name == "append":
        ex.lappend(st, r, args[0])
        return [(st, None)]
    if name == "extend":
        ex.lextend(st, r, ex.force(st, args[0]))
        return [(st, None)]
    if name == "copy":
        o = ex.hl(st, r)
        return [(st, st.alloc(HList(items=o.items, seq=o.seq, et=o.et)))]
    if name == "sort":
        return list_sort(ex, st, r, kw)
    if name == "pop":
        o = ex.hl(st, r)
        if not args or args[0] is I(-1) or args[0] is I(0):
            first = bool(args) and args[0] is I(0)
            if o.items is not None:
                if not o.items:
                    ex.raise_(st, IndexError)
                    return []
                v = o.items[0 if first else -1]
                ex.setlist(st, r, items=o.items[1:] if first else o.items[:-1])
                return [(st, v)]
            out = []
            n = length(o.seq)
            for s in ex.ensure(st, lt(I(0), n), IndexError):
                s = s.copy()
                v = ex.decode(s, nth(o.seq, I(0) if first else sub(n, I(1))), o.et)
                ex.setlist(s, r, seq=slice_(o.seq, I(1), n) if first else slice_(o.seq, I(0), sub(n, I(1))))
                out.append((s, v))
            return out
    if name == "insert" and args[0] is I(0):
        o = ex.hl(st, r)
        if o.items is not None:
            ex.setlist(st, r, items=(args[1],) + o.items)
        else:
            t, e = ex.encode(st, args[1])
            ex.setlist(st, r, seq=concat(unit(t), o.seq))
        return [(st, None)]
    raise Unsupported(f"list.{name}")


def list_sort(ex, st, r, kw, ret=False):
    st = st.copy()
    o = ex.hl(st, r)
    if kw.get("reverse") is not None:
        raise Unsupported("reverse sort")
    key = kw.get("key")
    seq, et = ex.lseq(st, r)
    # the key as a function of the element
    x = fresh("bx", seq.sort[1])
    s1 = st.copy()
    v = ex.decode(s1, x, et)
    outs = ex.call(s1, key, [v], {}) if key is not None else [(s1, v)]
    if len(outs) != 1 or not isinstance(outs[0][1], Term) or outs[0][1].sort != "Int":
        raise Unsupported("sort key")
    k = outs[0][1]
    body = subst(k, {x: bvar(1, x.sort)})
    ns = app("sorted", (seq, mkfold(seq, "seq", x, unit(k))), seq.sort)
    solve.SORT_KEYS[ns.id] = (x, k)
    if ret:
        return [(st, ex.seqlist(st, ns, et))]
    ex.setlist(st, r, items=None, seq=ns, et=et)
    return [(st, None)]


# ---- regular expressions -----------------------------------------------------------------------
class PatSym:
    """a pattern that is not a literal"""
    def __init__(self, t):
        self.t = t


def re_compile(ex, st, args, kw):
    t = args[0]
    if len(args) > 1 or kw:
        raise Unsupported("regex flags")
    if t.op == "str":
        try:
            return [(st, PyV(re.compile(t.data)))]
        except re.error:
            ex.raise_(st, re.error)
            return []
    ps = parts(t)
    bad = app("rx_invalid", (t,), "Bool")
    s = st.copy()
    if len(ps) == 2 and ps[0].op == "str":
        ok = []
        for i in range(32, 127):
            try:
                re.compile(ps[0].data + chr(i))
                ok.append(chr(i))
            except re.error:
                pass
        s.assume(implies(or_(*[eq(ps[1], S(c)) for c in ok]), not_(bad)))
    return [(s2, PatSym(t)) for s2 in ex.ensure(s, not_(bad), re.error)]


def _re_fn(name):
    def f(ex, st, args, kw):
        out = []
        for s, p in re_compile(ex, st, args[:1], {}):
            rest = args[1:]
            if isinstance(p, PyV):
                out += pattern_method(ex, s, p.o, name, rest, kw)
            else:
                out += patsym_method(ex, s, p, name, rest, kw)
        return out
    return f


for _n in ("match", "search", "fullmatch", "sub", "split", "finditer"):
    globals()["re_" + _n] = _re_fn(_n)


def patsym_method(ex, st, p, name, args, kw):
    if name not in ("search", "match", "fullmatch"):
        raise Unsupported("method of a computed pattern")
    s = args[0]
    found = app("rxfound:" + name, (p.t, s), "Bool")
    a = app("rxstart:" + name, (p.t, s), "Int")
    b = app("rxend:" + name, (p.t, s), "Int")
    s1, s2 = st.plus(not_(found)), st.plus(found)
    s2.assume(and_(le(I(0), a), le(a, b), le(b, length(s))))
    return [(s1, None), (s2, MatchV(None, s, a, b, None))]


def _mk_match(pat, s, start, end, groups):
    return MatchV(pat, s, start, end, groups)


def pattern_method(ex, st, pat, name, args, kw):
    P, F = pat.pattern, pat.flags & ~re.UNICODE.value
    if kw:
        raise Unsupported("regex arguments")
    if name in ("match", "fullmatch", "search"):
        if len(args) != 1:
            raise Unsupported("regex arguments")
        s = args[0]
        if not (isinstance(s, Term) and s.sort == "Str"):
            raise Unsupported("regex on a non-string")
        if name == "search" and not rx.anchored(P, F):
            return rx_search(ex, st, pat, s)
        return exact_match(ex, st, pat, s, I(0), name == "fullmatch")
    if name == "sub":
        repl, s = args
        if not rx.anchored(P, F) or repl.op != "str" or "\\" in repl.data:
            raise Unsupported("regex substitution")
        rx.match_at(P, F, s, I(0))

        def subbed(s):
            r = s
            for c, e, g in reversed(rx.match_at(P, F, s, I(0))):
                r = ite(c, concat(repl, slice_(s, e, length(s))), r)
            return r
        return [(st, solve.define(f"sub:{P}:{F}:{repl.data}", "Str", subbed)(s))]
    if name == "split":
        if len(args) != 1:
            raise Unsupported("regex split")
        st = st.copy()
        return [(st, ex.unspec(st, rx_split(pat, args[0])))]
    if name == "finditer":
        st = st.copy()
        s = args[0]
        seq = app("rxiter:" + P, (s,), Seq(MATCH_SORT))
        if F:
            raise Unsupported("regex flags")
        return [(st, ex.seqlist(st, seq, ("match", P, s)))]
    raise Unsupported(f"pattern.{name}")


def rx_split(pat, s):
    return app("rxsplit:" + pat.pattern, (s,), Seq("Str"))


def exact_match(ex, st, pat, s, pos, full):
    P, F = pat.pattern, pat.flags & ~re.UNICODE.value
    alts = rx.match_at(P, F, s, pos, full)
    spec = ex.cur.patterns.get(P) if ex.cur is not None and not full and pos is I(0) and not F else None
    if spec is not None:
        x = var("text", "Str")
        ex.lemma(eq(or_(*[c for c, _, _ in rx.match_at(P, F, x, I(0))]), spec(x)), f"what {P!r} matches")
        if len(alts) == 1:
            alts = [(spec(s), alts[0][1], alts[0][2])]
    none = not_(spec(s)) if spec is not None else not_(or_(*[c for c, _, _ in alts]))
    out = []
    s0 = st.plus(none)
    if not s0.dead():
        out.append((s0, None))
    for c, e, g in alts:
        s1 = st.plus(c)
        if not s1.dead():
            names = {n: i for n, i in pat.groupindex.items()}
            gs = dict(g)
            for n, i in names.items():
                if i in gs:
                    gs[n] = gs[i]
            out.append((s1, MatchV(P, s, pos, e, gs)))
    return out


def rx_search(ex, st, pat, s):
    """leftmost match anywhere"""
    P, F = pat.pattern, pat.flags & ~re.UNICODE.value
    found = app("rxfound:" + P, (s,), "Bool")
    p = app("rxpos:" + P, (s,), "Int")
    st = st.copy()
    n = length(s)
    alts = rx.match_at(P, F, s, p)
    cond = or_(*[c for c, _, _ in alts])
    st.assume(implies(found, and_(cond, le(I(0), p), le(p, n))))
    for q in (I(0), rx.ind_of("ws", s)):
        c = or_(*[c for c, _, _ in rx.match_at(P, F, s, q)])
        st.assume(implies(c, and_(found, le(p, q))))
    out = []
    s0 = st.plus(not_(found))
    if not s0.dead():
        out.append((s0, None))
    for c, e, g in alts:
        s1 = st.plus(found)
        s1.assume(c, False)
        if not s1.dead():
            gs = dict(g)
            for nme, i in pat.groupindex.items():
                if i in gs:
                    gs[nme] = gs[i]
            out.append((s1, MatchV(P, s, p, e, gs)))
    return out


def match_method(ex, st, m, name, args):
    g = args[0] if args else I(0)
    key = g.data if isinstance(g, Term) and g.op in ("int", "str") else None
    if key == 0:
        a, b = m.start, m.end
    elif m.groups is not None and key in m.groups and m.groups[key][1] is not None:
        a, b = m.groups[key]
    elif m.groups is not None and isinstance(key, str):
        ex.raise_(st, IndexError)
        return []
    else:
        raise Unsupported("match group")
    if name == "group":
        if len(args) > 1:
            raise Unsupported("several groups")
        return [(st, slice_(m.s, a, b))]
    if name == "start":
        return [(st, a)]
    if name == "end":
        return [(st, b)]
    if name == "span":
        return [(st, (a, b))]
    raise Unsupported(f"match.{name}")


def with_hook(ex, st, cm, item, body):
    for h in WITH_HOOKS:
        r = h(ex, st, cm, item, body)
        if r is not None:
            return r
    raise Unsupported("with")


def ghost_havoc(ex, g, old, new):
    """the value of a ghost variable after some iterations of a loop"""
    for h in GHOST_HAVOC:
        r = h(ex, g, old, new)
        if r is not None:
            return r
    if isinstance(new, Term) and (old is None or isinstance(old, Term)):
        return fresh("ghost", new.sort)
    raise Unsupported(f"ghost state {g} changes in a loop")


GHOST_HAVOC = []
