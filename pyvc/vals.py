"""Values the symbolic executor works with besides terms."""
from . import ir
from .ir import *


class Unsupported(Exception):
    """A construct (or a use of one) outside what the verifier understands"""


class VInst:
    """the NumV below is a line length: an integer or infinity"""


class NumV:
    __slots__ = ("inf", "val")

    def __init__(self, inf, val):
        self.inf, self.val = inf, val

    def __repr__(self):
        return f"Num({self.inf},{self.val})"


class Ref:
    __slots__ = ("id",)
    n = 0

    def __init__(self):
        Ref.n += 1
        self.id = Ref.n

    def __repr__(self):
        return f"@{self.id}"


class Undef:
    def __init__(self, why):
        self.why = why


class FuncV:
    """a function of the repository: AST, defining module namespace, owner class"""
    def __init__(self, node, glob, qual, closure=None, cls=None, deco=()):
        self.node, self.glob, self.qual, self.closure, self.cls, self.deco = node, glob, qual, closure, cls, deco

    def __repr__(self):
        return f"<func {self.qual}>"


class PyV:
    """a Python object known concretely (module, class, builtin, pattern, enum member, ...)"""
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return f"Py({self.o!r})"

    def __eq__(self, other):
        return isinstance(other, PyV) and self.o is other.o

    def __hash__(self):
        return id(self.o)


class Bound:
    """a method looked up on a value"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SymClass:
    """one of several classes, chosen by an integer term: cases = [(code, class)]"""
    def __init__(self, cond, cases):
        self.cond, self.cases = cond, cases


# -- heap objects (immutable; the heap maps Ref -> object) --
class HList:
    __slots__ = ("items", "seq", "et", "owned", "origin", "moved", "kind")

    def __init__(self, items=None, seq=None, et=None, owned=True, origin=None, moved=False, kind="list"):
        self.items, self.seq, self.et, self.owned = items, seq, et, owned
        self.origin, self.moved, self.kind = origin, moved, kind

    def with_(self, **k):
        d = {a: getattr(self, a) for a in HList.__slots__}
        d.update(k)
        return HList(**d)


class HIter:
    """an iterator over a view, at a position"""
    __slots__ = ("view", "pos")

    def __init__(self, view, pos):
        self.view, self.pos = view, pos


class HObj:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class HExc:
    __slots__ = ("cls", "args")

    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class View:
    """a (lazy) sequence: n elements (None: unbounded), elem(st, i) -> value; seq/et when backed by
    a sequence term; items when concretely known"""
    def __init__(self, n, elem, seq=None, et=None, items=None, base=None, off=None):
        self.n, self.elem, self.seq, self.et, self.items = n, elem, seq, et, items
        self.base, self.off = base, off   # underlying sequence term, offset of element 0 in it


class MatchV:
    """a successful regular-expression match on the string s"""
    __slots__ = ("pat", "s", "start", "end", "groups")

    def __init__(self, pat, s, start, end, groups):
        self.pat, self.s, self.start, self.end, self.groups = pat, s, start, end, groups


# element types of sequence-backed lists
def et_sort(et):
    if et == "str":
        return "Str"
    if et == "int":
        return "Int"
    if et == "bool":
        return "Bool"
    if et == "any":
        raise Unsupported("list of unknown element type")
    if et[0] == "list":
        return Seq(et_sort(et[1]))
    if et[0] == "tuple":
        return ("Tup", tuple(et_sort(e) for e in et[1]))
    if et[0] == "obj":
        return OBJ_SORT
    if et[0] == "match":
        return MATCH_SORT
    if et[0] == "u":
        return ("U", et[1])
    raise Unsupported(f"element type {et}")


OBJ_SORT = ("Tup", ("Int", "Int", ("Seq", "Str")))       # class code, line index, lines
MATCH_SORT = ("Tup", ("Int", "Int"))


def et_of_sort(s):
    if s == "Str":
        return "str"
    if s == "Int":
        return "int"
    if s == "Bool":
        return "bool"
    if s[0] == "Seq":
        return ("list", et_of_sort(s[1]))
    if s[0] == "Tup":
        return ("tuple", tuple(et_of_sort(x) for x in s[1]))
    if s[0] == "U":
        return ("u", s[1])
