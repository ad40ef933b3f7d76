"""Symbolic execution of the repository's functions, straight from their source.

Paths are enumerated; loops over sequences of unknown length are cut by invariants found by
Houdini over candidate templates; calls to functions under contract use the contract, other calls
to functions of the repository are executed in place.  Everything not understood raises
Unsupported, which makes the function's obligations undischarged.
"""
import ast
import builtins
import inspect
import types
import enum
import re
import logging
import math
from . import ir, solve
from .ir import *
from .vals import *


class St:
    __slots__ = ("env", "heap", "pc", "ghost")

    def __init__(self, env=None, heap=None, pc=(), ghost=None):
        self.env = {} if env is None else env
        self.heap = {} if heap is None else heap
        self.pc = pc
        self.ghost = {} if ghost is None else ghost

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.pc, dict(self.ghost))

    def plus(self, t, fact=False):
        """a copy of this state in which t holds"""
        s = self.copy()
        if t is not TRUE:
            s.pc = s.pc + ((t, fact),)
        return s

    def assume(self, t, fact=True):
        if t is not TRUE:
            self.pc = self.pc + ((t, fact),)

    def dead(self):
        return any(t is FALSE for t, _ in self.pc)

    def conds(self, start=0):
        return [t for t, _ in self.pc[start:]]

    def alloc(self, o):
        r = Ref()
        self.heap[r] = o
        return r


class Ob:
    """an obligation: under pc, goal"""
    __slots__ = ("name", "tags", "pc", "goal", "line", "reveal")

    def __init__(self, name, tags, pc, goal, line=None):
        self.name, self.tags, self.pc, self.goal, self.line = name, tags, pc, goal, line


class Contract:
    def __init__(self, qual, params, result=None, requires=None, ensures=None, raises=None, measure=None,
                 templates=(), defs=None, decide=None, setup=None, selfobj=None, tags=None, variants=None, expand=False, final=None, rkind=None, reveal=(), layer=0, cases=None, case_tags=None, opaque=(), patterns=None):
        self.opaque = tuple(opaque)     # named functions of which only the lemmas are used
        self.patterns = patterns or {}  # what regular expressions match (checked), in the words of the contract
        self.case_tags = case_tags  # the properties under which the cases matter
        self.cases = cases          # conditions of which one holds whenever the precondition does; the function is verified under each
        self.layer = layer
        self.reveal = tuple(reveal)
        self.qual, self.params, self.result, self.requires, self.ensures = qual, params, result, requires, ensures
        self.raises, self.measure, self.templates, self.setup, self.selfobj = raises or {}, measure, list(templates), setup, selfobj
        self.tags = tags
        self.variants = variants
        self.expand = expand
        self.final = final
        self.rkind = rkind


class Args:
    pass


REPO_PACKAGE = "markflow"
_modast = {}


def module_ast(mod):
    if mod.__name__ not in _modast:
        with open(mod.__file__, encoding="utf-8") as f:
            src = f.read()
        _modast[mod.__name__] = ast.parse(src)
    return _modast[mod.__name__]


def find_def(tree, qualname):
    cur = tree.body
    node = None
    for part in qualname.split("."):
        if part == "<locals>":
            return None
        node = None
        for n in cur:
            for m in _defs(n):
                if m.name == part:
                    node = m
        if node is None:
            return None
        cur = node.body
    return node


def _defs(n):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        yield n
    elif isinstance(n, (ast.If, ast.Try, ast.With)):
        for f in ("body", "orelse", "finalbody"):
            for m in getattr(n, f, []):
                yield from _defs(m)
        for h in getattr(n, "handlers", []):
            for m in h.body:
                yield from _defs(m)


def inrepo(o):
    m = getattr(o, "__module__", None) or ""
    return m == REPO_PACKAGE or m.startswith(REPO_PACKAGE + ".")


_funcv = {}


def funcv(fn, cls=None):
    """FuncV of a Python function object of the repository"""
    deco = ()
    if hasattr(fn, "__wrapped__"):
        deco = ("contextmanager",) if fn.__closure__ and any(
            getattr(c.cell_contents, "__name__", "") == fn.__wrapped__.__name__ for c in fn.__closure__ if callable(c.cell_contents)) else ("wrapped",)
        fn = fn.__wrapped__
    key = (fn.__module__, fn.__qualname__)
    if key not in _funcv:
        import sys
        node = find_def(module_ast(sys.modules[fn.__module__]), fn.__qualname__)
        if node is None:
            raise Unsupported(f"no source for {key}")
        if node.lineno > fn.__code__.co_firstlineno + 200 or not isinstance(node, ast.FunctionDef):
            raise Unsupported(f"source mismatch for {key}")
        _funcv[key] = FuncV(node, fn.__globals__, fn.__module__ + "." + fn.__qualname__, cls=cls, deco=deco)
    return _funcv[key]


class Ex:
    def __init__(self, contracts, tags, pool=None):
        self.contracts = contracts          # qualname -> Contract
        self.tags = tags
        self.obs = []
        self.lemmas = []
        self.callfacts = set()      # what the contracts of called functions promise
        self.sinks = [[]]
        self.depth = 0
        self.cur = None                      # contract being verified
        self.curfv = None
        self.lineno = 0
        self.loopinfo = []
        self.notes = []
        self.callstack = []
        self.loops_seen = {}
        self.used = set()
        self.inlined = set()
        self.measure0 = None
        from . import models
        self.models = models

    # ---- utilities -------------------------------------------------------------------
    def want(self, tags):
        return tags is None or bool(self.tags & set(tags))

    def oblige(self, st, goal, name, tags=None):
        if not self.want(tags):
            return
        self.obs.append(Ob(f"{name}@{self.lineno}", tags, st.conds(), goal, self.lineno))

    def lemma(self, goal, name):
        """something to be proved on its own, from the definitions"""
        if all(o.name != name for o in self.lemmas):
            self.lemmas.append(Ob(name, None, [], goal, 0))

    def raise_(self, st, exc, site=None):
        if not st.dead():
            self.sinks[-1].append((st, exc if isinstance(exc, HExc) else HExc(exc, (self.lineno,))))

    def ensure(self, st, ok, exc):
        """continue where ok holds; elsewhere raise exc.  -> list of states (0 or 1)"""
        if ok is TRUE:
            return [st]
        bad = st.plus(not_(ok))
        if not bad.dead():
            self.raise_(bad, exc)
        if ok is FALSE:
            return []
        return [st.plus(ok)]

    def truth(self, st, v):
        if isinstance(v, Term):
            if v.sort == "Bool":
                return v
            if v.sort == "Int":
                return ne(v, I(0))
            if v.sort == "Str" or isseq(v.sort):
                return lt(I(0), length(v))
            raise Unsupported(f"truth of {v.sort}")
        if v is None:
            return FALSE
        if isinstance(v, tuple):
            return B(len(v) > 0)
        if isinstance(v, Ref):
            o = st.heap[v]
            if isinstance(o, HList):
                return lt(I(0), self.llen(st, v))
            return TRUE
        if isinstance(v, NumV):
            return or_(v.inf, ne(v.val, I(0)))
        if isinstance(v, (MatchV, FuncV, Bound)):
            return TRUE
        if isinstance(v, PyV):
            return B(bool(v.o))
        if isinstance(v, Undef):
            raise Unsupported(f"use of {v.why}")
        raise Unsupported(f"truth of {v!r}")

    # ---- lists -----------------------------------------------------------------------
    def hl(self, st, r):
        o = st.heap[r]
        if not isinstance(o, HList):
            raise Unsupported("not a list")
        if o.moved == "stale":
            raise Unsupported("read of a list through a stale alias")
        return o

    def llen(self, st, r):
        o = self.hl(st, r)
        return I(len(o.items)) if o.items is not None else length(o.seq)

    def lseq(self, st, r, et=None):
        """(sequence term, element type) of a list"""
        o = self.hl(st, r)
        if o.seq is not None:
            return o.seq, o.et
        if not o.items:
            if et is None:
                et = o.et or "str"
            return empty(Seq(et_sort(et))), et
        ts = [self.encode(st, v) for v in o.items]
        et0 = ts[0][1]
        if any(e != et0 for _, e in ts):
            raise Unsupported("mixed list")
        return concat(*[unit(t) for t, _ in ts]), et0

    def encode(self, st, v):
        if isinstance(v, Term):
            return v, et_of_sort(v.sort)
        if isinstance(v, tuple):
            es = [self.encode(st, x) for x in v]
            return mk(*[t for t, _ in es]), ("tuple", tuple(e for _, e in es))
        if isinstance(v, Ref):
            o = st.heap[v]
            if isinstance(o, HList):
                t, e = self.lseq(st, v)
                if o.owned and o.origin is None and not o.moved:
                    st.heap[v] = o.with_(moved=True)
                return t, ("list", e)
            if isinstance(o, HObj):
                return self.encode_obj(st, o)
        if isinstance(v, MatchV):
            return mk(v.start, v.end), ("match", v.pat, v.s)
        if isinstance(v, PyV) and isinstance(v.o, enum.Enum):
            return I(self.models.enum_code(v.o)), "int"
        raise Unsupported(f"cannot store {v!r} in a symbolic list")

    def encode_obj(self, st, o):
        code = self.models.class_code(self, o.cls)
        lines = o.attrs.get("lines")
        if set(o.attrs) != {"line_index", "lines"} or not isinstance(lines, Ref):
            raise Unsupported("object with unexpected attributes")
        return mk(code, o.attrs["line_index"], self.lseq(st, lines)[0]), ("obj",)

    def decode(self, st, t, et, origin=None):
        if et in ("str", "int", "bool"):
            return t
        if et[0] == "list":
            return st.alloc(HList(seq=t, et=et[1], owned=False, origin=origin))
        if et[0] == "tuple":
            return tuple(self.decode(st, sel(t, i), e) for i, e in enumerate(et[1]))
        if et[0] == "obj":
            lines = st.alloc(HList(seq=sel(t, 2), et="str", owned=False))
            return st.alloc(HObj(("sym", sel(t, 0)), {"line_index": sel(t, 1), "lines": lines}))
        if et[0] == "match":
            return MatchV(et[1], et[2], sel(t, 0), sel(t, 1), None)
        if et[0] == "u":
            return t
        raise Unsupported(f"decode {et}")

    def newlist(self, st, items):
        return st.alloc(HList(items=tuple(items)))

    def seqlist(self, st, seq, et, owned=True):
        return st.alloc(HList(seq=seq, et=et, owned=owned))

    def setlist(self, st, r, **k):
        """in-place modification of a list"""
        o = self.hl(st, r)
        if o.origin is not None:
            parent, idx, snap = o.origin
            po = st.heap[parent]
            if po.seq is not snap and po.items is None:
                raise Unsupported("modification through a stale element reference")
            if not po.owned:
                self.oblige(st, FALSE, "frame: modifies a list it does not own", ("C18",))
            n = o.with_(**k)
            t = n.seq if n.seq is not None else self._seqof(st, n)
            if po.items is not None:
                raise Unsupported("modification of an element of a concrete list")
            newseq = concat(slice_(po.seq, I(0), idx), unit(t), slice_(po.seq, add(idx, I(1)), length(po.seq)))
            st.heap[parent] = po.with_(seq=newseq)
            st.heap[r] = n.with_(origin=(parent, idx, newseq))
            # lists that were put into the parent no longer reflect it
            for q, qo in list(st.heap.items()):
                if isinstance(qo, HList) and qo.moved is True:
                    st.heap[q] = qo.with_(moved="stale")
            return
        if o.moved:
            raise Unsupported("modification of a list that has been stored elsewhere")
        if not o.owned:
            self.oblige(st, FALSE, "frame: modifies a list it does not own", ("C18",))
        st.heap[r] = o.with_(**k)

    def _seqof(self, st, o):
        ts = [self.encode(st, v) for v in o.items]
        return concat(*[unit(t) for t, _ in ts])

    def lappend(self, st, r, v):
        o = self.hl(st, r)
        if o.items is not None:
            self.setlist(st, r, items=o.items + (v,))
        else:
            t, e = self.encode(st, v)
            if o.et != e and t.sort != o.seq.sort[1]:
                raise Unsupported(f"append of {e} to a list of {o.et}")
            self.setlist(st, r, seq=concat(o.seq, unit(t)))

    def lextend(self, st, r, v):
        """r += v"""
        o = self.hl(st, r)
        items = self.concrete(st, v)
        if items is not None:
            for x in items:
                self.lappend(st, r, x)
            return
        vw = self.view(st, v)
        seq, et = self.view_seq(st, vw)
        if o.items is not None:
            base, _ = self.lseq(st, r, et)
            self.setlist(st, r, items=None, seq=concat(base, seq), et=et)
        else:
            if o.seq.sort != seq.sort:
                raise Unsupported("extend with another element type")
            self.setlist(st, r, seq=concat(o.seq, seq))

    def concrete(self, st, v):
        """Python list of values, if the sequence is concretely known"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref):
            o = st.heap[v]
            if isinstance(o, HList) and o.items is not None:
                self.hl(st, v)
                return list(o.items)
            if isinstance(o, HIter) and o.view.items is not None and o.pos.op == "int":
                return list(o.view.items[o.pos.data:])
        if isinstance(v, View) and v.items is not None:
            return list(v.items)
        if isinstance(v, Term) and v.op == "str":
            return [S(c) for c in v.data]
        if isinstance(v, PyV) and isinstance(v.o, (list, tuple, dict)):
            return [self.lift(x) for x in v.o]
        if isinstance(v, PyV) and isinstance(v.o, type) and issubclass(v.o, enum.Enum):
            return [self.lift(x) for x in v.o]
        if isinstance(v, Term) and isseq(v.sort) and all(p.op == "unit" for p in parts(v)):
            return [self.decode(st, p.args[0], et_of_sort(p.args[0].sort)) for p in parts(v)]
        return None

    def view(self, st, v):
        """iterate over v"""
        if isinstance(v, View):
            return v
        items = self.concrete(st, v)
        if items is not None:
            return View(I(len(items)), None, items=items)
        if isinstance(v, Ref):
            o = st.heap[v]
            if isinstance(o, HList):
                self.hl(st, v)
                return self.seq_view(o.seq, o.et, v if o.owned else None)
            if isinstance(o, HIter):
                vw, pos = o.view, o.pos
                if vw.items is not None:
                    raise Unsupported("iterator at an unknown position")
                n = None if vw.n is None else sub(vw.n, pos)
                return View(n, lambda s, i: vw.elem(s, add(pos, i)), base=vw.base,
                            off=None if vw.base is None else add(vw.off, pos))
        if isinstance(v, Term) and v.sort == "Str":
            return View(length(v), lambda s, i: nth(v, i), seq=v, et="str", base=v, off=I(0))
        if isinstance(v, Term) and isseq(v.sort):
            return self.seq_view(v, et_of_sort(v.sort[1]))
        raise Unsupported(f"iteration over {v!r}")

    def seq_view(self, seq, et, ref=None):
        def elem(st, i):
            t = nth(seq, i)
            return self.decode(st, t, et, None)
        return View(length(seq), elem, seq=seq, et=et, base=seq, off=I(0))

    def view_seq(self, st, vw):
        """(sequence term, element type) of everything in the view"""
        if vw.items is not None:
            s = st
            r = self.newlist(s, vw.items)
            return self.lseq(s, r)
        if vw.seq is not None:
            if vw.seq.sort == "Str":
                return fold(vw.seq, "seq", unit), "str"
            return vw.seq, vw.et
        if vw.base is not None and vw.n is not None:
            pass
        raise Unsupported("view without a sequence")

    # ---- constants from the running module ---------------------------------------------
    def lift(self, o):
        if o is None:
            return None
        if isinstance(o, enum.Enum):
            return I(self.models.enum_code(o))
        if isinstance(o, bool):
            return B(o)
        if isinstance(o, int):
            return I(o)
        if isinstance(o, float):
            if o == math.inf:
                return NumV(TRUE, I(0))
            raise Unsupported("float")
        if isinstance(o, str):
            return S(o)
        if isinstance(o, tuple):
            return tuple(self.lift(x) for x in o)
        if isinstance(o, types.FunctionType) and inrepo(o):
            return funcv(o)
        return PyV(o)

    def lookup(self, st, name, fv):
        if name in st.env:
            v = st.env[name]
            if isinstance(v, Undef):
                raise Unsupported(f"possibly unbound variable {name} ({v.why})")
            return v
        c = fv.closure
        if c and name in c:
            return c[name]
        g = fv.glob
        if name in g:
            if name in self.models.mutable_globals(fv):
                raise Unsupported(f"read of the reassigned global {name}")
            return self.lift(g[name])
        if hasattr(builtins, name):
            return PyV(getattr(builtins, name))
        raise Unsupported(f"unknown name {name}")

    # ---- expressions -------------------------------------------------------------------
    def ev(self, e, st):
        """-> [(state, value)]"""
        if hasattr(e, "lineno"):
            self.lineno = e.lineno
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {getattr(e, 'lineno', '?')}")
        return m(e, st)

    def ev_list(self, es, st):
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s):
                        items = self.concrete(s2, v)
                        if items is None:
                            raise Unsupported("starred expression of unknown length")
                        nxt.append((s2, vs + items))
                else:
                    for s2, v in self.ev(e, s):
                        nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def ev_Constant(self, e, st):
        if isinstance(e.value, (str, int, bool)) or e.value is None:
            return [(st, self.lift(e.value))]
        if isinstance(e.value, float):
            return [(st, self.lift(e.value))]
        if e.value is Ellipsis:
            return [(st, None)]
        raise Unsupported("constant")

    def ev_Name(self, e, st):
        return [(st, self.lookup(st, e.id, self.curfv))]

    def ev_Tuple(self, e, st):
        return [(s, tuple(vs)) for s, vs in self.ev_list(e.elts, st)]

    def ev_List(self, e, st):
        out = []
        for s, vs in self.ev_list(e.elts, st):
            s = s.copy()
            out.append((s, self.newlist(s, vs)))
        return out

    def ev_Set(self, e, st):
        return self.ev_Tuple(e, st)

    def ev_Dict(self, e, st):
        out = []
        if any(k is None for k in e.keys):
            raise Unsupported("dict unpacking")
        for s, ks in self.ev_list(e.keys, st):
            for s2, vs in self.ev_list(e.values, s):
                out.append((s2, DictV(list(zip(ks, vs)))))
        return out

    def ev_JoinedStr(self, e, st):
        outs = [(st, [])]
        for p in e.values:
            nxt = []
            for s, vs in outs:
                if isinstance(p, ast.Constant):
                    nxt.append((s, vs + [S(p.value)]))
                else:
                    for s2, v in self.ev(p.value, s):
                        if p.format_spec is not None:
                            nxt.append((s2, vs + [fresh("fmt", "Str")]))
                        elif p.conversion == ord("r"):
                            for s3, r in self.models.do_repr(self, s2, v):
                                nxt.append((s3, vs + [r]))
                        else:
                            for s3, r in self.models.do_str(self, s2, v):
                                nxt.append((s3, vs + [r]))
            outs = nxt
        return [(s, concat(*vs, sort="Str")) for s, vs in outs]

    def ev_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            last = i == len(e.values) - 1
            outs = []
            for s1, v in self.ev(e.values[i], s):
                if last:
                    outs.append((s1, v))
                    continue
                t = self.truth(s1, v)
                stop, go_on = (not_(t), t) if isand else (t, not_(t))
                if go_on is FALSE:
                    outs.append((s1, v))
                    continue
                if stop is FALSE:
                    outs.extend(go(i + 1, s1))
                    continue
                s2 = s1.plus(go_on)
                mark = len(s2.pc)
                rest = go(i + 1, s2)
                # merge into one value when nothing but the value depends on the path
                m = self.merge_values(s1, [(s1.plus(stop), v)] + rest, len(s1.pc))
                if m is not None:
                    outs.extend(m)
                else:
                    outs.append((s1.plus(stop), v))
                    outs.extend(rest)
            return outs
        return go(0, st)

    def merge_values(self, st0, outs, mark):
        """merge outcomes that differ from st0 only in path conditions and value"""
        if len(outs) == 1:
            return outs
        vals = []
        for s, v in outs:
            if s.ghost != st0.ghost or any(s.heap.get(r) is not o for r, o in st0.heap.items()) or s.env != st0.env:
                return None
            vals.append(v)
        m = self.mergeable(vals)
        if not m:
            return None
        conds = []
        new = st0.copy()
        facts = []
        for s, v in outs:
            b = and_(*[t for t, f in s.pc[mark:] if not f])
            conds.append(b)
            for t, f in s.pc[mark:]:
                if f:
                    facts.append(implies(b, t))
            for r, o in s.heap.items():
                new.heap.setdefault(r, o)
        for f in facts:
            new.assume(f)
        new.assume(or_(*conds))
        if new.dead():
            return []
        return [(new, self.merge_v(conds, vals))]

    def mergeable(self, vals):
        a = vals[0]
        if isinstance(a, Term):
            return all(isinstance(v, Term) and v.sort == a.sort for v in vals)
        if a is None:
            return all(v is None for v in vals)
        if isinstance(a, tuple):
            return all(isinstance(v, tuple) and len(v) == len(a) for v in vals) and all(
                self.mergeable([v[i] for v in vals]) for i in range(len(a)))
        if isinstance(a, Ref):
            return all(v is a for v in vals)
        if isinstance(a, NumV):
            return all(isinstance(v, NumV) for v in vals)
        if isinstance(a, PyV):
            return all(v == a for v in vals)
        return all(v is a for v in vals)

    def merge_v(self, conds, vals):
        a = vals[0]
        if isinstance(a, Term):
            if a.sort == "Bool":
                return or_(*[and_(c, v) for c, v in zip(conds, vals)])
            r = vals[-1]
            for c, v in reversed(list(zip(conds, vals))[:-1]):
                r = ite(c, v, r)
            return r
        if isinstance(a, tuple):
            return tuple(self.merge_v(conds, [v[i] for v in vals]) for i in range(len(a)))
        if isinstance(a, NumV):
            return NumV(self.merge_v(conds, [v.inf for v in vals]), self.merge_v(conds, [v.val for v in vals]))
        return a

    def ev_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((s, not_(self.truth(s, v))))
            elif isinstance(e.op, ast.USub) and isinstance(v, Term) and v.sort == "Int":
                out.append((s, scale(-1, v)))
            else:
                raise Unsupported("unary operator")
        if isinstance(e.op, ast.Not) and len(out) > 1:
            m = self.merge_values(st, out, len(st.pc))
            if m is not None:
                return m
        return out

    def ev_IfExp(self, e, st):
        out = []
        for s, c in self.ev(e.test, st):
            t = self.truth(s, c)
            outs = []
            for b, x in ((t, e.body), (not_(t), e.orelse)):
                s2 = s.plus(b)
                if not s2.dead():
                    outs.extend(self.ev(x, s2))
            m = self.merge_values(s, outs, len(s.pc)) if len(outs) > 1 else None
            out.extend(m if m is not None else outs)
        return out

    def ev_Compare(self, e, st):
        out = []
        for s, vs in self.ev_list([e.left] + e.comparators, st):
            t = TRUE
            for op, a, b in zip(e.ops, vs, vs[1:]):
                t = and_(t, self.compare(s, op, a, b))
            out.append((s, t))
        return out

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                other = b if a is None else a
                if isinstance(other, OptV):
                    r = not_(other.some)
                else:
                    r = B(other is None)
            elif isinstance(a, Term) and isinstance(b, Term) and a.sort == b.sort:
                r = self.equal(st, a, b)
            elif isinstance(a, PyV) and isinstance(b, PyV):
                r = B(a.o is b.o)
            else:
                raise Unsupported("identity comparison")
            return not_(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, ast.Eq):
            return self.equal(st, a, b)
        if isinstance(op, ast.NotEq):
            return not_(self.equal(st, a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, b, a)
            return not_(r) if isinstance(op, ast.NotIn) else r
        if isinstance(a, NumV) or isinstance(b, NumV):
            a, b = self.num(a), self.num(b)
            le_ = lambda x, y: or_(y.inf, and_(not_(x.inf), le(x.val, y.val)))
            lt_ = lambda x, y: and_(not_(x.inf), or_(y.inf, lt(x.val, y.val)))
            return {ast.Lt: lambda: lt_(a, b), ast.LtE: lambda: le_(a, b), ast.Gt: lambda: lt_(b, a),
                    ast.GtE: lambda: le_(b, a)}[type(op)]()
        if isinstance(a, Term) and isinstance(b, Term) and a.sort == "Int" and b.sort == "Int":
            return {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge}[type(op)](a, b)
        raise Unsupported("comparison")

    def num(self, v):
        if isinstance(v, NumV):
            return v
        if isinstance(v, Term) and v.sort == "Int":
            return NumV(FALSE, v)
        raise Unsupported("not a number")

    def equal(self, st, a, b):
        if isinstance(a, Term) and isinstance(b, Term):
            if a.sort != b.sort:
                return FALSE
            return eq(a, b)
        if isinstance(a, NumV) or isinstance(b, NumV):
            if not isinstance(a, (NumV, Term)) or not isinstance(b, (NumV, Term)):
                return FALSE
            a, b = self.num(a), self.num(b)
            return or_(and_(a.inf, b.inf), and_(not_(a.inf), not_(b.inf), eq(a.val, b.val)))
        if a is None or b is None:
            if isinstance(a, Undef) or isinstance(b, Undef):
                raise Unsupported("undefined")
            return B(a is None and b is None)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return and_(*[self.equal(st, x, y) for x, y in zip(a, b)])
        if isinstance(a, PyV) and isinstance(b, PyV):
            return B(a.o == b.o)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.heap[a], st.heap[b]
            if isinstance(oa, HList) and isinstance(ob, HList):
                if oa.items is not None and ob.items is not None:
                    return B(len(oa.items) == len(ob.items)) if len(oa.items) != len(ob.items) else and_(
                        *[self.equal(st, x, y) for x, y in zip(oa.items, ob.items)])
                et = oa.et or ob.et
                x, y = self.lseq(st, a, et)[0], self.lseq(st, b, et)[0]
                if x.sort != y.sort:
                    raise Unsupported("list comparison")
                return eq(x, y)
        r = self.models.equal_hook(self, st, a, b)
        if r is not None:
            return r
        raise Unsupported(f"equality of {a!r} and {b!r}")

    def contains(self, st, c, x):
        if isinstance(c, Term) and c.sort == "Str" and isinstance(x, Term) and x.sort == "Str":
            if c.op == "str" and ischar(x):
                return or_(*[eq(x, S(k)) for k in dict.fromkeys(c.data)])
            return ir.contains(c, x)
        items = self.concrete(st, c)
        if items is not None:
            return or_(*[self.equal(st, x, y) for y in items])
        if isinstance(c, PyV) and isinstance(c.o, (set, frozenset)):
            return or_(*[self.equal(st, x, self.lift(y)) for y in sorted(c.o, key=repr)])
        if isinstance(c, Ref) and isinstance(x, Term):
            seq, et = self.lseq(st, c)
            return fold(seq, "or", lambda y: eq(x, y))
        raise Unsupported("membership test")

    def ev_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.ev_list([e.left, e.right], st):
            out.extend(self.binop(s, e.op, a, b))
        return out

    def binop(self, s, op, a, b):
        T = Term
        if isinstance(a, T) and a.sort == "Bool":
            a = ite_int(a)
        if isinstance(b, T) and b.sort == "Bool":
            b = ite_int(b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, NumV) and isinstance(y, T) and y.sort == "Str":
                    return [(s2, rep(y, x.val)) for s2 in self.ensure(s, not_(x.inf), TypeError)]
        if isinstance(a, NumV) or isinstance(b, NumV):
            x, y = self.num(a), self.num(b)
            if isinstance(op, ast.Add):
                return [(s, NumV(or_(x.inf, y.inf), add(x.val, y.val)))]
            if isinstance(op, ast.Sub) and y.inf is FALSE:
                return [(s, NumV(x.inf, sub(x.val, y.val)))]
            if isinstance(op, ast.Mult):
                raise Unsupported("multiplication of line lengths")
            raise Unsupported("arithmetic on line lengths")
        if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort == "Int":
            if isinstance(op, ast.Add):
                return [(s, add(a, b))]
            if isinstance(op, ast.Sub):
                return [(s, sub(a, b))]
            if isinstance(op, ast.Mult):
                return [(s, mul(a, b))]
            if isinstance(op, ast.FloorDiv) and b.op == "int" and b.data > 0:
                return [(s, floordiv(a, b.data))]
            if isinstance(op, ast.Mod) and b.op == "int" and b.data > 0:
                return [(s, sub(a, scale(b.data, floordiv(a, b.data))))]
            if isinstance(op, ast.Div) and b.op == "int" and b.data > 0:
                return [(s, RatV(a, b.data))]
            raise Unsupported("integer operator")
        if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort == "Str" and isinstance(op, ast.Add):
            return [(s, concat(a, b))]
        if isinstance(op, ast.Mult):
            if isinstance(a, T) and isinstance(b, T):
                if a.sort == "Str" and b.sort == "Int":
                    return [(s, rep(a, b))]
                if b.sort == "Str" and a.sort == "Int":
                    return [(s, rep(b, a))]
            if isinstance(a, Ref) and isinstance(b, T) and isinstance(s.heap[a], HList):
                s = s.copy()
                seq, et = self.lseq(s, a)
                return [(s, self.seqlist(s, rep(seq, b), et))]
        if isinstance(op, ast.Mod) and isinstance(a, T) and a.sort == "Str":
            return [(s, fresh("fmt", "Str"))]
        if isinstance(op, ast.Add) and isinstance(a, Ref) and isinstance(b, Ref):
            s = s.copy()
            ia, ib = self.concrete(s, a), self.concrete(s, b)
            if ia is not None and ib is not None:
                return [(s, self.newlist(s, ia + ib))]
            et = self.hl(s, b).et or self.hl(s, a).et
            x, e1 = self.lseq(s, a, et)
            y, e2 = self.lseq(s, b, e1)
            if x.sort != y.sort:
                raise Unsupported("concatenation of different lists")
            return [(s, self.seqlist(s, concat(x, y), e1))]
        if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple):
            return [(s, a + b)]
        r = self.models.binop_hook(self, s, op, a, b)
        if r is not None:
            return r
        raise Unsupported(f"operator {type(op).__name__} on {a!r}, {b!r}")

    # subscripts
    def ev_Subscript(self, e, st):
        out = []
        for s, o in self.ev(e.value, st):
            if isinstance(e.slice, ast.Slice):
                if e.slice.step is not None:
                    raise Unsupported("slice step")
                bs = [x for x in (e.slice.lower, e.slice.upper) if x is not None]
                for s2, vs in self.ev_list(bs, s):
                    vs = list(vs)
                    lo = vs.pop(0) if e.slice.lower is not None else None
                    hi = vs.pop(0) if e.slice.upper is not None else None
                    s2 = s2.copy()
                    out.append((s2, self.do_slice(s2, o, lo, hi)))
            else:
                for s2, i in self.ev(e.slice, s):
                    out.extend(self.do_index(s2, o, i))
        return out

    def known_nonneg(self, st, t):
        if nonneg(t):
            return True
        d, c = ir._lin(t)
        if c < 0:
            return le(I(0), t) in {x for x, _ in st.pc}
        pcs = {x.id for x, _ in st.pc}
        return le(I(0), t).id in pcs or all(k > 0 and (nonneg(a) or le(I(0), a).id in pcs) for a, k in d.items())

    def norm(self, st, i, n):
        """a slice bound as a nonnegative position (not clamped above)"""
        if not (isinstance(i, Term) and i.sort == "Int"):
            raise Unsupported("slice bound")
        if i.op == "int":
            if i.data >= 0:
                return i
            r = add(n, i)
            if nonneg(r):
                return r
            return ite(le(I(0), r), r, I(0))
        if self.known_nonneg(st, i):
            return i
        return ite(le(I(0), i), i, ite(le(I(0), add(n, i)), add(n, i), I(0)))

    def do_slice(self, st, o, lo, hi):
        if lo is None and hi is None and isinstance(o, Term):
            return o
        if isinstance(o, Term) and (o.sort == "Str"):
            n = length(o)
            i = I(0) if lo is None else self.norm(st, lo, n)
            j = n if hi is None else self.norm(st, hi, n)
            return slice_(o, i, j)
        items = self.concrete(st, o)
        if items is not None and all(x is None or (isinstance(x, Term) and x.op == "int") for x in (lo, hi)):
            l = None if lo is None else lo.data
            h = None if hi is None else hi.data
            r = items[l:h]
            return tuple(r) if isinstance(o, tuple) else self.newlist(st, r)
        if isinstance(o, Ref) and isinstance(st.heap[o], HList):
            seq, et = self.lseq(st, o)
            n = length(seq)
            i = I(0) if lo is None else self.norm(st, lo, n)
            j = n if hi is None else self.norm(st, hi, n)
            return self.seqlist(st, slice_(seq, i, j), et)
        raise Unsupported(f"slice of {o!r}")

    def do_index(self, st, o, i):
        if isinstance(o, DictV) or (isinstance(o, PyV) and isinstance(o.o, dict)):
            return self.models.dict_index(self, st, o, i)
        items = self.concrete(st, o)
        if items is not None and isinstance(i, Term) and i.op == "int":
            if -len(items) <= i.data < len(items):
                return [(st, items[i.data])]
            self.raise_(st, IndexError)
            return []
        if isinstance(o, MatchV):
            return self.models.match_method(self, st, o, "group", [i])
        if not (isinstance(i, Term) and i.sort == "Int"):
            raise Unsupported("index")
        if isinstance(o, Term) and o.sort == "Str":
            n = length(o)
            seq, dec = o, (lambda s, k: nth(o, k))
        elif isinstance(o, Ref) and isinstance(st.heap[o], HList):
            seq, et = self.lseq(st, o)
            n = length(seq)

            def dec(s, k):
                ho = s.heap[o]
                origin = (o, k, seq) if (et[0] == "list" and ho.items is None) else None
                if et[0] == "list" and ho.items is not None:
                    raise Unsupported("unknown element of a list of lists")
                return self.decode(s, nth(seq, k), et, origin)
        else:
            r = self.models.index_hook(self, st, o, i)
            if r is not None:
                return r
            raise Unsupported(f"index into {o!r}")
        if i.op == "int":
            k, ok = (i, lt(i, n)) if i.data >= 0 else (add(n, i), le(I(0), add(n, i)))
        elif self.known_nonneg(st, i):
            k, ok = i, lt(i, n)
        else:
            k = ite(le(I(0), i), i, add(n, i))
            ok = and_(le(I(0), k), lt(k, n))
        out = []
        for s in self.ensure(st, ok, IndexError):
            s = s.copy()
            out.append((s, dec(s, k)))
        return out

    def ev_Attribute(self, e, st):
        out = []
        for s, o in self.ev(e.value, st):
            out.extend(self.getattr_(s, o, e.attr))
        return out

    def getattr_(self, st, o, name):
        return self.models.getattr_(self, st, o, name)

    def ev_Call(self, e, st):
        # super().__init__ and the like are not needed
        out = []
        for s, f in self.ev(e.func, st):
            kwn = [k.arg for k in e.keywords]
            if None in kwn:
                raise Unsupported("** arguments")
            gens = [a for a in e.args if isinstance(a, ast.GeneratorExp)]
            for s2, vs in self.ev_list(list(e.args) + [k.value for k in e.keywords], s):
                n = len(vs) - len(kwn)
                self.lineno = e.lineno
                out.extend(self.call(s2, f, vs[:n], dict(zip(kwn, vs[n:])), e))
        return out

    def call(self, st, f, args, kw, node=None):
        if isinstance(f, FuncV):
            return self.call_func(st, f, args, kw)
        return self.models.call(self, st, f, args, kw, node)

    def bind(self, st, f, args, kw):
        """argument values by parameter name"""
        a = f.node.args
        if a.vararg or a.kwarg:
            raise Unsupported("variable arguments")
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            raise Unsupported("too many arguments")
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kw.items():
            if k in env or k not in names + [p.arg for p in a.kwonlyargs]:
                raise Unsupported(f"argument {k}")
            env[k] = v
        for p, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if p not in env:
                env[p] = self.default(st, f, d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env:
                if d is None:
                    raise Unsupported("missing argument")
                env[p.arg] = self.default(st, f, d)
        for n in names:
            if n not in env:
                raise Unsupported(f"missing argument {n} of {f.qual}")
        return env

    def default(self, st, f, d):
        if isinstance(d, ast.Constant):
            return self.lift(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
            return self.lift(-d.operand.value)
        if isinstance(d, (ast.Name, ast.Attribute)):
            save = self.curfv
            self.curfv = f
            try:
                return self.ev(d, St())[0][1]
            finally:
                self.curfv = save
        raise Unsupported("default argument")

    def call_func(self, st, f, args, kw):
        env = self.bind(st, f, args, kw)
        if "contextmanager" in f.deco:
            return [(st, CtxV(f, env))]
        if f.deco:
            raise Unsupported("decorated function")
        c = self.contracts.get(f.qual)
        if c is not None and not (c.expand and self.want(c.expand)):
            return self.apply_contract(st, c, env)
        return self.inline(st, f, env)

    def inline(self, st, f, env, merge=True):
        if isgenerator(f.node):
            return [(st, GenV(f, env))]
        if self.depth > 30 or self.callstack.count(f.qual) > 2:
            raise Unsupported(f"recursion into {f.qual} without a contract")
        self.inlined.add(f.qual)
        save_env, save_fv = st.env, self.curfv
        s = st.copy()
        s.env = env
        self.curfv = f
        self.depth += 1
        self.callstack.append(f.qual)
        mark = len(st.pc)
        try:
            line = self.lineno
            nsink = len(self.sinks[-1])
            outs = self.run_body(f, s)
            for i in range(nsink, len(self.sinks[-1])):
                s2, exc = self.sinks[-1][i]
                s2.env = save_env
        finally:
            self.curfv = save_fv
            self.depth -= 1
            self.callstack.pop()
        self.lineno = line
        res = []
        for kind, s2, v in outs:
            s2 = s2.copy()
            s2.env = save_env
            res.append((s2, v))
        if merge and len(res) > 1:
            m = self.merge_values(st, res, mark)
            if m is not None:
                return m
        return res

    def run_body(self, f, s):
        """outcomes [('return', st, value)]; raises go to the sink"""
        out = []
        if isinstance(f.node, ast.Lambda):
            return [("return", s2, v) for s2, v in self.ev(f.node.body, s)]
        for kind, s2, v in self.block(f.node.body, s):
            if kind == "next":
                out.append(("return", s2, None))
            elif kind == "return":
                out.append((kind, s2, v))
            else:
                raise Unsupported(kind + " outside a loop")
        return out

    def ev_Lambda(self, e, st):
        return [(st, FuncV(e, self.curfv.glob, self.curfv.qual + ".<lambda>", closure={**(self.curfv.closure or {}), **st.env}))]

    # contracts
    def apply_contract(self, st, c, env):
        self.used.add(c.qual)
        a, st = self.contract_args(st, c, env)
        st = st.copy()
        for label, tags, t in (c.requires(a) if c.requires else []):
            self.oblige(st, t, f"precondition of {short(c.qual)}: {label}", tags)
            st.assume(t) if self.want(tags) else None
        if c.measure is not None and self.measure0 is not None and self.want(("C20",)) and c.layer >= self.cur.layer:
            if c.layer > self.cur.layer:
                dec = FALSE
            else:
                m, rank = c.measure(a)
                m0, rank0 = self.measure0
                dec = lexless(m if isinstance(m, tuple) else (m,), m0 if isinstance(m0, tuple) else (m0,), rank < rank0)
            self.oblige(st, dec, f"termination: call of {short(c.qual)} is on something smaller", ("C20",))
        for exc, cond in c.raises.items():
            t = cond(a) if cond else None
            if t is None:
                t = app(f"raises:{c.qual}:{exc.__name__}", self.flat(a, c), "Bool")
            if t is FALSE:
                continue
            bad = st.plus(t)
            self.raise_(bad, exc)
            st = st.plus(not_(t))
        if c.result is None:
            raise Unsupported("contract without result")
        r = c.result(a)
        for label, tags, t in (c.ensures(a, r) if c.ensures else []):
            if self.want(tags):
                st.assume(t)
                if c.layer:
                    self.callfacts |= {u.id for u in solve.flatten_and([t])} | {t.id}
        v = self.unspec(st, r)
        return [(st, v)]

    def flat(self, a, c):
        out = []
        for n, k in c.params:
            v = getattr(a, n)
            if isinstance(v, NumV):
                out += [v.inf, v.val]
            elif isinstance(v, Term):
                out.append(v)
            elif isinstance(v, tuple):
                out += [x for x in v if isinstance(x, Term)]
            elif k == "self":
                out += [a.code, a.lines, a.line_index]
        return tuple(out)

    def unspec(self, st, r):
        """a value of the specification as a value of the program"""
        if isinstance(r, Term) and isseq(r.sort):
            return self.seqlist(st, r, et_of_sort(r.sort[1]), owned=False)
        if isinstance(r, tuple):
            return tuple(self.unspec(st, x) for x in r)
        return r

    def spec(self, st, v, kind=None):
        """a value of the program as a value of the specification"""
        if isinstance(v, Ref):
            o = st.heap[v]
            if isinstance(o, HList):
                et = kind[1] if isinstance(kind, tuple) and kind[0] == "list" else None
                return self.lseq(st, v, et)[0]
            if isinstance(o, HObj):
                return o
        if isinstance(v, tuple):
            ks = kind if isinstance(kind, tuple) and kind and kind[0] == "tupleof" else None
            return tuple(self.spec(st, x, ks[1][i] if ks else None) for i, x in enumerate(v))
        return v

    def contract_args(self, st, c, env):
        a = Args()
        names = list(env)
        for i, (n, k) in enumerate(c.params):
            if i >= len(names):
                raise Unsupported(f"parameters of {c.qual} do not match its contract")
            v = env[names[i]]
            if k == "num":
                v = self.num(v)
            elif k == "self":
                o = st.heap[v]
                v = o
                a.lines, a.line_index = self.lseq(st, o.attrs["lines"], "str")[0], o.attrs["line_index"]
                a.code = o.cls[1] if isinstance(o.cls, tuple) else self.models.class_code(self, o.cls)
            elif k == "ignore":
                v = None
            else:
                v = self.spec(st, v, k)
                if isinstance(v, Term):
                    want = et_sort(k)
                    if v.sort != want:
                        raise Unsupported(f"argument {n} of {c.qual} has sort {v.sort}")
                elif k[0] == "tuple":
                    pass
                else:
                    raise Unsupported(f"argument {n} of {c.qual}: {v!r}")
            setattr(a, n, v)
        if len(names) != len(c.params):
            raise Unsupported(f"parameters of {c.qual} do not match its contract")
        return a, st

    # ---- comprehensions ------------------------------------------------------------------
    def ev_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def ev_GeneratorExp(self, e, st):
        return self.comp(e, st, "gen")

    def ev_SetComp(self, e, st):
        raise Unsupported("set comprehension")

    def comp(self, e, st, kind):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        out = []
        for s, it in self.ev(g.iter, st):
            vw = self.iter_view(s, it)
            if vw.items is not None:
                outs = [(s, [])]
                for x in vw.items:
                    nxt = []
                    for s1, acc in outs:
                        saved = s1.env
                        s2 = s1.copy()
                        for s3 in self.assign(g.target, x, s2):
                            cs = [(s3, TRUE)]
                            for cond in g.ifs:
                                cs = [(s5, and_(t, self.truth(s5, v))) for s4, t in cs for s5, v in self.ev(cond, s4)]
                            for s4, t in cs:
                                if t is not FALSE:
                                    for s5, v in self.ev(e.elt, s4.plus(t)):
                                        s5 = s5.copy()
                                        s5.env = saved
                                        nxt.append((s5, acc + [v]))
                                if t is not TRUE:
                                    s6 = s4.plus(not_(t))
                                    s6.env = saved
                                    if not s6.dead():
                                        nxt.append((s6, acc))
                    outs = nxt
                for s1, acc in outs:
                    if kind == "list":
                        s1 = s1.copy()
                        out.append((s1, self.newlist(s1, acc)))
                    else:
                        out.append((s1, View(I(len(acc)), None, items=acc)))
                continue
            out.extend(self.comp_sym(e, g, s, vw, kind))
        return out

    def comp_sym(self, e, g, s, vw, kind):
        """comprehension over a sequence of unknown length: a fold"""
        s = s.copy()
        if vw.n is None:
            raise Unsupported("unbounded comprehension")
        byseq = vw.seq is not None
        if byseq:
            x = fresh("ch" if vw.seq.sort == "Str" else "bx", esort(vw.seq))
            mkx = lambda s1: self.decode(s1, x, vw.et) if vw.seq.sort != "Str" else x
            quant = lambda m, body: mkfold(vw.seq, m, x, body)
        else:
            x = fresh("bi", "Int")
            mkx = lambda s1: vw.elem(s1, x)
            quant = lambda m, body: mkbigcat(vw.n, m, x, body)
        s1 = s.copy()
        mark = len(s1.pc)
        base = s1.copy()
        if not byseq:
            s1.assume(and_(le(I(0), x), lt(x, vw.n)))
            mark = len(s1.pc)
        elem0 = mkx(s1)
        self.sinks.append([])
        obs, self.obs = self.obs, []
        try:
            res = []
            for s2 in self.assign(g.target, elem0, s1):
                cs = [(s2, TRUE)]
                for cond in g.ifs:
                    cs = [(s5, and_(t, self.truth(s5, v))) for s4, t in cs for s5, v in self.ev(cond, s4)]
                for s4, t in cs:
                    if t is not FALSE:
                        for s5, v in self.ev(e.elt, s4.plus(t)):
                            res.append((s5, True, v))
                    if t is not TRUE:
                        res.append((s4.plus(not_(t)), False, None))
        finally:
            raised = self.sinks.pop()
            inner, self.obs = self.obs, obs
        for s5, _, _ in res:
            if s5.ghost != base.ghost or any(s5.heap.get(r) is not o for r, o in base.heap.items()):
                raise Unsupported("comprehension with side effects")
        # obligations inside hold for every element
        for ob in inner:
            self.obs.append(Ob(ob.name, ob.tags, [t for t, _ in s.pc], quant("and", implies(and_(*ob.pc[len(s.pc):]), ob.goal)), ob.line))
        cases = []
        facts = []
        for s5, keep, v in res:
            b = and_(*[t for t, f in s5.pc[mark:] if not f])
            facts += [implies(b, t) for t, f in s5.pc[mark:] if f]
            cases.append((b, keep, v, s5))
        byexc = {}
        for s5, exc in raised:
            b = and_(*[t for t, f in s5.pc[mark:] if not f])
            fs = and_(*[t for t, f in s5.pc[mark:] if f])
            byexc.setdefault(exc.cls, []).append((b, fs))
        for exc, bs in byexc.items():
            self.raise_(s.plus(quant("or", or_(*[and_(b, fs) for b, fs in bs]))), exc)
        # no element raises: what the facts about an element (which hold in any case) leave of the conditions is false
        none = or_(*[b for bs in byexc.values() for b, fs in bs])
        gone = {t: FALSE for t in (none.args if none.op == "or" else [none]) if t.op == "app"}
        if none is not FALSE:
            s = s.plus(quant("and", not_(none)))
        if gone:
            cases = [(subst(b, gone), keep, v, s5) for b, keep, v, s5 in cases]
        for f in facts:
            s.assume(quant("and", subst(f, gone) if gone else f))
        kept = [(b, v, s5) for b, keep, v, s5 in cases if keep]
        if not kept:
            return [(s, self.newlist(s, []))]
        vals = [self.encode(s5, v) for b, v, s5 in kept]
        et = vals[0][1]
        sort = vals[0][0].sort
        if any(t.sort != sort for t, _ in vals):
            raise Unsupported("comprehension with mixed element types")
        if kind == "gen" or True:
            body = None
            for (b, keep, v, s5) in reversed(cases):
                u = unit(self.encode(s5, v)[0]) if keep else empty(Seq(sort))
                body = u if body is None else ite(b, u, body)
            seq = quant("seq", body)
        return [(s, self.seqlist(s, seq, et))]

    # ---- statements ------------------------------------------------------------------------
    def block(self, stmts, st):
        outs = [("next", st, None)]
        for x in stmts:
            nxt = []
            for kind, s, v in outs:
                if kind != "next":
                    nxt.append((kind, s, v))
                elif not s.dead():
                    nxt.extend(self.stmt(x, s))
            outs = self.join_states(nxt)
            if len(outs) > 400:
                raise Unsupported("too many paths")
        return outs

    def join_states(self, outs):
        return outs

    def stmt(self, x, st):
        self.lineno = x.lineno
        m = getattr(self, "st_" + type(x).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(x).__name__} at line {x.lineno}")
        return m(x, st)

    def st_Pass(self, x, st):
        return [("next", st, None)]

    def st_Expr(self, x, st):
        if isinstance(x.value, ast.Constant):
            return [("next", st, None)]
        if isinstance(x.value, ast.Yield):
            hook = st.ghost.get("yield")
            if hook is None:
                raise Unsupported("yield")
            return hook(x, st)
        return [("next", s, None) for s, v in self.ev(x.value, st)]

    def st_Return(self, x, st):
        if x.value is None:
            return [("return", st, None)]
        return [("return", s, v) for s, v in self.ev(x.value, st)]

    def st_Assign(self, x, st):
        out = []
        for s, v in self.ev(x.value, st):
            ss = [s]
            for t in x.targets:
                ss = [s3 for s2 in ss for s3 in self.assign(t, v, s2)]
            out += [("next", s2, None) for s2 in ss]
        return out

    def st_AnnAssign(self, x, st):
        if x.value is None:
            return [("next", st, None)]
        out = []
        for s, v in self.ev(x.value, st):
            out += [("next", s2, None) for s2 in self.assign(x.target, v, s)]
        return out

    def assign(self, t, v, st):
        """-> states"""
        if isinstance(t, ast.Name):
            s = st.copy()
            s.env = dict(s.env)
            s.env[t.id] = v
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            items = self.concrete(st, v)
            if items is None:
                if isinstance(v, Ref) and isinstance(st.heap[v], HList):
                    n = self.llen(st, v)
                    out = []
                    for s in self.ensure(st, eq(n, I(len(t.elts))), ValueError):
                        ss = [s]
                        for i, e in enumerate(t.elts):
                            ss = [s4 for s2 in ss for s3, x in self.do_index(s2, v, I(i)) for s4 in self.assign(e, x, s3)]
                        out += ss
                    return out
                raise Unsupported("unpacking")
            if len(items) != len(t.elts):
                self.raise_(st, ValueError)
                return []
            ss = [st]
            for e, x in zip(t.elts, items):
                ss = [s3 for s2 in ss for s3 in self.assign(e, x, s2)]
            return ss
        if isinstance(t, ast.Attribute):
            return [s2 for s, o in self.ev(t.value, st) for s2 in self.models.setattr_(self, s, o, t.attr, v)]
        if isinstance(t, ast.Subscript):
            out = []
            for s, o in self.ev(t.value, st):
                if isinstance(t.slice, ast.Slice):
                    raise Unsupported("slice assignment")
                for s2, i in self.ev(t.slice, s):
                    out += self.set_index(s2, o, i, v)
            return out
        raise Unsupported("assignment target")

    def set_index(self, st, o, i, v):
        if not (isinstance(o, Ref) and isinstance(st.heap[o], HList) and isinstance(i, Term)):
            raise Unsupported("item assignment")
        ho = self.hl(st, o)
        if ho.items is not None and i.op == "int":
            if not -len(ho.items) <= i.data < len(ho.items):
                self.raise_(st, IndexError)
                return []
            s = st.copy()
            it = list(ho.items)
            it[i.data] = v
            self.setlist(s, o, items=tuple(it))
            return [s]
        seq, et = self.lseq(st, o)
        n = length(seq)
        k = i if nonneg(i) else add(n, i) if i.op == "int" else ite(le(I(0), i), i, add(n, i))
        out = []
        for s in self.ensure(st, and_(le(I(0), k), lt(k, n)), IndexError):
            s = s.copy()
            t, e = self.encode(s, v)
            if t.sort != seq.sort[1]:
                raise Unsupported("item assignment changes the element type")
            self.setlist(s, o, items=None, et=et, seq=concat(slice_(seq, I(0), k), unit(t), slice_(seq, add(k, I(1)), n)))
            out.append(s)
        return out

    def st_AugAssign(self, x, st):
        if isinstance(x.target, ast.Name):
            load = ast.copy_location(ast.Name(x.target.id, ast.Load()), x.target)
            out = []
            for s, (a, b) in self.ev_list([load, x.value], st):
                if isinstance(a, Ref) and isinstance(s.heap[a], HList) and isinstance(x.op, ast.Add):
                    s = s.copy()
                    self.lextend(s, a, self.force(s, b))
                    out.append(("next", s, None))
                    continue
                for s2, v in self.binop(s, x.op, a, b):
                    out += [("next", s3, None) for s3 in self.assign(x.target, v, s2)]
            return out
        if isinstance(x.target, ast.Subscript) and not isinstance(x.target.slice, ast.Slice):
            out = []
            for s, (o, i, b) in self.ev_list([x.target.value, x.target.slice, x.value], st):
                for s2, a in self.do_index(s, o, i):
                    if isinstance(a, Ref) and isinstance(x.op, ast.Add):
                        s2 = s2.copy()
                        self.lextend(s2, a, self.force(s2, b))
                        out.append(("next", s2, None))
                        continue
                    for s3, v in self.binop(s2, x.op, a, b):
                        out += [("next", s4, None) for s4 in self.set_index(s3, o, i, v)]
            return out
        if isinstance(x.target, ast.Attribute):
            out = []
            for s, (o, b) in self.ev_list([x.target.value, x.value], st):
                for s2, a in self.getattr_(s, o, x.target.attr):
                    if isinstance(a, Ref) and isinstance(x.op, ast.Add):
                        s2 = s2.copy()
                        self.lextend(s2, a, self.force(s2, b))
                        out.append(("next", s2, None))
                        continue
                    for s3, v in self.binop(s2, x.op, a, b):
                        out += [("next", s4, None) for s4 in self.models.setattr_(self, s3, o, x.target.attr, v)]
            return out
        raise Unsupported("augmented assignment")

    def force(self, st, v):
        if isinstance(v, GenV):
            return self.iter_view(st, v)
        return v

    def st_If(self, x, st):
        out = []
        for s, c in self.ev(x.test, st):
            t = self.truth(s, c)
            for b, body in ((t, x.body), (not_(t), x.orelse)):
                s2 = s.plus(b)
                if s2.dead():
                    continue
                out.extend(self.block(body, s2))
        return out

    def st_Assert(self, x, st):
        out = []
        for s, c in self.ev(x.test, st):
            out += [("next", s2, None) for s2 in self.ensure(s, self.truth(s, c), AssertionError)]
        return out

    def st_Raise(self, x, st):
        if x.exc is None:
            cur = st.ghost.get("handling")
            if cur is None:
                raise Unsupported("re-raise")
            self.raise_(st, cur)
            return []
        for s, v in self.ev(x.exc, st):
            if isinstance(v, PyV) and isinstance(v.o, type):
                self.raise_(s, v.o)
            elif isinstance(v, HExc):
                self.raise_(s, v)
            elif isinstance(v, Ref) and isinstance(s.heap[v], HExc):
                self.raise_(s, s.heap[v])
            else:
                raise Unsupported("raise")
        return []

    def st_Break(self, x, st):
        return [("break", st, None)]

    def st_Continue(self, x, st):
        return [("continue", st, None)]

    def st_FunctionDef(self, x, st):
        s = st.copy()
        s.env = dict(s.env)
        f = FuncV(x, self.curfv.glob, self.curfv.qual + "." + x.name, closure={**(self.curfv.closure or {}), **st.env})
        if x.decorator_list:
            raise Unsupported("decorated inner function")
        s.env[x.name] = f
        f.closure[x.name] = f
        return [("next", s, None)]

    def st_Import(self, x, st):
        import importlib
        s = st.copy()
        s.env = dict(s.env)
        for a in x.names:
            m = importlib.import_module(a.name)
            s.env[a.asname or a.name.split(".")[0]] = PyV(m if a.asname else importlib.import_module(a.name.split(".")[0]))
        return [("next", s, None)]

    def st_ImportFrom(self, x, st):
        import importlib
        pkg = self.curfv.glob.get("__package__")
        m = importlib.import_module("." * x.level + (x.module or ""), pkg)
        s = st.copy()
        s.env = dict(s.env)
        for a in x.names:
            s.env[a.asname or a.name] = self.lift(getattr(m, a.name))
        return [("next", s, None)]

    def st_Delete(self, x, st):
        s = st.copy()
        s.env = dict(s.env)
        for t in x.targets:
            if not isinstance(t, ast.Name):
                raise Unsupported("del")
            s.env.pop(t.id, None)
        return [("next", s, None)]

    def st_Global(self, x, st):
        raise Unsupported("global statement")

    # try / with
    def st_Try(self, x, st):
        self.sinks.append([])
        try:
            outs = self.block(x.body, st)
        finally:
            raised = self.sinks.pop()
        env_keys = None
        res = []
        for kind, s, v in outs:
            if kind == "next" and x.orelse:
                res.extend(self._guarded_final(lambda: self.block(x.orelse, s), x))
            else:
                res.append((kind, s, v))
        pend = []
        for s, exc in raised:
            handled = False
            for h in x.handlers:
                m = self.handles(s, h, exc)
                if m:
                    s2 = s.copy()
                    s2.env = dict(s2.env)
                    if h.name:
                        s2.env[h.name] = s2.alloc(exc)
                    old = s2.ghost.get("handling")
                    s2.ghost["handling"] = exc
                    self.sinks.append([])
                    try:
                        r = self.block(h.body, s2)
                    finally:
                        inner = self.sinks.pop()
                    for k3, s3, v3 in r:
                        s3 = s3.copy()
                        s3.ghost["handling"] = old
                        if old is None:
                            s3.ghost.pop("handling", None)
                        res.append((k3, s3, v3))
                    for s3, e3 in inner:
                        s3 = s3.copy()
                        s3.ghost.pop("handling", None)
                        if old is not None:
                            s3.ghost["handling"] = old
                        pend.append((s3, e3))
                    handled = True
                    break
            if not handled:
                pend.append((s, exc))
        if not x.finalbody:
            for s, exc in pend:
                self.raise_(s, exc)
            return res
        out = []
        for kind, s, v in res:
            for k2, s2, v2 in self.block(x.finalbody, s):
                out.append((kind, s2, v) if k2 == "next" else (k2, s2, v2))
        for s, exc in pend:
            for k2, s2, v2 in self.block(x.finalbody, s):
                if k2 == "next":
                    self.raise_(s2, exc)
                else:
                    out.append((k2, s2, v2))
        return out

    def _guarded_final(self, f, x):
        return f()

    def handles(self, st, h, exc):
        if h.type is None:
            return True
        ts = self.ev(h.type, st)
        v = ts[0][1]
        classes = v if isinstance(v, tuple) else (v,)
        for c in classes:
            if not (isinstance(c, PyV) and isinstance(c.o, type)):
                raise Unsupported("except clause")
            if issubclass(exc.cls, c.o):
                return True
            if issubclass(c.o, exc.cls) and c.o is not exc.cls:
                raise Unsupported("exception of unknown subclass")
        return False

    def st_With(self, x, st):
        if len(x.items) != 1:
            inner = ast.With(items=x.items[1:], body=x.body)
            ast.copy_location(inner, x)
            x = ast.copy_location(ast.With(items=x.items[:1], body=[inner]), x)
        item = x.items[0]
        out = []
        for s, cm in self.ev(item.context_expr, st):
            if isinstance(cm, CtxV):
                out.extend(self.run_ctx(cm, item, x.body, s))
            else:
                out.extend(self.models.with_hook(self, s, cm, item, x.body))
        return out

    def run_ctx(self, cm, item, body, st):
        """with a @contextmanager function: its body runs around ours"""
        f = cm.f
        caller_env, caller_fv = st.env, self.curfv

        def hook(y, s):
            gen_env = s.env
            s2 = s.copy()
            s2.ghost.pop("yield")
            if old is not None:
                s2.ghost["yield"] = old
            s2.env = caller_env
            self.curfv = caller_fv
            self.sinks.append([])
            try:
                if item.optional_vars is not None:
                    if y.value.value is not None:
                        raise Unsupported("context manager value")
                    ss = self.assign(item.optional_vars, None, s2)
                else:
                    ss = [s2]
                outs = [o for s3 in ss for o in self.block(body, s3)]
            finally:
                raised = self.sinks.pop()
                self.curfv = f
            res = []
            for kind, s3, v in outs:
                s3 = s3.copy()
                s3.ghost["pending"] = (kind, v, s3.env) + ((s3.ghost.get("pending"),) if "pending" in s3.ghost else (None,))
                s3.env = gen_env
                s3.ghost["yield"] = nohook
                res.append(("next", s3, None))
            for s3, exc in raised:
                s3 = s3.copy()
                s3.ghost["pending"] = ("raise", exc, s3.env) + ((s3.ghost.get("pending"),) if "pending" in s3.ghost else (None,))
                s3.env = gen_env
                s3.ghost["yield"] = nohook
                self.raise_(s3, exc)
            return res
        old = st.ghost.get("yield")
        s = st.copy()
        s.ghost["yield"] = hook
        s.env = cm.env
        self.curfv = f
        self.sinks.append([])
        try:
            outs = self.block(f.node.body, s)
        finally:
            raised = self.sinks.pop()
            self.curfv = caller_fv
        res = []

        def finish(s2):
            s2 = s2.copy()
            s2.ghost.pop("yield", None)
            if old is not None:
                s2.ghost["yield"] = old
            p = s2.ghost.pop("pending", None)
            if p is not None:
                s2.env = p[2]
                if p[3] is not None:
                    s2.ghost["pending"] = p[3]
            return s2, p
        for kind, s2, v in outs:
            s3, p = finish(s2)
            if p is None:
                raise Unsupported("context manager that does not yield")
            if p[0] == "raise":
                raise Unsupported("context manager that swallows exceptions")
            res.append((p[0], s3, p[1]))
        for s2, exc in raised:
            s3, p = finish(s2)
            if p is None:
                s3.env = caller_env
            self.raise_(s3, exc)
        return res

    # ---- loops -----------------------------------------------------------------------------
    def iter_view(self, st, v):
        if isinstance(v, GenV):
            return self.models.gen_view(self, st, v)
        return self.view(st, v)

    def st_For(self, x, st):
        from . import loops
        out = []
        for s, it in self.ev(x.iter, st):
            vw = self.iter_view(s, it)
            if vw.items is not None:
                out.extend(self.unrolled(x, vw.items, s))
            else:
                out.extend(loops.for_loop(self, x, vw, s, it))
        return out

    def unrolled(self, x, items, st):
        live = [st]
        out = []
        for v in items:
            nxt = []
            for s in live:
                for s2 in self.assign(x.target, v, s):
                    for kind, s3, r in self.block(x.body, s2):
                        if kind in ("next", "continue"):
                            nxt.append(s3)
                        elif kind == "break":
                            out.append(("next", s3, None))
                        else:
                            out.append((kind, s3, r))
            live = self.join_live(nxt)
            if len(live) > 400:
                raise Unsupported("too many paths")
        for s in live:
            out.extend(self.block(x.orelse, s) if x.orelse else [("next", s, None)])
        return out

    def join_live(self, states):
        """states that differ only in path conditions become one"""
        if len(states) < 2:
            return states
        groups = []
        for s in states:
            for g in groups:
                t = g[0]
                if t.env == s.env and t.ghost == s.ghost and len(t.heap) == len(s.heap) and all(
                        s.heap.get(r) is o for r, o in t.heap.items()):
                    g.append(s)
                    break
            else:
                groups.append([s])
        out = []
        for g in groups:
            if len(g) == 1:
                out.append(g[0])
                continue
            n = 0
            while all(len(s.pc) > n for s in g) and all(s.pc[n] == g[0].pc[n] for s in g):
                n += 1
            s = g[0].copy()
            s.pc = g[0].pc[:n]
            s.assume(or_(*[and_(*[t for t, _ in h.pc[n:]]) for h in g]), fact=False)
            out.append(s)
        return out

    def st_While(self, x, st):
        from . import loops
        return loops.while_loop(self, x, st)


def lexless(m, m0, tie):
    """m comes before m0 in the lexicographic order (or equals it, if tie)"""
    if not m:
        return B(tie)
    return or_(lt(m[0], m0[0]), and_(eq(m[0], m0[0]), lexless(m[1:], m0[1:], tie)))


def ite_int(t):
    return ite(t, I(1), I(0))


class DictV:
    def __init__(self, pairs):
        self.pairs = pairs


class CtxV:
    def __init__(self, f, env):
        self.f, self.env = f, env


class GenV:
    """a generator: a function with yield, not started"""
    def __init__(self, f, env):
        self.f, self.env = f, env


class RatV:
    """a / k"""
    def __init__(self, a, k):
        self.a, self.k = a, k


class OptV:
    """None unless some"""
    def __init__(self, some, v):
        self.some, self.v = some, v


def nohook(x, s):
    raise Unsupported("second yield of a context manager")


def isgenerator(node):
    if isinstance(node, ast.Lambda):
        return False
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def short(q):
    return q.split(".")[-1] if not q.split(".")[-2][:1].isupper() else ".".join(q.split(".")[-2:])


def mkbigcat(n, m, x, body):
    h = max(body.ht + 1, 1)
    b = bvar(h, "Int")
    return ir._mkbig(n, m, b, subst(body, {x: b}))
