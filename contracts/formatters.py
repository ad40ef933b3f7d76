"""Contracts of the formatters."""
from pyvc import ir, solve, chars, models
from pyvc.ir import *
from pyvc.vals import *
from pyvc.sym import Contract
from .lines import *
from . import lines as LN, detectors as DT
from .detectors import LS, K, REG as DREG

F = "markflow.formatters."
REG = dict(DREG)
FORMATTERS = []
QUAL = {}


def width(a):
    """a line length as two terms: is it infinite, and if not, how much is it"""
    return a.width.inf, ite(a.width.inf, I(0), a.width.val)


def fmt(code, lines, line_index, w):
    """the text the formatter of that class makes of a section"""
    return app("fmt", (code, lines, line_index) + tuple(w), "Str")


def wrapped(text, w):
    return app("wrap", (text,) + tuple(w), "Str")


def alpha(s):
    """the letters of s"""
    return fold(s, "str", lambda c: ite(chars.isalpha(c), c, S("")))


def alphas(lines):
    return fold(lines, "str", alpha)


def nosep(s):
    return fold(s, "and", lambda c: not_(chars.islsep(c)))


def nosep_nl(s):
    """the newline is the only line separator in s"""
    return fold(s, "and", lambda c: or_(eq(c, S("\n")), not_(chars.islsep(c))))


ALWAYS = ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C18", "C20", "C21")


def facts(kind):
    """what the parser promises of the lines of a section of that kind"""
    out = []
    for label, tags, f in DT.SECTION_FACTS:
        def cond(L, f=f):
            return f(mk(I(K[kind]), L))
        t = cond(var("probe", LS))
        if t is not TRUE:
            out.append((label, tags, cond))
    out.append(("no line contains a line separator", DT.FT, lambda L: fold(L, "and", nosep)))
    return out


def selfobj(cls):
    def make(ex, st):
        from pyvc.verify import resolve
        c, _ = resolve(cls)
        lines = st.alloc(HList(seq=var("self.lines", LS), et="str", owned=False))
        return st.alloc(HObj(c, {"line_index": var("self.line_index", "Int"), "lines": lines}))
    return make


COMMON_TAGS = {"no letter is lost, added or moved": ("C04",), "no line separator but the newline": ("C15",)}


def common(a, r):
    """what holds of every section's text"""
    return [("no letter is lost, added or moved", ("C04",), eq(alpha(r), alphas(a.lines))),
            ("it has no line separator but the newline", ("C08", "C12", "C15"), nosep_nl(r))]


def formatter(kind, ensures=None, measure=None, templates=(), raises=None, reveal=(), rank=1, cases=None, opaque=()):
    cls = {k: m for k, m in zip(LN.KINDS, MODULES)}[kind] + "." + LN.KINDS[kind]
    q = F + cls + ".reformatted"
    req = lambda a: [(l, t, f(a.lines)) for l, t, f in facts(kind)]
    REG[q] = Contract(q, [("self", "self"), ("width", "num")], selfobj=selfobj(F + cls), requires=req,
                      result=lambda a: fmt(a.code, a.lines, a.line_index, width(a)),
                      ensures=lambda a, r: common(a, r) + (ensures(a, r) if ensures else []), raises=raises or {},
                      templates=list(templates), reveal=reveal, layer=1, cases=cases, case_tags=DT.FT, opaque=opaque,
                      measure=lambda a: ((length(a.lines), length(nth(a.lines, I(0)))), rank))
    q2 = F + cls + ".__repr__"
    REG[q2] = Contract(q2, [("self", "self")], selfobj=selfobj(F + cls), requires=req, reveal=reveal,
                       result=lambda a: app("repr:obj", (a.code, a.lines, a.line_index), "Str"), layer=1)
    FORMATTERS.append(kind)
    QUAL[kind] = q
    return q


MODULES = ["atx_heading", "blank_line", "block_quote", "lists", "fenced_code_block", "indented_code_block",
           "link_reference_definition", "lists", "paragraph", "setext_heading", "table", "thematic_break"]


# ---- ATX headings ---------------------------------------------------------------------------------
def atx_text(a, r):
    t = solve.strip(nth(a.lines, I(0)))
    d = solve.ind_t(t, "c:#")
    c = solve.strip(xslice(t, d, length(t)))
    return [("the octothorpes, then a space and the text, if any", ("C10",),
             eq(r, concat(rep(S("#"), d), ite(eq(c, S("")), S(""), concat(S(" "), c))))),
            ("at least one octothorpe", ("C10",), lt(I(0), d)),
            ("no whitespace before it", ("C10",), eq(nth(r, I(0)), S("#"))),
            ("no whitespace after it", ("C10",), implies(ne(c, S("")), not_(chars.isws(nth(c, sub(length(c), I(1)))))))]


solve.register_strip("c:#")
formatter("ATX_HEADING", atx_text, reveal=["is_atx_heading_line"])
formatter("BLANK_LINE", lambda a, r: [("it is empty", ("C21",), eq(r, S("")))], reveal=["is_blank_line_line"])


# ---- thematic breaks ------------------------------------------------------------------------------
def thematic_text(a, r):
    inf, val = width(a)
    c = nth(solve.strip(nth(a.lines, I(0))), I(0))
    return [("its own character, as often as the line is long, or three times", ("C11",),
             eq(r, rep(c, ite(or_(inf, lt(val, I(3))), I(3), val)))),
            ("its character is * _ or -", ("C11",), or_(*[eq(c, S(x)) for x in "*_-"]))]


formatter("THEMATIC_BREAK", thematic_text, reveal=["is_thematic_break_line"])


# ---- code blocks ----------------------------------------------------------------------------------
def rstripped(lines):
    return fold(lines, "seq", lambda x: unit(solve.rstrip(x)))


def joined(sep, lines):
    return app("join", (S(sep), lines), "Str")


def fence_parts(line):
    """the fence and the info string of an opening line"""
    t = solve.strip(line)
    c = nth(t, I(0))
    tick = eq(c, S("`"))
    run = lambda k: solve.ind_t(t, "c:" + k)
    n = ite(tick, run("`"), run("~"))
    return rep(c, n), solve.strip(xslice(t, n, length(t))), n


def fenced_text(a, r):
    L = a.lines
    fence, info, count = fence_parts(nth(L, I(0)))
    n = length(L)
    closed = and_(lt(I(1), n), eq(solve.strip(nth(L, sub(n, I(1)))), fence))
    content = slice_(L, I(1), ite(closed, sub(n, I(1)), n))
    return [("the fence and info string, the content as it is but for trailing whitespace, and the fence", ("C07",),
             eq(r, joined("\n", concat(unit(concat(fence, info)), rstripped(content), unit(fence))))),
            ("the fence is three or more", ("C07",), le(I(3), count))]


def indented_text(a, r):
    return [("the lines as they are but for trailing whitespace", ("C07",), eq(r, joined("\n", rstripped(a.lines))))]


for c_ in "`~":
    solve.register_strip("c:" + c_)
formatter("FENCED_CODE_BLOCK", fenced_text, reveal=["is_fenced_code_block_start_line"],
          cases=lambda a: [eq(nth(solve.strip(nth(a.lines, I(0))), I(0)), S(c)) for c in "`~"])
formatter("INDENTED_CODE_BLOCK", indented_text, reveal=["is_indented_code_block_start_line"])


# ---- paragraphs and setext headings -------------------------------------------------------------------
def nonws(s):
    return LN.nonws(s)


def wrap_ensures(a, r):
    return [("no letter is lost, added or moved", ("C04",), eq(alpha(r), alpha(a.text))),
            ("nothing but whitespace changes", ("C05", "C13"), eq(nonws(r), nonws(a.text))),
            ("it has no line separator but the newline", DT.FT, nosep_nl(r)),
            ("it is blank only if the text is", ("C03",), implies(solve.allws(r), solve.allws(a.text)))]


WRAP = "markflow._utils.textwrap.wrap"
REG[WRAP] = Contract(WRAP, [("text", "str"), ("width", "num")], result=lambda a: wrapped(a.text, width(a)), ensures=wrap_ensures)


def stripped_lines(lines):
    return fold(lines, "seq", lambda x: unit(solve.strip(x)))


def para_text(a, r):
    n = length(a.lines)
    c = joined(" ", stripped_lines(a.lines))
    return [("its lines, stripped, are reflowed", ("C05",),
             eq(r, concat(wrapped(c, width(a)), ite(suffixof(S("  "), nth(a.lines, sub(n, I(1)))), S("  "), S(""))))),
            ("nothing but whitespace changes", ("C05",), eq(nonws(r), fold(a.lines, "str", nonws)))]


def setext_text(a, r):
    n = length(a.lines)
    w = wrapped(joined(" ", stripped_lines(slice_(a.lines, I(0), sub(n, I(1))))), width(a))
    c = nth(solve.strip(nth(a.lines, sub(n, I(1)))), I(0))
    return [("its text reflowed, and an underline of its own character as long as the longest line", ("C10",),
             eq(r, concat(w, S("\n"), rep(c, fold(app("splitlines", (w,), LS), "max0", length)))))]


formatter("PARAGRAPH", para_text)
formatter("SETEXT_HEADING", setext_text, reveal=["is_setext_underline", "is_blank_line_line"])


# ---- the document ----------------------------------------------------------------------------------
RMT = "markflow.reformat_markdown._reformat_markdown_text"


def reformatting(text, w, line_index=I(0)):
    return app("fmtdoc", (text, line_index) + tuple(w), "Str")


def doc_ensures(a, r):
    return [("no letter is lost, added or moved", ("C04",), eq(alpha(r), alpha(a.text))),
            ("it has no line separator but the newline", ("C08", "C12", "C15"), nosep_nl(r))]


def docsize(lines):
    return (length(lines), length(nth(lines, I(0))))


from markflow.exceptions import MarkdownFormatException
REFUSED = {MarkdownFormatException: None}
T3 = ("Tup", ("Int", "Int", LS))          # a section with its class: code, line index, lines


def line_of(sections, i, start):
    """the line at which the i-th section begins"""
    return add(start, fold(slice_(sections, I(0), i), "sum", lambda x: length(sel(x, 1))))


def assembly(acc, x, i, sections, start):
    """one section more; a blank line comes between a block quote and a setext heading directly after it"""
    at = line_of(sections, i, start)
    apart = and_(eq(sel(x, 0), I(K["SETEXT_HEADING"])), lt(I(0), i), eq(sel(nth(sections, sub(i, I(1))), 0), I(K["BLOCK_QUOTE"])))
    return concat(acc, ite(apart, unit(mk(I(K["BLANK_LINE"]), at, unit(S("")))), empty(Seq(T3))), unit(mk(sel(x, 0), at, sel(x, 1))))


assembled = solve.lfold("assembled", Seq(T3), lambda L, start: empty(Seq(T3)), assembly)


def doc_text(a, r):
    w = width(a)
    sections = DT.parse(app("splitlines", (a.text,), LS))
    texts = fold(assembled(sections, sections, a.line_index), "seq", lambda y: unit(fmt(sel(y, 0), sel(y, 2), sel(y, 1), w)))
    return [("the sections of the parse, in order, each formatted as what it is, separated by one newline, a blank line added only between a block quote and a setext heading",
             ("C21",), eq(r, concat(joined("\n", texts), S("\n"))))]


def lexle(m, n):
    return or_(lt(m[0], n[0]), and_(eq(m[0], n[0]), le(m[1], n[1])))


def doc_templates(ctx):
    """what is known of the sections read holds of those collected; what was collected is the assembly of what was read"""
    out = []
    if ctx.view is None or ctx.view.base is None or ctx.view.base.sort != DT.SECTS:
        return out
    Q, off, want = ctx.view.base, ctx.view.off, ctx.ex.want
    read = lambda k: slice_(Q, off, add(off, k))
    for h in ctx.mods:
        if h.kind == "Int":
            out.append((f"{h} is the kind of the last section", lambda s, k, h=h: eq(h.get(s), ite(le(k, I(0)), h.init, sel(nth(Q, add(off, sub(k, I(1)))), 0)))))
        if h.kind == Seq(T3):
            for label, tags, f in DT.SECTION_FACTS:
                if want(tags):
                    out.append((f"{label} ({h})", lambda s, k, h=h, f=f: fold(h.get(s), "and", lambda y: f(mk(sel(y, 0), sel(y, 2))))))
            out.append((f"no separator in the lines of {h}", lambda s, k, h=h: fold(h.get(s), "and", lambda y: fold(sel(y, 2), "and", nosep))))
            if want(("C21",)):
                for n, t in [(n, t) for n, t in ctx.scope if t.sort == "Int"] + [(g.name, g.init) for g in ctx.mods if g.kind == "Int"]:
                    out.append((f"{h} is the assembly of what was read, from line {n}", lambda s, k, h=h, t=t: eq(h.get(s), assembled(read(k), Q, t))))
            if want(("C04",)):
                out.append((f"{h} has the letters of what was read", lambda s, k, h=h: eq(
                    fold(h.get(s), "str", lambda y: alphas(sel(y, 2))), fold(read(k), "str", lambda x: alphas(sel(x, 1))))))
            if want(("C20",)) and Q.op == "app" and Q.data == "parse":
                out.append((f"no section in {h} is larger than the document", lambda s, k, h=h: fold(
                    h.get(s), "and", lambda y: lexle(docsize(sel(y, 2)), docsize(Q.args[0])))))
    return out


REG[RMT] = Contract(RMT, [("text", "str"), ("width", "num"), ("line_index", "int")],
                    result=lambda a: reformatting(a.text, width(a), a.line_index), ensures=lambda a, r: doc_ensures(a, r) + doc_text(a, r), raises=REFUSED, layer=1,
                    measure=lambda a: (docsize(app("splitlines", (a.text,), LS)), 5), templates=[doc_templates], reveal=["is_blank_line_line"])


def less(w, k):
    """a line length less k"""
    v = w[1].args[2] if w[1].op == "ite" and w[1].args[0] is w[0] else w[1]
    return w[0], ite(w[0], I(0), sub(v, I(k)))


# ---- block quotes ----------------------------------------------------------------------------------
QUOTED = p_quoted = lambda x: P("is_explicit_block_quote_line", x)
solve.register_strip("c:>")
# how many markers the last explicitly quoted line has
depth = solve.lfold("depth", "Int", lambda: I(0), lambda acc, x, i: ite(QUOTED(x), solve.ind_t(nonws(x), "c:>"), acc))
# the lines with the markers that lazy continuation leaves out
quoted = solve.lfold("quoted", LS, lambda L: empty(LS), lambda acc, x, i, L: concat(
    acc, unit(ite(QUOTED(x), x, concat(rep(S(">"), depth(slice_(L, I(0), i))), x)))))


def unquote(x):
    """x without its first marker and what precedes it"""
    d = LN.ind(x)
    return ite(and_(le(d, I(3)), prefixof(S(">"), xslice(x, d, length(x)))), xslice(x, add(d, I(1)), length(x)), x)


def spaceless(x):
    """x without one leading space"""
    return ite(prefixof(S(" "), x), slice_(x, I(1), length(x)), x)


unquote, spaceless = solve.define("unquote", "Str", unquote), solve.define("spaceless", "Str", spaceless)


def quote_prefix_text(content, w, space):
    text = reformatting(concat(joined("\n", content), S("\n")), less(w, 2 if space else 1))
    return joined("\n", fold(app("splitlines", (text,), LS), "seq", lambda x: unit(solve.strip(concat(S("> " if space else ">"), x)))))


def quote_text(a, r):
    q = fold(quoted(a.lines, a.lines), "seq", lambda x: unit(unquote(x)))
    q2 = fold(q, "seq", lambda x: unit(spaceless(x)))
    w = width(a)
    return [("its content, one marker removed from each line, reformatted at the line length less the marker's, each line led by the marker and stripped", ("C12",),
             or_(eq(r, quote_prefix_text(q, w, False)), eq(r, quote_prefix_text(q2, w, True))))]


def lf_templates(*folds):
    """every list or number so far is the left fold, over what was read of the list, of a ghost function"""
    def templates(ctx):
        out = []
        for name, F, ps in folds:
            srt = solve.LFOLDS[name][0]
            if ctx.view is not None and ctx.view.base is not None and ctx.view.base.sort == LS:
                Q, off = ctx.view.base, ctx.view.off
                for h in ctx.mods:
                    if h.kind == srt:
                        args = (Q,) if ps else ()
                        out.append((f"{h} == {name}(Q[:i])", lambda s, k, h=h, F=F, args=args: eq(h.get(s), F(slice_(Q, off, add(off, k)), *args))))
        return out
    return templates


def letters_kept(ctx):
    """the lists so far have the letters of the lines read"""
    if not ctx.ex.want(("C04",)) or ctx.view is None or ctx.view.base is None or ctx.view.base.sort != LS:
        return []
    Q, off = ctx.view.base, ctx.view.off
    return [(f"{h} has the letters of what was read", lambda s, k, h=h: eq(alphas(h.get(s)), concat(alphas(h.init), alphas(slice_(Q, off, add(off, k))))))
            for h in ctx.mods if h.kind == LS]


formatter("BLOCK_QUOTE", quote_text, reveal=["is_explicit_block_quote_line"], raises=REFUSED, rank=1,
          templates=[lf_templates(("depth", depth, False), ("quoted", quoted, True)), letters_kept])


# ---- lists -----------------------------------------------------------------------------------------
def mendpos(x):
    """where the marker that leads x ends: its whitespace and one character, or its whitespace, digits and one"""
    t = solve.lstrip(x)
    d = LN.ind(x)
    return ite(or_(*[prefixof(S(c), t) for c in "*-+"]), add(d, I(1)), add(d, solve.ind_t(t, "c:0123456789"), I(1)))


marked = LN.marked
mend = solve.define("mend", "Int", mendpos)
ir.NONNEG_APPS.add("def:mend")
MARKER = r"^\s*(\*|-|\+|[0-9]+\.)($| )"      # what the code calls MARKER_REGEX


def fences(x):
    return or_(*[prefixof(S(c * 3), solve.lstrip(x)) for c in "`~"])


def fence_of(x):
    """the run of fence characters that leads x"""
    t = solve.lstrip(x)
    c = nth(t, I(0))
    return rep(c, solve.ind_t(t, "$", (c,)))


fenced_, fence_of = solve.define("fences", "Bool", fences), solve.define("fence_of", "Str", fence_of)
solve.DLEMMAS["marked"] = [("a marker has no letters", lambda x: implies(marked(x), eq(alpha(slice_(x, I(0), add(mend(x), I(1)))), S("")))),
                           ("a marker is no fence", lambda x: implies(marked(x), not_(fences(x)))),
                           ("a marker comes after the indentation", lambda x: implies(marked(x), lt(LN.ind(x), mend(x)))),
                           ("a marker is within the line", lambda x: implies(marked(x), le(mend(x), length(x))))]
upto = lambda L, i: slice_(L, I(0), i)
# whether the lines so far leave a code block open, and the fence that closes it
incode = solve.lfold("incode", "Bool", lambda L: FALSE, lambda acc, x, i, L: ite(
    fenced_(x), or_(not_(acc), ne(codeend(upto(L, i), L), fence_of(x))), acc))
codeend = solve.lfold("codeend", "Str", lambda L: S(""), lambda acc, x, i, L: ite(
    and_(fenced_(x), not_(incode(upto(L, i), L))), fence_of(x), acc))


def begins(x, i, L):
    """a new item begins at the i-th line, x: a marker outside fenced code, indented no further than the last item's marker ends"""
    return and_(marked(x), not_(incode(upto(L, add(i, I(1))), L)), le(LN.ind(x), maxind(upto(L, i), L)))


maxind = solve.lfold("maxind", "Int", lambda L: mend(nth(L, I(0))), lambda acc, x, i, L: ite(begins(x, i, L), mend(x), acc))
LLS = Seq(LS)


def item_step(acc, x, i, L):
    n = length(acc)
    return ite(begins(x, i, L), concat(acc, unit(unit(x))),
               concat(slice_(acc, I(0), sub(n, I(1))), unit(concat(nth(acc, sub(n, I(1))), unit(x)))))


items = solve.lfold("items", LLS, lambda L: empty(LLS), item_step)
LISTS = F + "lists."


def item_facts(r, lines):
    return [("the items' lines are the list's", ("C08", "C04"), eq(DT.flat(r), lines)),
            ("no item is larger than the list", ("C20",), fold(r, "and", lambda e: lexle(docsize(e), docsize(lines)))),
            ("there is an item", DT.FT, lt(I(0), length(r))),
            ("every item begins with a marker", DT.FT, fold(r, "and", lambda e: and_(lt(I(0), length(e)), marked(nth(e, I(0)))))),
            ("no line of an item contains a line separator", DT.FT, fold(r, "and", lambda e: fold(e, "and", nosep)))]


def item_templates(ctx):
    out = []
    for h in ctx.mods:
        if h.kind == LLS and ctx.view is not None and ctx.view.base is not None and ctx.view.base.sort == LS:
            Q, off = ctx.view.base, ctx.view.off
            out.append((f"the lines of {h} are those read", lambda s, k, h=h: eq(DT.flat(h.get(s)), slice_(Q, off, add(off, k)))))
            if ctx.ex.want(("C20",)):
                out.append((f"no element of {h} is larger than what was read", lambda s, k, h=h: fold(
                    h.get(s), "and", lambda e: or_(lt(length(e), k), and_(eq(length(e), k), eq(nth(e, I(0)), nth(Q, off)))))))
            out.append((f"{h} is not empty once a line is read", lambda s, k, h=h: or_(eq(k, I(0)), lt(I(0), length(h.get(s))))))
            out.append((f"every element of {h} begins with a marker", lambda s, k, h=h: fold(h.get(s), "and", lambda e: and_(lt(I(0), length(e)), marked(nth(e, I(0)))))))
            out.append((f"no separator in {h}", lambda s, k, h=h: fold(h.get(s), "and", lambda e: fold(e, "and", nosep))))
    return out


listy = lambda a: [("there is a line", DT.FT, lt(I(0), length(a.lines))),
                   ("the first line has a marker", DT.FT, marked(nth(a.lines, I(0)))),
                   ("no line contains a line separator", DT.FT, fold(a.lines, "and", nosep))]
q_ = LISTS + "_list_marker_end_pos"
REG[q_] = Contract(q_, [("line", "str")], requires=lambda a: [("it has a marker", DT.FT, marked(a.line)), ("no separator", DT.FT, nosep(a.line))],
                   result=lambda a: mend(a.line), ensures=lambda a, r: [("it is where the marker ends", DT.FT, eq(r, mend(a.line)))], rkind="int")
q_ = LISTS + "_split_list"
REG[q_] = Contract(q_, [("lines", ("list", "str"))], requires=listy, result=lambda a: items(a.lines, a.lines),
                   ensures=lambda a, r: [("the lines from one marker to the next", ("C08",), eq(r, items(a.lines, a.lines)))] + item_facts(r, a.lines),
                   opaque=("marked", "mend"), patterns={MARKER: marked},
                   templates=[lambda ctx: lf_templates(("incode", incode, True), ("codeend", codeend, True), ("maxind", maxind, True), ("items", items, True))(ctx), item_templates])


def undent(x, d):
    """x without the whitespace among its first d characters that nothing precedes"""
    return concat(solve.lstrip(slice_(x, I(0), d)), slice_(x, d, length(x)))


def dedent(e):
    """the lines of an item without its marker: the first loses it and the character after it, the others as much of their indentation"""
    d = add(mend(nth(e, I(0))), I(1))
    return concat(unit(slice_(nth(e, I(0)), d, length(nth(e, I(0))))), fold(slice_(e, I(1), length(e)), "seq", lambda x: unit(undent(x, d))))


def as_document(e):
    n, w = docsize(app("splitlines", (concat(joined("\n", dedent(e)), S("\n")),), LS))
    return and_(eq(n, length(e)), lt(w, length(nth(e, I(0)))))


dedented = lambda entries: fold(entries, "seq", lambda e: unit(dedent(e)))


def dedent_templates(ctx):
    """the last list so far is that of the item, and what was read of its other lines"""
    out = []
    if ctx.view is None or ctx.view.base is None or ctx.view.base.sort not in (LS, LLS):
        return out
    Q, off = ctx.view.base, ctx.view.off
    for h in ctx.mods:
        if h.kind == LLS and Q.sort == LLS:
            out.append((f"{h} is what was read, dedented", lambda s, k, h=h: eq(h.get(s), dedented(slice_(Q, off, add(off, k))))))
        elif h.kind == LLS:
            n0 = length(h.init)
            for n, d in ctx.scope:
                if d.sort == "Int":
                    out.append((f"{h} grows by the lines read, dedented by {n}", lambda s, k, h=h, d=d, n0=n0: eq(h.get(s), concat(
                        slice_(h.init, I(0), sub(n0, I(1))),
                        unit(concat(nth(h.init, sub(n0, I(1))), fold(slice_(Q, off, add(off, k)), "seq", lambda x: unit(undent(x, d)))))))))
    return out


q_ = LISTS + "_dedent_entries"
REG[q_] = Contract(q_, [("list_entries", ("list", ("list", "str")))],
                   requires=lambda a: [("every item begins with a marker", DT.FT, fold(a.list_entries, "and", lambda e: and_(lt(I(0), length(e)), marked(nth(e, I(0)))))),
                                       ("no line of an item contains a line separator", DT.FT, fold(a.list_entries, "and", lambda e: fold(e, "and", nosep)))],
                   result=lambda a: dedented(a.list_entries),
                   ensures=lambda a, r: [("every item's lines, without its marker and as much indentation", ("C08",), eq(r, dedented(a.list_entries))),
                                         ("no line of a dedented item contains a line separator", ("C20",), fold(a.list_entries, "and", lambda e: fold(dedent(e), "and", nosep))),
                                         ("a dedented item, as a document, has as many lines, the first shorter", ("C20",), fold(a.list_entries, "and", as_document)),
                                         ("the letters of every item are kept", ("C04",), fold(a.list_entries, "and", lambda e: eq(alphas(dedent(e)), alphas(e))))],
                   opaque=("marked", "mend"),
                   templates=[dedent_templates])


def rstrip_nl(s):
    return solve.rstrip(s, "c:\n")


def item_text(lead, e, w, indent):
    """an item: its marker, and its own text reformatted at the line length left, its further lines indented as far as the marker"""
    text = rstrip_nl(reformatting(concat(joined("\n", e), S("\n")), (w[0], ite(w[0], I(0), sub(w[1].args[2] if w[1].op == "ite" else w[1], indent)))))
    return concat(lead, app("join", (concat(S("\n"), rep(S(" "), indent)), app("split", (text, S("\n")), LS)), "Str"))


def bullet_text(a, r):
    c = nth(solve.lstrip(nth(a.lines, I(0))), I(0))
    entries = dedented(items(a.lines, a.lines))
    return [("its items, each led by the list's own bullet, its text reformatted as a document of its own", ("C08",),
             eq(r, joined("\n", fold(entries, "seq", lambda e: unit(item_text(concat(c, S(" ")), e, width(a), I(2)))))))]


solve.register_strip("c:\n")
formatter("BULLET_LIST", bullet_text, reveal=["lemma:is_bullet_list_start_line"], opaque=("marked", "mend"), raises=REFUSED)


def first_number(lines):
    t = solve.lstrip(nth(lines, I(0)))
    return models.int_of_str(slice_(t, I(0), solve.ind_t(t, "c:0123456789")))


def numbers_width(lines):
    """as wide as the last number, its full stop and a space"""
    return add(length(models.str_of_int(sub(add(first_number(lines), length(items(lines, lines))), I(1)))), I(2))


# the items' texts without their markers, numbered from first
numbered = solve.lfold("numbered", LS, lambda first, indent, inf, val: empty(LS), lambda acc, e, i, first, indent, inf, val: concat(
    acc, unit(item_text(concat(models.str_of_int(add(first, i)), S(". ")), dedent(e), (inf, val), indent))))


def ordered_args(a):
    w = width(a)
    return first_number(a.lines), numbers_width(a.lines), w[0], w[1].args[2] if w[1].op == "ite" else w[1]


def ordered_text(a, r):
    return [("its items, numbered from the first one's number, each text reformatted as a document of its own", ("C08",),
             eq(r, joined("\n", numbered(items(a.lines, a.lines), *ordered_args(a)))))]


def ordered_templates(ctx):
    out = []
    if ctx.view is None or ctx.view.base is None or ctx.view.base.sort != LLS:
        return out
    Q, off = ctx.view.base, ctx.view.off
    while Q.op == "fold":
        Q = Q.args[0]           # the items themselves
    for h in ctx.mods:
        if h.kind == LS:
            out.append((f"{h} is what was read, numbered", lambda s, k, h=h: eq(h.get(s), numbered(slice_(Q, off, add(off, k)), *ordered_args(ctx.ex.args0)))))
            if ctx.ex.want(("C04",)):
                out.append((f"{h} has the letters of what was read", lambda s, k, h=h: eq(alphas(h.get(s)), fold(slice_(Q, off, add(off, k)), "str", alphas))))
            out.append((f"the newline is the only separator in {h}", lambda s, k, h=h: fold(h.get(s), "and", nosep_nl)))
    return out


formatter("ORDERED_LIST", ordered_text, reveal=["lemma:is_ordered_list_start_line", "is_ordered_list_start_line"], opaque=("marked", "mend"), raises=REFUSED, templates=[ordered_templates])


# what a caller that does not know the class of a section may rely on: every class's contract demands no more
# and promises no less (the demands are the same facts, by construction; the promises are common())
def section_requires(a):
    x = mk(a.code, a.lines)
    return [(l, t, f(x)) for l, t, f in DT.SECTION_FACTS] + [("no line contains a line separator", DT.FT, fold(a.lines, "and", nosep))]


REG["*.reformatted"] = Contract("*.reformatted", [("self", "self"), ("width", "num")], requires=section_requires, ensures=common, raises=REFUSED,
                                result=lambda a: fmt(a.code, a.lines, a.line_index, width(a)), layer=1,
                                measure=lambda a: ((length(a.lines), length(nth(a.lines, I(0)))), 1))
REG["*.__repr__"] = Contract("*.__repr__", [("self", "self")], requires=section_requires, layer=1,
                             result=lambda a: app("repr:obj", (a.code, a.lines, a.line_index), "Str"))


# ---- the document, twice -------------------------------------------------------------------------------
from markflow.exceptions import ReformatInconsistentException
REFORMAT = "markflow.reformat_markdown.reformat_markdown_text"


def final(text, w):
    """a document's text as it is returned: formatted, its trailing whitespace replaced by one newline"""
    return concat(solve.rstrip(reformatting(text, w)), S("\n"))


def ends_once(r):
    """r ends in exactly one newline, with no whitespace before it"""
    n = length(r)
    return and_(lt(I(0), n), eq(nth(r, sub(n, I(1))), S("\n")), or_(eq(n, I(1)), not_(chars.isws(nth(r, sub(n, I(2)))))))


REG[REFORMAT] = Contract(
    REFORMAT, [("text", "str"), ("width", "num")], result=lambda a: final(a.text, width(a)),
    ensures=lambda a, r: [
        ("it is the formatted text, ending in one newline", ("C14", "C15", "C21", "C17", "C16"), eq(r, final(a.text, width(a)))),
        ("reformatting it again gives the same text", ("C14",), eq(r, final(r, width(a)))),
        ("it ends in exactly one newline, not preceded by whitespace", ("C15",), ends_once(r)),
        ("it has no line separator but the newline", ("C15",), nosep_nl(r)),
        ("no letter is lost, added or moved", ("C04",), eq(alpha(r), alpha(a.text)))],
    raises={MarkdownFormatException: None,
            ReformatInconsistentException: lambda a: ne(final(final(a.text, width(a)), width(a)), final(a.text, width(a)))},
    layer=1)
