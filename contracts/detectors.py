"""Contracts of the detectors and the parser."""
from pyvc import ir, solve, chars, models
from pyvc.ir import *
from pyvc.vals import *
from pyvc.sym import Contract
from .lines import *
from . import lines as LN

D = "markflow.detectors."

LS = Seq("Str")
REG = dict(LN.REG)
# the properties the formatters are verified for
FT = ("C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C20", "C21")


def M(lines):
    """size of a list of lines"""
    return fold(lines, "sum", lambda x: add(length(x), I(1)))


def flat(sections):
    return fold(sections, "seq", lambda x: sel(x, 1) if x.sort[0] == "Tup" else x)


def splitter(qual, extra=None, rank=1, templates=()):
    name = qual.split(".")[-1]

    ir.NONNEG_APPS.add(f"splitn:{name}")

    def result(a):
        n = app(f"splitn:{name}", (a.lines, a.off), "Int")
        return (xslice(a.lines, I(0), n), xslice(a.lines, n, length(a.lines)))

    def ensures(a, r):
        out = [("its section and the rest make up the input", ("C01", "C02") + FT, eq(concat(r[0], r[1]), a.lines))]
        if extra:
            out += extra(a, r)
        return out
    c = Contract(qual, [("lines", ("list", "str")), ("off", "int")], result=result, ensures=ensures,
                 requires=lambda a: [("there is a line", ("C02",) + FT, lt(I(0), length(a.lines)))],
                 measure=lambda a: (M(a.lines), rank), templates=list(templates))
    REG[qual] = c
    return c


FOUND_TAGS = ("C02",) + FT


def found(cond, tags=FOUND_TAGS):
    """a section is found exactly when the first line satisfies cond"""
    return lambda a, r: [("found exactly when the first line starts one", tags,
                          eq(lt(I(0), length(r[0])), cond(nth(a.lines, I(0)))))]


SINGLE_TAGS = ("C02",) + FT


def single(cond):
    """... and it is that one line"""
    def f(a, r):
        return found(cond)(a, r) + [("is a single line", SINGLE_TAGS, implies(lt(I(0), length(r[0])), eq(length(r[0]), I(1))))]
    return f


p = lambda n: (lambda x: P(n, x))
splitter(D + "atx_heading.split_atx_heading", single(p("is_atx_heading_line")))
splitter(D + "blank_line.split_blank_line", single(p("is_blank_line_line")))
splitter(D + "thematic_break.split_thematic_break", single(p("is_thematic_break_line")))


def list_ends(start):
    stop = lambda x: or_(P("is_blank_line_line", x), P("is_table_start_line", x), P("is_thematic_break_line", x))

    def f(a, r):
        n = length(r[0])
        yes = lt(I(0), n)
        return found(start)(a, r) + [
            ("its first line is no thematic break", ("C02",), implies(yes, not_(P("is_thematic_break_line", nth(a.lines, I(0)))))),
            ("no later line of it is blank, a table or a thematic break", ("C02",),
             implies(yes, fold(slice_(r[0], I(1), n), "and", lambda x: not_(stop(x))))),
            ("it stops only before such a line", ("C02",),
             implies(and_(yes, lt(I(0), length(r[1]))), stop(nth(r[1], I(0)))))]
    return f


splitter(D + "bullet_list.split_bullet_list", list_ends(p("is_bullet_list_start_line")))
splitter(D + "ordered_list.split_ordered_list", list_ends(lambda x: P("is_ordered_list_start_line", x)))


def table_shape(a, r):
    n = length(r[0])
    piped = lambda x: lead(x, "|")
    return found(piped)(a, r) + [
        ("every line of it is led by a pipe", ("C02",) + FT, fold(r[0], "and", piped)),
        ("the line after it is not", ("C02",), implies(and_(lt(I(0), n), lt(I(0), length(r[1]))), not_(piped(nth(r[1], I(0))))))]


splitter(D + "table.split_table", table_shape)


def fence_run(line, c):
    """the run of the fence character c that opens the line"""
    return rep(S(c), solve.ind_t(solve.lstrip(line), "c:" + c))


def fenced_shape(a, r):
    n = length(r[0])
    yes = lt(I(0), n)
    line = nth(a.lines, I(0))
    ticks = prefixof(S("```"), solve.strip(line))
    out = found(fence)(a, r)
    for c, cond in (("`", and_(yes, ticks)), ("~", and_(yes, not_(ticks)))):
        closes = lambda x: eq(fence_run(line, c), solve.strip(x))
        out += [
            (f"it stops only after its closing fence ({c})", ("C02",),
             implies(and_(cond, lt(I(0), length(r[1]))), and_(lt(I(1), n), closes(nth(r[0], sub(n, I(1))))))),
            (f"no earlier line closes it ({c})", ("C02",),
             implies(cond, fold(slice_(r[0], I(1), sub(n, I(1))), "and", lambda x: not_(closes(x)))))]
    return out


splitter(D + "fenced_code_block.split_fenced_code_block", fenced_shape)


def indented_shape(a, r):
    n = length(r[0])
    yes = lt(I(0), n)
    # the lines after it: blanks, then (if any line is left) one that is neither blank nor indented
    rest = r[1]
    return found(icb)(a, r) + [
        ("it holds only blank lines and lines indented by four", ("C02",) + FT, fold(r[0], "and", lambda x: or_(blank(x), icb(x)))),
        ("it ends with a line indented by four", ("C02",) + FT, implies(yes, icb(nth(r[0], sub(n, I(1))))))]


def code_before(ctx):
    """the last line of the block so far is code"""
    Q = ctx.view.base if ctx.view is not None else None
    if Q is None or Q.sort != LS:
        return []
    return [(f"Q[{h} - 1] is code", lambda s, k, h=h: icb(nth(Q, sub(h.get(s), I(1))))) for h in ctx.mods if h.kind == "Int"]


splitter(D + "indented_code_block.split_indented_code_block", indented_shape, templates=[code_before])
splitter(D + "link_reference_definition.split_link_reference_definition")


def para_cont(q, rank):
    name = "bq_cont" if "block_quote" in q else "para_cont"
    REG[q] = Contract(q, [("lines", ("list", "str")), ("off", "int")], result=lambda a: app(name, (a.lines, a.off), "Bool"),
                      requires=lambda a: [("there is a line", ("C02",) + FT, lt(I(0), length(a.lines)))],
                      ensures=lambda a, r: [("a setext underline does not continue a paragraph", ("C02",) + FT, implies(r, not_(P("is_setext_underline", nth(a.lines, I(0))))))],
                      measure=lambda a: (M(a.lines), rank))


para_cont(D + "paragraph._is_paragraph_continuation_text", 4)
para_cont(D + "block_quote._is_paragraph_continuation_text", 8)


def is_para(line):
    """no other kind of section starts at the line"""
    return not_(or_(*[P(n, line) for n in (
        "is_indented_code_block_start_line", "is_atx_heading_line", "is_blank_line_line", "is_bullet_list_start_line",
        "is_explicit_block_quote_line", "is_fenced_code_block_start_line", "is_ordered_list_start_line", "is_table_start_line",
        "is_thematic_break_line")]))


splitter(D + "paragraph.split_paragraph_ignoring_setext", found(is_para), rank=5)


def paragraph_found(a, r):
    q = REG[D + "paragraph.split_paragraph_ignoring_setext"].result(a)
    under = and_(lt(I(0), length(q[1])), P("is_setext_underline", nth(q[1], I(0))))
    return [("a paragraph, unless an underline follows", FOUND_TAGS,
             eq(lt(I(0), length(r[0])), and_(is_para(nth(a.lines, I(0))), not_(under))))]


def setext_found(a, r):
    q = REG[D + "paragraph.split_paragraph_ignoring_setext"].result(a)
    under = and_(lt(I(0), length(q[1])), P("is_setext_underline", nth(q[1], I(0))))
    n = length(r[0])
    return [("a paragraph followed by an underline", FOUND_TAGS, eq(lt(I(0), n), and_(is_para(nth(a.lines, I(0))), under))),
            ("its last line is the underline", ("C02",) + FT, implies(lt(I(0), n), and_(lt(I(1), n), P("is_setext_underline", nth(r[0], sub(n, I(1)))))))]


splitter(D + "paragraph.split_paragraph", paragraph_found, rank=6)
splitter(D + "setext_heading.split_setext_heading", setext_found, rank=6)

splitter(D + "block_quote.split_block_quote", found(p("is_explicit_block_quote_line")), rank=3)

def shrinks(ctx):
    out = []
    Q = ctx.view.base if ctx.view is not None else None
    for a in ctx.mods:
        if a.kind == LS and Q is not None and Q.sort == LS:
            off = ctx.view.off
            done = lambda k: add(M(a.init), M(slice_(Q, off, add(off, k))))
            out.append((f"{a} is no larger than the lines it comes from", lambda s, k, a=a: le(M(a.get(s)), done(k))))
            out.append((f"{a} is smaller than the lines it comes from", lambda s, k, a=a: or_(le(k, I(0)), lt(M(a.get(s)), done(k)))))
    return out


REG[D + "block_quote._block_quote_ends_with_paragraph"] = Contract(
    D + "block_quote._block_quote_ends_with_paragraph", [("lines", ("list", "str"))],
    result=lambda a: app("bq_ends_para", (a.lines,), "Bool"),
    requires=lambda a: [("there is a line", ("C02",) + FT, lt(I(0), length(a.lines))),
                        ("the first line is quoted", ("C20",), P("is_explicit_block_quote_line", nth(a.lines, I(0))))],
    measure=lambda a: (M(a.lines), 2), templates=[shrinks], reveal=["is_explicit_block_quote_line"])

# ---- the parser ---------------------------------------------------------------------------------
SECTS = Seq(("Tup", ("Int", LS)))


def parse(lines):
    return app("parse", (lines,), SECTS)


K = LN.KIND


def of_kind(kind, cond):
    return lambda x: implies(eq(sel(x, 0), I(K[kind])), cond(sel(x, 1)))


def starts_with(pred):
    return lambda L: pred(nth(L, I(0)))


def one_line(pred):
    return lambda L: and_(eq(length(L), I(1)), pred(nth(L, I(0))))


piped = lambda x: lead(x, "|")
ends_in = lambda pred: lambda L: pred(nth(L, sub(length(L), I(1))))
PARA0 = lambda L: is_para(nth(L, I(0)))

# what the parser promises of every section (label, tags, predicate on the pair)
SECTION_FACTS = [
    ("every section is of a known kind", ("C02",) + FT, lambda x: or_(*[eq(sel(x, 0), I(k)) for k in K.values()])),
    ("no section is empty", ("C01", "C02") + FT, lambda x: lt(I(0), length(sel(x, 1)))),
    ("every block quote begins with a quoted line", ("C02",) + FT, of_kind("BLOCK_QUOTE", starts_with(p("is_explicit_block_quote_line")))),
    ("a blank line section is one blank line", ("C02",) + FT, of_kind("BLANK_LINE", one_line(p("is_blank_line_line")))),
    ("an ATX heading is one line led by #", ("C02",) + FT, of_kind("ATX_HEADING", one_line(p("is_atx_heading_line")))),
    ("a thematic break is one line", ("C02",) + FT, of_kind("THEMATIC_BREAK", one_line(p("is_thematic_break_line")))),
    ("a bullet list begins with a marker", ("C02",) + FT, of_kind("BULLET_LIST", starts_with(p("is_bullet_list_start_line")))),
    ("an ordered list begins with a marker", ("C02",) + FT, of_kind("ORDERED_LIST", starts_with(p("is_ordered_list_start_line")))),
    ("a fenced code block begins with a fence", ("C02",) + FT, of_kind("FENCED_CODE_BLOCK", starts_with(p("is_fenced_code_block_start_line")))),
    ("an indented code block begins and ends with code", ("C02",) + FT,
     of_kind("INDENTED_CODE_BLOCK", lambda L: and_(p("is_indented_code_block_start_line")(nth(L, I(0))), icb(nth(L, sub(length(L), I(1))))))),
    ("an indented code block holds code and blank lines", ("C02",) + FT,
     of_kind("INDENTED_CODE_BLOCK", lambda L: fold(L, "and", lambda x: or_(blank(x), icb(x))))),
    ("every line of a table is led by a pipe", ("C02",) + FT, of_kind("TABLE", lambda L: fold(L, "and", piped))),
    ("a setext heading has a text line and ends in an underline", ("C02",) + FT,
     of_kind("SETEXT_HEADING", lambda L: and_(lt(I(1), length(L)), p("is_setext_underline")(nth(L, sub(length(L), I(1))))))),
    ("a paragraph starts like nothing else", ("C02",), of_kind("PARAGRAPH", PARA0)),
    ("the text of a setext heading does not start with a blank line", FT, of_kind("SETEXT_HEADING", lambda L: not_(p("is_blank_line_line")(nth(L, I(0)))))),
    ("no thematic break starts a list or a paragraph", ("C02",),
     lambda x: implies(or_(*[eq(sel(x, 0), I(K[k])) for k in ("BULLET_LIST", "ORDERED_LIST", "PARAGRAPH", "SETEXT_HEADING")]),
                       not_(p("is_thematic_break_line")(nth(sel(x, 1), I(0)))))),
]


def smaller_doc(part, lines):
    """part has fewer lines than lines, or as many, the first of them no longer"""
    a, b = nth(part, I(0)), nth(lines, I(0))
    return or_(lt(length(part), length(lines)), and_(eq(length(part), length(lines)), le(length(a), length(b))))


def parse_ensures(a, r):
    return [("the sections' lines are the input", ("C01", "C18") + FT, eq(flat(r), a.lines))] + [
        (label, tags, fold(r, "and", f)) for label, tags, f in SECTION_FACTS] + [
            ("no section has more lines than the input", ("C20",), fold(r, "and", lambda x: smaller_doc(sel(x, 1), a.lines))),
            ("no section is larger than the input", ("C20",), fold(r, "and", lambda x: le(M(sel(x, 1)), M(a.lines)))),
            ("there is a section if there is a line", ("C03",), implies(lt(I(0), length(a.lines)), lt(I(0), length(r))))]


def flat_templates(ctx):
    out = []
    seqs = [h for h in ctx.mods if isseq(h.kind)]
    for a in seqs:
        e = a.kind[1]
        if e == ("Tup", ("Int", LS)) or e == LS:
            pick = (lambda x: sel(x, 1)) if e[0] == "Tup" else (lambda x: x)
            out.append((f"no element of {a} is empty", lambda s, k, a=a, pick=pick: fold(a.get(s), "and", lambda x: lt(I(0), length(pick(x))))))
            if e[0] == "Tup":
                for label, tags, f in SECTION_FACTS:
                    if ctx.ex.want(tags):
                        out.append((f"{label} ({a})", lambda s, k, a=a, f=f: fold(a.get(s), "and", f)))
                if ctx.ex.want(("C20",)):
                    for h in seqs:
                        if h.kind == LS:
                            out.append((f"no element of {a} has more lines than {h}", lambda s, k, a=a, h=h: fold(a.get(s), "and", lambda x: smaller_doc(sel(x, 1), h.init))))
                            out.append((f"{h} gets shorter, or {a} is empty", lambda s, k, a=a, h=h: or_(eq(a.get(s), empty(a.kind)), lt(length(h.get(s)), length(h.init)))))
                for n, t in ctx.scope + [(h.name, h.init) for h in seqs]:
                    if t.sort == LS:
                        out.append((f"no element of {a} is larger than {n}", lambda s, k, a=a, t=t: fold(a.get(s), "and", lambda x: le(M(sel(x, 1)), M(t)))))
            for b in seqs:
                if b.kind == LS:
                    for n, t in ctx.scope + [(h.name, h.init) for h in seqs]:
                        if t.sort == LS:
                            out.append((f"flat({a}) + {b} == {n}", lambda s, k, a=a, b=b, t=t: eq(concat(flat(a.get(s)), b.get(s)), t)))
            if ctx.view is not None and ctx.view.base is not None and ctx.view.base.sort == LS:
                Q, off = ctx.view.base, ctx.view.off
                out.append((f"flat({a}) == flat({a}0) + Q[:i]", lambda s, k, a=a: eq(flat(a.get(s)), concat(flat(a.init), slice_(Q, off, add(off, k))))))
    return out


REG["markflow.parser.parse_markdown"] = Contract(
    "markflow.parser.parse_markdown", [("lines", ("list", "str"))], result=lambda a: parse(a.lines), ensures=parse_ensures,
    templates=[flat_templates], measure=lambda a: (M(a.lines), 9),
    reveal=["is_table_start_line", "is_fenced_code_block_start_line", "is_indented_code_block_start_line"])
