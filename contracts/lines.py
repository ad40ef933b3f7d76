"""Contracts of markflow/detectors/_lines.py: each predicate equals a definition written from the
statement of C02."""
from pyvc import ir, solve, chars, models
from pyvc.ir import *
from pyvc.sym import Contract

# one number for each kind of section, shared by the parser's enumeration and the formatters' classes
KINDS = {"ATX_HEADING": "MarkdownATXHeading", "BLANK_LINE": "MarkdownBlankLine", "BLOCK_QUOTE": "MarkdownBlockQuote",
         "BULLET_LIST": "MarkdownBulletList", "FENCED_CODE_BLOCK": "MarkdownFencedCodeBlock",
         "INDENTED_CODE_BLOCK": "MarkdownIndentedCodeBlock", "LINK_REFERENCE_DEFINITION": "MarkdownLinkReferenceDefinition",
         "ORDERED_LIST": "MarkdownOrderedList", "PARAGRAPH": "MarkdownParagraph", "SETEXT_HEADING": "MarkdownSetextHeading",
         "TABLE": "MarkdownTable", "THEMATIC_BREAK": "MarkdownThematicBreak"}
KIND = {k: 1 + i for i, k in enumerate(KINDS)}
models.SECTION_CODES.update(KIND, INVALID=0)
models.CLASS_CODES.update({KINDS[k]: c for k, c in KIND.items()})

L = "markflow.detectors._lines."
REG = {}


def P(name, line):
    return app("P:" + name, (line,), "Bool")


def ind(s):
    return solve.ind_t(s)


def stripped(s):
    return solve.strip(s)


def blank(s):
    return solve.allws(s)


def icb(s):
    return and_(not_(blank(s)), le(I(4), ind(s)))


def first(s):
    """the first character after the indentation"""
    return nth(s, ind(s))


def lead(s, prefix):
    """s, its indentation aside, begins with prefix"""
    return prefixof(S(prefix), xslice(s, ind(s), length(s)))


def fence(s):
    return or_(prefixof(S("```"), stripped(s)), prefixof(S("~~~"), stripped(s)))


def all_in(s, cs):
    return fold(s, "and", lambda c: or_(*[eq(c, S(x)) for x in cs]))


def nonws(s):
    """s without its whitespace"""
    return fold(s, "str", lambda c: ite(chars.isws(c), S(""), c))


def thematic(s):
    """three or more of one of * _ -, not indented by four; spaces allowed"""
    ns = nonws(s)
    return and_(not_(icb(s)), le(I(3), length(ns)), or_(*[fold(s, "and", lambda c, k=k: or_(chars.isws(c), eq(c, S(k)))) for k in "*_-"]))


def bullet(s):
    return and_(not_(icb(s)), not_(thematic(s)), or_(*[lead(s, k + " ") for k in "*+-"]))


def setext_underline(s):
    t = stripped(s)
    return and_(not_(icb(s)), not_(blank(s)), or_(fold(t, "and", lambda c: eq(c, S("="))), fold(t, "and", lambda c: eq(c, S("-")))))


def ordered(s):
    """one to nine digits, a full stop and a space"""
    t = solve.lstrip(s)
    d = solve.ind_t(t, "c:0123456789")
    return and_(not_(icb(s)), le(I(1), d), le(d, I(9)), prefixof(S(". "), xslice(t, d, length(t))))


solve.register_strip("c:0123456789")


def marks(x):
    """x is led by a bullet, or digits and a full stop; the line (a newline aside) ends there or goes on with a space"""
    t = solve.lstrip(x)
    d = solve.ind_t(t, "c:0123456789")
    u = xslice(t, d, length(t))
    ends = lambda r: or_(eq(r, S("")), eq(r, S("\n")), prefixof(S(" "), r))
    return or_(and_(or_(*[prefixof(S(c), t) for c in "*-+"]), ends(slice_(t, I(1), length(t)))),
               and_(lt(I(0), d), prefixof(S("."), u), ends(slice_(u, I(1), length(u)))))


marked = solve.define("marked", "Bool", marks)
DEFS = {
    "is_ordered_list_start_line": ordered,
    "is_indented_code_block_start_line": icb,
    "is_blank_line_line": blank,
    "is_atx_heading_line": lambda s: and_(not_(icb(s)), lead(s, "#")),
    "is_explicit_block_quote_line": lambda s: and_(not_(icb(s)), lead(s, ">")),
    "is_fenced_code_block_start_line": fence,
    "is_table_start_line": lambda s: lead(s, "|"),
    "is_thematic_break_line": thematic,
    "is_bullet_list_start_line": bullet,
    "is_setext_underline": setext_underline,
}


# the properties whose proofs use the definitions
DEF_TAGS = ("C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C20", "C21")


NOT_BREAKS = ("is_bullet_list_start_line", "is_ordered_list_start_line")


# what follows of a predicate, where its definition is of no use
for n_ in NOT_BREAKS:
    solve.PLEMMAS[n_] = [("the line has a list marker", marked)]
solve.PLEMMAS["is_bullet_list_start_line"].append(("a bullet leads it", lambda x: or_(*[prefixof(S(c), solve.lstrip(x)) for c in "*-+"])))
FT = ("C03", "C04", "C08", "C15", "C20")        # where lists are


def contract(name, spec):
    def ensures(a, r):
        out = [("definition", DEF_TAGS, eq(r, spec(a.line)))]
        if name in NOT_BREAKS:
            out.append(("a thematic break starts no list", ("C02",), implies(r, not_(P("is_thematic_break_line", a.line)))))
        if name in solve.PLEMMAS:
            out += [(l, FT, implies(r, f(a.line))) for l, f in solve.PLEMMAS[name]]
        return out
    return Contract(L + name, [("line", "str")], result=lambda a: P(name, a.line), ensures=ensures,
                    reveal=["is_thematic_break_line"] if name in NOT_BREAKS else [])


solve.PDEFS.update(DEFS)
for n_, f_ in DEFS.items():
    REG[L + n_] = contract(n_, f_)
