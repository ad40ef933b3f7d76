"""Which functions decide which property, and what stands in where no contract reaches."""
from . import detectors, formatters
from .detectors import D
from .formatters import F

REG = dict(formatters.REG)

DETECTORS = [q for q in detectors.REG]
PARSER = "markflow.parser.parse_markdown"
RMT = formatters.RMT
WRAP = formatters.WRAP


def fq(*kinds):
    """the reformatted properties of those classes"""
    return [formatters.QUAL[k] for k in kinds]


SIMPLE = fq("ATX_HEADING", "BLANK_LINE", "THEMATIC_BREAK", "FENCED_CODE_BLOCK", "INDENTED_CODE_BLOCK", "PARAGRAPH", "SETEXT_HEADING")
QUOTE = fq("BLOCK_QUOTE")
LISTS = [formatters.LISTS + n for n in ("_list_marker_end_pos", "_split_list", "_dedent_entries")] + fq("BULLET_LIST", "ORDERED_LIST")
ASSEMBLY = [RMT, formatters.REFORMAT]
REPRS = [q.replace(".reformatted", ".__repr__") for q in SIMPLE + fq("BLOCK_QUOTE", "BULLET_LIST", "ORDERED_LIST")]

# functions whose contracts are still assumed by their callers, with the bounded search standing in
LATER = {
    "markflow.formatters.block_quote.BLOCK_QUOTE.reformatted": "that no letter is lost and that the nesting shrinks is not discharged yet",
    "markflow.formatters.link_reference_definition.LINK_REFERENCE_DEFINITION.reformatted": "no contract yet",
    "markflow.formatters.table.TABLE.reformatted": "no contract yet",
    WRAP: "its contract is assumed by the paragraph and setext formatters and not yet discharged",
}


def later(*names, but=()):
    return [(q, w) for q, w in LATER.items() if (not names or any(n in q for n in names)) and not any(b in q for b in but)]


ASSUMES = "; trusted: pyvc's semantics and library axioms, cvc5"


def prop(functions, note, bounded=(), explanation=""):
    d = {"functions": functions, "bounded": list(bounded), "note": note + ASSUMES}
    if bounded:
        d["level"] = "other"
        d["explanation"] = ("every obligation of the functions under contract is discharged for all inputs; the functions listed as bounded stand-ins "
                            "are only searched (random inputs judged by an oracle written from the statement), which is no proof" + ("; " + explanation if explanation else ""))
        d["technique"] = "contract-based deductive verification (pyvc, cvc5) of the functions under contract; bounded search of the listed others"
    return d


# property -> functions whose obligations must all be discharged, and the functions a bounded search stands in for
PROPS = {
    "C01": prop(DETECTORS, "every obligation of every splitter and of the parser loop is discharged for all inputs"),
    "C02": prop(DETECTORS, "every obligation of the line predicates, splitters and parser is discharged for all inputs; the shape of link reference definitions is not part of the statement"),
    "C03": prop(DETECTORS + SIMPLE + QUOTE + LISTS + REPRS + ASSEMBLY, "parser, assembly and the formatters under contract raise nothing undocumented; the listed others are bounded", later(but=["block_quote"])),
    "C04": prop(DETECTORS + SIMPLE + LISTS + ASSEMBLY, "parser and the formatters under contract keep the letters; the listed others are bounded", later()),
    "C05": prop(fq("PARAGRAPH", "SETEXT_HEADING"), "the paragraph formatter keeps all but whitespace, given wrap's contract; wrap is bounded", later("wrap")),
    "C06": prop(fq("PARAGRAPH", "SETEXT_HEADING"), "the paragraph formatter returns what wrap makes of its lines; wrap itself is bounded", later("wrap")),
    "C07": prop(DETECTORS + fq("FENCED_CODE_BLOCK", "INDENTED_CODE_BLOCK"), "every obligation of the parser and both formatters is discharged for all inputs"),
    "C08": prop(DETECTORS + LISTS, "every obligation of the parser, the functions that split and dedent a list's items, and both list formatters is discharged for all inputs; the content of an item is reformatted as the assumed contract of the nested call says: as a document, a function of its text and line length"),
    "C09": prop(DETECTORS, "what the parser promises of tables is proved; the table formatter is bounded", later("table")),
    "C10": prop(DETECTORS + fq("ATX_HEADING", "SETEXT_HEADING"), "every obligation of the parser and both formatters is discharged for all inputs; how the text of a setext heading is reflowed is C05 and C06"),
    "C11": prop(DETECTORS + fq("THEMATIC_BREAK"), "every obligation of the parser and the formatter is discharged for all inputs"),
    "C12": prop(DETECTORS + QUOTE, "every obligation of the parser and the block quote formatter is discharged for all inputs; the content of a quote is reformatted as the assumed contract of the nested call says: as a document, a function of its text and line length"),
    "C13": prop(DETECTORS, "what the parser promises of link reference definitions is proved; the formatter is bounded", later("link_ref")),
    "C14": prop(DETECTORS + SIMPLE + QUOTE + LISTS + ASSEMBLY, "the loop of the entry point returns only a text that is its own reformatting, and that text is what every further call returns; determinism of the formatters not under contract is bounded", later("link_ref", "table", "wrap")),
    "C15": prop(DETECTORS + SIMPLE + QUOTE + LISTS + ASSEMBLY, "the formatters under contract emit no other separator; the listed others are bounded", later(but=["block_quote"])),
    "C16": prop([], "bounded search of the real program", [("markflow.__main__.main", "no contract yet"), ("markflow._argparse", "no contract yet")]),
    "C17": prop([], "bounded search of the real program", [("markflow.__main__.main", "no contract yet"), ("markflow._argparse", "no contract yet")]),
    "C18": prop(DETECTORS + SIMPLE + QUOTE + LISTS + ASSEMBLY, "parser, assembly and the formatters under contract change nothing they are given and leave the log level as it was; the listed others are bounded", later(but=["block_quote"])),
    "C19": prop([], "bounded search of the real program", [("markflow._argparse", "no contract yet")]),
    "C20": prop(DETECTORS + SIMPLE + LISTS + ASSEMBLY, "parser and the formatters under contract terminate; the listed others are bounded", later()),
    "C21": prop(DETECTORS + fq("BLANK_LINE") + QUOTE + [RMT], "every obligation of the parser, the blank line and block quote formatters and the assembly is discharged for all inputs"),
}

# rough cost in seconds, to start the long ones first
COST = {PARSER: 30, D + 'fenced_code_block.split_fenced_code_block': 15, D + 'block_quote.split_block_quote': 25}
COST[RMT] = 120
COST[LISTS[1]], COST[LISTS[2]] = 90, 100
for q_ in LISTS[3:]:
    COST[q_] = 45
COST[fq("BLOCK_QUOTE")[0]] = 90
for q_ in fq("ATX_HEADING", "FENCED_CODE_BLOCK"):
    COST[q_] = 40

TRUSTED = [
    "pyvc itself: its symbolic semantics of the Python subset markflow uses, and its axioms for str, list, re and the other library functions (pyvc/models.py, pyvc/solve.py, pyvc/rx.py)",
    "cvc5 1.1.2's unsat answers",
    "CPython executes the source it is given; the type annotations of parameters (lists of str, ints, numbers) are respected by callers",
    "logging calls return normally and have no effect but on the logging module",
    "stack and memory are unlimited (RecursionError and MemoryError are outside the contracts)",
    "predicates P:<name> stand for the result of the function of that name on its argument: functions under contract are deterministic in their arguments (they read no mutable state; checked syntactically: reading a reassigned module global is rejected as unsupported)",
]

_later = "contracts for it are still being written"
NOT_APPLICABLE = {p: _later for p in ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21") if p not in PROPS}
NOT_APPLICABLE["C22"] = "needs a formal semantics of CommonMark rendering (an external renderer), which no contract over this code can express"
