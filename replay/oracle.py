"""Executable readings of the properties (the same statements the contracts prove), judged
at the level of observable behaviour of the real code.  Each `check_Cxx(text, width)` returns
None when the property holds on that input and a message when it does not.

The definitions here are written from the property statements; they call the code under test
only through the behaviour being judged (parse_markdown, the formatters, reformat_markdown_text).
"""
import math
import re
import logging

import markflow.parser as mp
import markflow.reformat_markdown as mr
from markflow.exceptions import MarkdownFormatException, ReformatInconsistentException

E = mp.MarkdownSectionEnum
DOCUMENTED = (MarkdownFormatException, ReformatInconsistentException)


class Skip(Exception):
    """The real code raised: another property's business."""


def real(f, *a, **k):
    try:
        return f(*a, **k)
    except (RecursionError, MemoryError):
        raise Skip()
    except Exception:
        raise Skip()


def W(width):
    return math.inf if width is None else width


def reformat(text, width):
    return real(mr.reformat_markdown_text, text, W(width))


def sections_of(text):
    return real(mp.parse_markdown, text.splitlines())


# ---- spec functions -------------------------------------------------------------------
def indent(l):
    return len(l) - len(l.lstrip())


def blank(l):
    return l.strip() == ""


def icode(l):
    return not blank(l) and indent(l) >= 4


def thematic(l):
    s = "".join(c for c in l if not c.isspace())
    return not icode(l) and len(s) >= 3 and s[0] in "*_-" and set(s) == {s[0]}


def tableline(l):
    return l.lstrip()[:1] == "|"


def quoteline(l):
    return not icode(l) and l.lstrip()[:1] == ">"


def fence_of(l):
    """The fence (run of ` or ~, at least three) a line starts with, or ''."""
    s = l.strip()
    if s[:3] in ("```", "~~~"):
        n = 0
        while n < len(s) and s[n] == s[0]:
            n += 1
        return s[:n]
    return ""


def bulletline(l):
    s = l.lstrip()
    return not icode(l) and s[:1] in ("*", "+", "-") and s[:1] != "" and s[1:2] == " " and not thematic(l)


def orderedline(l):
    return not icode(l) and re.match(r"[0-9]{1,9}\. ", l.lstrip()) is not None


def letters(s):
    return [c for c in s if c.isalpha()]


def nonspace(s):
    return "".join(s.split())


# ---- parser ---------------------------------------------------------------------------
def check_C01(text, width):
    lines = text.splitlines()
    secs = sections_of(text)
    for t, c in secs:
        if not c:
            return f"empty section {t}"
    flat = [l for _, c in secs for l in c]
    if flat != lines:
        return f"sections {secs!r} do not concatenate to the input lines"


def check_C02(text, width):
    lines = text.splitlines()
    pos = 0
    for t, c in sections_of(text):
        nxt = pos + len(c)
        after = lines[nxt:]
        bad = None
        if not c:
            return None
        if thematic(c[0]) != (t == E.THEMATIC_BREAK):
            bad = "thematic break line and section type disagree"
        elif t in (E.BLANK_LINE, E.ATX_HEADING, E.THEMATIC_BREAK) and len(c) != 1:
            bad = "not a single line"
        elif t == E.BLANK_LINE and not blank(c[0]):
            bad = "not blank"
        elif t == E.ATX_HEADING and (icode(c[0]) or c[0].lstrip()[:1] != "#"):
            bad = "not an ATX heading line"
        elif t == E.FENCED_CODE_BLOCK:
            f = fence_of(c[0])
            if not f:
                bad = "does not start with a fence"
            else:
                exp = len(lines) - pos
                for i in range(1, len(lines) - pos):
                    if lines[pos + i].strip() == f:
                        exp = i + 1
                        break
                if exp != len(c):
                    bad = f"should have {exp} lines"
        elif t == E.INDENTED_CODE_BLOCK:
            if not icode(c[0]) or not icode(c[-1]) or not all(blank(l) or icode(l) for l in c):
                bad = "lines are not indented code"
            else:
                for l in after:
                    if icode(l):
                        bad = "stops before an indented line"
                        break
                    if not blank(l):
                        break
        elif t in (E.BULLET_LIST, E.ORDERED_LIST):
            ok = bulletline(c[0]) if t == E.BULLET_LIST else orderedline(c[0])
            end = lambda l: blank(l) or tableline(l) or thematic(l)
            if not ok:
                bad = "does not start with a marker"
            elif any(end(l) for l in c[1:]):
                bad = "runs over a blank, table or thematic break line"
            elif after and not end(after[0]):
                bad = "stops too early"
        elif t == E.TABLE:
            if not all(tableline(l) for l in c) or (after and tableline(after[0])):
                bad = "not the maximal run of lines led by a pipe"
        elif t == E.SETEXT_HEADING:
            if len(c) < 2 or blank(c[-1]) or set(c[-1].strip()) not in ({"="}, {"-"}):
                bad = "no underline"
        elif t == E.BLOCK_QUOTE and not quoteline(c[0]):
            bad = "does not start with a quote marker"
        if bad:
            return f"{t.value} {c!r}: {bad} (then {after[:2]!r})"
        pos = nxt


# ---- whole reformat ---------------------------------------------------------------------
def check_C03(text, width):
    try:
        r = mr.reformat_markdown_text(text, W(width))
    except DOCUMENTED:
        return None
    except (RecursionError, MemoryError):
        return None
    except Exception as e:
        return f"raises {type(e).__name__}: {e}"
    if not isinstance(r, str):
        return f"returns {r!r}"


def check_C04(text, width):
    a, b = letters(text), letters(reformat(text, width))
    if a != b:
        return f"letters {''.join(a)!r} became {''.join(b)!r}"


def paragraphs(text):
    for t, c in sections_of(text):
        if t == E.PARAGRAPH:
            yield c


def fmt(t, lines, width):
    return real(lambda: mr.FORMATTERS[t](0, list(lines)).reformatted(W(width)))


def check_C05(text, width):
    for c in paragraphs(text):
        o = fmt(E.PARAGRAPH, c, width)
        if nonspace("\n".join(c)) != nonspace(o):
            return f"paragraph {c!r} reflowed to {o!r}"
        ls = o.split("\n")
        for i, l in enumerate(ls):
            if l != l.lstrip() or not l:
                return f"line {l!r} of reflowed paragraph {o!r} begins with whitespace or is empty"
            if i == len(ls) - 1 and c[-1].endswith("  ") and l.endswith("  "):
                l = l[:-2]
            if l != l.rstrip():
                return f"line {l!r} of reflowed paragraph {o!r} ends with whitespace"


LINKS = [re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*"), re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")]


def protected(joined):
    """Indices of the characters of `joined` inside inline code, link/footnote targets or
    HTML line breaks (an over-approximation: any link match in any code-free stretch)."""
    p = set()
    # the code treats runs directly after "<\" specially; being lenient here is sound
    runs = [m for m in re.finditer(r"((?!<\\)`)+", joined)]
    i = 0
    plain = []
    last = 0
    while i < len(runs):
        n = len(runs[i].group())
        j = i + 1
        while j < len(runs) and len(runs[j].group()) != n:
            j += 1
        if j < len(runs):
            p.update(range(runs[i].start(), runs[j].end()))
            plain.append((last, runs[i].start()))
            last = runs[j].end()
            i = j + 1
        else:
            i += 1
    plain.append((last, len(joined)))
    for a, b in plain:
        for rx in LINKS:
            # any start: overlapping matches may be chosen by either expression
            for s in range(a, b):
                m = rx.match(joined, s, b)
                if m:
                    k = max(joined.find("](", s, m.end()), -1)
                    k = k if k >= 0 else joined.find("][", s, m.end())
                    p.update(range(k + 1, m.end()))
    for m in re.finditer(r"<br ?/?>", joined):
        p.update(range(m.start(), m.end()))
    return p


def check_C06(text, width):
    if width is not None and width < 1:
        return None
    for c in paragraphs(text):
        o = fmt(E.PARAGRAPH, c, width)
        joined = " ".join(l.strip() for l in c)
        if nonspace(joined) != nonspace(o):
            return None
        ls = o.split("\n")
        if width is not None and any(len(l) > width for l in ls) or len(ls) > 1 or width is None:
            prot = protected(joined)
            # positions in joined of every non-space character, in order
            pos = [i for i, ch in enumerate(joined) if not ch.isspace()]
            n = 0
            spans = []
            for i, l in enumerate(ls):
                if i == len(ls) - 1 and c[-1].endswith("  "):
                    l = l[:-2] if l.endswith("  ") else l
                start = n
                for k, ch in enumerate(l):
                    if not ch.isspace():
                        n += 1
                    elif ch == " " and 0 < n < len(pos):
                        a, b = pos[n - 1], pos[n]
                        gap = range(a + 1, b)
                        # a space inside something unbreakable, or between two such
                        if any(g in prot for g in gap):
                            continue
                        if b == a + 1:
                            continue
                        if width is not None and len(l) > width:
                            return f"line {l!r} is longer than {width} but could be broken at {k}"
                spans.append((start, n, l))
            for i in range(len(ls) - 1):
                l = spans[i][2]
                if re.search(r"<br ?/?>$", l):
                    continue
                nl = spans[i + 1][2]
                # first piece of the next line: at most up to its first unprotected space
                k = 0
                q = spans[i + 1][0]
                while k < len(nl):
                    if nl[k].isspace():
                        if nl[k] == " " and q < len(pos) and not any(
                                g in prot for g in range(pos[q - 1] + 1, pos[q])):
                            break
                    else:
                        q += 1
                    k += 1
                gap = 1
                if width is None or len(l) + gap + k <= width:
                    return f"line {l!r} is ended although {nl[:k]!r} would fit in {width}"


def check_C07(text, width):
    for t, c in sections_of(text):
        if t == E.INDENTED_CODE_BLOCK:
            o = fmt(t, c, width)
            if o.split("\n") != [l.rstrip() for l in c]:
                return f"{c!r} became {o!r}"
        elif t == E.FENCED_CODE_BLOCK:
            o = fmt(t, c, width).split("\n")
            s = c[0].strip()
            f = s[: len(s) - len(s.lstrip(s[0]))]
            info = s.lstrip(s[0]).strip()
            content = c[1:]
            if content and content[-1].strip() == f:
                content = content[:-1]
            if o != [f + info] + [l.rstrip() for l in content] + [f]:
                return f"{c!r} became {o!r}"


MARK = re.compile(r"\s*(?:\*|-|\+|[0-9]+\.)(?=$| )")


def items_of(c):
    m = MARK.match(c[0])
    if not m:
        return None
    cur = m.end()
    code = ""
    items = []
    for l in c:
        s = l.lstrip()
        if s[:3] in ("```", "~~~"):
            f = s[: len(s) - len(s.lstrip(s[0]))]
            if not code:
                code = f
            elif code == f:
                code = ""
        m = MARK.match(l)
        if m and not code and (indent(l) <= cur):
            cur = m.end()
            items.append([l])
        else:
            items[-1].append(l)
    return items


def dedent_item(item):
    n = MARK.match(item[0]).end() + 1
    out = [item[0][n:]]
    for l in item[1:]:
        k = 0
        while k < n and k < len(l) and l[k].isspace():
            k += 1
        out.append(l[k:])
    return out


def inner(lines, width):
    return real(mr._reformat_markdown_text, "\n".join(lines) + "\n", W(width) if width is None else width)


def check_C08(text, width):
    for t, c in sections_of(text):
        if t not in (E.BULLET_LIST, E.ORDERED_LIST):
            continue
        items = items_of(c)
        if items is None:
            continue
        o = fmt(t, c, width)
        exp = []
        if t == E.BULLET_LIST:
            ms = [c[0].lstrip()[0] + " "] * len(items)
            w = 2
        else:
            s = c[0].lstrip()
            n = int(s[: s.index(".")])
            ms = [f"{n + i}. " for i in range(len(items))]
            w = len(ms[-1])
        for m, it in zip(ms, items):
            body = inner(dedent_item(it), None if width is None else width - w).rstrip("\n").split("\n")
            exp.append(m + body[0])
            exp += [" " * w + b for b in body[1:]]
        if o.split("\n") != exp:
            return f"list {c!r} became {o!r}, expected {exp!r}"


def split_cells(line):
    cells, cur, seen = [], "", False
    first = True
    prev = ""
    parts = []
    for ch in line:
        if ch == "|" and prev != "\\":
            parts.append(cur)
            cur = ""
        else:
            cur += ch
        prev = ch
    parts.append(cur)
    parts = parts[1:]
    if parts and parts[-1].strip() == "":
        parts = parts[:-1]
    return [p.strip() for p in parts]


def check_C09(text, width):
    for t, c in sections_of(text):
        if t != E.TABLE:
            continue
        rows = [split_cells(l) for l in c]
        valid = len(c) >= 2 and all(re.fullmatch(r":?-+:?", d) for d in rows[1]) and len({len(r) for r in rows}) == 1
        try:
            o = mr.FORMATTERS[t](0, list(c)).reformatted(W(width))
        except MarkdownFormatException:
            if valid:
                return f"valid table {c!r} refused"
            continue
        except Exception:
            raise Skip()
        if not valid:
            return f"table {c!r} accepted as {o!r} although its rows disagree or it has no divider"
        ol = o.split("\n")
        if len(ol) != len(c):
            return f"{len(c)} rows became {len(ol)}"
        if len({len(l) for l in ol}) != 1:
            return f"rows of different length in {o!r}"
        n = len(rows[0])
        if n == 0:
            continue
        orows = [split_cells(l) for l in ol]
        for i, (a, b) in enumerate(zip(rows, orows)):
            if i != 1 and a != b and (a != [""] * n or set(b) - {""}):
                return f"cells {a!r} became {b!r}"
        # raw cells of the output, of equal width per column
        widths = [max([1] + [len(r[k]) for i, r in enumerate(rows) if i != 1]) for k in range(n)]
        al = [(d.startswith(":"), d.endswith(":")) for d in rows[1]]
        for i, r in enumerate(rows):
            exp = []
            for k in range(n):
                w, (l_, r_) = widths[k], al[k]
                if i == 1:
                    exp.append((":" if l_ else "-") + "-" * w + (":" if r_ else "-"))
                    continue
                pad = w - len(r[k])
                centre = l_ and r_ or (i == 0 and not l_ and not r_)
                if centre:
                    lo = pad // 2
                    exp.append(" " + " " * lo + r[k] + " " * (pad - lo) + " ")
                elif r_ and not l_:
                    exp.append(" " + " " * pad + r[k] + " ")
                else:
                    exp.append(" " + r[k] + " " * pad + " ")
            if ol[i] != "|" + "|".join(exp) + "|":
                return f"row {ol[i]!r} of {o!r} is not {'|' + '|'.join(exp) + '|'!r}"


def check_C10(text, width):
    for t, c in sections_of(text):
        if t == E.ATX_HEADING:
            o = fmt(t, c, width)
            s = c[0].strip()
            d = len(s) - len(s.lstrip("#"))
            body = s[d:].strip()
            if o != "#" * d + (" " + body if body else ""):
                return f"heading {c!r} became {o!r}"
        elif t == E.SETEXT_HEADING:
            o = fmt(t, c, width)
            ls = o.split("\n")
            body = fmt(E.PARAGRAPH, [l.strip() for l in c[:-1]], width)
            ch = c[-1].strip()[0]
            if "\n".join(ls[:-1]) != body:
                return f"heading text {c[:-1]!r} became {ls[:-1]!r}"
            if ls[-1] != ch * max(len(l) for l in ls[:-1]):
                return f"underline {ls[-1]!r} of {o!r}"


def check_C11(text, width):
    for t, c in sections_of(text):
        if t == E.THEMATIC_BREAK:
            o = fmt(t, c, width)
            n = 3 if width is None or width < 3 else width
            if o != c[0].strip()[0] * n:
                return f"thematic break {c!r} became {o!r} at {width}"


def check_C12(text, width):
    for t, c in sections_of(text):
        if t != E.BLOCK_QUOTE:
            continue
        o = fmt(t, c, width)
        full, depth = [], 0
        for l in c:
            if quoteline(l):
                s = nonspace(l)
                depth = len(s) - len(s.lstrip(">"))
                full.append(l.lstrip()[1:])
            else:
                full.append(">" * (depth - 1) + l)
        space = False
        for l in full:
            if not blank(l) and indent(l) < 2:
                space = indent(l) == 1
                break
        pre = "> " if space else ">"
        if space:
            full = [l[1:] if l[:1] == " " else l for l in full]
        body = inner(full, None if width is None else width - len(pre))
        exp = [(pre + l).rstrip() for l in body.splitlines()]
        if o.split("\n") != exp:
            return f"quote {c!r} became {o!r}, expected {exp!r}"


def check_C13(text, width):
    for t, c in sections_of(text):
        if t != E.LINK_REFERENCE_DEFINITION:
            continue
        o = fmt(t, c, width)
        if nonspace("\n".join(c)) != nonspace(o):
            return f"definition {c!r} became {o!r}"
        if "<br" in "".join(c) or "\t" in "".join(c):
            continue
        # target on the label's line or on the next as written
        m = re.match(r"\s*\[([^\]]{1,999})\]:(\s*)(\S*)", "\n".join(c))
        if not m or not m.group(3):
            continue
        o = "\n".join(" ".join(l.split()) for l in o.split("\n"))
        head = ("[%s]:" % " ".join(m.group(1).split("\n")).replace("\t", " ")) + ("\n" if "\n" in m.group(2) else " ") + m.group(3)
        head = "\n".join(" ".join(l.split()) for l in head.split("\n"))
        if not (o == head or o.startswith(head + " ") or o.startswith(head + "\n")):
            return f"label and target {head!r} not kept in {o!r}"


def check_C14(text, width):
    w = W(width)
    p1 = real(mr._reformat_markdown_text, text, w).rstrip() + "\n"
    p2 = real(mr._reformat_markdown_text, p1, w).rstrip() + "\n"
    try:
        r = mr.reformat_markdown_text(text, w)
    except ReformatInconsistentException:
        if p1 == p2:
            return "refused as inconsistent although a second pass changes nothing"
        return None
    except Exception:
        raise Skip()
    try:
        r2 = mr.reformat_markdown_text(r, w)
    except ReformatInconsistentException:
        return f"result {r!r} is refused when reformatted again"
    except Exception as e:
        return f"result {r!r} cannot be reformatted again: {type(e).__name__}"
    if r2 != r:
        return f"result {r!r} reformats to {r2!r}"
    if p1 != p2:
        return f"returned although the second pass changes {p1!r} to {p2!r}"


def check_C15(text, width):
    r = reformat(text, width)
    if not r.endswith("\n") or r[:-1] != r[:-1].rstrip():
        return f"result {r!r} does not end in exactly one newline"
    if len(r.splitlines()) != r.count("\n"):
        return f"result {r!r} contains a line separator other than the newline"


def logging_state():
    names = ["root", "markflow"] + [n for n in logging.root.manager.loggerDict]
    st = {"INFO": logging.INFO, "DEBUG": logging.DEBUG, "WARNING": logging.WARNING, "ERROR": logging.ERROR,
          "CRITICAL": logging.CRITICAL, "disable": logging.root.manager.disable}
    for n in sorted(set(names)):
        l = logging.getLogger(n if n != "root" else None)
        if isinstance(l, logging.Logger):
            st[n] = (l.level, l.disabled, l.propagate, len(l.handlers))
    return st


def check_C18(text, width, other=("> q\n\n* a\n", 5)):
    w = W(width)

    def run(t, w):
        try:
            return ("ok", mr.reformat_markdown_text(t, w))
        except RecursionError:
            raise Skip()
        except Exception as e:
            return ("raise", type(e).__name__)

    for lv in (logging.NOTSET, logging.DEBUG, logging.ERROR):
        mr.logger.setLevel(lv)
        logging.getLogger("markflow").setLevel(logging.CRITICAL + 10)
        try:
            before = logging_state()
            a = run(text, w)
            if logging_state() != before:
                now = logging_state()
                return f"logging state changed: {[(k, before.get(k), now[k]) for k in now if now[k] != before.get(k)]}"
            run(other[0], other[1])
            run("a\n\n> " + text[:40], 7)
            b = run(text, w)
            if a != b:
                return f"result changed between calls: {a!r} then {b!r}"
        finally:
            mr.logger.setLevel(logging.NOTSET)
    lines = text.splitlines()
    keep = list(lines)
    try:
        mp.parse_markdown(lines)
    except Exception:
        pass
    if lines != keep:
        return f"parse_markdown modified its input to {lines!r}"
    for t, c in sections_of(text):
        k = list(c)
        try:
            mr.FORMATTERS[t](0, c).reformatted(w)
        except Exception:
            pass
        if c != k:
            return f"formatting modified the section lines {k!r} to {c!r}"


def check_C21(text, width):
    w = W(width)
    secs = sections_of(text)
    try:
        o = mr._reformat_markdown_text(text, w)
    except Exception:
        raise Skip()
    exp = []
    last = None
    for i, (t, c) in enumerate(secs):
        if t == E.SETEXT_HEADING and last == E.BLOCK_QUOTE:
            exp.append("")
        exp.append("" if t == E.BLANK_LINE else fmt(t, c, width))
        last = t
    if o != "\n".join(exp) + "\n":
        return f"{o!r} is not its sections {exp!r} joined"


def check_C20(text, width):
    """Termination and progress: nested content is strictly smaller."""
    w = W(width)
    budget = [200000]

    class Out(BaseException):
        pass

    import sys
    names = {"parse_markdown", "_reformat_markdown_text"}
    stack = []
    msg = []

    def prof(frame, event, arg):
        if event not in ("call", "return"):
            return
        co = frame.f_code
        if event == "call":
            budget[0] -= 1
            if budget[0] < 0:
                raise Out()
            if co.co_name in names and "markflow" in co.co_filename:
                v = frame.f_locals.get("lines", frame.f_locals.get("text"))
                if isinstance(v, list):
                    size = sum(len(l) + 1 for l in v)
                else:
                    size = len(v)
                stack.append((co.co_name, size))
        elif event == "return" and co.co_name in names and "markflow" in co.co_filename and stack:
            stack.pop()

    del prof
    import signal

    def onalarm(*a):
        raise Out()

    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, 4.0)
    try:
        mr.reformat_markdown_text(text, w)
    except Out:
        return "did not terminate within 4 s"
    except RecursionError:
        if len(text) < 400:
            return "recursed without end"
    except Exception:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


CHECKS = {k[6:]: v for k, v in globals().items() if k.startswith("check_C")}
