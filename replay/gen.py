"""Input generation for the counterexample search (and the bounded cross-check of the
contracts).  Everything is derived from a seed; nothing here decides a property."""
import random

TOKENS = [
    "a", "b", "Zed", "word", "supercalifragilistic", "é", "ß", "ǅ", "١", " ", " ", " ", "  ",
    "\t", "\x0c", "\xa0", "\u3000", "`", "``", "```", "~~~", "~", "*", "-", "_", "+", ">", "> ",
    ">>", "#", "##", "# ", "|", "\\|", "\\", "[", "]", "(", ")", "](", "][", "]:", ":", "[x]",
    "[x](y)", "[x](y z)", "[x][y]", "[a]: /u", "<br>", "<br />", "<br/>", "<br", ".", "..", "...",
    ",", "!", "'", '"', "1.", "1. ", "99. ", "9.", "10. ", "* ", "- ", "+ ", "***", "---", "___",
    "===", "=", "--", "----", ":-", "-:", ":-:", "    ", "   ", "\\`", "`x`", "`x  y`", "``x`y``",
]
SEPS = ["\n"] * 30 + ["\n\n"] * 8 + ["\r\n", "\r", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x85",
                                  "\u2028", "\u2029", "  \n", " \n"]
WORDS = ["alpha", "beta", "gamma", "delta", "I", "a", "of", "the", "incomprehensibility", "x",
         "naïve", "1984", "foo.", "bar,", "(baz)", "`code`", "`co de`", "``a ` b``", "`", "``",
         "[link](url)", "[a link](http://x.y/z)", "[t](u \"t t\")", "[foot][note]", "[a b][c d]",
         "![img](i.png)", "<br>", "<br />", "x<br>y", "*em*", "**strong**", "end.", ".", "...",
         "-", "+", "*", "1.", "#", ">", "|", "[x]", "[x]:", "a.b", "`code`.", "[l](u).", "[f][n].",
         "`a``b`", "e\\`f", "=", "==", "---", "\\", "\t", "q`r`s", "z[l](u)z", "--", "(", ")"]
WIDTHS = [None, 88, 88, 80, 40, 20, 12, 10, 8, 7, 6, 5, 4, 3, 2, 1, 0, -1, 15, 30, 60, 100]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def width(self):
        return self.r.choice(WIDTHS) if self.r.random() < 0.8 else self.r.randint(1, 30)

    def tokens(self, n=None):
        r = self.r
        n = n or r.randint(1, 9)
        return "".join(r.choice(TOKENS) for _ in range(n))

    def words(self, n=None):
        r = self.r
        n = n or r.randint(1, 12)
        out = []
        for _ in range(n):
            w = r.choice(WORDS)
            if r.random() < 0.12:
                w = w + r.choice(WORDS)
            out.append(w)
        sep = lambda: " " if r.random() < 0.85 else r.choice(["  ", "   ", " \t", "", "\t", "\xa0"])
        s = out[0]
        for w in out[1:]:
            s += sep() + w
        return s

    def trail(self, s):
        r = self.r
        x = r.random()
        if x < 0.8:
            return s
        return s + r.choice([" ", "  ", "   ", "\t", " \t"])

    def indent(self):
        r = self.r
        return "" if r.random() < 0.75 else r.choice([" ", "  ", "   ", "    ", "     ", "\t", "  \t"])

    def para(self):
        r = self.r
        return [self.indent() + self.trail(self.words()) for _ in range(r.randint(1, 4))]

    def block(self, depth=0):
        r = self.r
        k = r.randint(0, 15)
        if k <= 2:
            return self.para()
        if k == 3:
            t = r.choice(["", " ", "  "]) + (self.words(3) if r.random() < 0.8 else "")
            t += r.choice(["", "", " #", "##"])
            return [r.choice(["", "", " ", "   ", "    "]) + "#" * r.randint(1, 8) + self.trail(t)]
        if k == 4:
            return [self.trail("")] * r.randint(1, 3)
        if k == 5:  # quote
            inner = self.doc_lines(depth + 1, r.randint(1, 3)) if depth < 2 else self.para()
            m = r.choice([">", "> ", " > ", ">  ", "   >", "> > ", ">> ", "\t>"])
            out = []
            for i, l in enumerate(inner):
                if i and r.random() < 0.15:
                    out.append(l)
                elif r.random() < 0.1:
                    out.append(r.choice([">", "> ", " > ", ">>"]) + l)
                else:
                    out.append(m + l)
            return out
        if k in (6, 7):  # bullets
            out = []
            for _ in range(r.randint(1, 4)):
                ind = self.indent()
                mk = r.choice("*-+")
                inner = self.doc_lines(depth + 1, 1) if depth < 2 and r.random() < .5 else self.para()
                inner = [l for l in inner if l.strip()] or ["x"]
                out.append(ind + mk + r.choice([" ", " ", "  ", "    ", ""]) + inner[0])
                p = r.choice(["  ", "  ", "    ", "", " ", "\t"])
                out += [p + l for l in inner[1:]]
            return out
        if k in (8, 9):
            out = []
            n = r.choice([0, 1, 1, 1, 2, 7, 9, 98, 99, 123456789, 999999999])
            for i in range(r.choice([1, 1, 2, 3, 4, 11])):
                ind = self.indent()
                inner = self.doc_lines(depth + 1, 1) if depth < 2 and r.random() < .4 else [self.trail(self.words(4))]
                inner = [l for l in inner if l.strip()] or ["x"]
                num = r.choice([str(n + i), "1", "0", str(n), str(r.randint(0, 2000))])
                out.append(ind + num + ". " + inner[0])
                p = r.choice(["   ", "   ", "    ", "", " "])
                out += [p + l for l in inner[1:]]
            return out
        if k == 10:  # fence
            f = r.choice("`~") * r.choice([3, 3, 3, 4, 5])
            out = [self.indent() + f + r.choice(["", "", "python", " py ", " a b", f[0] + "x", "`", "~"])]
            for _ in range(r.randint(0, 4)):
                out.append(r.choice(["", "    code", "  x  ", "```", "~~~", "````", "# no", "1. no", "> q",
                                     "\tTab ", "a | b", "``` x", "~~~~", self.tokens(4)]))
            if r.random() < 0.85:
                out.append(self.indent() + f + r.choice(["", "", "", " ", f[0]]))
            return out
        if k == 11:  # indented
            out = []
            for _ in range(r.randint(1, 4)):
                out.append(r.choice(["    ", "     ", "        ", "\t   ", "    \t"]) + self.trail(self.tokens(3)))
                if r.random() < 0.3:
                    out.append(r.choice(["", "  ", "      "]))
            return out
        if k == 12:  # lrd
            lab = "[" + r.choice(["a", "some label", "x y z", "^1", "u", "foo", "A" * 30]) + "]:"
            url = r.choice(["/u", "http://example.com/a", "<b c>", "u", "foo", "", "/long/" * 6, "a]:b"])
            q = r.choice("'\"'\"(")
            e = {"(": ")"}.get(q, q)
            ti = r.choice(["", "", q + self.words(3) + e, q + "t" + e, q + "two\nlines" + e, q + "open", q + "a\n b\nc" + e,
                           "junk", q + "x" + e + " junk", q + "a" * 40 + e, q + "foo /u" + e])
            s1 = r.choice([" ", " ", "\n", "  ", "", "\n ", "\t"])
            s2 = r.choice([" ", " ", "\n", "  ", "\n  "])
            return (self.indent() + lab + s1 + url + (s2 + ti if ti else "")).split("\n")
        if k == 13:  # setext
            n = r.randint(1, 3)
            return self.para()[:n] + [r.choice(["", " ", "   ", "    "]) + r.choice("=-") * r.randint(1, 9) + r.choice(["", "", " "])]
        if k == 14:  # table
            n = r.randint(1, 4)
            cell = lambda: self.trail(r.choice(["", " ", "  "]) + r.choice(["", "a", "bb cc", "ccc", "\\|", "a\\|b", "`x`", ":", "-", "long cell text", "é"]))
            end = lambda: r.choice(["|", "|", "|", "", "| "])
            row = lambda m: "|" + "|".join(cell() for _ in range(m)) + end()
            div = lambda m: "|" + "|".join(r.choice(["", " "]) + r.choice(["-", "--", ":--", "--:", ":-:", ":-", "-:", "-----", ":----:"]) + r.choice(["", " "]) for _ in range(m)) + end()
            out = [self.indent()[:3] + row(n)]
            if r.random() < 0.95:
                out.append(div(n if r.random() < 0.93 else n + 1))
            for _ in range(r.randint(0, 3)):
                out.append(row(n if r.random() < 0.93 else r.randint(1, 4)))
            return out
        if r.random() < 0.6:
            c = r.choice("*-_")
            s = c + "".join(r.choice(["", "", " ", "  ", "\t"]) + c for _ in range(r.randint(1, 8)))
            return [r.choice(["", "", " ", "   ", "    "]) + self.trail(s)]
        return [self.tokens() for _ in range(r.randint(1, 3))]

    def doc_lines(self, depth=0, n=None):
        r = self.r
        out = []
        for _ in range(n or r.randint(1, 4)):
            out += self.block(depth)
            if r.random() < 0.5:
                out.append("" if r.random() < .9 else "  ")
        return out

    def text(self):
        r = self.r
        x = r.random()
        if x < 0.03:
            return r.choice(["", "\n", " ", "\n\n", "a", ".", "`", "\r\n", "\r", "\t\n"])
        if x < 0.30:
            s = ""
            for _ in range(r.randint(1, 5)):
                s += self.tokens(r.randint(0, 6)) + (r.choice(SEPS) if r.random() < .9 else "")
            return s
        if x < 0.40 and self.corpus:
            return self.mutate(r.choice(self.corpus))
        lines = self.doc_lines()
        nl = "\n" if r.random() < 0.9 else r.choice(["\r\n", "\r", "\n\r", "\x0b", "\u2028"])
        s = nl.join(lines)
        if r.random() < 0.8:
            s += nl * r.choice([1, 1, 1, 2, 3])
        if r.random() < 0.15:
            s = self.mutate(s)
        return s

    corpus = ()

    def mutate(self, s):
        r = self.r
        lines = s.split("\n")
        if len(lines) > 14:
            i = r.randrange(len(lines) - 10)
            lines = lines[i:i + r.randint(2, 12)]
        for _ in range(r.randint(1, 3)):
            i = r.randrange(len(lines))
            k = r.randint(0, 6)
            if k == 0:
                del lines[i]
                if not lines:
                    lines = ["a"]
            elif k == 1:
                lines.insert(i, lines[r.randrange(len(lines))])
            elif k == 2:
                l = lines[i]
                p = r.randint(0, len(l))
                lines[i] = l[:p] + r.choice(TOKENS) + l[p:]
            elif k == 3:
                l = lines[i]
                p = r.randint(0, len(l))
                lines[i] = l[:p] + l[p + r.randint(1, 3):]
            elif k == 4:
                lines[i] = lines[i] + r.choice([" ", "  ", "\t", "."])
            elif k == 5:
                lines[i] = r.choice([" ", "    ", "> ", "* ", "1. ", "# ", "| "]) + lines[i]
            else:
                lines.insert(i, self.tokens(3))
        return "\n".join(lines)
