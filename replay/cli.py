"""Search for a command line and a file tree on which C16, C17 or C19 fails on the real code.

usage: cli.py REPO PROPERTY SEED SECONDS OUT.json
Every scenario runs in a scratch directory of its own, as an unprivileged user when the process can
become one (so that permissions are real), and is judged on what happened to the files.
"""
import contextlib
import io
import json
import logging
import os
import pathlib
import random
import shutil
import stat
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
UNPRIV = 65534


def setup(repo):
    sys.dont_write_bytecode = True
    sys.path[:0] = [repo, HERE]
    logging.getLogger("markflow").setLevel(logging.CRITICAL)
    logging.raiseExceptions = False
    import markflow.__main__ as M
    assert os.path.realpath(M.__file__).startswith(os.path.realpath(repo)), M.__file__
    import rich.markdown, rich.console, rich.emoji, rich._emoji_codes, rich.cells  # noqa: loaded before privileges are dropped
    return M


def drop():
    """become an unprivileged user; -> whether permissions are real now"""
    if os.getuid() != 0:
        return True
    try:
        os.setgroups([])
        os.setresgid(UNPRIV, UNPRIV, UNPRIV)
        os.setresuid(UNPRIV, UNPRIV, UNPRIV)
        return True
    except OSError:
        return False


# ---- scenarios ------------------------------------------------------------------------------------
def build(sc, root):
    for d in sc.get("dirs", []):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for n, f in sc["files"].items():
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(f["content"].encode("utf-8"))
    for n, f in sc["files"].items():
        os.chmod(os.path.join(root, n), f.get("mode", 0o644))
        os.utime(os.path.join(root, n), ns=(10 ** 18, 10 ** 18))
    for d, m in sc.get("dirmodes", {}).items():
        if os.path.isdir(os.path.join(root, d)):
            os.chmod(os.path.join(root, d), m)
    for dp, ds, fs in os.walk(root):
        os.utime(dp, ns=(10 ** 18, 10 ** 18))


def snapshot(root):
    out = {}
    for dp, ds, fs in os.walk(root):
        st = os.stat(dp)
        out[os.path.relpath(dp, root) + "/"] = (st.st_mtime_ns, st.st_mode)
        for f in fs:
            p = os.path.join(dp, f)
            st = os.stat(p)
            try:
                c = open(p, "rb").read()
            except OSError:
                c = None
            out[os.path.relpath(p, root)] = (st.st_mtime_ns, st.st_mode, st.st_ino, c)
    return out


def clean(root):
    for dp, ds, fs in os.walk(root):
        os.chmod(dp, 0o755)
    shutil.rmtree(root, ignore_errors=True)


def run_main(M, sc, root, what="main"):
    """-> ("exit", status) | ("raise", exception) | ("args", namespace)"""
    argv = [a.replace("{D}", root) for a in sc["argv"]]
    out = io.StringIO()
    old_stdin, old_argv, old_cwd = sys.stdin, sys.argv, os.getcwd()
    root_logger = logging.getLogger()
    handlers, level = list(root_logger.handlers), root_logger.level
    os.chdir(root)
    sys.stdin = io.StringIO(sc["stdin"], newline="") if sc.get("stdin") is not None else Tty()
    sys.argv = ["markflow"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            if what == "parse":
                return "args", M.parse_args(argv)
            M.__main__()
            return "exit", 0
    except SystemExit as e:
        c = e.code
        return "exit", 0 if c is None else c % 256 if isinstance(c, int) else 1
    except Exception as e:
        return "raise", e
    finally:
        sys.stdin, sys.argv = old_stdin, old_argv
        os.chdir(old_cwd)
        root_logger.handlers[:] = handlers
        root_logger.setLevel(level)


class Tty(io.StringIO):
    def isatty(self):
        return True


def option(sc, name):
    return name in sc["argv"]


def width_of(sc):
    n = 88
    for a, b in zip(sc["argv"], sc["argv"][1:]):
        if a == "--line-length":
            n = int(b)
    return float("inf") if n < 1 else n


def reference(text, width):
    """the reformatted text, or None if it cannot be reformatted"""
    from markflow.reformat_markdown import reformat_markdown_text
    lg = logging.getLogger("markflow")
    try:
        return reformat_markdown_text(text, width)
    except Exception:
        return None


def inputs_of(sc, root):
    """the input files in the order the statement gives them, as relative names"""
    out = []
    for p in sc["inputs"]:
        out.append(p)
    return out


def c16(M, sc, root):
    build(sc, root)
    before = snapshot(root)
    kind, v = run_main(M, sc, root)
    after = snapshot(root)
    for p in sorted(set(before) | set(after)):
        if before.get(p) != after.get(p):
            return f"--check touched {p}"
    w = width_of(sc)
    texts = [sc["stdin"]] if not sc["inputs"] else [sc["files"][p]["content"] for p in sc["inputs"]]
    if texts == [None]:
        return None
    refs = [reference(t, w) for t in texts]
    if None in refs:
        return None if (kind, v) != ("exit", 0) else "status 0 although an input cannot be reformatted"
    if kind == "raise":
        return f"--check raised {type(v).__name__}: {v}"
    want = 1 if any(r != t for r, t in zip(refs, texts)) else 0
    if v != want:
        return f"--check exits with {v}, expected {want}"
    return None


def c17(M, sc, root):
    build(sc, root)
    before = snapshot(root)
    kind, v = run_main(M, sc, root)
    after = snapshot(root)
    w = width_of(sc)
    if sc.get("stdin") is not None and not sc["inputs"]:
        changed = [p for p in sorted(set(before) | set(after)) if before.get(p) != after.get(p)]
        return f"reading standard input touched {changed[0]}" if changed else None
    ok = True
    touched = {}
    for p, o in zip(sc["inputs"], sc["outputs"]):
        t = sc["files"][p]["content"]
        r = reference(t, w)
        if r is None:
            ok = False
            break
        if p == o and r == t:
            continue
        touched[o] = r
    if ok and (kind, v) != ("exit", 0):
        return f"every input can be reformatted but the run ends with {kind} {v!r}"
    if not ok and (kind, v) == ("exit", 0):
        return "an input cannot be reformatted but the run succeeds"
    newfiles = {os.path.dirname(o) or "." for o in touched if o not in before}
    for p in sorted(set(before) | set(after)):
        if p in touched:
            got = after.get(p)
            if got is None:
                return f"output {p} was not written"
            if got[3] != touched[p].encode("utf-8"):
                return f"output {p} holds {got[3]!r}, expected {touched[p].encode()!r}"
        elif p.endswith("/"):
            if p[:-1] not in newfiles and before.get(p) != after.get(p):
                return f"the directory {p} was changed"
        elif before.get(p) != after.get(p):
            return f"{p} was written although it is no output that needs it"
    return None


def c19(M, sc, root):
    build(sc, root)
    before = snapshot(root)
    kind, a = run_main(M, sc, root, "parse")
    if snapshot(root) != before:
        return "parsing the arguments touched a file"
    acc = os.access
    argv = [x.replace("{D}", root) for x in sc["argv"]]
    if kind == "raise":
        return f"parsing raised {type(a).__name__}: {a}"
    if kind == "args":
        for p in sc["given"]:
            q = os.path.join(root, p)
            if not (os.path.exists(q) and acc(q, os.R_OK)):
                return f"{p} was accepted as an input"
        if a.output_directory is not None:
            q = os.path.join(root, str(a.output_directory))
            if not (os.path.isdir(q) and acc(q, os.W_OK)):
                return f"{q} was accepted as an output directory"
        elif "--output-dir" in argv:
            return "the output directory was dropped"
        given_out = [argv[i + 1] for i in range(len(argv) - 1) if argv[i] == "--output-file"]
        if [str(x) for x in (a.output_files or [])] != [str(pathlib.Path(x)) for x in given_out]:
            return "the output files are not the ones given"
        for q in given_out:
            q = str(pathlib.Path(root) / q)
            d = os.path.dirname(q)
            if os.path.isdir(q) or not (acc(q, os.W_OK) if os.path.exists(q) else os.path.isdir(d) and acc(d, os.W_OK)):
                return f"{q} was accepted as an output file"
        if given_out and len(given_out) != len(a.paths):
            return f"{len(given_out)} output files accepted for {len(a.paths)} inputs"
        if not given_out and a.output_directory is None and not a.check:
            for p in a.paths:
                if not acc(os.path.join(root, str(p)), os.W_OK):
                    return f"{p} is to be overwritten but is not writable"
    else:
        # refused: nothing may be written by the whole program either
        run_main(M, sc, root)
        if snapshot(root) != before:
            return "the arguments were refused but a file was written"
    return None


CHECKS = {"C16": c16, "C17": c17, "C19": c19}


# ---- generation -----------------------------------------------------------------------------------
TEXTS = ["", "\n", "a\n", "a", "a  b\n", "#  x\n", "# x\n", "* a\n* b\n", "+ a\n* b\n", "| a |\n", "| a |\n|---|\n| b | c |\n",
         "text\r\nmore\r\n", "a\n\n\n", "> q\n", "```\nx\n", "word " * 40 + "\n", "é\n", "1. a\n3. b\n", "***\n", "a\n\nb\n", "\n\n", " \n",
         "x" * 100 + " y\n", "| a | b |\n|---|---|\n| 1 | 2 |\n", "a\fb\n", "title\n===\n", "a\u2028b\n"]


def gen(rng, pid, real_perms):
    import gen as G
    names = rng.sample(["a.md", "b.md", "c.txt", "d/e.md", "d/f.md", "g", "h.md.md"], rng.randint(1, 4))
    files = {}
    for n in names:
        t = rng.choice(TEXTS) if rng.random() < 0.6 else G.Gen(rng.random()).text()
        if rng.random() < 0.35:
            r = reference(t, 88)
            t = t if r is None else r
        try:
            t.encode("utf-8")
        except UnicodeError:
            t = "a\n"
        files[n] = {"content": t}
    sc = {"files": files, "dirs": ["out", "empty"], "argv": [], "stdin": None, "dirmodes": {}}
    given = rng.sample(names, rng.randint(0, len(names)))
    if pid == "C17" and not given and rng.random() < 0.9:
        given = names[:1]
    argv = []
    if rng.random() < 0.5:
        argv += ["--line-length", str(rng.choice([-5, -1, 0, 1, 2, 10, 40, 88, 120, 1000]))]
    if rng.random() < 0.15:
        argv += rng.choice([["-v"], ["-q"], ["-vv"], ["-v", "-q"]])
    expanded = list(given)
    mode = rng.choice(["in", "in", "dir", "file"])
    sc["outputs"] = list(given)
    out = []
    if mode == "dir":
        d = rng.choice(["out", "out", "out", "empty"])
        out = ["--output-dir", d]
        base = [os.path.basename(n) for n in given]
        if len(set(base)) < len(base):
            out, mode = [], "in"
        else:
            sc["outputs"] = [d + "/" + b for b in base]
    elif mode == "file":
        outs = []
        for i, n in enumerate(given):
            outs.append(rng.choice([f"out/o{i}.md", f"o{i}", f"out/p{i}"] + ([n] if pid != "C19" else [])))
        if pid == "C19":
            for i in range(rng.choice([0, 0, 0, 1, 2])):
                outs.append(rng.choice(["out/x.md", "nodir/x.md", "out", "g"]))
            if outs and rng.random() < 0.3:
                outs[rng.randrange(len(outs))] = rng.choice(["nodir/x.md", "out", "empty", "ro/x.md", "ro.md", "a.md"])
            if outs and rng.random() < 0.2:
                outs.pop()
        else:
            sc["outputs"] = outs
        for o in outs:
            out += ["--output-file", o]
            if rng.random() < 0.3 and o not in files and o.startswith("out/"):
                files[o] = {"content": rng.choice(["", "old\n", rng.choice(TEXTS)])}
    if mode == "dir" and rng.random() < 0.4 and sc["outputs"]:
        o = rng.choice(sc["outputs"])
        files.setdefault(o, {"content": rng.choice(["", "old\n"])})
    if pid == "C16" or pid == "C19" and rng.random() < 0.3:
        argv.append("--check")
    if pid == "C17" and rng.random() < 0.1:
        pass
    sc["given"] = list(given)
    if pid == "C19":
        files["ro.md"] = {"content": "a\n", "mode": 0o444}
        files["wo.md"] = {"content": "a\n", "mode": 0o222}
        files["ro/in.md"] = {"content": "a\n"}
        sc["dirmodes"]["ro"] = 0o555
        if rng.random() < 0.4:
            given.insert(rng.randint(0, len(given)), rng.choice(["ro.md", "wo.md", "missing.md", "ro", "ro/in.md", "d", "empty"]))
        if mode == "dir" and rng.random() < 0.5:
            out = ["--output-dir", rng.choice(["ro", "missing", "a.md", "ro.md", "ro/x"])]
        sc["given"] = list(given)
        if mode == "file" and rng.random() < 0.5:
            # as many outputs as inputs
            n = sum(1 for x in out if x == "--output-file")
            while n < len(given):
                out += ["--output-file", f"out/z{n}"]
                n += 1
    elif "d" in {n.split("/")[0] for n in names if "/" in n} and mode == "in" and rng.random() < 0.3:
        # a directory stands for the markdown files in it
        inside = [n for n in names if n.startswith("d/")]
        given = [n for n in given if not n.startswith("d/")] + ["d"]
        sc["outputs"] = expanded = given[:-1] + sorted(inside)
        if len(inside) > 1:       # the order is the file system's: keep to cases where it does not matter
            given = [n for n in given if n != "d"] + [inside[0]]
            sc["outputs"] = expanded = list(given)
    if rng.random() < 0.5:
        argv = argv + out + given
    else:
        argv = given + argv + out
    sc["argv"] = argv
    sc["inputs"] = expanded
    if not given:
        sc["stdin"] = rng.choice(TEXTS) if rng.random() < 0.9 else None
    # outputs that are other inputs, or that coincide, are outside the statement
    if pid == "C17":
        for i, o in enumerate(sc["outputs"]):
            if any(j != i and (o == sc["inputs"][j] or o == sc["outputs"][j]) for j in range(len(sc["inputs"]))):
                return gen(rng, pid, real_perms)
    return sc


def judge(M, pid, sc, top):
    root = tempfile.mkdtemp(dir=top)
    try:
        return CHECKS[pid](M, sc, root)
    finally:
        clean(root)


def shrink(M, pid, sc, top, until):
    best = json.loads(json.dumps(sc))
    changed = True
    while changed and time.time() < until:
        changed = False
        cands = []
        for n in list(best["files"]):
            if n not in best["inputs"] and n not in best["outputs"] and n not in best["given"]:
                c = json.loads(json.dumps(best))
                del c["files"][n]
                cands.append(c)
        for n in best["files"]:
            for t in ("a\n", "a", ""):
                if len(t) < len(best["files"][n]["content"]):
                    c = json.loads(json.dumps(best))
                    c["files"][n]["content"] = t
                    cands.append(c)
        for c in cands:
            if judge(M, pid, c, top):
                best, changed = c, True
                break
    return best


def replay(pid, sc):
    import markflow.__main__ as M
    top = tempfile.mkdtemp(prefix="cli-")
    os.chmod(top, 0o777)
    pid_ = os.fork()
    if pid_ == 0:
        try:
            drop()
            m = judge(M, pid, sc, top)
            open(os.path.join(top, "verdict"), "w").write(m or "")
        finally:
            os._exit(0)
    os.waitpid(pid_, 0)
    try:
        return open(os.path.join(top, "verdict")).read() or None
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    repo, pid, seed, secs, out = sys.argv[1:6]
    M = setup(repo)
    outf = open(out, "w")
    top = tempfile.mkdtemp(prefix="cli-")
    os.chmod(top, 0o777)
    child = os.fork()
    if child:
        os.waitpid(child, 0)
        shutil.rmtree(top, ignore_errors=True)
        return
    try:
        real = drop()
        rng = random.Random(int(seed))
        end = time.time() + float(secs)
        n = nt = 0
        found = None
        sample = None
        fixed = []
        if os.environ.get("VERIF_SEED_INPUTS"):
            fixed = json.load(open(os.environ["VERIF_SEED_INPUTS"]))
        seen = set()
        while time.time() < end:
            sc = fixed.pop() if fixed else gen(rng, pid, real)
            n += 1
            key = json.dumps(sc, sort_keys=True)
            if key not in seen:
                seen.add(key)
                nt += bool(sc["argv"])
            m = judge(M, pid, sc, top)
            if n == 3:
                sample = sc
            if m:
                sc = shrink(M, pid, sc, top, time.time() + 5)
                found = dict(sc, message=judge(M, pid, sc, top) or m)
                break
        json.dump({"found": found, "evaluations": n, "distinct_nontrivial": nt, "sample": sample, "real_permissions": real}, outf)
        outf.flush()
    except BaseException:
        import traceback
        traceback.print_exc()
        outf.truncate(0)
    finally:
        os._exit(0)


if __name__ == "__main__":
    main()
