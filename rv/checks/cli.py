"""The command line: its effects on the file system, builds with stand-in
assemblers, and language specifications"""
import base64
import contextlib
import hashlib
import io
import json
import os
import random
import re
import shutil
import signal
import stat
import subprocess
import sys
import tempfile
import time

from .. import common, lang
from ..common import Check, Inconclusive, Violation, digest, quiet
from .calls import call, forked, outcome, small
from .texts import mutate, vlq


@contextlib.contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix="rv-cli-"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def snapshot(root):
    """path -> what is there"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir",)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", stat.S_IMODE(st.st_mode), f.read())
    return out


def tealish_cmd(args, cwd, env=None, stdin=b"", seconds=120, real=False):
    """-> exit code, output, error output of the command, in a process of its own"""
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": cwd, **(env or {})}
    fd = [tempfile.TemporaryFile() for _ in range(3)]
    fd[0].write(stdin)
    fd[0].seek(0)
    if real:
        p = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.argv[0] = 'tealish'; from tealish.cli import cli; cli()"] + args, cwd=cwd, stdin=fd[0], stdout=fd[1], stderr=fd[2],
                           env={**env, "PYTHONPATH": common.REPO, "PYTHONHASHSEED": "0"}, timeout=seconds)
        code = p.returncode
    else:
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.chdir(cwd)
                for i in range(3):
                    os.dup2(fd[i].fileno(), i)
                os.environ.clear()
                os.environ.update(env)
                tempfile.tempdir = None
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                sys.stdin = io.TextIOWrapper(io.FileIO(0, closefd=False), encoding="utf-8")
                sys.stdout = io.TextIOWrapper(io.FileIO(1, "w", closefd=False), encoding="utf-8", write_through=True)
                sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), encoding="utf-8", write_through=True)
                from tealish.cli import cli

                try:
                    cli.main(args=args, prog_name="tealish")
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except BaseException:
                    import traceback

                    traceback.print_exc()
                    code = 1
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code & 255)
        end = time.monotonic() + seconds
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                code = os.waitstatus_to_exitcode(st)
                break
            if time.monotonic() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise Inconclusive("a command took too long")
            time.sleep(0.002)
    out = []
    for f in fd[1:]:
        f.seek(0)
        out.append(f.read().decode("utf-8", "replace"))
        f.close()
    fd[0].close()
    return code, out[0], out[1]


def start(args, cwd, env):
    """The command as a process to be waited for"""
    return subprocess.Popen([sys.executable, "-B", "-c", "import sys; sys.argv[0] = 'tealish'; from tealish.cli import cli; cli()"] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, env={"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "PYTHONPATH": common.REPO, "PYTHONHASHSEED": "0", **env})


def text_of(data):
    """What a program read from these bytes is"""
    return io.TextIOWrapper(io.BytesIO(data), encoding="utf-8").read()


NAMES = ["a.tl", "b.tl", "counter.tl", "approval.tl", "my.tl.tl", "x.tlx.tl", "two words.tl", "dots.in.name.tl", "\u00fcml\u00e4ut.tl", "UPPER.tl", "-dash.tl", ".hidden.tl", "a.teal.tl", "build.tl", "tl.tl", "x.tl.v2.tl"]
OTHERS = ["README", "notes.txt", "a.teal", "a.tl.bak", "b.TL", "build.json", "langspec.md"]


def sources(rng):
    """A program, and (mostly) whether it is all right"""
    k = rng.random()
    if k < 0.55:
        return lang.source(small(rng, ())[1])
    if k < 0.75:
        return mutate(rng, lang.source(small(rng, ())[1]))
    return rng.choice(["#pragma version 8\nexit(1)\n", "exit(1)", "int x =1\n\n\n\nexit(x)\n", "exit(nope)\n", "", "#pragma version 8\n\nif 1:\nexit(1)\n", "log(1)\nexit(1)", "# only\n", "#pragma version 8\r\nint a = 2\r\nexit(a)\r\n",
                       'log("\u00e9\u2192")\nexit(1)', 'assert(1, "\u00e9")\nexit(1)\n', "struct Aa:\n  a: int\n  b: bytes[3]\nend\nexit(1)\n", "\n\n  exit( 1 )  \n\n", "exit(1)\nfunc f():\nreturn\nend"])


def ext(name):
    return name[:-3] if name.endswith(".tl") else name


# ---------------------------------------------------------------------- C27
class Files(Check):
    prop = "C27"
    quick = 260
    thorough = 6000
    rule = ("random file trees with good and failing sources, unrelated files, stale outputs, links and odd names; sequences of real commands (compile, format, inspect, stats, wrong usage) "
            "on files and directories; after each, exit code, output and the whole file tree are compared with what the library gives for the sources")
    need = {"compile_ok": 150, "compile_failed": 60, "compile_dir": 40, "format_ok": 80, "format_failed": 25, "inspect_ok": 40, "inspect_failed": 10, "stats": 50, "usage": 20, "processes": 20}

    def tree(self, rng, root):
        names = rng.sample(NAMES, rng.randrange(1, 5))
        dirs = ["."] + rng.sample(["sub", "sub/deep", "contracts", "build", "with space"], rng.randrange(0, 3))
        for d in dirs:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for n in names:
            for d in dirs[:1] + [x for x in dirs[1:] if rng.random() < 0.5]:
                with open(os.path.join(root, d, n), "wb") as f:
                    f.write(sources(rng).encode())
                if rng.random() < 0.2:
                    os.chmod(os.path.join(root, d, n), rng.choice([0o600, 0o644, 0o755]))
        for n in rng.sample(OTHERS, rng.randrange(0, 3)):
            with open(os.path.join(root, rng.choice(dirs), n), "wb") as f:
                f.write(rng.choice([b"", b"exit(1)\n", b"some text\n# x\nend\n"]))
        if rng.random() < 0.4:
            os.makedirs(os.path.join(root, "build"), exist_ok=True)
            for n in rng.sample(names, 1):
                for e in rng.sample([".teal", ".teal.tok", ".map.json", ".teal"], 2):
                    with open(os.path.join(root, "build", ext(n) + e), "wb") as f:
                        f.write(b"stale\n" * rng.choice([1, 1000, 20000]))
        if rng.random() < 0.15:
            os.symlink(names[0], os.path.join(root, "link.tl"))

    def case(self, rng, index, c):
        with scratch() as root:
            self.tree(rng, root)
            done = []
            for _ in range(rng.randrange(3, 7)):
                if rng.random() < 0.3:
                    self.touch(rng, root)
                done.append(self.command(rng, root, c, done))
            c.sig = digest(done, sorted(snapshot(root)))
            if c.sample is None:
                c.sample = {"commands": done, "tree": sorted(snapshot(root))[:20]}

    def touch(self, rng, root):
        files = [p for p, x in snapshot(root).items() if p.endswith(".tl") and x[0] == "file"]
        with open(os.path.join(root, rng.choice(files)), "wb") as f:
            f.write(sources(rng).encode())

    def command(self, rng, root, c, done):
        before = snapshot(root)
        tl = [p for p, x in before.items() if p.endswith(".tl") and x[0] != "dir"]
        plainfiles = [p for p, x in before.items() if x[0] == "file"]
        dirs = ["."] + [p for p, x in before.items() if x[0] == "dir"]
        kind = rng.choice(["compile", "compile", "compiledir", "format", "format", "inspect", "stats", "usage"])
        q = rng.random() < 0.3
        spell = lambda p: p if rng.random() < 0.6 else os.path.join(root, p) if rng.random() < 0.5 else "./" + p
        dash = lambda p: ["--", p] if p.startswith("-") else [p]
        if kind == "compile":
            path = rng.choice(tl if rng.random() < 0.9 else plainfiles)
            args = ["compile"] + dash(spell(path))
        elif kind == "compiledir":
            path = rng.choice(dirs)
            args = ["compile", spell(path) + rng.choice(["", "/"])]
        elif kind in ("format", "inspect"):
            path = rng.choice(tl if rng.random() < 0.95 else plainfiles)
            args = [kind] + dash(spell(path))
        elif kind == "stats":
            path = rng.choice(tl + dirs + plainfiles[:1])
            args = ["stats"] + dash(spell(path))
        else:
            path = None
            args = rng.choice([[], ["compile"], ["compile", "nothere.tl"], ["format", "nothere.tl"], ["format", "nodir/nothere.tl"], ["inspect"], ["stats", "nothere"], ["nonsense"], ["compile", "--nonsense", tl[0]], ["-h"], ["compile", "-h"], ["format", ""],
                               ["build", "--goal"], ["langspec"], ["compile", tl[0], tl[0]] if not tl[0].startswith("-") else ["compile"]])
        real = rng.random() < 0.06
        if real:
            c.hit("processes")
        code, out, err = tealish_cmd((["-q"] if q and path is not None else []) + args, root, real=real)
        after = snapshot(root)
        shown = f"{'-q ' if q else ''}{' '.join(args)}"

        def bad(what):
            return Violation(f"tealish {shown}: {what}", commands=done + [shown], tree={p: x[0] if x[0] != "file" else x[2][:1500].decode("utf-8", "replace") for p, x in before.items()},
                             exit_code=code, output=out[-2000:], error_output=err[-3000:])

        changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}

        def source(p):
            return text_of(self.bytes_of(root, before, p))

        def reported(message):
            """Is the failure shown?"""
            if code == 0:
                raise bad("exit code 0 for a source that fails")
            if message.strip() not in (out + err) or "Traceback" in err:
                raise bad(f"the failure is not reported as the library says it: {message!r}")

        if kind in ("compile", "compiledir"):
            base = path if kind == "compiledir" else os.path.dirname(path)
            paths = [p for p in tl if os.path.dirname(p) == (base if base != "." else "")] if kind == "compiledir" else [path]
            want = {p: forked(lambda: call("compile", source(p))) for p in paths}
            failing = [p for p in paths if want[p][0] == "error"]
            build = os.path.normpath(os.path.join(base, "build"))
            outputs = {}
            for p in paths:
                o = os.path.join(build, ext(os.path.basename(p)) + ".teal")
                outputs[p] = o
            allowed = set(outputs[p] for p in paths if want[p][0] == "ok")
            if paths:
                allowed.add(build)
            if changed - allowed:
                raise bad(f"changes {sorted(changed - allowed)}")
            written = 0
            for p in paths:
                o = outputs[p]
                if want[p][0] == "error":
                    continue
                text = ("\n".join(want[p][1][0]) + "\n").encode()
                x = after.get(o)
                if x is not None and x[0] == "file" and x[2] == text:
                    written += 1
                elif not failing:
                    raise bad(f"{o} does not hold what {p} compiles to")
                elif x != before.get(o):
                    raise bad(f"{o} holds neither what {p} compiles to nor what it held")
            if failing:
                if not any(want[p][2].strip() in out + err for p in failing) or code == 0 or "Traceback" in err:
                    raise bad(f"the failure of {failing} is not reported: {want[failing[0]][2]!r}")
                c.hit("compile_failed")
            else:
                if code != 0:
                    raise bad("fails for sources that compile")
                if q and out.strip():
                    raise bad("writes output in spite of -q")
                if not q:
                    for p in paths:
                        if os.path.basename(p) not in out or os.path.basename(outputs[p]) not in out:
                            raise bad(f"does not tell that {p} is compiled to {outputs[p]}")
                c.hit("compile_ok")
            if kind == "compiledir":
                c.hit("compile_dir")
        elif kind == "format":
            want = forked(lambda: call("format", source(path)))
            real_path = self.target(before, path)
            if want[0] == "error":
                if changed:
                    raise bad(f"changes {sorted(changed)} although it fails")
                reported(want[2])
                c.hit("format_failed")
            else:
                if code != 0:
                    raise bad("fails for a source that can be formatted")
                if changed - {real_path}:
                    raise bad(f"changes {sorted(changed - {real_path})}")
                if after[real_path][2] != want[1].encode():
                    raise bad(f"{path} does not hold the formatted program")
                if after[real_path][1] != before[real_path][1]:
                    raise bad(f"the mode of {path} changed")
                c.hit("format_ok")
        elif kind == "inspect":
            want = forked(lambda: call("inspect", source(path)))
            if changed:
                raise bad(f"changes {sorted(changed)}")
            if want[0] == "error":
                reported(want[2])
                c.hit("inspect_failed")
            else:
                try:
                    got = json.loads(out)
                except ValueError:
                    raise bad("does not write JSON")
                if code != 0 or got != want[1]:
                    raise bad("does not write what the library reports")
                c.hit("inspect_ok")
        elif kind == "stats":
            if changed:
                raise bad(f"changes {sorted(changed)}")
            if code != 0:
                raise bad("fails")
            if path in dirs:
                pre = "" if path == "." else path + "/"
                files = [p for p in before if p.startswith(pre) and before[p][0] != "dir" and (re.fullmatch(r"([^/]+/)?[^/]*\.tl", p[len(pre):]) or re.fullmatch(r"[^/]+/build/[^/]*\.teal", p[len(pre):]))]
            else:
                files = [path]
            want = {}
            for p in files:
                n = 0
                for l in text_of(self.bytes_of(root, before, p)).split("\n"):
                    l = l.strip()
                    n += bool(l) and l != "end" and not l.startswith(("#", "//"))
                want[os.path.normpath(p)] = n
            got = {}
            for l in out.splitlines():
                m = re.fullmatch(r"(.*): (\d+) lines", l)
                if not m:
                    raise bad(f"writes {l!r}")
                got[os.path.relpath(os.path.join(root, m[1]), root)] = int(m[2])
            if got != want:
                raise bad(f"counts {got}, the files have {want}")
            c.hit("stats")
        else:
            if changed:
                raise bad(f"changes {sorted(changed)}")
            if code == 0 and "-h" not in args and args not in ([], ["langspec"]):
                raise bad("exit code 0")
            if "Traceback" in err:
                raise bad("a traceback for wrong usage")
            c.hit("usage")
        return shown

    @staticmethod
    def target(snap, p):
        return os.path.normpath(os.path.join(os.path.dirname(p), snap[p][1])) if snap[p][0] == "link" else p

    def bytes_of(self, root, snap, p):
        return snap[self.target(snap, p)][2]


# ---------------------------------------------------------------------- C28
GOAL_FAULTS = ["fail", "fail", "fail_err", "nofile", "nomap", "badmap", "oldmap", "killed", "partial"]
ALGOD_FAULTS = ["err400", "err400", "err404", "err500", "notjson", "noresult", "nomap", "oldmap", "cut", "close"]


@contextlib.contextmanager
def server(log, modes):
    r, w = os.pipe()
    parent = os.getpid()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            with contextlib.suppress(Exception):
                import ctypes

                ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # not to outlive the case
            from ..standin import algod

            sys.stderr = io.StringIO()
            algod(log, modes, w)
        finally:
            os._exit(0)
    os.close(w)
    try:
        port = int(os.read(r, 20) or b"0")
        if not port:
            raise Inconclusive("no server")
        yield f"http://127.0.0.1:{port}"
    finally:
        os.close(r)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)


def good_source(rng):
    if rng.random() < 0.12:
        # a long program
        n = rng.choice([40, 150, 400])
        k = rng.choice([100, 500, 1200, 4000])
        return "#pragma version 8\n" + "".join(f'log("{i} {"x//" * (k // 3)}")\nassert({i} < 9999, "no {i}")\n' for i in range(min(n, 600000 // k))) + "exit(1)\n"
    return lang.source(small(rng, ())[1]) if rng.random() < 0.7 else rng.choice([
        "#pragma version 8\nexit(1)\n", "exit(1)", 'assert(1, "never \u00e9")\nlog("\u00e9")\nexit(1)\n', "int x = 1\nassert(x, \"a\")\nassert(x, \"b\")\nexit(x)", "#pragma version 8\nint a%d = %d\nexit(a%d)\n" % ((rng.randrange(99),) * 3)])


class Build(Check):
    prop = "C28"
    quick = 190
    thorough = 4500
    rule = ("sequences of builds of files and directories with a stand-in goal program and a stand-in algod server whose bytecode and source map depend on the text they are given, with injected "
            "faults (errors, missing or broken results, death), and concurrent builds of sources of the same names: calls recorded by the stand-ins and the artefacts are compared with the library's output")
    need = {"built": 250, "faults": 60, "goal": 50, "algod": 80, "concurrent": 20, "sandbox": 4, "pcs": 3000}

    def case(self, rng, index, c):
        with scratch() as root:
            for d in ("bin", "tmp", "log", "work", "empty"):
                os.mkdir(os.path.join(root, d))
            g = os.path.join(root, "bin", "goal")
            with open(g, "w") as f:
                f.write(f'#!/bin/sh\nexec {sys.executable} -S -E -B {common.ROOT}/rv/standin.py "$@"\n')
            os.chmod(g, 0o755)
            if index % 4 == 3:
                return self.concurrent(rng, root, c)
            work = os.path.join(root, "work")
            done = []
            for _ in range(rng.randrange(2, 4)):
                done.append(self.step(rng, root, work, c, done))
            c.sig = digest(done)
            if c.sample is None:
                c.sample = {"builds": done}

    def write(self, rng, work):
        names = rng.sample(NAMES[:9], rng.choice([1, 1, 2, 3]))
        for n in names:
            if not os.path.exists(os.path.join(work, n)) or rng.random() < 0.7:
                with open(os.path.join(work, n), "w") as f:
                    f.write(good_source(rng) if rng.random() < 0.93 else "exit(nope)\n")

    def expectation(self, work, p):
        with open(os.path.join(work, p), "rb") as f:
            src = text_of(f.read())
        return src, forked(lambda: call("compile", src))

    def check_map(self, got, want, text, bad, p, c):
        """The map file: the compiler's and the assembler's"""
        from ..standin import assemble

        code, smap, pcs = assemble(text)
        try:
            m = json.loads(got)
        except ValueError:
            raise bad(f"the map of {p} is not JSON")
        tt = want[1][1]["teal_tealish"]
        if {int(k): v for k, v in m.get("teal_tealish", {}).items()} != tt or {int(k): v for k, v in m.get("errors", {}).items()} != want[1][1]["errors"]:
            raise bad(f"the map of {p} is not that of the source")
        pt = {int(k): v for k, v in m.get("pc_teal", {}).items()}
        for pc, line in pcs.items():
            if pt.get(pc) != line:
                raise bad(f"the map of {p} has TEAL line {pt.get(pc)} for pc {pc}, the assembler {line}")
        if any(pc not in pcs and not 1 <= l <= text.count("\n") + 1 for pc, l in pt.items()):
            raise bad(f"the map of {p} has lines that the program does not have")
        import tealish.utils as tu

        t = tu.TealishMap(m)
        for pc, line in pcs.items():
            if t.get_tealish_line_for_pc(pc) != tt.get(line):
                raise bad(f"the map of {p} gives source line {t.get_tealish_line_for_pc(pc)} for pc {pc}, composed it is {tt.get(line)}")
        c.hit("pcs", len(pcs))

    def artefacts(self, build, p):
        b = os.path.join(build, ext(os.path.basename(p)))
        return b + ".teal", b + ".teal.tok", b + ".map.json"

    def step(self, rng, root, work, c, done):
        from ..standin import MESSAGES, assemble, key

        if not done or rng.random() < 0.8:
            self.write(rng, work)
        tl = sorted(n for n in os.listdir(work) if n.endswith(".tl"))
        whole = rng.random() < 0.35
        paths = tl if whole else [rng.choice(tl)]
        how = rng.choice(["goal", "goal", "algod", "algod", "algod", "sandbox" if rng.random() < 0.4 else "missing"])
        exp = {p: self.expectation(work, p) for p in paths}
        ok = {p: "\n".join(e[1][1][0]) + "\n" for p, e in exp.items() if e[1][0] == "ok"}
        fault = rng.choice(GOAL_FAULTS if how == "goal" else ALGOD_FAULTS) if rng.random() < 0.4 and how in ("goal", "algod") else None
        victim = rng.choice(sorted(ok)) if ok and fault else None
        modes = {key(t): "ok" for t in ok.values()}
        if victim:
            modes[key(ok[victim])] = fault
        for f in os.listdir(os.path.join(root, "log")):
            os.remove(os.path.join(root, "log", f))
        before = snapshot(root)
        q = rng.random() < 0.2
        env = {"STANDIN_MODES": json.dumps(modes), "STANDIN_LOG": os.path.join(root, "log"), "TMPDIR": os.path.join(root, "tmp"),
               "PATH": os.path.join(root, "bin" if how != "missing" else "empty") + ("" if how == "missing" else ":/usr/bin:/bin")}
        token = rng.choice(["", "", "a" * 64, "secret-token_1"])
        target = "." if whole else paths[0]
        target = os.path.join(work, target) if target.startswith("-") or rng.random() < 0.3 else target
        with contextlib.ExitStack() as st:
            args = ["build", target]
            if how == "algod":
                url = st.enter_context(server(os.path.join(root, "log"), modes))
                if fault is None and rng.random() < 0.05:
                    fault, victim = "refused", sorted(ok)[0] if ok else None
                    url = "http://127.0.0.1:9"
                args += ["--algod-url", url + ("#" + token if token else "")] + (["--algod"] if rng.random() < 0.3 else [])
            else:
                args += ["--goal" if how in ("goal", "missing") else "--sandbox"]
            code, out, err = tealish_cmd((["-q"] if q else []) + args, work, env, real=rng.random() < 0.05)
        after = snapshot(root)
        shown = f"{' '.join(args[:1] + args[2:])} {'.' if whole else paths[0]} [{fault} for {victim}]" if how != "algod" else f"build {'.' if whole else paths[0]} with algod [{fault} for {victim}]"

        def bad(what):
            return Violation(f"{shown}: {what}", builds=done + [shown], exit_code=code, output=out[-2000:], error_output=err[-3000:], sources={p: e[0][:1500] for p, e in exp.items()})

        calls = []
        for f in sorted(os.listdir(os.path.join(root, "log"))):
            with open(os.path.join(root, "log", f)) as h:
                calls.append(json.load(h))
        for x in calls:
            if x["mode"] == "unexpected":
                raise bad("the assembler was given a text that is not what any of the sources compiles to: " + x["text"][:200])
            if x["how"] == "algod" and (x["token"] or "") != token:
                raise bad(f"the token sent was {x['token']!r}, the URL has {token!r}")
        changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p) and not p.startswith("log/")}
        build = os.path.join("work", "build")
        allowed = {build}
        for p in paths:
            if p in ok:
                allowed |= set(self.artefacts(build, p))
        if changed - allowed:
            raise bad(f"changes {sorted(changed - allowed)}")
        failing = bool(victim) or len(ok) < len(paths) or how in ("sandbox", "missing")
        for p in paths:
            if p not in ok:
                continue
            text = ok[p]
            files = [after.get(a) for a in self.artefacts(build, p)]
            old = [before.get(a) for a in self.artefacts(build, p)]
            same = [x == y for x, y in zip(files, old)]
            code_ok = files[1] is not None and files[1][2] == assemble(text)[0]
            fresh = files[0] is not None and files[0][2] == text.encode()
            faulty = p == victim or how in ("sandbox", "missing")
            if not failing or not (same[1] and same[2]):
                if faulty:
                    raise bad(f"{p}: bytecode or map written although there is none")
                if not fresh:
                    raise bad(f"{p}: the TEAL written is not what the source compiles to")
                if not code_ok:
                    raise bad(f"{p}: the bytecode is not that of the program written")
                if files[2] is None:
                    raise bad(f"{p}: no map was written")
                self.check_map(files[2][2], exp[p][1], text, bad, p, c)
                c.hit("built")
            elif not fresh and not same[0]:
                raise bad(f"{p}: the TEAL written is not what the source compiles to")
        if failing:
            if code == 0:
                raise bad("exit code 0 although it failed")
            if "Traceback" in err:
                raise bad("a traceback instead of a report")
            if "Error" not in err:
                raise bad("no error is reported")
            reached = victim and any(x["mode"] == fault for x in calls)
            if reached and fault in MESSAGES and fault != "err500":
                flat = re.sub(r"\s+", " ", out + err)
                if re.sub(r"\s+", " ", MESSAGES[fault]) not in flat:
                    raise bad("the message of the assembler is not reported")
            if how == "missing" and len(ok) == len(paths) and "goal" not in err:
                raise bad("it is not reported that goal is missing")
            c.hit("faults" if reached or how == "missing" or fault == "refused" else "sandbox" if how == "sandbox" else "failing_source")
        else:
            if code != 0:
                raise bad("fails")
            if q and out.strip():
                raise bad("writes output in spite of -q")
        if how in ("goal", "algod"):
            c.hit(how)
        return shown

    def concurrent(self, rng, root, c):
        """Several builds at once: the same names in different directories"""
        from ..standin import assemble, key

        n = rng.choice([2, 3, 4])
        name = rng.choice(NAMES[:4])
        exp, modes = [], {}
        for i in range(n):
            d = os.path.join(root, "work", f"d{i}")
            os.makedirs(d)
            for m in {name, rng.choice(NAMES[:4])}:
                with open(os.path.join(d, m), "w") as f:
                    f.write(good_source(rng))
                src, e = self.expectation(d, m)
                if e[0] != "ok":
                    raise Violation(f"valid program rejected: {e}", source=src)
                text = "\n".join(e[1][0]) + "\n"
                modes[key(text)] = "slow"
                exp.append((d, m, src, e, text))
        env = {"STANDIN_MODES": json.dumps(modes), "STANDIN_LOG": os.path.join(root, "log"), "TMPDIR": os.path.join(root, "tmp"), "PATH": os.path.join(root, "bin") + ":/usr/bin:/bin", "HOME": root}
        how = rng.choice(["goal", "goal", "algod"])
        before = snapshot(root)
        with contextlib.ExitStack() as st:
            extra = ["--goal"] if how == "goal" else ["--algod-url", st.enter_context(server(os.path.join(root, "log"), modes))]
            ps = [start(["build", f"d{i}"] + extra, os.path.join(root, "work"), env) for i in range(n)]
            outs = []
            for p in ps:
                try:
                    outs.append(p.communicate(timeout=120)[0].decode("utf-8", "replace"))
                except subprocess.TimeoutExpired:
                    for x in ps:
                        x.kill()
                    raise Inconclusive("a build took too long")

        def bad(what):
            return Violation(f"{n} concurrent builds with {how}: {what}", sources=[(os.path.basename(d), m, s[:1000]) for d, m, s, _, _ in exp], outputs=outs)

        for p in ps:
            if p.returncode:
                raise bad("one fails")
        after = snapshot(root)
        allowed = set()
        for d, m, src, e, text in exp:
            build = os.path.join(os.path.relpath(d, root), "build")
            arts = self.artefacts(build, m)
            allowed |= {build, *arts}
            got = [after.get(a) for a in arts]
            if None in got:
                raise bad(f"missing files for {os.path.basename(d)}/{m}")
            if got[0][2] != text.encode():
                raise bad(f"the TEAL of {os.path.basename(d)}/{m} is not what it compiles to")
            if got[1][2] != assemble(text)[0]:
                raise bad(f"the bytecode of {os.path.basename(d)}/{m} is not that of its program")
            self.check_map(got[2][2], e, text, bad, f"{os.path.basename(d)}/{m}", c)
            c.hit("built")
        changed = {p for p in set(before) | set(after) if before.get(p) != after.get(p) and not p.startswith("log/")}
        if changed - allowed:
            raise bad(f"changes {sorted(changed - allowed)}")
        c.hit("concurrent")
        c.sig = digest([e[4] for e in exp])


CHECKS = [Files, Build]
