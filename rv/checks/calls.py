"""Compilation as a function of its text alone, under histories of calls, threads
and processes; and its totality over hostile texts"""
import contextlib
import io
import json
import os
import pickle
import re
import resource
import select
import signal
import subprocess
import sys
import threading
import time

from .. import common, ctx, lang, layout
from ..common import Check, Inconclusive, Violation, digest, quiet
from .texts import KW, generate, mutate, tokens

OPS = ("compile", "format", "inspect")


def outcome(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("error", type(e).__name__, str(e))


def call(op, src):
    """-> comparable result of one call of the library"""
    import tealish

    if op == "compile":
        def fn():
            out, m = tealish.compile_program(src)
            return list(out), m.as_dict(), {k: list(v) for k, v in m.tealish_teal.items()}
    elif op == "format":
        def fn():
            return tealish.reformat_program(src)
    else:
        def fn():
            return tealish.inspect_program(src)
    return outcome(fn)


def small(rng, extra):
    """A program which does not take long"""
    while True:
        g, p = generate(rng, extra=extra)
        if len(lang.source(p)) < 4000:
            return g, p


def plain(x):
    """For comparison across processes"""
    return json.dumps(x, default=repr)


def forked(fn, seconds=120):
    """Result of fn in a fresh copy of this process, in which nothing was compiled yet"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    res = ("ok", fn())
                except BaseException as e:
                    import traceback

                    res = ("failed", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    end = time.monotonic() + seconds
    with os.fdopen(r, "rb") as f:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([f], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise Inconclusive("a call took too long")
            b = os.read(f.fileno(), 1 << 16)
            if not b:
                break
            data += b
    os.waitpid(pid, 0)
    kind, res = pickle.loads(data)
    if kind != "ok":
        raise RuntimeError(res)
    return res


def with_warnings(op, src):
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        r = call(op, src)
    return r, err.getvalue()


# ---------------------------------------------------------------------- C25
class History(Check):
    prop = "C25"
    quick = 64
    thorough = 2600
    rule = ("sets of generated programs, their variants under the same names, and their mutants (most of which fail); each call of compile, format and inspect in a process of its own "
            "gives the reference result, with which every call of random histories, of concurrent threads with injected switches, of interleaved compiler objects and of processes with "
            "other hash seeds is compared; results handed out earlier are compared again at the end")
    need = {"calls": 1500, "failing_calls": 500, "thread_calls": 400, "thread_switches": 20000, "hash_seeds": 14, "interleaved": 120}

    def sources(self, rng):
        g, p = small(rng, rng.sample(["struct", "box", "func", "block", "const"], 3))
        src = lang.source(p)
        out = [src]
        # the same names, other definitions
        out.append(lang.source(small(rng, ("struct", "const", "func"))[1]))
        lang.source(p)
        lines, owners = layout.respaced(p, rng)
        out.append(layout.relayout(lines, owners, rng)[0])
        for s in list(out[:2]):
            for _ in range(2):
                out.append(mutate(rng, s))
        out.append(self.reordered(rng, src))
        out.append(self.clash(rng))
        out.append(self.clash(rng))
        out.append(self.reordered(rng, out[-1]))
        # uses of names which only the other programs define
        for s in out[:2] + [rng.choice(out[-2:])]:
            out += self.without(rng, s)
        out.append(rng.choice(["", "exit(1)", "#pragma version 8", "struct Item:\n  id: int\nend\nexit(1", "box<Item> b = OpenBox(\"a\")\nexit(b.id)", "Item i\nexit(1)", "if 1:\n" * rng.randrange(1, 60)]))
        rng.shuffle(out)
        return out

    def reordered(self, rng, src):
        """The program with the fields of its structs in another order, and its definitions too"""
        out, k = [], 0
        lines = src.split("\n")
        while k < len(lines):
            out.append(lines[k])
            k += 1
            if out[-1].lstrip().startswith("struct "):
                fields = []
                while k < len(lines) and lines[k].strip() != "end":
                    fields.append(lines[k])
                    k += 1
                out += fields[1:] + fields[:1] if rng.random() < 0.6 else rng.sample(fields, len(fields))
            elif re.match(r" *const \w+ [A-Z]", out[-1]) and k < len(lines) and lines[k].split("=")[0].split()[:2] == out[-1].split("=")[0].split()[:2]:
                # the values of two constants in a row exchanged
                a, b = out.pop().split(" = ", 1), lines[k].split(" = ", 1)
                if len(a) == len(b) == 2:
                    out += [a[0] + " = " + b[1], b[0] + " = " + a[1]]
                else:
                    out += [" = ".join(a), " = ".join(b)]
                k += 1
        return "\n".join(out)

    DEFINES = re.compile(r"^( *)(?:(const )\w+ |(struct |func |block )(\w+)|(int |bytes |uint8 |Item |box<\w+> |bytes\[\d+\] )[a-z]\w*( =|$))")

    def without(self, rng, src):
        """The program without one of its definitions, for some of them"""
        lines = src.split("\n")
        kinds = {}
        for i, l in enumerate(lines):
            m = self.DEFINES.match(l)
            if m:
                kinds.setdefault(m[2] or m[3] or "var", []).append((i, m))
        out = []
        for k in rng.sample(sorted(kinds), min(2, len(kinds))):
            i, m = rng.choice(kinds[k])
            new = list(lines)
            if m[4]:
                # keep the lines of the definition under another name
                new[i] = lines[i][:m.end(4)] + "Zq" + lines[i][m.end(4):]
            else:
                new[i] = ""
            out.append("\n".join(new))
        return out

    def clash(self, rng):
        """A program whose names mean something else than in the others"""
        n = rng.randrange(1, 40)
        f = rng.choice(["bytes[%d]" % n, "int", "uint8", "uint8[%d]" % n])
        k = rng.choice(["int", "bytes"])
        v = str(n) if k == "int" else f'"{"k" * n}"'
        t = ["#pragma version %d" % rng.choice([6, 7, 8]), rng.choice([f"struct Item:\n    pad: {f}\n    id: int\nend", f"struct Item:\n    id: int\n    pad: {f}\nend"]), f"const {k} LIMIT = {v}",
             "Item item = bzero(SizeOf(Item))", "item.id = %d" % n]
        if rng.random() < 0.5:
            t.append('box<Item> b = OpenBox("b")\nb.id = item.id')
        if rng.random() < 0.3:
            t.append(rng.choice(["item.nope = 1", "log(LIMIT + 1)", "f(1, 2, 3)", "jump nowhere", "inner_txn:\n    Fee: 0\nend", "inner_group:\ninner_txn:\n    Fee: 0\nend\nend"]))
        t.append("while item.id:\n    item.id = item.id - 1\n    if item.id == 3:\n        break\n    end\nend" if rng.random() < 0.5 else "assert(item.id, \"m%d\")" % n)
        t.append("exit(f(item.id))\n\nfunc f(a: int) int:\n    int x = a + %d\n    return x\nend" % n)
        return "\n".join(t)

    def case(self, rng, index, c):
        srcs = self.sources(rng)
        ref = {}
        for i, s in enumerate(srcs):
            for op in OPS:
                if rng.random() < 0.75:
                    ref[i, op] = forked(lambda: with_warnings(op, s))
        calls = sorted(ref)

        def bad(what, i, op, got, **kw):
            want = ref[i, op][0]
            raise Violation(f"{op} {what}: {self.diff(want, got)}", source=srcs[i], **kw)

        def count(i, op, name):
            c.hit(name)
            if ref[i, op][0][0] == "error":
                c.hit("failing_calls")

        # histories
        for _ in range(2):
            seq = [rng.choice(calls) for _ in range(rng.randrange(8, 24))]

            def history():
                got = [with_warnings(op, srcs[i]) for i, op in seq]
                return got

            for n, ((i, op), r) in enumerate(zip(seq, forked(history))):
                if r != ref[i, op]:
                    want = ref[i, op] if r[0] == ref[i, op][0] else (ref[i, op][0], None)
                    hist = [(o, ref[j, o][0][0], srcs[j]) for j, o in seq[:n]]
                    got = r[0] if r[0] != ref[i, op][0] else ("warnings", r[1])
                    bad("gives another result after other calls", i, op, got, reference=plain(ref[i, op])[:3000], history=plain(hist)[:20000])
                count(i, op, "calls")
        self.keep(rng, srcs, c)
        self.threads(rng, index, srcs, ref, bad, count, c)
        self.interleave(rng, srcs, ref, bad, count, c)
        if index % 8 == 0:
            self.processes(rng, srcs, ref, bad, count, c)
        c.sig = digest(srcs)
        if c.sample is None:
            c.sample = {"sources": [s[:150] for s in srcs[:3]], "calls": [f"{op} #{i}: {ref[i, op][0][0]}" for i, op in calls]}

    @staticmethod
    def diff(want, got):
        a, b = plain(want), plain(got)
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return f"... {a[max(0, k - 60):k + 80]} ... became ... {b[max(0, k - 60):k + 80]} ..."

    def keep(self, rng, srcs, c):
        """What was handed out stays as it is, and arguments are left alone"""
        import copy

        def run():
            import tealish
            from tealish.utils import TealishMap, minify_teal, strip_comments

            held = []
            for s in rng.sample(srcs, min(4, len(srcs))):
                try:
                    with contextlib.redirect_stderr(io.StringIO()):
                        out, m = tealish.compile_program(s)
                        ins = tealish.inspect_program(s)
                except Exception:
                    continue
                before = copy.deepcopy(out)
                d = m.as_dict()
                dd = copy.deepcopy(d)
                a, b = minify_teal(out), strip_comments(out)
                m2 = TealishMap(d)
                if out != before or d != dd:
                    return "minifying, stripping or reloading changes its argument", s
                if minify_teal(before) != a or strip_comments(before) != b:
                    return "minifying or stripping twice differs", s
                held.append((s, (out, d, ins, a, b, m2.as_dict()), copy.deepcopy((out, d, ins, a, b, m2.as_dict()))))
            for s, x, y in held:
                if x != y:
                    return "a result changed after it was handed out", s
            return len(held)

        r = forked(run)
        if not isinstance(r, int):
            raise Violation(r[0], source=r[1])
        c.hit("held", r)

    def threads(self, rng, index, srcs, ref, bad, count, c):
        n = rng.choice([2, 3, 4, 6])
        calls = sorted(ref)
        plans = [[rng.choice(calls) for _ in range(rng.randrange(2, 5))] for _ in range(n)]
        p = rng.choice([0.0, 0.003, 0.02, 0.1])
        seed = rng.random()
        root = os.path.join(common.REPO, "tealish")

        def run():
            import random

            sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
            results = [None] * n
            order = []
            barrier = threading.Barrier(n)

            def work(k):
                r = random.Random((seed, k).__repr__())
                sleep, rnd, append = time.sleep, r.random, order.append
                if p:
                    def tracer(frame, event, arg):
                        if event == "call" and frame.f_code.co_filename.startswith(root):
                            append(k)
                            if rnd() < p:
                                sleep(0)
                else:
                    tracer = lambda frame, event, arg: append(k)
                barrier.wait()
                sys.settrace(tracer)
                got = []
                for i, op in plans[k]:
                    got.append(call(op, srcs[i]))
                sys.settrace(None)
                results[k] = got

            ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
            with contextlib.redirect_stderr(io.StringIO()):
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
            switches = sum(1 for a, b in zip(order, order[1:]) if a != b)
            return results, switches, digest(order)

        results, switches, sig = forked(run)
        for plan, got in zip(plans, results):
            if got is None:
                raise Violation("a thread died", source=srcs[plan[0][0]])
            for (i, op), r in zip(plan, got):
                if r != ref[i, op][0]:
                    bad("gives another result while other threads compile", i, op, r, plans=plain([[(o, srcs[j]) for j, o in q] for q in plans])[:20000])
                count(i, op, "thread_calls")
        c.hit("thread_switches", switches)
        c.hit("thread_runs")
        c.sigs.add("i" + sig)

    def interleave(self, rng, srcs, ref, bad, count, c):
        """Compiler objects whose steps alternate"""
        good = [(i, op) for (i, op), r in ref.items() if op in ("compile", "format")]
        if len(good) < 2:
            return
        pick = [rng.choice(good) for _ in range(3)]

        def run():
            from tealish import TealishCompiler

            gens = []

            def steps(i, op):
                k = TealishCompiler(srcs[i].split("\n"))
                yield
                k.parse()
                yield
                if op == "compile":
                    out = k.compile()
                    m = k.get_map()
                    yield
                    return list(out), m.as_dict(), {a: list(b) for a, b in m.tealish_teal.items()}
                return k.reformat().strip() + "\n"

            live = {n: steps(i, op) for n, (i, op) in enumerate(pick)}
            got = {}
            with contextlib.redirect_stderr(io.StringIO()):
                while live:
                    n = rng.choice(sorted(live))
                    try:
                        next(live[n])
                    except StopIteration as e:
                        got[n] = ("ok", e.value)
                        del live[n]
                    except Exception as e:
                        got[n] = ("error", type(e).__name__, str(e))
                        del live[n]
            return got

        got = forked(run)
        for n, (i, op) in enumerate(pick):
            if got[n] != ref[i, op][0]:
                bad("gives another result while another compiler is at work", i, op, got[n], others=plain([srcs[j] for j, _ in pick]))
            count(i, op, "interleaved")

    def processes(self, rng, srcs, ref, bad, count, c):
        calls = sorted(ref)
        rng.shuffle(calls)
        for hs in (str(rng.randrange(1, 2**32)), rng.choice(["0", "random"])):
            r = subprocess.run([sys.executable, "-B", os.path.join(common.ROOT, "rv", "child.py"), common.REPO], cwd="/",
                               input=pickle.dumps([(op, srcs[i]) for i, op in calls]), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env={**os.environ, "PYTHONHASHSEED": hs, "PYTHONPATH": common.ROOT}, timeout=300)
            if r.returncode:
                raise RuntimeError(r.stderr.decode()[-2000:])
            for (i, op), got in zip(calls, pickle.loads(r.stdout)):
                if got != plain(ref[i, op][0]):
                    bad(f"gives another result in a process with hash seed {hs}", i, op, json.loads(got))
                count(i, op, "calls")
            c.hit("hash_seeds")


# ---------------------------------------------------------------------- C26
ODD = ["\x00", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u00a0", "\ufeff", "\u200b", "\ud800", "\U0001f600", "\t", "\r", "\r\n", "\\", '"', "'", "`", "#", "//", "é", "\x7f", "\u0661", "\u00b2", "\u0130", "%s", "{}", "{0}", "$", "\x1b[0m"]
CHUNKS = ["(", ")", "[", "]", "<", ">", "1", "a", " ", ", ", " + ", " b+ ", "!", "~", "b~", "not ", "\"", "\\", "'", "_", "a, ", "a = ", "_, ", "a: ", "a: int, ", "int, ", "@public(", "OnCompletion=NoOp, ", ".a", "Txn.", "Gtxn[", "Itxn.",
          "A", "Aa", "a_", "box<", "0x", "00", "99", "-", "+", "=", " = ", ": ", "::", "#", " # ", "//", " //", ";", "f(", "Concat(", "concat(a, ", "itob(", "1 + (", "(1 + ", "\t", "if ", "elif ", "for a in ", "1:", "in ", "uint8", "bytes[", "é", "\\x", "push(", "{", "$", "*", "."]
HEADS = ["", "int a = ", "a = ", "a, b = ", "assert(", "exit(", "if ", "elif ", "while ", "for a in ", "for _ in ", "return ", "jump ", "switch ", "func ", "func f(", "func f() ", "block ", "struct ", "const ", "const int A = ", "const bytes A = ", "bytes[", "box<A> a = ",
         "a.b = ", "log(", "inner_txn:\nFee: ", "teal:\n", "router:\n", "@public(", "#pragma ", "# ", "struct Aa:\na: ", "switch a:\n1: ", "Error(", "itob(", "Concat(", "Cast(1, "]
RUNS = ["A", "a", "aA", "a_", "A1", "1", " ", "  a", "a, ", "a: int, ", "a,", "(", ")", "[", "\\", "\\\"", "\"", "\"a", "\"\" ", ".a", "=", " = ", "0", "x", "_", ",", "int, ", "-", "#", ":", "a.", "+", "<"]
TAILS = ["", ")", ":", ": int", "\nend", "\"", "]", " = 1", ">", "() int:", ":\nend", " x", "\n"]
NESTS = [("if 1:\n", "end\n"), ("while 1:\n", "end\n"), ("for i{n} in 0:2:\n", "end\n"), ("for _ in 0:2:\n", "end\n"), ("block b{n}:\nexit(1)\n", "end\n"), ("func f{n}():\nreturn\n", "end\n"), ("inner_group:\n", "end\n"),
         ("if 1:\nelse:\n", "end\n"), ("if 1:\nelif 1:\n", "end\n")]
REPEATS = ["int a{n} = {n}", "log(\"x\")", "block b{n}:\nexit(1)\nend", "func f{n}():\nreturn\nend", "# comment {n}", "", "const int A{n} = 1", "struct Aa{n}:\na: int\nend", "if 1:\nlog(\"a\")\nend", "teal:\nint 1\npop\nend", "assert(1, \"m{n}\")",
           "exit(1)", "else:", "end", "jump b{n}", "@public()", "a = a + 1", "inner_txn:\nFee: 0\nend", "router:\nend", "log(itob((1 + 2) * {n}))", "if 1:\nelif 2:\nelif 3:\nelse:\nend", "\t", "#", "1", "}"]


class Exhausted(BaseException):
    pass


def _exhausted(*_):
    raise Exhausted


@contextlib.contextmanager
def cpu_limit(seconds):
    """Interrupts when the process has used so much processor time, regular expressions included"""
    old = signal.signal(signal.SIGPROF, _exhausted)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


class Steps:
    """Counts the calls the interpreter makes"""

    def __init__(self):
        self.n = 0

    def __enter__(self):
        def prof(frame, event, arg):
            self.n += 1

        sys.setprofile(prof)
        return self

    def __exit__(self, *_):
        sys.setprofile(None)


class Total(Check):
    prop = "C26"
    quick = 1800
    thorough = 26000
    rule = ("texts: valid programs with lines, tokens and characters edited, token soup, long lines built from every syntactic fragment, deep nesting, many repetitions, odd characters; "
            "each is compiled, formatted and inspected under an exception monitor and a processor time limit, and repetitive texts at three lengths under a count of calls, whose growth is bounded")
    need = {"rejected": 1500, "accepted": 150, "growth": 100, "long": 100, "deep": 100, "runs": 1500}

    def one(self, op, src, c, budget):
        import tealish

        fn = {"compile": tealish.compile_program, "format": tealish.reformat_program, "inspect": tealish.inspect_program}[op]
        kw = dict(source=src if len(src) < 20000 else src[:2000] + "\n...\n" + src[-500:], length=len(src), operation=op)
        t = time.process_time()
        try:
            with cpu_limit(budget), quiet():
                fn(src)
            c.hit("accepted")
        except Exhausted:
            raise Violation(f"{op} of {len(src)} characters was not done after {budget:.0f} s of processor time", **kw)
        except (tealish.errors.ParseError, tealish.errors.CompileError) as e:
            c.hit("rejected")
            n = len(src.split("\n"))
            named = [int(x) for x in re.findall(r"\b(?:[Ll]ine|at) (\d{1,9})\b", str(e))]
            if not any(1 <= x <= n for x in named):
                raise Violation(f"{op} reports no line of the text: {type(e).__name__}: {str(e)[:300]}", **kw)
        except BaseException as e:
            raise Violation(f"{op} fails with {type(e).__name__}: {str(e)[:300]}", **kw)
        return time.process_time() - t

    def check(self, src, c, ops=OPS):
        budget = 20 + len(src) / 1000 * 4
        for op in ops:
            self.one(op, src, c, budget)
        c.sigs.add(digest(src))
        c.hit("texts")

    def case(self, rng, index, c):
        k = index % 6
        if k < 2:
            g, p = small(rng, ())
            src = lang.source(p)
            for _ in range(8):
                m = self.edit(rng, src)
                self.check(m, c, [rng.choice(OPS)])
                if c.sample is None and len(m) < 600:
                    c.sample = m
        elif k == 2:
            for _ in range(6):
                self.check(self.soup(rng), c, [rng.choice(OPS)])
            # every head of a statement before a long run of every kind of character
            for i in range(14):
                j = (index // 6) * 14 + i
                j, head = divmod(j, len(HEADS))
                j, run = divmod(j, len(RUNS))
                n = rng.choice([30, 40, 60])
                self.check(HEADS[head] + RUNS[run] * n + rng.choice(["", "", "!", "", "é", ")", " =", ":", ": "]) + rng.choice(["", "\nend", "\nend\nexit(1)"]), c, [rng.choice(OPS)])
                c.hit("runs")
        elif k == 3:
            self.check(self.long(rng, rng.choice([1000, 5000, 20000])), c, [rng.choice(OPS)])
            c.hit("long")
        elif k == 4:
            self.check(self.deep(rng), c, [rng.choice(OPS)])
            c.hit("deep")
        else:
            self.growth(rng, c)

    def edit(self, rng, src):
        k = rng.randrange(9)
        if k >= 6:
            return self.restructure(rng, src)
        if k == 0:
            return mutate(rng, src)
        if k == 1:
            for _ in range(rng.randrange(1, 4)):
                i = rng.randrange(len(src) + 1)
                src = src[:i] + rng.choice(ODD) + src[i + rng.randrange(2):]
            return src
        if k == 2:
            return src[:rng.randrange(len(src))]
        if k == 3:
            lines = src.split("\n")
            i = rng.randrange(len(lines))
            lines[i] = self.line(rng)
            return "\n".join(lines)
        if k == 4:
            return rng.choice(["\r", "\x0b", " ", "\n\n", "\u2028"]).join(src.split("\n"))
        lines = src.split("\n")
        i = rng.randrange(len(lines))
        l = lines[i]
        if l:
            a = rng.randrange(len(l))
            b = rng.randrange(a, len(l))
            l = l[:a] + l[a:b + 1] * rng.choice([2, 3, 40, 300]) + l[b + 1:]
        lines[i] = l
        return "\n".join(lines)

    STRUCTURE = ["end", "else:", "elif 1:", "elif not 0:", "if 1:", "while 0:", "for i in 0:2:", "for _ in 0:2:", "block b:", "switch 1:", "router:", "teal:", "inner_txn:", "inner_group:",
                 "struct Q:", "func q():", "func q() int:", "@public()", "return", "break", "exit(1)", "jump b", "else: b", "1: b"]

    def restructure(self, rng, src):
        """Lines that open, divide and close blocks edited, added, repeated, moved and removed"""
        lines = src.split("\n")
        words = ("end", "else", "elif", "if", "while", "for", "block", "switch", "router", "teal", "inner", "struct", "func", "@", "return", "break", "exit", "jump")
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            at = [i for i, l in enumerate(lines) if l.strip().startswith(words)] or [0]
            i = rng.choice(at)
            k = rng.randrange(7)
            if k == 0:
                lines[i] = lines[i] + rng.choice([" x", "x", ":", " :", " 1", ";", " end", " else:", "(", ")", " = 1", '"', "\t", "\u00a0"])
            elif k == 1:
                lines[i] = lines[i].rstrip()[:-1]
            elif k == 2:
                lines.insert(i + rng.randrange(2), rng.choice(self.STRUCTURE))
            elif k == 3:
                lines.insert(rng.randrange(len(lines) + 1), rng.choice(self.STRUCTURE))
            elif k == 4:
                del lines[i]
            elif k == 5:
                lines.insert(rng.choice(at), lines[i])
            else:
                lines[i] = rng.choice(self.STRUCTURE)
            if not lines:
                return ""
        return "\n".join(lines)

    def line(self, rng):
        n = rng.choice([1, 2, 4, 8])
        parts = [rng.choice(HEADS)] + [rng.choice(rng.choice([CHUNKS, KW, KW, ODD]) if rng.random() < 0.95 else [str(rng.getrandbits(rng.randrange(1, 200)))]) for _ in range(n)] + [rng.choice(TAILS)]
        return "".join(parts)

    def soup(self, rng):
        lines = ["#pragma version 8"] if rng.random() < 0.5 else []
        for _ in range(rng.choice([1, 1, 2, 5, 12])):
            k = rng.random()
            if k < 0.35:
                lines.append(self.line(rng))
            elif k < 0.6:
                lines.append(" ".join(rng.choice(KW) for _ in range(rng.randrange(1, 7))))
            elif k < 0.9:
                lines.append(rng.choice(REPEATS + [a + b for a, b in NESTS] + [a for a, b in NESTS]).replace("{n}", str(rng.randrange(3))))
            else:
                lines.append("".join(chr(rng.choice([rng.randrange(128), rng.randrange(0x3000)])) for _ in range(rng.randrange(20))))
        return "\n".join(lines)

    def shape(self, rng):
        """A long text of any size: size -> text, size in repetitions"""
        k = rng.randrange(3)
        head, tail = rng.choice(HEADS), rng.choice(TAILS)
        if k == 0:
            chunk = "".join(rng.choice(CHUNKS) for _ in range(rng.choice([1, 1, 1, 2, 3])))
            pre = rng.choice(["", "", "int a = 1\n", "#pragma version 8\n"])
            mid = rng.choice(["", "", "x", "\"", "="])
            return lambda n: pre + head + chunk * n + mid + tail, "line " + repr((head, chunk, mid, tail))
        if k == 1:
            body = rng.choice(REPEATS)
            end = rng.choice(["", "", "exit(1)", "end"])
            return lambda n: "\n".join(body.replace("{n}", str(i)) for i in range(n)) + "\n" + end, "repeat " + repr((body, end))
        a, b = rng.choice([("(", ")"), ("itob(", ")"), ("concat(\"\", ", ")"), ("1 + (", ")"), ("(1 + ", ")"), ("!", ""), ("not ", ""), ("~", ""), ("(", ""), ("[", "]"), ("Concat(", ")"), ("a[", "]"), ("f(f(", "))"), ("(((", " + 1) + 1) + 1)")])
        return lambda n: head + a * n + "1" + b * n + tail, "nest " + repr((head, a, b, tail))

    def long(self, rng, size):
        f, _ = self.shape(rng)
        unit = max(1, len(f(20)) - len(f(10))) / 10
        return f(int(size / unit) + 1)

    def deep(self, rng):
        n = rng.choice([10, 30, 100, 300, 1000])
        opened = []
        out = []
        kinds = [rng.choice(NESTS) for _ in range(rng.choice([1, 1, 2, 3]))]
        for i in range(n):
            a, b = rng.choice(kinds)
            out.append(a.replace("{n}", str(i)))
            opened.append(b)
        if rng.random() < 0.7:
            out += reversed(opened)
        elif rng.random() < 0.5:
            out += opened[:rng.randrange(n)]
        return "".join(out) + rng.choice(["", "exit(1)\n", "end\n"])

    def growth(self, rng, c):
        import tealish

        f, what = self.shape(rng)
        op = rng.choice(OPS)
        fn = {"compile": tealish.compile_program, "format": tealish.reformat_program, "inspect": tealish.inspect_program}[op]
        n = rng.choice([20, 40, 80, 120])
        cost = []
        for m in (n, 2 * n, 4 * n):
            src = f(m)
            with Steps() as s:
                try:
                    with cpu_limit(60), quiet():
                        fn(src)
                except Exhausted:
                    raise Violation(f"{op} of {len(src)} characters was not done after 60 s of processor time", source=src[:3000], shape=what)
                except Exception:
                    pass
            cost.append(s.n)
        c.hit("growth")
        c.sigs.add(digest(what, n, op))
        if os.environ.get("GROWTH"):
            with open(os.environ["GROWTH"], "a") as g:
                g.write(f"{cost[2] / max(1, cost[1]):.2f} {cost} {op} {n} {what}\n")
        a, b, d = cost
        if d > 3.2 * b + 20000 or d > 5000 * len(f(4 * n)) + 2000000:
            raise Violation(f"{op}: the work grows from {a} to {b} to {d} calls when the length doubles twice", source=f(4 * n)[:3000], shape=what)


CHECKS = [History, Total]
