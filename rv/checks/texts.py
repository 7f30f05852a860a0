"""Properties of the compiler's texts: well-formed output, source map, comments,
formatting, minification, and independence of layout and names"""
import glob
import json
import os
import re

from .. import avm, common, ctx, lang, layout, ref, teal
from ..common import Check, Inconclusive, Violation, digest, quiet, watchdog
from ..gen import Gen
from .sem import assemble, compile_src

ALL = set(
    "if loop func block switch struct box itxn igroup fields std const uint8 bigint bytesn teal state comment probe multi ops call enum unders u64 lits "
    "hostile pushpop exits lconst jump mix_defs nested_fn outer array".split()
)


def generate(rng, extra=()):
    f = set(ALL)
    for x in sorted(f):
        if rng.random() < 0.12:
            f.discard(x)
    if rng.random() < 0.15:
        f.add("router")
    f |= set(extra)
    g = Gen(rng, f, size=rng.choice([2, 4, 6, 8]), max_vars=rng.choice([8, 15, 30]), depth=rng.choice([1, 2, 3]), panic=rng.choice([0.0, 0.03, 0.2]))
    return g, g.program()


def compiled(src, **detail):
    """-> (teal lines, map, TealishCompiler-free) of a valid program"""
    return compile_src(src, None, **detail)


def fmt(src, **detail):
    import tealish

    try:
        with watchdog(60), quiet():
            return tealish.reformat_program(src)
    except Exception as e:
        raise Violation(f"valid program cannot be formatted: {type(e).__name__}: {e}"[:500], source=src, **detail)


def canon(out, src):
    return assemble(out, src).canonical()


def same_code(a, b, what, **detail):
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation(f"{what}: instruction {i}: {a[i:i + 1]} became {b[i:i + 1]}"[:500], **detail)


class Texts(Check):
    quick = 900
    thorough = 16000

    def sample(self, c, src, **kw):
        if c.sample is None and len(src) < 1200:
            c.sample = {"source": src, **kw}


# ---------------------------------------------------------------------- C18
KW = ["int", "bytes", "uint8", "bigint", "bytes[3]", "bytes[32]", "any", "if", "while", "for", "end", "else:", "return", "func", "block", "exit(1)", "break", "jump",
      "switch", "teal:", "struct", "inner_txn:", "inner_group:", "const", "not", "assert(1)", "0", "1", "255", "256", "18446744073709551615", '""', '"a"', "0x00", "Txn.Fee",
      "Txn.Sender", "Global.Round", "NoOp", "Pay", "_", "(", ")", ",", "+", "-", "==", "b+", "!", "box<", "Concat(", "itob(", "btoi(", "len(", "sha256(", "Error()",
      "Gtxn[", "Gtxn[-1].Fee", "Gtxn[+1].Amount", "Gtxn[v].Note", "]", "[", ".", ":", "-1", "+1", "1_0", "_1", "007", "A", "FOO", "Abc", "router:", "@public()", "box<Item>", "Itxn.", "Cast(", "'a'", "99999999999999999999"]


def tokens(line):
    return re.findall(r'"(?:\\.|[^"\\])*"|[A-Za-z_0-9.<>]+|\s+|.', line)


def mutate(rng, src):
    lines = src.split("\n")
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(lines))
        k = rng.randrange(11)
        t = tokens(lines[i])
        if k == 0:
            del lines[i]
        elif k == 1:
            lines.insert(rng.randrange(len(lines)), lines[i])
        elif k == 2:
            j = rng.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif k == 3 and t:
            del t[rng.randrange(len(t))]
            lines[i] = "".join(t)
        elif k == 4 and t:
            t[rng.randrange(len(t))] = rng.choice(KW)
            lines[i] = "".join(t)
        elif k == 5 and t:
            o = tokens(lines[rng.randrange(len(lines))])
            if o:
                t[rng.randrange(len(t))] = rng.choice(o)
                lines[i] = "".join(t)
        elif k == 6:
            j = min(len(lines), i + rng.randrange(1, 6))
            part = lines[i:j]
            del lines[i:j]
            p = rng.randrange(len(lines) + 1)
            lines[p:p] = part
        elif k == 9 and t:
            j = rng.randrange(len(t))
            t.insert(j, t[j])
            lines[i] = "".join(t)
        elif k == 10:
            # a name in another case, or that of another thing, everywhere
            names = sorted({x for l in lines for x in tokens(l) if re.fullmatch(r"[A-Za-z][A-Za-z_0-9]*", x)})
            if len(names) > 1:
                a, b = rng.sample(names, 2)
                b = rng.choice([b, b, a.upper(), a.lower(), a.capitalize(), a[:1], a[:1].upper(), a.swapcase()])
                lines = ["".join(b if x == a else x for x in tokens(l)) for l in lines]
        elif k == 7 and t:
            t.insert(rng.randrange(len(t) + 1), rng.choice(KW))
            lines[i] = "".join(t)
        else:
            w = [x for x in t if re.fullmatch(r"[a-z][A-Za-z_0-9]*", x)]
            o = [x for l in lines for x in tokens(l) if re.fullmatch(r"[a-z][A-Za-z_0-9]*", x)]
            if w and o:
                t[t.index(rng.choice(w))] = rng.choice(o)
                lines[i] = "".join(t)
        if not lines:
            lines = ["exit(1)"]
    return "\n".join(lines)


def tamper(rng, src):
    """A change inside a literal or of an index"""
    spots = []
    for m in re.finditer(r'"(?:\\.|[^"\\\n])*"', src):
        spots.append(("string", m.start() + 1, m.end() - 1))
    for m in re.finditer(r"\b(?:Txn|Itxn|Global|Gtxn\[[^\]\n]*\])\.\w+(\[[^\]\n]*\])?|^\s*\w+(\[\d+\]): ", src, re.M):
        spots.append(("index", *(m.span(1) if m[1] else m.span(2) if m[2] else (m.end(), m.end()))))
    for m in re.finditer(r"(?<![\w\"])\d+(?![\w\"])", src):
        spots.append(("number", *m.span()))
    if not spots:
        return src
    kinds = sorted({k for k, _, _ in spots})
    kind = rng.choice(kinds)
    _, a, z = rng.choice([x for x in spots if x[0] == kind])
    t = src[a:z]
    if kind == "string":
        i = rng.randrange(len(t) + 1)
        bad = rng.choice(["\\", "\\0", "\\q", "\\x", "\\x1", "\\xg0", "\\'", "\\u00e9", "\\N", "\\101", "a", ";", "//"])
        i = rng.choice([0, i, len(t)])
        t = t[:i] + bad + t[i + rng.choice([0, 0, 1]):]
    elif kind == "index":
        t = "" if t else rng.choice(["[0]", "[1]", "[256]", "[v]"])
    else:
        t = str(rng.choice([0, 1, 2, 15, 16, 127, 128, 255, 256, 257, 1000, 65536, 2**63, 2**64 - 1, 2**64, rng.randrange(300)]))
    return src[:a] + t + src[z:]


def has_own_teal(src):
    return re.search(r"^\s*teal:", src, re.M) is not None


class WellFormed(Texts):
    prop = "C18"
    quick = 900
    thorough = 50000
    rule = ("programs of every feature, the same with one to three lines or tokens deleted, duplicated, moved or replaced, or a literal, number or index tampered with, and the programs of the repository's examples; "
            "every output of the compiler, and its minified and stripped forms, is assembled by the independent assembler; labels, immediates and the version line checked")
    need = {"accepted": 200, "accepted_mutants": 350}

    def setup(self, tier):
        self.files = sorted(glob.glob(os.path.join(common.REPO, "examples", "**", "*.tl"), recursive=True) + glob.glob(os.path.join(common.REPO, "tests", "**", "*.tl"), recursive=True))

    def check(self, src, out, c):
        from tealish.utils import minify_teal, strip_comments

        def asm(o, what):
            try:
                return teal.assemble(o)
            except teal.TealError as e:
                raise Violation(f"{what} does not assemble: {e}", source=src, teal="\n".join(o))

        a = asm(out, "output")
        first = src.split("\n")[0].strip()
        m = re.fullmatch(r"#pragma version (\d+)", first)
        if m and (a.version != int(m[1]) or out[0].strip() != first):
            raise Violation(f"the version line is {out[0]!r}, the program declares {first!r}", source=src)
        if not m and a.version is not None:
            raise Violation(f"the output declares version {a.version}, the program none", source=src)
        mini = asm(minify_teal(out)[0], "minified output")
        strip = asm(strip_comments(out), "stripped output")
        if mini.version != a.version or strip.version != a.version:
            raise Violation("the version line is lost by minification or comment removal", source=src)
        c.hit("instructions", len(a.instrs))
        c.hit("labels", len(a.labels))
        return a

    def case(self, rng, index, c):
        import tealish

        if index < len(self.files):
            src = open(self.files[index]).read()
            try:
                with watchdog(60), quiet():
                    out, _ = tealish.compile_program(src)
            except Exception:
                c.hit("file_rejected")
                return
            c.hit("files")
            self.check(src, out, c)
            return
        g, p = generate(rng)
        src = lang.source(p)
        if index % 4 == 0:
            out, _ = compiled(src)
            self.check(src, out, c)
            c.hit("accepted")
            c.sig = digest(src)
            self.sample(c, src, lines=len(out))
        if has_own_teal(src):
            f = {x for x in ALL if x not in ("teal", "probe", "pushpop", "outer") and rng.random() < 0.9}
            src = lang.source(Gen(rng, f | ({"router"} if rng.random() < 0.2 else set()), size=rng.choice([2, 2, 3, 5]), max_vars=15, depth=rng.choice([1, 2])).program())
        for _ in range(6):
            m = mutate(rng, src) if rng.random() < 0.7 else tamper(rng, src)
            if m == src or has_own_teal(m):
                continue  # what a program writes as TEAL itself is its own affair
            try:
                with watchdog(60), quiet():
                    out, _ = tealish.compile_program(m)
            except Exception:
                c.hit("rejected_mutants")
                continue
            c.hit("accepted_mutants")
            c.sigs.add(digest(m))
            self.check(m, out, c)



# ---------------------------------------------------------------------- C19
def vlq(n):
    n = n << 1 if n >= 0 else (-n << 1) | 1
    out = ""
    while True:
        d, n = n & 31, n >> 5
        out += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[d | (32 if n else 0)]
        if not n:
            return out


def assembler_map(rng, prog):
    """-> (source map as an assembler writes it, pc of each instruction, end): lines from 0"""
    pcs, mappings, last, pc = [], [""], 0, 1
    for ins in prog.instrs:
        pcs.append(pc)
        l = ins.line - 1
        mappings.append("AA" + vlq(l - last) + "A")
        last = l
        size = rng.choice([1, 1, 2, 3, rng.randrange(1, 12)])
        mappings += [""] * (size - 1)
        pc += size
    return {"version": 3, "sources": ["x.teal"], "names": [], "mapping": "", "mappings": ";".join(mappings)}, pcs, pc


def line_kind(lines, owners, i):
    """What a line of the printed program is"""
    t = lines[i].strip()
    o = owners[i]
    k = getattr(o, "kind", None) or type(o).__name__.lower()
    if t == "":
        return "blank"
    if t.startswith("#"):
        return "comment"
    if t.startswith("@"):
        return "decorator"
    if k in ("teal", "probe"):
        return "teal"
    if t == "end":
        return "end"
    if k == "switch" and not t.startswith("switch "):
        return "option"
    if k == "router" and t != "router:":
        return "route"
    if k == "if":
        return "if" if t.startswith("if ") else "elif" if t.startswith("elif ") else "else"
    if k == "itxn":
        return "itxn" if t == "inner_txn:" else "itxnfield"
    return k


# lines whose statement is repeated as a comment
COMMENTED = {"decl", "assign", "setfield", "box", "call", "assert", "if", "elif", "else", "while", "for", "for_", "break", "return", "jump", "switch", "exit",
             "itxn", "itxnfield", "igroup", "error", "func", "router"}


class SourceMap(Texts):
    prop = "C19"
    quick = 1200
    thorough = 20000
    rule = ("programs of every feature in random layouts; the program is run and the line the map gives for the TEAL line of each effect and of the end (or of the failing "
            "instruction) must be the line the reference semantics is executing; forward and backward lookups, program counters through a generated assembler map, assert messages, "
            "and reloading from a dictionary and from JSON must agree")
    need = {"events_located": 3000, "ends_located": 1200, "messages": 100, "pcs": 100000}

    def case(self, rng, index, c):
        import tealish.utils as tu

        g, p = generate(rng)
        if rng.random() < 0.4:
            # an assert that fails when it is reached
            body = rng.choice([b for b in self.bodies(p)])
            msg = rng.choice(["m", "not // allowed", "a: b", "x = 1", "(1, 2)", "l\u00e9", "# 1", "; pop", "a (b"] + [f"message {rng.randrange(1000)}"] * 5)
            end = max(i for i, s in enumerate(body) if s.kind not in ("comment", "blank") or i == 0)
            body.insert(rng.randint(min(end, 1 if body is p.main.body else 0), end), lang.S("assert", expr=("int", 0), msg=msg))
        lang.source(p)
        lines, owners = layout.respaced(p, rng) if rng.random() < 0.5 else self.plain(p)
        src, number, _ = layout.relayout(lines, owners, rng, blanks=rng.choice([0, 0.2]), comments=rng.choice([0, 0.1]), inline=rng.choice([0, 0.1]), crlf=rng.random() < 0.05)
        at = {n: i + 1 for i, n in enumerate(number) if n is not None}
        out, m = compiled(src)
        prog = assemble(out, src)
        bad = lambda what: Violation(what, source=src, teal="\n".join(out))
        n_src = len(src.split("\n"))
        # total, in range
        for t in range(1, len(out) + 1):
            x = m.get_tealish_line_for_teal(t)
            if type(x) is not int or not 0 <= x <= n_src:
                raise bad(f"TEAL line {t} maps to {x!r}")
        if set(m.teal_tealish) != set(range(1, len(out) + 1)):
            raise bad("the map has lines that the output does not have")
        # backwards
        back = {}
        for t, s in m.teal_tealish.items():
            back.setdefault(s, []).append(t)
        for s in range(0, n_src + 1):
            if sorted(m.get_teal_lines_for_tealish(s)) != sorted(back.get(s, [])):
                raise bad(f"lines of TEAL for line {s}: {m.get_teal_lines_for_tealish(s)}, the map forward has {back.get(s, [])}")
        # messages
        want = {}
        for s in p.all_stmts():
            if s.kind == "assert" and s.msg is not None:
                want[at[s.line]] = s.msg
        got = dict(m.errors)
        if got != want:
            raise bad(f"assert messages {got}, expected {want}")
        # lines which carry their own number
        for i, l in enumerate(out, 1):
            k = re.match(r"\s*// tl:(\d+): ", l)
            if k and not l.strip()[2:].strip().startswith("tl:3: int x = 1") and m.get_tealish_line_for_teal(i) != int(k[1]):
                raise bad(f"TEAL line {i} {l.strip()[:60]!r} maps to {m.get_tealish_line_for_teal(i)}")
        # program counters
        smap, pcs, end = assembler_map(rng, prog)
        if rng.random() < 0.5:
            m.update_from_teal_sourcemap(json.loads(json.dumps(smap)))
        else:
            from algosdk.source_map import SourceMap

            m.update_from_teal_sourcemap(SourceMap(smap))
        self.pc_lookups(m, prog, pcs, want, bad, c)
        # saved and reloaded
        d = m.as_dict()
        for how, d2 in (("dictionary", d), ("JSON", json.loads(json.dumps(d)))):
            m2 = tu.TealishMap(d2)
            if m2.as_dict() != d:
                raise bad(f"the map reloaded from its {how} differs")
            if any(m2.get_teal_lines_for_tealish(s) != m.get_teal_lines_for_tealish(s) for s in range(0, n_src + 1)):
                raise bad(f"backward lookups of the map reloaded from its {how} differ")
            self.pc_lookups(m2, prog, pcs, want, bad, c)
        self.runs(rng, p, src, lines, owners, out, prog, m, at, pcs, want, bad, c)
        c.sig = digest(src)
        self.sample(c, src, map=dict(list(m.teal_tealish.items())[:30]))

    def bodies(self, p):
        out = [p.main.body] * 3
        for s in p.all_stmts():
            if s.kind == "if":
                out += [b for _, _, b in s.branches if b] + ([s.else_body] if s.else_body else [])
            elif s.kind in ("while", "for", "for_"):
                out += [s.body] if s.body else []
        return out + [b.body for b in p.blocks if b.body] + [f.body for f in p.funcs if f.body]

    def plain(self, p):
        pr = lang.Printer(p)
        pr.program()
        return pr.lines, pr.owner

    def pc_lookups(self, m, prog, pcs, want, bad, c):
        for i, (ins, pc) in enumerate(zip(prog.instrs, pcs)):
            if m.get_teal_line_for_pc(pc) != ins.line:
                raise bad(f"pc {pc} is {ins} of TEAL line {ins.line}, the map gives {m.get_teal_line_for_pc(pc)}")
            s = m.teal_tealish[ins.line]
            if m.get_tealish_line_for_pc(pc) != s:
                raise bad(f"pc {pc}: source line {m.get_tealish_line_for_pc(pc)}, through its TEAL line {s}")
            if m.get_error_for_pc(pc) != want.get(s):
                raise bad(f"pc {pc} of source line {s}: message {m.get_error_for_pc(pc)!r}, expected {want.get(s)!r}")
        for pc in (-1, pcs[-1] + 1000, 10**9):
            if m.get_teal_line_for_pc(pc) is not None or m.get_tealish_line_for_pc(pc) is not None or m.get_error_for_pc(pc) is not None:
                raise bad(f"pc {pc} is not in the program but has a line")
        c.hit("pcs", len(pcs))

    def runs(self, rng, p, src, lines, owners, out, prog, m, at, pcs, want, bad, c):
        for _ in range(2):
            w = ctx.router_world(rng, p) if hasattr(p, "routed") else ctx.world(rng, p)
            w2 = w.clone()
            rf = ref.Ref(p, w)
            r = rf.run(locate=True)
            if r.kind == "limit":
                c.hit("too_long")
                continue
            o = avm.run(prog, w2, sigs=p.probe_sigs, trace_lines=True)
            if r.events != o.events or r.verdict() != o.verdict():
                c.hit("behaviour_differs")  # for the checks of behaviour
                continue
            for kind, e, a, b in [("event", e, a, b) for e, a, b in zip(r.events, w.locs, w2.locs)] + [("end", (r.kind,), r.line, o.where)]:
                x = next((m.get_tealish_line_for_teal(t) for t in b if m.get_tealish_line_for_teal(t)), None)
                lo, hi = a if isinstance(a, tuple) else (a, a)
                if x is None or not at[lo] <= x <= at[hi]:
                    raise bad(f"{kind} {e!r:.80} of source line {at[lo]} {lines[lo - 1].strip()!r:.80} comes from TEAL line {b[0]} {out[b[0] - 1].strip()!r:.60}, "
                              f"which maps to {m.get_tealish_line_for_teal(b[0])}")
                c.hit("events_located" if kind == "event" else "ends_located")
                if kind == "end" and r.kind == "panic":
                    c.hit("panics_located")
                    s = r.stmt
                    if s is not None and s.kind == "assert" and s.msg is not None and r.msg == "assert" and lo == s.line:
                        ip = next((pc for ins, pc in zip(prog.instrs, pcs) if ins.line == b[0]), None)
                        if m.get_error_for_pc(ip) != s.msg:
                            raise bad(f"the assert of line {at[lo]} failed; message for its pc: {m.get_error_for_pc(ip)!r}, expected {s.msg!r}")
                        c.hit("messages")
            # the statements whose code was executed are those the source executes
            took = {m.get_tealish_line_for_teal(t) for t in o.lines} - {0}
            may = set()
            for v in rf.visited:
                lo, hi = v if isinstance(v, tuple) else (v, v)
                may.update(at[n] for n in range(lo, hi + 1) if n in at)
            if took - may:
                t = next(t for t in o.lines if m.get_tealish_line_for_teal(t) in took - may)
                raise bad(f"TEAL line {t} {out[t - 1].strip()!r} was executed; it maps to line {m.get_tealish_line_for_teal(t)}, which is not")
            kinds = {at[i + 1]: line_kind(lines, owners, i) for i in range(len(lines)) if i + 1 in at}
            must = {at[v] for v in rf.visited if isinstance(v, int) and v and kinds[at[v]] in COMMENTED - {"else", "func", "igroup", "itxn", "decl", "router", "error"}}
            if must - took:
                raise bad(f"line {min(must - took)} was executed, but no TEAL executed maps to it")
            c.hit("lines_executed", len(took))


# ---------------------------------------------------------------------- C20
class Comments(Texts):
    prop = "C20"
    quick = 350
    thorough = 16000
    rule = ("programs of every feature in random spellings: each statement line must appear once, in order, as a comment of the output, directly before the code the map gives it; "
            "inserting, changing or removing whole-line and trailing comments must leave the instructions as they are")
    need = {"statements": 20000, "variants": 650, "inserted": 20000}

    def case(self, rng, index, c):
        g, p = generate(rng)
        src = lang.source(p)
        lines, owners = layout.respaced(p, rng) if rng.random() < 0.5 else SourceMap.plain(self, p)
        text = "\n".join(lines) + "\n"
        out, m = compiled(text)
        code = canon(out, text)
        bad = lambda what, **kw: Violation(what, source=text, teal="\n".join(out), **kw)
        # every statement, once, in order
        tags, seen = [], {}
        for t, l in enumerate(out, 1):
            k = re.match(r"\s*// tl:(\d+): (.*)$", l)
            if k:
                tags.append((int(k[1]), t, k[2]))
        want = {i + 1: lines[i].strip() for i in range(len(lines)) if line_kind(lines, owners, i) in COMMENTED}
        user = {i + 1 for i in range(len(lines)) if lines[i].strip().startswith("# tl:") or line_kind(lines, owners, i) == "teal"}
        for n, t, l in tags:
            if n not in want:
                if user:
                    continue
                raise bad(f"comment {l!r} for line {n}, which is no statement")
            if n in seen and (l == want[n] or l.startswith(want[n])):
                raise bad(f"line {n} {want[n]!r} appears twice")
            if l.startswith(want[n]) and l[len(want[n]):] in ("", *(f" [slot {k}]" for k in range(256))):
                seen[n] = t
        missing = [n for n in want if n not in seen]
        if missing:
            raise bad(f"line {missing[0]} {want[missing[0]]!r} is not in the output")
        order = [n for n, _, _ in tags if n in seen]
        if order != sorted(order):
            raise bad(f"statements are not in source order: {order}")
        # next to their code: from a statement's comment up to the next one, no code of another statement first
        for n, t in seen.items():
            k = t
            while k < len(out) and (out[k].strip().startswith("//") or not out[k].strip()):
                if re.match(r"\s*// tl:", out[k]):
                    break
                k += 1
            else:
                if k < len(out) and m.get_tealish_line_for_teal(k + 1) not in (n, 0):
                    nxt = m.get_tealish_line_for_teal(k + 1)
                    if nxt in seen:
                        raise bad(f"the code after the comment of line {n} {want[n]!r} is that of line {nxt}: {out[k].strip()!r}")
        c.hit("statements", len(seen))
        # comments of the program that stand between statements
        for i, l in enumerate(lines):
            if getattr(owners[i], "kind", None) == "comment":
                if "//" + l.strip()[1:].rstrip() not in {out[t - 1].strip() for t in m.get_teal_lines_for_tealish(i + 1)}:
                    raise bad(f"the comment of line {i + 1} {l.strip()!r} is not in the output")
                c.hit("own_comments")
        # comments change nothing
        for _ in range(2):
            src2, _, added = layout.relayout(lines, owners, rng, indent=False, blanks=rng.choice([0, 0.1]), comments=rng.choice([0.1, 0.3]), inline=rng.choice([0, 0.3]))
            out2, _ = compiled(src2, without_comments=text)
            same_code(code, canon(out2, src2), "comments changed the code", source=text, variant=src2)
            c.hit("variants")
            c.hit("inserted", len(added))
        bare = [l for i, l in enumerate(lines) if line_kind(lines, owners, i) != "comment"]
        out3, _ = compiled("\n".join(bare) + "\n", with_comments=text)
        same_code(code, canon(out3, text), "removing the comments changed the code", source=text)
        c.sig = digest(text)
        self.sample(c, text, commented=len(seen))


# ---------------------------------------------------------------------- C21
def noblank(s):
    return [l for l in s.split("\n") if l.strip()]


def decommented(s):
    return [l for l in noblank(s) if not l.strip().startswith("#")]


class Idempotent(Texts):
    prop = "C21"
    quick = 320
    thorough = 16000
    rule = ("programs of every feature, each formatted in its canonical and two random layouts (spacing, indentation, blank lines, comments, line ends): a formatted text formats to "
            "itself, and the formatted statements of all layouts are the same; also the repository's examples")
    need = {"formatted": 850, "layouts": 550}

    def setup(self, tier):
        WellFormed.setup(self, tier)

    def idem(self, src):
        f = fmt(src)
        f2 = fmt(f, original=src)
        if f != f2:
            a, b = next(((a, b) for a, b in zip(f.split("\n"), f2.split("\n")) if a != b), ("", ""))
            raise Violation(f"formatting again changes {a!r} to {b!r}", source=src, formatted=f, again=f2)
        return f

    def case(self, rng, index, c):
        import tealish

        if index < len(self.files):
            src = open(self.files[index]).read()
            try:
                with watchdog(60), quiet():
                    tealish.reformat_program(src)
            except Exception:
                c.hit("file_rejected")
                return
            self.idem(src)
            c.hit("files")
            return
        g, p = generate(rng)
        src = lang.source(p)
        f = self.idem(src)
        c.hit("formatted")
        for _ in range(2):
            lines, owners = layout.respaced(p, rng)
            comments = rng.choice([0, 0.15])
            v, _, _ = layout.relayout(lines, owners, rng, blanks=rng.choice([0, 0.3]), comments=comments, crlf=rng.random() < 0.15)
            f2 = self.idem(v)
            c.hit("formatted")
            c.hit("layouts")
            x, y = (decommented(f), decommented(f2)) if comments else (noblank(f), noblank(f2))
            if x != y:
                a, b = next(((a, b) for a, b in zip(x, y) if a != b), (len(x), len(y)))
                raise Violation(f"two layouts of a program are formatted differently: {a!r} and {b!r}", source=src, variant=v, formatted=f, formatted_variant=f2)
        c.sig = digest(src)
        self.sample(c, src)


# ---------------------------------------------------------------------- C22
class FormatKeeps(Texts):
    prop = "C22"
    quick = 600
    thorough = 16000
    rule = ("programs of every feature in random layouts with comments anywhere the language allows them: the formatted program compiles to the same instructions and has the same "
            "comment lines in the same order; also the repository's examples")
    need = {"formatted": 380, "comment_lines": 3000}

    def setup(self, tier):
        WellFormed.setup(self, tier)

    def keeps(self, src, c):
        out, _ = compiled(src)
        code = canon(out, src)
        f = fmt(src)
        out2, _ = compiled(f, original=src)
        same_code(code, canon(out2, f), "formatting changed the code", source=src, formatted=f)
        a = [l.strip() for l in src.split("\n") if l.strip().startswith("#")]
        b = [l.strip() for l in f.split("\n") if l.strip().startswith("#")]
        if a != b:
            x, y = next(((x, y) for x, y in zip(a, b) if x != y), (len(a), len(b)))
            raise Violation(f"comment lines differ after formatting: {x!r}, {y!r}", source=src, formatted=f)
        c.hit("formatted")
        c.hit("comment_lines", len(a))
        c.hit("instructions", len(code))

    def case(self, rng, index, c):
        import tealish

        if index < len(self.files):
            src = open(self.files[index]).read()
            try:
                with watchdog(60), quiet():
                    tealish.compile_program(src)
            except Exception:
                c.hit("file_rejected")
                return
            self.keeps(src, c)
            return
        g, p = generate(rng)
        src = lang.source(p)
        lines, owners = layout.respaced(p, rng) if rng.random() < 0.5 else SourceMap.plain(self, p)
        v, _, _ = layout.relayout(lines, owners, rng, blanks=rng.choice([0, 0.2]), comments=rng.choice([0, 0.15]), inline=rng.choice([0, 0.1]), crlf=rng.random() < 0.05)
        self.keeps(v, c)
        c.sig = digest(v)
        self.sample(c, v)


# ---------------------------------------------------------------------- C23
TEAL_OPS = ["byte b64 ab//cd==", "byte base64(//8=)", "int 1", "pop", "pushint 2", "dup", "+", "b==", "txn Sender", "txna ApplicationArgs 0", "load 3", "store 255", "gtxn 1 Fee", "concat", "sha256", "b*", "b", "bz", "bnz", "callsub",
            "switch", "match", "retsub", "return", "err", "assert", "byte 0x01", "substring 1 2", "pushbytes", "log", "bury 1", "intcblock 1 2", "#define"]
TEAL_STRINGS = ["", "a", "//", " // x", "l1", "b l1", "l1:", "a:", ";", "; b l1 ;", "\\\"", "\\\" // ", "\\\\", " ", "#pragma version 5", "\\n", "callsub sub", "x\\x41", "é"]
TEAL_COMMENTS = ["", " x", " l1:", " b l1", ' "', ' "a', " //", " tl:1: x", ";", " ; int 1", ":", " end:"]
TEAL_LABELS = ["a", "b1", "l1", "l1_end", "l11", "l1_", "main", "b", "bz", "dup", "int", "pop", "sub", "sub_1", "x", "callsub", "_x", "A", "Pay", "switch", "l1_end_1", "x__y", "done"]


class Minify(Texts):
    prop = "C23"
    quick = 4200
    thorough = 50000
    rule = ("outputs of compiled programs, and hand-written TEAL with labels in runs, shared prefixes, names of instructions, strings with comment signs and label names, several "
            "instructions per line and comments in odd places: instructions before and after minification and comment removal are the same (branch targets as places); the map gives each "
            "instruction's original line; no comment or blank line is left")
    need = {"compiled": 500, "written": 2000, "merged_labels": 2000, "branches": 20000}

    def written(self, rng):
        labels = rng.sample(TEAL_LABELS, rng.randrange(1, 10))
        todo = list(labels)
        out = ["#pragma version 8"] if rng.random() < 0.8 else []
        macros = []
        n = rng.randrange(3, 40)

        def instr():
            t = rng.choice(TEAL_OPS)
            if t in ("b", "bz", "bnz", "callsub"):
                t += rng.choice([" ", "  ", "\t"]) + rng.choice(labels)
            elif t in ("switch", "match"):
                t += "".join(" " + rng.choice(labels) for _ in range(rng.randrange(0, 4)))
            elif t == "pushbytes":
                t += f' "{rng.choice(TEAL_STRINGS)}"'
            elif t == "#define":
                t = "int 7"
            return t

        while n > 0 or todo:
            n -= 1
            k = rng.random()
            ind = " " * rng.choice([0, 0, 0, 4, 8])
            com = rng.choice(["", "", "", " //" + rng.choice(TEAL_COMMENTS), "//" + rng.choice(TEAL_COMMENTS), "      // " + rng.choice(TEAL_COMMENTS)])
            if todo and (k < 0.3 or n <= 0):
                out.append(ind + todo.pop() + ":" + com)
            elif k < 0.4:
                out.append(rng.choice(["", "  ", "\t"]))
            elif k < 0.5:
                out.append(ind + "//" + rng.choice(TEAL_COMMENTS))
            elif k < 0.62:
                out.append(ind + "; ".join(instr() for _ in range(rng.randrange(2, 5))) + com)
            elif k < 0.66 and todo:
                out.append(ind + todo.pop() + ": " + instr() + com)
            else:
                t = instr()
                if com.startswith("//") and not t.endswith('"'):
                    com = " " + com
                out.append(ind + t + com)
        return out

    def case(self, rng, index, c):
        from tealish.utils import minify_teal, strip_comments

        if index % 5 == 0:
            g, p = generate(rng)
            src = lang.source(p)
            lines, _ = compiled(src)
            c.hit("compiled")
        else:
            lines = self.written(rng)
            c.hit("written")
        text = "\n".join(lines)
        try:
            a = teal.assemble(lines)
        except teal.TealError as e:
            if index % 5 == 0:
                raise Violation(f"emitted TEAL does not assemble: {e}", source=src, teal=text)
            c.hit("not_valid_teal")
            return
        code = a.canonical()
        with quiet():
            small, smap = minify_teal(list(lines))
            bare = strip_comments(list(lines))
        for what, o in (("minified", small), ("stripped", bare)):
            try:
                b = teal.assemble(o)
            except teal.TealError as e:
                raise Violation(f"the {what} program does not assemble: {e}", teal=text, result="\n".join(o))
            same_code(code, b.canonical(), f"the {what} program differs", teal=text, result="\n".join(o))
            if a.version != b.version:
                raise Violation(f"the {what} program has version {b.version}, not {a.version}", teal=text, result="\n".join(o))
            for k, l in enumerate(o, 1):
                if not l.strip() or l.strip().startswith("//"):
                    raise Violation(f"the {what} program has an empty line or comment line: {k} {l!r}", teal=text, result="\n".join(o))
                if what == "stripped" and self.has_comment(l):
                    raise Violation(f"a comment is left in the stripped program: {l!r}", teal=text, result="\n".join(o))
            if what == "minified":
                for i, j in zip(a.instrs, b.instrs):
                    if smap.get(j.line) != i.line:
                        raise Violation(f"line {j.line} of the minified program {o[j.line - 1]!r} is mapped to {smap.get(j.line)}, it was line {i.line}", teal=text, result="\n".join(o))
                for k in range(1, len(o) + 1):
                    l = lines[smap[k] - 1].strip() if smap.get(k) in range(1, len(lines) + 1) else None
                    if l is None or self.shape(l) != self.shape(o[k - 1]):
                        raise Violation(f"line {k} of the minified program {o[k - 1]!r} is mapped to {smap.get(k)}: {l!r}", teal=text, result="\n".join(o))
                c.hit("merged_labels", len(a.labels) - len(b.labels))
        c.hit("branches", sum(1 for i in a.instrs if any(isinstance(x, tuple) for x in i.imms)))
        c.hit("instructions", len(code))
        c.sig = digest(text)
        if c.sample is None and len(text) < 700:
            c.sample = {"teal": text, "minified": small}

    def shape(self, l):
        """The instructions of a line without the targets of branches"""
        out = []
        for s in teal.tokenize(l):
            if s[0].endswith(":") and s[0][0] != '"':
                out.append(":")
                s = s[1:]
            if s and s[0] in ("b", "bz", "bnz", "callsub", "switch", "match"):
                s = [s[0]] + ["->"] * (len(s) - 1)
            out += s
            out.append(";")
        return out

    def has_comment(self, l):
        """Is what follows a line ignored?"""
        return "sentinel" not in (teal.tokenize(l + " ; sentinel") or [[]])[-1]


# ---------------------------------------------------------------------- C24
class Independent(Texts):
    prop = "C24"
    quick = 420
    thorough = 16000
    rule = ("programs of every feature, each with variants in layout (spacing, indentation, tabs, line ends), blank lines and comments, and with consistently renamed variables, constants, "
            "functions, blocks, structs and fields (names that start like keywords, like each other, like instructions): the instructions must be the same")
    need = {"layouts": 400, "renamings": 400, "names": 8000}

    def case(self, rng, index, c):
        g, p = generate(rng)
        src = lang.source(p)
        code = canon(compiled(src)[0], src)
        lines, owners = layout.respaced(p, rng)
        v, _, _ = layout.relayout(lines, owners, rng, blanks=rng.choice([0, 0.3]), comments=rng.choice([0, 0.1]), inline=rng.choice([0, 0.1]), crlf=rng.random() < 0.15)
        same_code(code, canon(compiled(v, original=src)[0], v), "another layout compiles to other instructions", source=src, variant=v)
        c.hit("layouts")
        with layout.renamed(p, rng) as r:
            n = len(r.old)
            v = lang.source(p)
            if rng.random() < 0.5:
                lines, owners = layout.respaced(p, rng)
                v, _, _ = layout.relayout(lines, owners, rng)
        same_code(code, canon(compiled(v, original=src)[0], v), "another choice of names compiles to other instructions", source=src, variant=v)
        c.hit("renamings")
        c.hit("names", n)
        c.sig = digest(src)
        self.sample(c, src, variant=v)


CHECKS = [WellFormed, SourceMap, Comments, Idempotent, FormatKeeps, Minify, Independent]
