"""Behavioural properties of compiled programs: the compiled TEAL, run by the
instrumented interpreter, against the reference semantics of the source"""
import re

from .. import avm, ctx, lang, ref, teal
from ..common import Check, Inconclusive, Violation, digest, quiet, watchdog
from ..exprs import Nests, Ordered, Pairs
from ..gen import Gen
from ..lang import INT, S

BASE = {"if", "const", "uint8", "bytesn", "ops", "std", "multi", "lits"}


def compile_src(src, case, **detail):
    """Compile a valid program; anything but output is a violation"""
    import tealish

    try:
        with watchdog(60), quiet():
            out, tmap = tealish.compile_program(src)
    except Exception as e:
        raise Violation(f"valid program rejected: {type(e).__name__}: {e}"[:500], source=src, **detail)
    return out, tmap


def assemble(out, src):
    try:
        return teal.assemble(out)
    except teal.TealError as e:
        raise Violation(f"emitted TEAL does not assemble: {e}", source=src, teal="\n".join(out))


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i, x, y
    n = min(len(a), len(b))
    return n, a[n] if n < len(a) else None, b[n] if n < len(b) else None


class Diff(Check):
    """Generate a program, compile it, and compare the run of the TEAL with the
    reference semantics in several worlds"""

    feats = set()
    gen_args = {}
    worlds = 3
    focus = ()  # statement kinds the property is about: {kind: minimum executions}
    quick = 1200
    thorough = 20000

    def features(self, rng):
        f = set(self.feats)
        # leave some features out now and then
        for x in sorted(f - set(self.keep)):
            if rng.random() < 0.25:
                f.discard(x)
        if rng.random() < 0.3:
            f |= {"hostile"}
        if rng.random() < 0.3:
            f |= {"comment"}
        return f

    keep = ()

    def generate(self, rng):
        args = dict(size=rng.choice([3, 5, 7, 9]), max_vars=rng.choice([8, 15, 30]), depth=rng.choice([1, 2, 3]))
        args.update(self.gen_args)
        g = Gen(rng, self.features(rng), **args)
        p = g.program()
        return g, p

    def world(self, rng, p):
        if hasattr(p, "routed"):
            return ctx.router_world(rng, p)
        return ctx.world(rng, p)

    def case(self, rng, index, c):
        g, p = self.generate(rng)
        src = lang.source(p)
        out, tmap = compile_src(src, c)
        prog = assemble(out, src)
        self.run_worlds(rng, g, p, src, out, prog, c)

    def run_worlds(self, rng, g, p, src, out, prog, c):
        interesting = False
        trace = []
        for k in range(self.worlds):
            w = self.world(rng, p)
            w2 = w.clone()
            w3 = w.clone() if self.switch_known else None
            rf = ref.Ref(p, w)
            r = rf.run()
            if r.kind == "limit":
                c.hit("too_long")
                continue
            o = avm.run(prog, w2, sigs=p.probe_sigs)
            c.hit("runs")
            c.hit("run_" + r.kind)
            c.hit("events", len(r.events))
            for kd in rf.kinds:
                c.hit("x_" + kd)
            if o.kind == "limit":
                c.hit("avm_limit")
            trace.append(digest(r.verdict(), r.events))
            self.compare(p, src, out, r, o, w3)
            self.monitor(p, rf, r, o, w, w2, c, src, out)
            if self.nontrivial(rf, r):
                interesting = True
        if interesting:
            c.sig = digest(src, trace)
            if c.sample is None and len(src) < 1500:
                c.sample = {"source": src, "events": [repr(e)[:80] for e in r.events[:12]], "outcome": r.verdict()}

    switch_known = False

    def compare(self, p, src, out, r, o, w3):
        if r.verdict() == o.verdict() and r.events == o.events:
            return
        i, x, y = first_diff(r.events, o.events)
        known = None
        if w3 is not None:
            # the subject of a switch is evaluated again for every option
            r2 = ref.Ref(p, w3, switch_reeval=True).run()
            if r2.verdict() == o.verdict() and r2.events == o.events:
                known = "switch-subject-reevaluated"
        raise Violation(
            f"outcome of the compiled program: {o.verdict()} {o.msg!r}, expected {r.verdict()} {getattr(r, 'msg', '')!r}; "
            f"first differing event #{i}: got {y!r}, expected {x!r}"[:600],
            known=known, source=src, teal="\n".join(out), expected=[repr(e) for e in r.events[:200]],
            got=[repr(e) for e in o.events[:200]], source_line=getattr(r.stmt, "line", None), teal_line=o.line,
        )

    def monitor(self, p, rf, r, o, w, w2, c, src, out):
        """Property-specific oracle"""
        a, b = w, w2
        for name in ("app_global", "app_local", "boxes", "last_inner"):
            if r.kind in ("accept", "reject") and getattr(a, name) != getattr(b, name):
                raise Violation(f"{name} after the run differs from what the source means", source=src, teal="\n".join(out))

    def nontrivial(self, rf, r):
        return all(k in rf.kinds for k in self.focus) and len(r.events) > 0


class Expressions(Diff):
    prop = "C01"
    quick = 9000
    thorough = 60000
    rule = ("random typed expressions (arithmetic, comparison, logic, byte-math, grouping, unary, opcode calls, fields, variables) in straight-line "
            "programs; a case counts if its runs produced events (logged values), by program and trace")
    feats = BASE | {"bigint", "enum", "fields", "state", "u64"}
    gen_args = {"depth": 4}
    need = {"events": 1000, "x_assign": 100}

    def generate(self, rng):
        k = rng.random()
        if k < 0.25:
            return None, Ordered(rng).program()
        if k < 0.45:
            return None, Pairs(rng).program()
        g = Gen(rng, self.features(rng), size=rng.choice([3, 5]), max_vars=12, depth=rng.choice([2, 3, 4, 5]), tweak={"log": 4, "if": 0.3})
        return g, g.program()


class ControlFlow(Diff):
    prop = "C02"
    quick = 1800
    rule = ("random nests of if/elif/else, not, while, for, for _, break with data dependent conditions; a case counts if both a branch and a loop were "
            "executed and probes or logs were recorded")
    feats = {"if", "loop", "const", "probe", "ops", "func", "call", "unders", "unders_main", "exits", "multi"}
    keep = ("if", "loop", "probe")
    gen_args = {}
    need = {"x_while": 100, "x_for": 100, "x_for_": 50, "x_break": 20, "x_if": 300}

    worlds = 5

    def generate(self, rng):
        if rng.random() < 0.45:
            return None, Nests(rng, rng.random() < 0.6).program()
        g = Gen(rng, self.features(rng), size=rng.choice([4, 7, 10]), max_vars=15, depth=rng.choice([1, 2]), probe_rate=0.25,
                tweak={"while": 3, "for": 3, "for_": 2, "if": 2, "break": 4})
        return g, g.program()

    def nontrivial(self, rf, r):
        return bool({"while", "for", "for_"} & rf.kinds) and "if" in rf.kinds and len(r.events) > 1


class Blocks(Diff):
    prop = "C03"
    quick = 1800
    rule = "random trees of blocks joined by jump and switch, with exits everywhere; a case counts if a jump or a switch was executed"
    feats = {"if", "block", "switch", "jump", "const", "probe", "func", "call", "nested_fn", "loop", "exits", "fields", "mix_defs", "outer", "enum"}
    keep = ("block", "switch", "jump", "probe")
    need = {"x_switch": 100, "x_jump": 200, "x_exit": 300}
    worlds = 5
    switch_known = True

    def features(self, rng):
        f = super().features(rng)
        if rng.random() < 0.05:
            f |= {"switch_eff", "func", "call"}
        return f

    def generate(self, rng):
        if rng.random() < 0.25:
            return None, Nests(rng).program()
        g = Gen(rng, self.features(rng), size=rng.choice([2, 4, 6]), max_vars=20, depth=rng.choice([0, 1, 2]), probe_rate=0.25)
        return g, g.program()

    def nontrivial(self, rf, r):
        return bool({"switch", "jump"} & rf.kinds) and len(r.events) > 1


class Functions(Diff):
    prop = "C04"
    quick = 2400
    rule = "random functions of every arity and number of returns, in the main program and in blocks, calling each other; a case counts if a call returned"
    feats = {"if", "func", "call", "loop", "block", "jump", "nested_fn", "probe", "const", "uint8", "bytesn", "struct", "multi", "unders", "outer", "mix_defs", "u64", "bigint", "std", "ops"}
    keep = ("func", "call", "probe")
    need = {"x_return": 500, "x_assign": 300}

    def generate(self, rng):
        g = Gen(rng, self.features(rng), size=rng.choice([3, 5, 7]), max_vars=30, depth=rng.choice([1, 2]), tweak={"call": 4, "mcall": 5, "return": 3})
        return g, g.program()

    def nontrivial(self, rf, r):
        return "return" in rf.kinds and len(r.events) > 1


class Storage(Diff):
    prop = "C05"
    rule = ("programs with many variables in main, blocks, loops and functions, each holding its own value, all live ones logged at random points; "
            "and programs of up to 300 variables, which must run correctly or be refused; a case counts if it logged at least 5 variables")
    feats = {"if", "func", "call", "loop", "block", "jump", "nested_fn", "const", "uint8", "bytesn", "dump", "outer", "unders", "switch", "struct", "mix_defs"}
    keep = ("dump",)
    need = {"x_decl": 500, "x_call": 500, "refused": 5, "many": 20}
    quick = 1300
    thorough = 14000

    def generate(self, rng):
        g = Gen(rng, self.features(rng), size=rng.choice([4, 6, 9]), max_vars=rng.choice([20, 40, 80]), depth=rng.choice([0, 1]),
                tweak={"decl": 4, "for_": 2})
        return g, g.program()

    def case(self, rng, index, c):
        if index % 6 == 0:
            return self.many(rng, c)
        super().case(rng, index, c)

    def many(self, rng, c):
        """A great many variables in main, functions and blocks"""
        import tealish

        p = lang.Program()
        p.version = 8
        p.funcs = []
        n_main = rng.choice([5, 60, 120, 150, 190, 199, 200, 201, 210, 250, 260])
        n_f = rng.choice([0, 0, 1, 2, 3, 6])
        n_sub = rng.choice([0, 0, 1, 3, 30])
        n_after = rng.choice([0, 0, 3]) if n_sub else 0
        if rng.random() < 0.4:
            # around the number of slots there are for the main program
            n_main = rng.choice([197, 198, 199, 200, 201, 202]) - rng.choice([0, n_sub + 1 if n_sub else 0, n_after])
            n_f = rng.choice([0, 0, 0, n_f])
        group = rng.random() < 0.25
        fsizes = None
        if rng.random() < 0.3:
            # around the number of slots there are in all
            n_sub, n_after, group = 0, 0, rng.random() < 0.2
            n_main = rng.choice([30, 100, 180, 195])
            left = rng.randrange(252, 260) - n_main
            fsizes = []
            while left > 0:
                fsizes.append(min(left, rng.choice([1, 7, 30, 60, 110])))
                left -= fsizes[-1]
            n_f = len(fsizes)
        names = iter(f"v{i}" for i in range(10**6))

        def fill(body, n, tag):
            vs = []
            for i in range(n):
                v = lang.Var(next(names), lang.INT)
                vs.append(v)
                body.append(lang.S("decl", var=v, expr=("int", tag * 1000 + i)))
            return vs

        def dump(body, vs):
            for v in vs:
                body.append(lang.S("call", expr=("op", "log", (), [("op", "itob", (), [("var", v)])])))

        main = p.main
        fs = []
        for k in range(n_f):
            f = lang.Func(f"f{k}", k)
            f.args, f.returns, f.pre = [lang.Var(next(names), lang.INT) for _ in range(rng.randrange(0, 4))], [lang.INT], []
            if fsizes is not None:
                f.args = f.args[: fsizes[k]]
            vs = fill(f.body, fsizes[k] - len(f.args) if fsizes is not None else rng.choice([0, 1, 5, 20, 40]), k + 1)
            if fs and rng.random() < 0.8:
                g = rng.choice(fs)
                f.body.append(lang.S("call", expr=("op", "log", (), [("op", "itob", (), [("call", g, [("int", 7) for _ in g.args])])])))
            dump(f.body, vs + f.args)
            f.body.append(lang.S("return", exprs=[("int", k)]))
            fs.append(f)
        main.funcs = main.after = fs
        vs = fill(main.body, n_main, 0)
        sub = []
        if group:
            t = lambda: lang.S("itxn", fields=[("TypeEnum", None, ("enum", "Pay")), ("Amount", None, ("int", 5))])
            main.body.append(lang.S("igroup", body=[t(), t()]))
        if n_sub:
            lv = lang.Var(next(names), lang.INT)
            lb = []
            sub = fill(lb, n_sub, 50)
            dump(lb, sub + [lv] + vs[:3])
            main.body.append(lang.S("for", var=lv, start=("int", 0), end=("int", 2), body=lb))
            vs += fill(main.body, n_after, 60)
        for f in fs:
            main.body.append(lang.S("assign", vars=[vs[0]], expr=("call", f, [("int", 9) for _ in f.args])))
        dump(main.body, vs)
        main.body.append(lang.S("exit", expr=("int", 1)))
        src = lang.source(p)
        total = n_main + len(sub) + sum(len([s for s in f.body if s.kind == "decl"]) + len(f.args) for f in fs) + 4
        c.hit("many")
        try:
            with watchdog(60), quiet():
                out, _ = tealish.compile_program(src)
        except tealish.CompileError as e:
            c.hit("refused")
            if total < 190:
                raise Violation(f"program with {total} variables refused: {e}", source=src)
            c.sig = digest("refused", n_main, n_f)
            return
        except Exception as e:
            raise Violation(f"program with {total} variables: {type(e).__name__}: {e}", source=src)
        prog = assemble(out, src)
        w = ctx.world(rng)
        w2 = w.clone()
        r = ref.Ref(p, w).run()
        o = avm.run(prog, w2)
        self.compare(p, src, out, r, o, None)
        c.hit("runs")
        c.hit("events", len(r.events))
        c.sig = digest(src)

    def nontrivial(self, rf, r):
        return sum(e[0] == "log" for e in r.events) >= 5


class Stack(Diff):
    prop = "C06"
    quick = 1800
    rule = ("all statement kinds with stack probes between them: the depth at every probe of an activation must be that of its first, functions must "
            "take exactly their arguments and leave exactly their results; a case counts if at least 4 probes were compared")
    feats = {"if", "func", "call", "loop", "block", "jump", "switch", "nested_fn", "probe", "const", "uint8", "bytesn", "struct", "box", "multi", "unders",
             "std", "ops", "itxn", "igroup", "state", "teal", "pushpop", "bigint", "fields", "exits"}
    keep = ("probe",)
    need = {"probes": 3000, "misfit_rejected": 100, "x_for_": 50, "x_itxn": 50, "x_box": 50, "x_switch": 50, "fn_frames": 200}

    def features(self, rng):
        f = super().features(rng)
        if rng.random() < 0.08:
            f |= {"unders", "unders_main", "loop"}
        return f

    def generate(self, rng):
        g = Gen(rng, self.features(rng), size=rng.choice([4, 6, 8]), max_vars=25, depth=rng.choice([1, 2]), probe_rate=0.4)
        return g, g.program()

    def case(self, rng, index, c):
        if index % 6 == 5:
            return self.unbalanced(rng, c)
        super().case(rng, index, c)

    def unbalanced(self, rng, c):
        """A statement with more or fewer values than it has room for: when it is
        accepted, the stack must be balanced all the same"""
        import tealish

        p = Gen(rng, super().features(rng), size=rng.choice([2, 4]), max_vars=15, depth=1, probe_rate=0.4).program()
        bodies = [b for b in lang.bodies(p) if b]
        fns = [f for f in p.funcs if f.scope is None or f.scope is p.main] or p.funcs
        for _ in range(8):
            body = rng.choice(bodies)
            if body[0].kind not in ("itxn",):
                break
        at = rng.randrange(0, len(body))
        if rng.random() < 0.4:
            at = 0
        p.n_probes += 1
        body[at:at] = self.misfit(rng, p, fns) + [S("probe", n=p.n_probes)]
        src = lang.source(p)
        try:
            with watchdog(60), quiet():
                out, _ = tealish.compile_program(src)
        except (tealish.errors.ParseError, tealish.errors.CompileError):
            c.hit("misfit_rejected")
            c.sig = digest(src)
            return
        except Exception:
            # not a report: that is for C20
            c.hit("misfit_crashed")
            return
        c.hit("misfit_accepted")
        prog = assemble(out, src)
        for _ in range(self.worlds):
            o = avm.run(prog, self.world(rng, p), sigs=p.probe_sigs)
            c.hit("misfit_runs")
            if o.depth_errors:
                raise Violation(f"stack depth: {o.depth_errors[:3]} (kind, probe, depth, expected depth)", source=src, teal="\n".join(out))
            if o.kind == "underflow":
                raise Violation("stack underflow", source=src, teal="\n".join(out))
        c.sig = digest(src)

    def misfit(self, rng, p, fns):
        def value(t):
            return ("int", 1) if lang.is_int(t) else ("bytes", b"z" * lang.tsize(t), "z" * lang.tsize(t))

        one, b = ("int", 3), ("bytes", b"ab", "ab")
        calls = [(("op", o, (), a), n) for o, a, n in (
            ("itob", [one], 1), ("len", [b], 1), ("sha256", [b], 1), ("concat", [b, b], 1), ("addw", [one, one], 2), ("mulw", [one, one], 2),
            ("expw", [one, one], 2), ("divmodw", [one] * 4, 4), ("app_global_get_ex", [("int", 0), b], 2), ("app_global_get", [b], 1),
            ("box_get", [b], 2), ("box_len", [b], 2), ("box_del", [b], 1), ("log", [b], 0), ("app_global_put", [b, one], 0), ("app_global_del", [b], 0),
            ("select", [one, one, one], 1), ("btoi", [b], 1), ("bzero", [one], 1))]
        calls += [(("std", "Concat", [b, b]), 1), (("std", "Rpad", [b, 8]), 1), (("std", "SizeOf", [("type", INT)]), 1)]
        mine = [(("call", f, [value(a.type) for a in f.args]), len(f.returns)) for f in fns if not any(a.type[0] in ("box", "struct") for a in f.args)]
        x, n = rng.choice(mine) if mine and rng.random() < 0.5 else rng.choice(calls)
        names = iter(range(99))

        def new():
            return lang.Var(f"zq{next(names)}", INT)

        k = rng.random()
        if k < 0.45:
            return [S("call", expr=x)]
        if k < 0.7:
            # another number of names than there are values
            m = rng.choice([i for i in (1, 2, 3, 4, 5) if i != n])
            vs = [new() for _ in range(m)]
            return [S("decl", var=v, expr=None) for v in vs] + [S("assign", vars=[v if rng.random() < 0.7 else None for v in vs], expr=x)]
        if k < 0.8:
            return [S("decl", var=new(), expr=x)]
        y = ("bin", rng.choice(["+", "==", "|"]), x, one) if rng.random() < 0.5 else ("op", "itob", (), [x])
        if rng.random() < 0.5:
            return [S("decl", var=new(), expr=y)]
        return [S("if", branches=[(False, x, [S("comment", text=" x")])], else_body=None)] if rng.random() < 0.5 else [S("assert", expr=x, msg=None)]

    def monitor(self, p, rf, r, o, w, w2, c, src, out):
        n = sum(e[0] == "probe" for e in o.events)
        c.hit("probes", n)
        c.hit("fn_frames", sum(1 for e in o.events if e[0] == "probe" and e[1] in p.probe_sigs))
        if o.depth_errors:
            # the counter of a top level `for _` loop stays on the stack
            known = all(k == "probe" and d > 0 and got - want == leak for (k, d, got, want), leak in self.explain(o, rf))
            raise Violation(
                f"stack depth: {o.depth_errors[:3]} (kind, probe, depth, expected depth)", known="for-underscore-counter" if known else None,
                source=src, teal="\n".join(out))
        if r.kind in ("accept", "reject", "panic") and o.kind == "underflow":
            raise Violation("stack underflow", source=src, teal="\n".join(out))

    def explain(self, o, rf):
        """Depth errors with the number of counters left behind so far"""
        out = []
        for err in o.depth_errors:
            leak = rf.leaks.get(err[1])
            out.append((("probe" if err[0] == "probe" else "other", 1, err[2], err[3]), err[2] - err[3] if leak and (err[2] - err[3]) in leak else -1))
        return out

    def nontrivial(self, rf, r):
        return sum(e[0] == "probe" for e in r.events) >= 4


class Structs(Diff):
    prop = "C07"
    quick = 2000
    rule = "random struct layouts (ints, uint8, bytes[n], nested structs, arrays, fields beyond offset 255) with reads and writes of fields and whole values logged; counts if a field was written"
    feats = {"if", "struct", "func", "call", "loop", "const", "uint8", "bytesn", "std", "ops", "array", "u64", "block", "jump", "multi", "bigstruct", "dump"}
    keep = ("struct",)
    need = {"x_setfield": 300, "events": 2000}

    def generate(self, rng):
        f = self.features(rng)
        if rng.random() < 0.7:
            f.discard("bigstruct")
        g = Gen(rng, f, size=rng.choice([4, 6, 8]), max_vars=20, depth=rng.choice([1, 2]), tweak={"setfield": 4, "log": 2})
        return g, g.program()

    def nontrivial(self, rf, r):
        return "setfield" in rf.kinds and len(r.events) > 0


class Boxes(Diff):
    prop = "C08"
    quick = 1800
    rule = "typed boxes opened, created and referenced by literal, computed and variable keys in ledgers with existing, missing and wrongly sized boxes; counts if a box was touched"
    feats = {"if", "struct", "box", "func", "call", "loop", "const", "uint8", "bytesn", "std", "ops", "bigstruct", "block", "jump", "state"}
    keep = ("box", "struct")
    need = {"x_box": 400, "x_setfield": 200, "run_panic": 20}

    def generate(self, rng):
        f = self.features(rng)
        if rng.random() < 0.7:
            f.discard("bigstruct")
        g = Gen(rng, f, size=rng.choice([4, 6, 8]), max_vars=20, depth=rng.choice([1, 2]), tweak={"box": 3, "setfield": 4, "log": 2})
        return g, g.program()

    def world(self, rng, p):
        w = super().world(rng, p)
        # ledgers where some boxes are missing or have another size
        for k in sorted(w.boxes):
            x = rng.random()
            if x < 0.03:
                del w.boxes[k]
            elif x < 0.06:
                w.boxes[k] = w.boxes[k] + b"\0" if rng.random() < 0.5 else w.boxes[k][:-1]
        for s in p.structs:
            if rng.random() < 0.08:
                w.boxes[f"{s.name}_new1".encode()] = bytes(s.size)
        return w

    def nontrivial(self, rf, r):
        return "box" in rf.kinds


class Stdlib(Diff):
    prop = "C11"
    quick = 6000
    thorough = 60000
    rule = "expressions built from the standard library functions over values of every length; counts if a library call was made and logged"
    feats = {"if", "std", "const", "uint8", "bytesn", "struct", "ops", "bigint", "func", "call", "enum", "fields"}
    keep = ("std",)
    need = {"std_calls": 2000, "address": 50, "not_address": 50}

    def generate(self, rng):
        g = Gen(rng, self.features(rng), size=rng.choice([3, 5]), max_vars=10, depth=rng.choice([2, 3]), tweak={"log": 4}, panic=rng.choice([0.004, 0.05]))
        g.boost_std = True
        return g, g.program()

    def addresses(self, rng, c):
        """A text is accepted by Address exactly if it is an address"""
        import base64

        import tealish
        from tealish.errors import CompileError, ParseError

        pk = rng.choice([bytes(rng.randrange(256) for _ in range(32)), bytes(32), b"\xff" * 32])
        a = t = base64.b32encode(pk + teal.sha512_256(pk)[-4:]).decode().rstrip("=")
        i = rng.randrange(58)
        x = rng.random()
        if x < 0.3:
            t = t[:i] + rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567") + t[i + 1:]
        elif x < 0.7:
            t = rng.choice([t[:-1], t[1:], t + "A", t + "======", t.lower(), t[:i] + rng.choice("0189a=- \u00e9") + t[i + 1:], "", t[:i] + t[i + 1:], t[:52] + t[53:] + "A", t + t, " " + t])
        src = f'#pragma version 8\nlog(Address("{t}"))\nexit(1)\n'
        try:
            with watchdog(60), quiet():
                out, _ = tealish.compile_program(src)
        except (CompileError, ParseError) as e:
            if t == a:
                raise Violation(f"address refused: {e}"[:300], source=src)
            c.hit("not_address")
            return
        if t != a:
            raise Violation(f"Address of a text that is not an address: {t!r}", source=src)
        o = avm.run(assemble(out, src), ctx.world(rng))
        if [e for e in o.events if e[0] == "log"] != [("log", pk)]:
            raise Violation(f"the address is {o.events}", source=src)
        c.hit("address")

    def case(self, rng, index, c):
        if index % 8 == 0:
            self.addresses(rng, c)
        if index % 3 == 2:
            # arguments of known and unknown sizes, around the sizes asked for
            from .conv import Conversions

            return Conversions().case(rng, index, c)
        super().case(rng, index, c)

    def monitor(self, p, rf, r, o, w, w2, c, src, out):
        super().monitor(p, rf, r, o, w, w2, c, src, out)
        for k, n in rf.std.items():
            c.hit("std_" + k, n)
            c.hit("std_calls", n)

    def nontrivial(self, rf, r):
        return bool(rf.std) and len(r.events) > 0


class Router(Diff):
    prop = "C12"
    quick = 1600
    rule = "routers over random public functions (every argument and return type, every OnCompletion) called with matching, nearly matching and wrong application arguments; counts if a route was taken"
    feats = {"if", "router", "func", "call", "const", "uint8", "bytesn", "struct", "std", "ops", "state", "u64", "bigint", "block", "nested_fn", "mix_defs", "multi", "outer"}
    keep = ("router",)
    worlds = 8
    need = {"x_router": 1000, "run_accept": 500, "run_panic": 100, "decorator_refused": 100, "decorator_spaces": 10}

    def generate(self, rng):
        g = Gen(rng, self.features(rng), size=rng.choice([3, 5]), max_vars=20, depth=rng.choice([1, 2]))
        p = g.program()
        if not hasattr(p, "routed"):
            raise Inconclusive
        return g, p

    def run_worlds(self, rng, g, p, src, out, prog, c):
        super().run_worlds(rng, g, p, src, out, prog, c)
        if rng.random() < 0.25:
            self.decorators(rng, src, out, c)

    def decorators(self, rng, src, out, c):
        """The completion kind of a public function is never other than the one written"""
        lines = src.split("\n")
        at = [i for i, l in enumerate(lines) if l.strip().startswith("@public(")]
        routed = set()
        for i, l in enumerate(lines):
            if l.strip() == "router:":
                j = i + 1
                while lines[j].strip() != "end":
                    routed.add(lines[j].strip())
                    j += 1
        if not at:
            return
        i = rng.choice(at)
        ind = lines[i][: len(lines[i]) - len(lines[i].lstrip())]
        oc = re.match(r"@public\((?:OnCompletion=(\w+))?\)$", lines[i].strip())[1]
        f = next(m[1] for m in (re.match(r"\s*func (\w+)\(", l) for l in lines[i:]) if m)
        x = oc or "OptIn"
        y = "NoOp" if x != "NoOp" else "CloseOut"
        kind = rng.choice(["spaces", "bare", "key", "more", "twice", "equals", "after", "value", "again", "colon"])
        new = {
            "spaces": f"@public( OnCompletion = {oc} )" if oc else "@public( )", "bare": f"@public({x})", "key": f"@public(onCompletion={x})", "more": f"@public(OnCompletion={x}, x=1)",
            "twice": f"@public(OnCompletion={x}, OnCompletion={y})", "equals": f"@public(OnCompletion=={x})", "after": f"@public(OnCompletion={x},)", "value": f"@public(OnCompletion={x.lower()})",
            "again": f"@public()\n{ind}@public(OnCompletion={x})", "colon": f"@public(OnCompletion: {x})",
        }[kind]
        src2 = "\n".join(lines[:i] + [ind + new] + lines[i + 1:])
        import tealish
        from tealish.errors import CompileError, ParseError

        try:
            with watchdog(60), quiet():
                out2, _ = tealish.compile_program(src2)
        except (CompileError, ParseError) as e:
            if kind == "spaces":
                raise Violation(f"decorator with spaces refused: {new}: {e}"[:400], source=src2)
            c.hit("decorator_refused")
            return
        strip = lambda o: [l.split("// tl:")[0].rstrip() for l in o]  # noqa
        if kind == "spaces":
            if strip(out2) != strip(out):
                raise Violation(f"spaces in a decorator change the program: {new}", source=src2, teal="\n".join(out2))
            c.hit("decorator_spaces")
        elif kind in ("key", "value", "more") and f not in routed:
            # the values of the parameters of a function no call is routed to mean nothing
            c.hit("decorator_unused")
        else:
            raise Violation(f"decorator accepted and not understood: {new}", source=src2, teal="\n".join(out2))

    def nontrivial(self, rf, r):
        return "router" in rf.kinds and "return" in rf.kinds


class InnerTxns(Diff):
    prop = "C13"
    quick = 1300
    rule = "inner transactions and groups, in branches, loops, functions and functions called from groups, with every field recorded; counts if something was submitted"
    feats = {"if", "itxn", "igroup", "func", "call", "loop", "const", "bytesn", "std", "ops", "block", "jump", "fields", "enum", "nested_fn", "unders", "itxn_calls", "outer"}
    keep = ("itxn", "igroup")
    need = {"submitted": 1000, "groups": 200, "form_refused": 200, "form_accepted": 200}

    def generate(self, rng):
        g = Gen(rng, self.features(rng), size=rng.choice([3, 5, 7]), max_vars=20, depth=rng.choice([1, 2]), tweak={"itxn": 2, "igroup": 3})
        return g, g.program()

    def case(self, rng, index, c):
        self.forms(rng, c)
        super().case(rng, index, c)

    def forms(self, rng, c):
        """Every field in every form: accepted exactly if it can be set and the indices count up"""
        import tealish
        from tealish.errors import CompileError, ParseError

        txn, arrays, settable = teal.SPEC["txn"]["enum"], teal.SPEC["txna"]["enum"], teal.SPEC["itxn_field"]["enum"]
        types = dict(zip(txn, teal.SPEC["txn"]["enumtypes"]))
        val = lambda f: rng.choice(["0", "v", "v + 1", "G"] if types.get(f) == "U" else ['"a"', "w", "itob(v)", "Txn.Note"])  # noqa
        fields, ok = [], True
        for _ in range(rng.choice([1, 1, 2])):
            f = rng.choice(settable) if rng.random() < 0.7 else rng.choice(txn + arrays + ["Nope", "fee", "Fees", "Gtxn"])
            n = rng.choice([None, None, 1, 1, 2, 3])
            if any(f == g for g, _ in fields):
                continue
            ok &= f in settable and (n is None or f in arrays)
            if n is None:
                fields.append((f, [f"{f}: {val(f)}"]))
            else:
                ix = list(range(n))
                if rng.random() < 0.2:
                    ix = rng.choice([[i + 1 for i in ix], ix + [n + 1], ix + [n - 1], [0] + ix, ix[::-1] + [n]])
                    ok &= ix == list(range(len(ix)))
                fields.append((f, [f"{f}[{i}]: {val(f)}" for i in ix]))
        body = "\n".join("    " + l for _, ls in fields for l in ls)
        src = f'#pragma version 8\nconst int G = 1\nint v = 1\nbytes w = "a"\ninner_txn:\n{body}\nend\nexit(1)\n'
        if rng.random() < 0.3:
            src = src.replace("inner_txn:", "inner_group:\ninner_txn:").replace("\nend\n", "\nend\nend\n")
        try:
            with watchdog(60), quiet():
                out, _ = tealish.compile_program(src)
        except (CompileError, ParseError) as e:
            if ok:
                raise Violation(f"fields of an inner transaction refused: {e}"[:400], source=src)
            c.hit("form_refused")
            return
        if not ok:
            raise Violation("an inner transaction has no such fields", source=src, teal="\n".join(out))
        prog = assemble(out, src)
        got = sorted(i.imms[0] for i in prog.instrs if i.op == "itxn_field")
        want = sorted(f for f, ls in fields for _ in ls)
        if got != want:
            raise Violation(f"fields set: {got}, written: {want}", source=src, teal="\n".join(out))
        c.hit("form_accepted")

    def monitor(self, p, rf, r, o, w, w2, c, src, out):
        super().monitor(p, rf, r, o, w, w2, c, src, out)
        for e in o.events:
            if e[0] == "itxn":
                c.hit("submitted")
                if len(e[1]) > 1:
                    c.hit("groups")

    def nontrivial(self, rf, r):
        return any(e[0] == "itxn" for e in r.events)


class Fields(Diff):
    prop = "C15"
    quick = 6000
    thorough = 60000
    rule = "reads of transaction, group, inner transaction and global fields, arrays with literal and computed indices, absolute and relative group indices, in groups of varying size and position; counts if a field was read and logged"
    feats = {"if", "fields", "const", "ops", "std", "loop", "func", "call", "itxn", "enum", "multi"}
    keep = ("fields",)
    worlds = 4
    need = {"field_reads": 3000, "run_panic": 20, "form_refused": 300, "form_accepted": 300}

    def generate(self, rng):
        g = Gen(rng, self.features(rng), size=rng.choice([3, 5]), max_vars=10, depth=rng.choice([1, 2, 3]), tweak={"log": 4, "itxn": 0.5})
        g.boost_fields = True
        big = rng.random() < 0.4
        if big:
            g.n_group, g.rel = 16, 7
        p = g.program()
        p.big_group = big
        return g, p

    def world(self, rng, p):
        if rng.random() < 0.15:
            n = rng.randrange(1, 17 if p.big_group else 6)
            return ctx.world(rng, p, n_group=n, gi=rng.randrange(n))
        if p.big_group:
            return ctx.world(rng, p, n_group=16, gi=rng.choice([7, 8]))
        return ctx.world(rng, p)

    def case(self, rng, index, c):
        if index % 4 == 0:
            self.forms(rng, c, index // 4)
        super().case(rng, index, c)

    def forms(self, rng, c, index):
        """Every field in every form of access: accepted exactly if there is such a field"""
        import tealish
        from tealish.errors import CompileError, ParseError

        txn, arrays, glob = teal.SPEC["txn"]["enum"], teal.SPEC["txna"]["enum"], teal.SPEC["global"]["enum"]
        types = dict(zip(txn, teal.SPEC["txn"]["enumtypes"]), **dict(zip(glob, teal.SPEC["global"]["enumtypes"])))
        if index % 6 == 5:
            f = rng.choice(glob + ["Nope", "Fee", "globalsize", "GroupSize2"])
            where, ix = "Global", rng.choice(["", "", "", "[0]", "[v]"])
            ok = f in glob and not ix
        else:
            f = (txn + arrays + arrays)[index % (len(txn) + 2 * len(arrays))] if rng.random() < 0.9 else rng.choice(["Nope", "GroupSize", "sender", "ApplicationArg", "Sender_", "Application"])
            where = rng.choice(["Txn", "Txn", "Itxn", "Gtxn[0]", "Gtxn[15]", "Gtxn[+1]", "Gtxn[-1]", "Gtxn[v]", "Gtxn[v + 1]", "Gtxn[G]"])
            ix = rng.choice(["", "", "[0]", "[1]", "[255]", "[v]", "[v + 1]", "[(v - 1)]", "[len(w)]", "[G]", "[w]"])
            ok = f in txn and (f in arrays) == (ix != "") and ix != "[w]"
        x = f"{where}.{f}{ix}"
        t = types.get(f, "B")
        new = rng.choice([f"log({x})" if t == "B" else f"log(itob({x}))", f"{'bytes' if t == 'B' else 'int'} x = {x}", f"assert({'len(%s)' % x if t == 'B' else x} != 5)", f"if {x} == {'w' if t == 'B' else 'v'}:\n    v = 2\nend"])
        src = f'#pragma version 8\nconst int G = 1\nint v = 1\nbytes w = "a"\n{new}\nexit(1)\n'
        try:
            with watchdog(60), quiet():
                out, _ = tealish.compile_program(src)
        except (CompileError, ParseError) as e:
            if ok:
                raise Violation(f"field refused: {x}: {e}"[:400], source=src)
            c.hit("form_refused")
            return
        if not ok:
            raise Violation(f"there is no {x}", source=src, teal="\n".join(out))
        assemble(out, src)
        c.hit("form_accepted")

    def monitor(self, p, rf, r, o, w, w2, c, src, out):
        super().monitor(p, rf, r, o, w, w2, c, src, out)
        for k, n in rf.fields.items():
            c.hit("field_" + k, n)
            c.hit("field_reads", n)

    def nontrivial(self, rf, r):
        return bool(rf.fields) and len(r.events) > 0


class Literals(Diff):
    prop = "C16"
    quick = 2400
    rule = ("integer literals over the 64 bit range, byte strings of every content (quotes, escapes, comment and statement punctuation, UTF-8), hex constants, "
            "named constants and builtin constants in every position, logged; counts if a literal was logged")
    feats = {"if", "const", "hostile", "lits", "enum", "lconst", "uint8", "bytesn", "std", "ops", "func", "call", "switch", "block", "state", "itxn", "comment", "loop"}
    keep = ("hostile", "lits", "const")
    need = {"x_call": 1000, "events": 2000, "escape_refused": 300, "escape_accepted": 100}

    def case(self, rng, index, c):
        self.escapes(rng, c)
        super().case(rng, index, c)

    def escapes(self, rng, c):
        """A string is accepted exactly if its escapes are TEAL's, and denotes the bytes written, wherever it stands"""
        import tealish
        from tealish.errors import CompileError, ParseError

        parts = ["a", "b c", "\\n", "\\t", "\\r", "\\\\", '\\"', "\\x00", "\\x41", "\\xfF", "\\x22", "\\x5c", "\u00e9", "//", "#", ";", "'", ")", "\\\\n", "\\\\x41", "0x41"]
        t = "".join(rng.choice(parts) for _ in range(rng.randrange(6)))
        bad = ""
        if rng.random() < 0.5:
            bad = rng.choice(["\\0", "\\q", "\\'", "\\x", "\\x4", "\\xg0", "\\x 1", "\\u0041", "\\N", "\\a", "\\X41", "\\101", "\\ "])
            i = rng.choice([0, len(t)])
            # x41 after an x escape left open would close it
            t = t[:i] + bad + ("g" if i == 0 else "") + t[i:]
        try:
            want = teal.parse_string(f'"{t}"')
            ok = True
        except teal.TealError:
            ok = False
        assert ok == (not bad)
        d = rng.choice(["log({})", "bytes x = {}\nlog(x)", "const bytes X = {}\nlog(X)", 'log(concat({}, ""))', "log(Concat({}))", "log(ff({}))", "bytes x\nx = {}\nlog(x)", "S s = Cast(bzero(%d), S)\ns.a = {}\nlog(s.a)" % len(t),
                        "teal_", 'if {} == "never":\n    exit(0)\nend\nlog({})', "log(extract3({}, 0, len({})))", "log(select(\"no\", {}, 1))"])
        size = len(want) if ok else 3
        if d == "teal_" or (d.startswith("S s") and not size):
            d = "log({})"
        if d.startswith("S s"):
            d = f"S s = Cast(bzero({size}), S)\ns.a = {{}}\nlog(s.a)"
        lit = f'"{t}"'
        src = (f"#pragma version 8\nstruct S:\n    a: bytes[{max(size, 1)}]\nend\n" + d.replace("{}", lit) + "\nexit(1)\nfunc ff(z: bytes) bytes:\n    return z\nend\n")
        try:
            with watchdog(60), quiet():
                out, _ = tealish.compile_program(src)
        except (CompileError, ParseError) as e:
            if ok:
                raise Violation(f"string refused: {lit}: {e}"[:400], source=src)
            c.hit("escape_refused")
            return
        if not ok:
            raise Violation(f"string with an escape that does not exist accepted: {lit}", source=src, teal="\n".join(out))
        o = avm.run(assemble(out, src), ctx.world(rng))
        if [e for e in o.events if e[0] == "log"] != [("log", want)] or o.verdict() != ("return", 1):
            raise Violation(f"{lit} denotes {[e for e in o.events if e[0] == 'log']}, written {want!r}"[:500], source=src, teal="\n".join(out))
        c.hit("escape_accepted")

    def generate(self, rng):
        g = Gen(rng, self.features(rng), size=rng.choice([3, 5, 7]), max_vars=10, depth=rng.choice([0, 1, 2]), tweak={"log": 4, "const": 3, "assert": 3})
        g.boost_lits = True
        return g, g.program()


class InlineTeal(Diff):
    prop = "C31"
    quick = 2400
    rule = "inline teal in main, branches, loops, functions and blocks: comments, several ops on a line, labels, strings with comment characters; values pushed and popped; counts if inline teal was executed and logged"
    feats = {"if", "teal", "pushpop", "func", "call", "loop", "block", "jump", "const", "hostile", "probe"}
    keep = ("teal", "pushpop")
    need = {"x_teal": 500}

    def generate(self, rng):
        g = Gen(rng, self.features(rng), size=rng.choice([3, 5, 7]), max_vars=15, depth=1, tweak={"teal": 4, "pushpop": 4})
        return g, g.program()

    def nontrivial(self, rf, r):
        return "teal" in rf.kinds and len(r.events) > 0


CHECKS = [Expressions, ControlFlow, Blocks, Functions, Storage, Stack, Structs, Boxes, Stdlib, Router, InnerTxns, Fields, Literals, InlineTeal]
