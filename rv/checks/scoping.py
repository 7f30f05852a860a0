"""Names and places: which declaration a use refers to, and what may stand where"""
from .. import avm, ctx, teal
from ..common import Check, Violation, digest, quiet, watchdog

VARS = ["a", "total", "x1", "foo_bar", "counter", "amt"]
CONSTS = ["A", "KEY", "MAX_1", "LIMIT"]
FUNCS = ["compute", "f", "helper_2", "do_it", "check"]
BLOCKS = ["setup", "b", "finish", "part_2"]


class Scope:
    """main, block, func, while, for, for_, if (transparent for names)"""

    def __init__(self, kind, name, parent):
        self.kind, self.name, self.parent = kind, name, parent
        self.stmts = []  # strings or Scopes, before the exit
        self.exit = None
        self.after = []
        self.branch = None  # if: second list of statements

    def own(self):
        """The scope names declared here belong to"""
        s = self
        while s.kind == "if":
            s = s.parent
        return s

    def chain(self):
        s, out = self, []
        while s is not None:
            out.append(s)
            s = s.parent
        return out

    def container(self):
        s = self
        while s.kind not in ("main", "block", "func"):
            s = s.parent
        return s


class Scoping(Check):
    prop = "C17"
    rule = ("random trees of blocks, functions, loops and conditionals with one or two declarations of a name and one use of it, or one misplaced statement; the compiler's verdict "
            "must be that of the visibility rules and an accepted program must use the right declaration when run; a case counts when a verdict was compared (distinct by source)")
    quick = 16000
    thorough = 150000
    need = {"refused": 800, "accepted": 800, "resolved": 500, "misplaced": 300}

    def case(self, rng, index, c):
        if rng.random() < 0.3:
            self.misplaced(rng, c)
        else:
            self.names(rng, c)

    # ---------------------------------------------------------------- names
    def tree(self):
        r = self.r
        root = Scope("main", "", None)
        self.scopes = [root]
        self.serial = 0
        todo = [(root, 0)]
        while todo:
            s, d = todo.pop(0)
            if len(self.scopes) > 14:
                break
            if d < 4:
                for _ in range(r.choice([0, 1, 1, 2] if d else [1, 2, 2, 3])):
                    k = r.choice(["while", "for", "if", "if", "for_"])
                    if k == "for_" and s.container().kind == "main":
                        k = "for"
                    n = Scope(k, self.uniq("s"), s)
                    s.stmts.append(n)
                    self.scopes.append(n)
                    todo.append((n, d + 1))
                if s.kind in ("main", "block", "func"):
                    for _ in range(r.choice([0, 1, 1, 2, 2] if d < 2 else [0, 0, 1])):
                        k = "func" if s.kind == "func" else r.choice(["func", "block"])
                        n = Scope(k, self.uniq("u" if k == "func" else "v"), s)
                        s.after.append(n)
                        self.scopes.append(n)
                        todo.append((n, d + 1))
        return root

    def uniq(self, p):
        self.serial += 1
        return f"{p}_{self.serial}"

    def names(self, rng, c):
        r = self.r = rng
        root = self.tree()
        kind = r.choice(["var", "var", "var", "const", "const", "func", "func", "block", "arg", "forvar"])
        name = r.choice({"const": CONSTS, "func": FUNCS, "block": BLOCKS}.get(kind, VARS))
        n_decl = r.choice([0, 1, 1, 1, 1, 2, 2, 2])
        decls = []  # (scope declaring, value, kind)
        self.path = set()
        for i in range(n_decl):
            k = kind
            if kind in ("arg", "forvar", "var") and i:
                k = r.choice(["var", "var", "arg", "forvar"])
            if k in ("func", "block"):
                homes = [s for s in self.scopes if s.kind in (("main", "block") if k == "block" else ("main", "block", "func"))]
            elif k == "arg":
                homes = [s for s in self.scopes if s.kind == "func" and not hasattr(s, "arg")]
            elif k == "forvar":
                homes = [s for s in self.scopes if s.kind == "for" and not hasattr(s, "var")]
            else:
                homes = self.scopes
            if not homes:
                continue
            decls.append({"home": r.choice(homes), "value": 7000 + 11 * i + r.randrange(10), "kind": k})
            d = decls[-1]
            if k == "arg":
                d["home"].arg = (name, d["value"])
            if k == "forvar":
                d["home"].var = name
                d["home"].start = d["value"]
        # place the use
        use_home = r.choice(self.scopes if kind != "block" else [s for s in self.scopes if s.container().kind != "func"])
        if decls and r.random() < 0.35:
            h = decls[-1]["home"]
            near = [s for s in self.scopes if h in s.chain() or s in h.chain()]
            near = [s for s in near if kind != "block" or s.container().kind != "func"]
            use_home = r.choice(near or [use_home])
        use = {"var": f"log(itob({name}))", "arg": f"log(itob({name}))", "forvar": f"log(itob({name}))", "const": f"log(itob({name}))",
               "func": f"{name}()", "block": f"jump {name}"}[kind]
        form = r.random()
        if kind in ("var", "arg", "forvar") and decls and form < 0.2:
            use = r.choice([f"log(itob({name} + 0))", f"assert({name} < 100000)\nlog(itob({name}))", f"if {name}:\nlog(itob({name}))\nend",
                            f"log(Concat(\"\", itob({name})))", f"{name} = {name} + 0\nlog(itob({name}))"])
            if "= " in use and any(d["kind"] == "forvar" for d in decls):
                use = f"log(itob({name}))"
        elif kind == "const" and form < 0.2:
            use = r.choice([f"log(itob({name} + 0))", f"log(itob(({name} * 1) + 0))", f"for i9 in {name}:70000:\nlog(itob(i9))\nexit(1)\nend"])
        # statements
        for d in decls:
            h = d["home"]
            if d["kind"] == "var":
                ln = r.choice([f"int {name} = {d['value']}", f"int {name}\n{name} = {d['value']}"])
                h.stmts.insert(r.randrange(len(h.stmts) + 1), Stmt(ln, d))
            elif d["kind"] == "const":
                h.stmts.insert(r.randrange(len(h.stmts) + 1), Stmt(f"const int {name} = {d['value']}", d))
            elif d["kind"] in ("func", "block"):
                s = Scope(d["kind"], name, h)
                s.stmts.append(f'log(itob({d["value"]}))')
                s.target = d
                h.after.insert(r.randrange(len(h.after) + 1), s)
        u = Stmt(use, None)
        u.use = True
        if kind == "block" and use_home.kind in ("main", "block"):
            u.text = f"if 1:\n{use}\nend"
        use_home.stmts.insert(r.randrange(len(use_home.stmts) + 1), u)
        if kind == "block" and r.random() < 0.5 and use_home.kind in ("main", "block"):
            # as the exit statement of the container
            use_home.stmts.remove(u)
            use_home.exit = u
            u.text = use
            if r.random() < 0.4:
                use_home.exit = Stmt(f"switch 1:\n5: {name}\n1: {name}\nelse: {name}\nend", None)
                use_home.exit.use = True
        # the way to the use
        way = []
        s = use_home
        while s is not None:
            way.append(s)
            s = s.parent
        way = way[::-1]
        self.way = way
        for a in way:
            if a.kind in ("func", "block"):
                p = a.parent.container()
                if a.kind == "func":
                    arg = getattr(a, "arg", None)
                    call = Stmt(f"{a.name}({arg[1] if arg else ''})", None)
                    # functions defined after the exit are called last, when everything is declared
                    p.stmts.append(call)
                elif p.exit is None:
                    p.exit = Stmt(f"jump {a.name}", None)
        self.lines = []
        self.order = []
        self.emit(root, 0, None)
        src = "#pragma version 8\n" + "\n".join(self.lines) + "\n"
        self.verdict(rng, c, src, kind, name, decls, use_home, u)

    def emit(self, s, ind, parent):
        pad = "    " * ind
        w = lambda t: self.lines.append(pad + t)  # noqa
        i1 = ind + (s.kind != "main")
        if s.kind == "block":
            w(f"block {s.name}:")
        elif s.kind == "func":
            arg = getattr(s, "arg", None)
            w(f"func {s.name}({arg[0] + ': int' if arg else ''}):")
            if arg:
                self.order.append(("decl", s, arg[1]))
        elif s.kind == "while":
            w("while 1:")
        elif s.kind == "for":
            v = getattr(s, "var", None)
            st = getattr(s, "start", 0)
            w(f"for {v or 'q' + s.name} in {st}:{st + 1}:")
            if v:
                self.order.append(("decl", s, st))
        elif s.kind == "for_":
            w("for _ in 0:1:")
        elif s.kind == "if":
            w("if 1:")
        for x in s.stmts + ([s.exit] if s.exit is not None and s.kind in ("main", "block") else []):
            if isinstance(x, Scope):
                self.emit(x, i1, s)
            elif isinstance(x, Stmt):
                k = 0
                for l in x.text.split("\n"):
                    if l == "end":
                        k -= 1
                    self.lines.append("    " * (i1 + k) + l)
                    if l.endswith(":"):
                        k += 1
                if x.decl is not None:
                    self.order.append(("decl", s, x.decl["value"]))
                if x.use:
                    self.order.append(("use", s, None))
            else:
                self.lines.append("    " * i1 + x)
        if s.kind in ("main", "block") and s.exit is None:
            self.lines.append("    " * i1 + "exit(1)")
        if s.kind == "func":
            self.lines.append("    " * i1 + "return")
        if s.kind == "while":
            self.lines.append("    " * i1 + "break")
        for x in s.after:
            self.emit(x, i1, s)
        if s.kind != "main":
            w("end")

    def expected(self, kind, name, decls, use_home):
        """None when the program must be refused, else the value of the use"""
        own_use = use_home.own()
        chain = [x for x in use_home.chain() if x.kind != "if"]
        if kind in ("func", "block"):
            # one name may be declared once in the same place
            homes = [d["home"].own() for d in decls]
            if len(set(map(id, homes))) < len(homes):
                return None
            for s in chain:
                for d in decls:
                    if d["home"].own() is s:
                        return d["value"]
            return None
        # variables and constants: in text order
        val = None
        seen = []  # (own scope, value) declared so far
        found = None
        for what, s, v in self.order:
            if what == "decl":
                o = s.own()
                ch = [x for x in s.chain() if x.kind != "if"]
                if any(p in ch for p, _ in seen):
                    return None  # redefinition of a visible name
                seen.append((o, v))
            else:
                vis = [(p, x) for p, x in seen if p in chain]
                if not vis:
                    found = "none"
                else:
                    found = vis[-1][1]
        if found == "none":
            return None
        return found

    def verdict(self, rng, c, src, kind, name, decls, use_home, u):
        import tealish
        from tealish.errors import CompileError, ParseError

        want = self.expected(kind, name, decls, use_home)
        where = f"{kind} {name} declared in {[d['home'].kind + ' ' + d['home'].name for d in decls]}, used in {use_home.kind} {use_home.name}"
        try:
            with watchdog(60), quiet():
                out, _ = tealish.compile_program(src)
        except (CompileError, ParseError) as e:
            if want is not None:
                raise Violation(f"visible name refused: {where}: {e}"[:500], source=src)
            c.hit("refused")
            c.sig = digest(src)
            return
        except Exception as e:
            raise Violation(f"{type(e).__name__}: {e}: {where}"[:500], source=src)
        if want is None:
            raise Violation(f"undefined or ambiguous name accepted: {where}", source=src, teal="\n".join(out))
        c.hit("accepted")
        c.sig = digest(src)
        try:
            prog = teal.assemble(out)
        except teal.TealError as e:
            raise Violation(f"emitted TEAL does not assemble: {e}; {where}", source=src, teal="\n".join(out))
        if kind in ("func", "block"):
            # through a recursion or a loop of jumps
            for d in decls:
                if d["value"] == want and any(s.name == name and s.kind == kind for s in self.way):
                    return
        o = avm.run(prog, ctx.world(rng), max_steps=3000)
        if o.kind == "limit":
            c.hit("loops")
            return
        vals = [int.from_bytes(e[1], "big") for e in o.events if e[0] == "log"]
        c.hit("runs")
        if o.verdict() != ("return", 1):
            raise Violation(f"the program stops with {o.verdict()} {o.msg}: {where}", source=src, teal="\n".join(out))
        if not vals:
            raise Violation(f"the use was not reached: {where}", source=src, teal="\n".join(out))
        if vals[0] != want:
            raise Violation(f"the use refers to the declaration with value {vals[0]}, expected {want}: {where}", source=src, teal="\n".join(out))
        c.hit("resolved")
        if c.sample is None and len(src) < 900 and len(decls) > 1:
            c.sample = {"source": src, "declaration": want}

    # ---------------------------------------------------------------- places
    def misplaced(self, rng, c):
        import tealish
        from tealish.errors import CompileError, ParseError

        r = rng
        base, spots = self.host(r)
        rule = r.choice(RULES)
        lines, ok = rule(r, base, spots)
        if lines is None:
            return
        src = "\n".join(lines) + "\n"
        try:
            with watchdog(60), quiet():
                out, _ = tealish.compile_program(src)
        except (CompileError, ParseError) as e:
            if ok:
                raise Violation(f"{rule.__name__}: valid placement refused: {e}"[:500], source=src)
            c.hit("misplaced")
            c.hit("r_" + rule.__name__)
            c.sig = digest(src)
            return
        except Exception as e:
            raise Violation(f"{rule.__name__}: {type(e).__name__}: {e}"[:500], source=src)
        if not ok:
            raise Violation(f"misplaced statement accepted: {rule.__name__}", source=src, teal="\n".join(out))
        try:
            teal.assemble(out)
        except teal.TealError as e:
            raise Violation(f"emitted TEAL does not assemble: {e}", source=src, teal="\n".join(out))
        c.hit("well_placed")
        c.sig = digest(src)

    def host(self, r):
        """A valid program and, per line, the place before it"""
        k = r.randrange(10**6)
        L, sp = [], []

        def w(ind, text, place):
            L.append("    " * ind + text)
            sp.append((place, ind))

        w(0, "#pragma version 8", "pragma")
        w(0, f"struct Host{k % 7}:", "structs")
        w(1, "a: int", "instruct")
        w(1, "b: bytes[4]", "instruct")
        w(0, "end", "instruct")
        w(0, f"int v = {k % 100}", "structs")
        for _ in range(r.randrange(3)):
            w(0, r.choice(["v = v + 1", "log(itob(v))", "# note", "", "const int C_%d = 4" % len(L)]), "main")
        w(0, "if v < 5:", "main")
        w(1, "v = 6", "if")
        if r.random() < 0.5:
            w(0, "elif v < 6:", "if")
            w(1, "log(itob(v))", "if")
        if r.random() < 0.5:
            w(0, "else:", "if")
            w(1, "log(itob(v))", "if")
        w(0, "end", "if")
        w(0, "while v < 9:", "main")
        w(1, "v = v + 1", "while")
        if r.random() < 0.5:
            w(1, "if v == 8:", "while")
            w(2, "v = 9", "whileif")
            w(1, "end", "whileif")
        w(0, "end", "while")
        w(0, "for i in 0:3:", "main")
        w(1, "log(itob(i))", "for")
        w(0, "end", "for")
        w(0, "go(3)", "main")
        w(0, "jump one", "main")
        w(0, "block one:", "after")
        w(1, "log(\"1\")", "block")
        w(1, "switch v:", "block")
        w(2, "1: two", "switch")
        w(2, "else: three", "switch")
        w(1, "end", "switch")
        w(1, "func inner() int:", "blockafter")
        w(2, "return 1", "func")
        w(1, "end", "funcafter")
        w(0, "end", "blockafter")
        w(0, "block two:", "after")
        w(1, "exit(1)", "block")
        w(0, "end", "blockafter")
        w(0, "block three:", "after")
        w(1, "exit(0)", "block")
        w(0, "end", "blockafter")
        w(0, "func go(a: int):", "after")
        w(1, "log(itob(a))", "func")
        w(1, "return", "func")
        w(0, "end", "funcafter")
        w(0, "@public()", "after")
        w(0, "func pub(a: int) int:", "no")
        w(1, "return a", "func")
        w(0, "end", "funcafter")
        L.append("")
        sp.append(("after", 0))
        return L, sp


class Stmt:
    def __init__(self, text, decl):
        self.text, self.decl, self.use = text, decl, False


def put(r, base, spots, places, new):
    at = [i for i, (p, _) in enumerate(spots) if p in places]
    if not at:
        return None
    i = r.choice(at)
    ind = spots[i][1]
    if spots[i][0] in ("func", "funcafter", "block", "blockafter", "while", "for", "if", "whileif", "switch", "instruct") and base[i].strip() in ("end", "else:") or base[i].strip().startswith("elif"):
        ind += 1
    pad = "    " * ind
    return base[:i] + [pad + l for l in new] + base[i:]


INBODY = ("main", "if", "while", "whileif", "for", "block", "func")


def return_outside(r, b, s):
    return put(r, b, s, [p for p in INBODY if p != "func"], [r.choice(["return", "return 1"])]), False


def return_count(r, b, s):
    f = r.choice([["func zz():", "return 1", "end"], ["func zz() int:", "return", "end"], ["func zz() int:", "return 1, 2", "end"], ["func zz() int, int:", "return 1", "end"]])
    return put(r, b, s, ("after",), f), False


def break_outside(r, b, s):
    return put(r, b, s, ("main", "if", "block", "func"), ["break"]), False


def break_inside(r, b, s):
    return put(r, b, s, ("while", "whileif"), ["break"]), True


def after_exit(r, b, s):
    st = r.choice([["v = 1"], ["log(\"a\")"], ["int zz = 1"], ["if 1:", "log(\"a\")", "end"], ["exit(1)"], ["jump two"], ["const int ZZ = 1"], ["while 1:", "break", "end"], ["teal:", "pushint 1", "pop", "end"], ["assert(1)"]])
    return put(r, b, s, ("after", "blockafter"), st), False


def defs_before_exit(r, b, s):
    d = r.choice([["func zz():", "    return", "end"], ["block zz:", "    exit(1)", "end"], ["@public()", "func zz():", "    return", "end"]])
    return put(r, b, s, ("main", "if", "while", "whileif", "for", "structs"), d), False


def defs_at_place(r, b, s):
    d = r.choice([["func zz():", "    return", "end"], ["block zz:", "    exit(1)", "end"], ["# note"], [""], ["@public()", "func zz():", "    return", "end"]])
    return put(r, b, s, ("after",), d), True


def block_in_func(r, b, s):
    return put(r, b, s, ("func", "funcafter"), ["block zz:", "    exit(1)", "end"]), False


def func_in_func(r, b, s):
    return put(r, b, s, ("funcafter",), ["func zz():", "    return", "end"]), True


def struct_late(r, b, s):
    return put(r, b, s, INBODY + ("after", "blockafter"), ["struct Late:", "    a: int", "end"]), False


def struct_dup(r, b, s):
    name = [l.split()[1][:-1] for l in b if l.startswith("struct ")][0]
    i = r.choice([1, 5])
    return b[:i] + [f"struct {name}:", "    z: int", "end"] + b[i:], False


def field_dup(r, b, s):
    return b[:4] + [r.choice(["    a: int", "    b: int", "    a: bytes[4]"])] + b[4:], False


def pragma_late(r, b, s):
    return put(r, b, s, INBODY + ("after", "structs"), ["#pragma version 8"]), False


def missing_end(r, b, s):
    at = [i for i, l in enumerate(b) if l.strip() == "end"]
    i = r.choice(at)
    return b[:i] + b[i + 1 :], False


def extra_end(r, b, s):
    return put(r, b, s, ("main", "after"), ["end"]), False


def no_exit_block(r, b, s):
    return put(r, b, s, ("after",), ["block zz:"] + r.choice([["    log(\"a\")"], [], ["    # nothing"], ["    if 1:", "        exit(1)", "    end"]]) + ["end"]), False


def no_return_func(r, b, s):
    return put(r, b, s, ("after",), ["func zz():"] + r.choice([["    log(\"a\")"], [], ["    # nothing"], ["    return", "    log(\"a\")"], ["    if 1:", "        return", "    end"]]) + ["end"]), False


def undefined(r, b, s):
    u = r.choice(["zz = 1", "log(zz)", "log(ZZ)", "zz()", "jump zz", "log(v.a)", "v.a = 1", "Nope n = bzero(4)", "nope n", "log(itob(zz + 1))", "log(zz.a)", "log(Txn.Nope)", "log(Gtxn[0].Nope)", "assert(zz)", "x, y = zz()",
                   "log(Itxn.Nope)", "log(Global.Nope)", "box<Nope> n = Box(\"a\")", "log(itob(SizeOf(Nope)))", "log(Nope(1))", "ZZ = 1", "one()", "jump go", "jump v", "v()", "go = 1", "log(itob(go))"])
    pl = [p for p in INBODY if p != "func"] if u.startswith("jump") else INBODY
    return put(r, b, s, pl, [u]), False


def undefined_field(r, b, s):
    name = [l.split()[1][:-1] for l in b if l.startswith("struct ")][0]
    u = r.choice(["log(zs.nope)", "zs.nope = 1", "log(zs.a.b)", "log(itob(zs.A))"])
    return put(r, b, s, ("main", "block", "func"), [f"{name} zs = bzero({12})", u]), False


def field_ok(r, b, s):
    name = [l.split()[1][:-1] for l in b if l.startswith("struct ")][0]
    u = r.choice(["log(zs.b)", "zs.a = 1", "zs.b = \"abcd\"", "log(itob(zs.a))"])
    return put(r, b, s, ("main", "block", "func"), [f"{name} zs = bzero({12})", u]), True


def bad_target(r, b, s):
    t = r.choice([["switch v:", "    1: zz", "    else: two", "end"], ["switch v:", "    1: two", "    else: zz", "end"]])
    i = r.choice([i for i, l in enumerate(b) if l == "jump one"])
    return b[:i] + t + b[i + 1 :], False


def second_else(r, b, s):
    t = r.choice([["    1: one", "    else: two", "    else: three"], ["    else: two", "    1: one", "    else: two"], ["    else: one", "    # else: two", "", "    else: three"]])
    i = r.choice([i for i, l in enumerate(b) if l == "jump one"])
    return b[:i] + ["switch v:"] + t + ["end"] + b[i + 1 :], False


def dup_block(r, b, s):
    return put(r, b, s, ("after",), ["block " + r.choice(["one", "two", "three"]) + ":", "    exit(1)", "end"]), False


def dup_func(r, b, s):
    return put(r, b, s, ("after",), [r.choice(["func go():", "func pub():", "func go(b: bytes):"]), "    return", "end"]), False


def wrong_args(r, b, s):
    return put(r, b, s, INBODY, [r.choice(["go()", "go(1, 2)", "go(\"a\")", "v = pub()", "v = pub(1, 2)", "v = go(1)", "int q9, int q8 = pub(1)", "v, v = pub(1)"])]), False


def right_args(r, b, s):
    return put(r, b, s, ("main", "if", "while", "whileif", "for", "block"), [r.choice(["go(1)", "v = pub(2)", "go(pub(v))", "log(itob(pub(pub(1))))"])]), True


def router_bad(r, b, s):
    i = b.index("jump one")
    t = r.choice([["router:", "    go", "end"], ["router:", "    pub", "    zz", "end"], ["router:", "    v", "end"], ["router:", "    one", "end"], ["router:", "    pub()", "end"]])
    return b[:i] + t + b[i + 1 :], False


def router_ok(r, b, s):
    i = b.index("jump one")
    return b[:i] + ["router:", "    pub", "end"] + b[i + 1 :], True


def inner_bad(r, b, s):
    t = r.choice([["inner_txn:", "    Nope: 1", "end"], ["inner_txn:", "    log(\"a\")", "end"], ["inner_txn:", "    v = 1", "end"], ["inner_txn:", "    TypeEnum = Pay", "end"], ["inner_txn:", "    inner_txn:", "    end", "end"]])
    return put(r, b, s, ("main", "if", "while", "for", "block", "func"), t), False


def structural(r, b, s):
    """Keywords where no construct is open"""
    t = r.choice(["else:", "elif v:", "2: two", "a: int", "TypeEnum: Pay", "in 0:3:", "public()"])
    return put(r, b, s, ("main", "for", "while", "func", "block"), [t]), False


def elif_after_else(r, b, s):
    return put(r, b, s, ("main", "func", "block", "while"), ["if v:", "    log(\"a\")", "else:", "    log(\"b\")", r.choice(["elif v:", "else:"]), "    log(\"c\")", "end"]), False


def const_assign(r, b, s):
    return put(r, b, s, ("main", "block"), ["const int QQ = 5", r.choice(["QQ = 6", "QQ = QQ", "const int QQ = 6", "const bytes QQ = \"a\""])]), False


def redeclare(r, b, s):
    return put(r, b, s, INBODY, [r.choice(["int v = 1", "bytes v = \"a\"", "int v", "for v in 0:2:\n        log(\"a\")\n    end"]).replace("\n    end", "\nend")]), False


def trailing(r, b, s):
    """Text after a complete statement"""
    t = r.choice(["break now", "return now", "jump two three", "exit(1) 2", "exit(1))", "v = 1 2", "v = v +", "v = (1 + 2", "v = 1 + 2)", "log(\"a\"", "log(\"a\") x", "if v: log(\"a\")", "end now",
                  "assert(v) 1", "int q q = 1", "int = 5", "= 5", "v == 5", "v + 1", "1", "\"text\"", "const int Q9", "const Q9 = 1", "const str Q9 = 1", "int 9q = 1", "v =", "v = 1 + + 2", "v = 1 $ 2", "v = !", "v = log(", "v = \"a"])
    pl = ("while",) if t.startswith("break") else ("func",) if t.startswith("return") else ("main", "block")
    return put(r, b, s, pl, [t]), False


def trailing_header(r, b, s):
    """Text after the colon of a header"""
    at = [i for i, l in enumerate(b) if l.strip().endswith(":") and not l.strip().startswith("#")]
    i = r.choice(at)
    return b[:i] + [b[i] + r.choice([" log(\"a\")", " v = 1", "v", " 1", " end", ":x", " two"])] + b[i + 1 :], False


def const_label(r, b, s):
    """The macro of a constant would replace the label of the block"""
    ok = r.random() < 0.3
    b2 = put(r, b, s, ("after",), ["block TWO:", "    exit(v)", "end"])
    i = next(i for i, l in enumerate(b2) if l == "jump one")
    return b2[:i] + ["const int " + ("TWO_" if ok else "TWO") + " = 1"] + b2[i:], ok


def const_case(r, b, s):
    return put(r, b, s, ("main", "block", "func"), ["const int " + r.choice(["Amount", "Sender", "Abc", "aBC", "abc", "A_b", "Pay"]) + " = 1"]), False


def unclosed(r, b, s):
    """The program ends early"""
    at = [i for i, (p, ind) in enumerate(s) if ind > 0 and p != "instruct"]
    return b[: r.choice(at)], False


RULES = [return_outside, return_count, break_outside, break_inside, after_exit, defs_before_exit, defs_at_place, block_in_func, func_in_func, struct_late, struct_dup, field_dup, pragma_late,
         missing_end, extra_end, no_exit_block, no_return_func, undefined, undefined_field, field_ok, bad_target, second_else, dup_block, dup_func, wrong_args, right_args, router_bad, router_ok,
         inner_bad, structural, elif_after_else, const_assign, redeclare, trailing, trailing_header, unclosed, const_label, const_case]

CHECKS = [Scoping]
