"""Static types: which programs the compiler must accept and refuse"""
import random

from .. import avm, ctx, teal
from ..common import Check, Violation, digest, quiet, watchdog

PRELUDE = """#pragma version 8
struct {A}:
    x: int
    y: uint8
    z: bytes[{n}]
end
struct {B}:
    p: int
    q: {A}
    r: bytes[4]
end
struct {C}:
    u: bytes[{an}]
end
const int KI = 70000
const int KU = 9
const bytes KB = "{kb}"
"""

DECLS = """int vi = 1000
uint64 v64 = 1001
uint8 vu = 7
bytes vb = "bbb"
bigint vg = "gg"
bytes[{n}] vn = "{kb}"
bytes[{m}] vm = bzero({m})
{A} sa = bzero(SizeOf({A}))
{B} sb = bzero(SizeOf({B}))
{C} sc = bzero(SizeOf({C}))
box<{A}> xa = CreateBox("ba")
box<{B}> xb = CreateBox("bb")
box<{C}> xc = CreateBox("bc")
"""

FUNCS = """func f_int() int:
    return 5000
end
func f_u8() uint8:
    return 5
end
func f_bytes() bytes:
    return "abcde"
end
func f_n() bytes[{n}]:
    return "{kb}"
end
func f_a() {A}:
    {A} t = bzero(SizeOf({A}))
    return t
end
func f_none(a: int):
    return
end
func f_two() int, bytes:
    return 3, "x"
end
func f_uu() uint8, uint8:
    return 3, 4
end
"""


BINARY = ("vi + 2", "vu + vu", "vi < 3", 'vb b| "a"')


class Typing(Check):
    prop = "C10"
    rule = ("one typed expression put where a value of a type is needed (declaration, assignment, argument, return value, struct and box field, operand, opcode "
            "argument, assert, box key, condition, loop bound, index, exit value, switch option) in random surroundings; the compiler must accept it exactly if the type rules do, and what is accepted must run with values of the declared size")
    quick = 7500
    thorough = 200000
    need = {"refused": 1500, "accepted": 1500}

    def types(self):
        n, m, an, bn = self.n, self.m, self.an, self.bn
        return [("int",), ("uint64",), ("uint8",), ("bytes", 0), ("bigint",), ("bytes", n), ("bytes", m), ("bytes", an),
                ("struct", "A", an), ("struct", "B", bn), ("struct", "C", an)]

    def tname(self, t):
        if t[0] == "bytes":
            return f"bytes[{t[1]}]" if t[1] else "bytes"
        if t[0] == "struct":
            return self.names[t[1]]
        if t[0] == "box":
            return f"box<{self.names[t[1]]}>"
        return t[0]

    @staticmethod
    def isint(t):
        return t[0] in ("int", "uint64", "uint8")

    def size(self, t):
        if t[0] == "bytes":
            return t[1]
        if t[0] in ("struct", "box"):
            return t[2]
        return 0

    def fits(self, t, u):
        """May a value of static type u be given where t is declared?"""
        if u[0] in ("none", "multi"):
            return False
        if self.isint(t) or self.isint(u):
            if not (self.isint(t) and self.isint(u)):
                return False
            return t[0] != "uint8" or u[0] == "uint8"
        if t[0] == "box":
            return u[0] == "box" and u[1] == t[1]
        if t[0] == "bigint" or (t[0] == "bytes" and not t[1]):
            return True
        return u[0] in ("bytes", "struct") and self.size(u) == self.size(t)

    def expr(self, r, t=None, d=1):
        """(source, static type)"""
        n, m, an, bn, N = self.n, self.m, self.an, self.bn, self.names
        pool = [
            ("5000", ("int",)), ("256", ("int",)), ("vi", ("int",)), ("v64", ("int",)), ("vi + 2", ("int",)), ("vu + vu", ("int",)),
            ("f_int()", ("int",)), ("len(vb)", ("int",)), ("Txn.Fee", ("int",)), ("KI", ("int",)), ("sa.x", ("int",)), ("xa.x", ("int",)), ("!vi", ("int",)), ("vi < 3", ("int",)),
            ("Cast(vi, int)", ("int",)), ("btoi(\"a\")", ("int",)), ("SizeOf(%s)" % N["A"], ("int",)), ("Convert(\"a\", int)", ("int",)), ("FromBytes(\"a\", int)", ("int",)),
            ("255", ("uint8",)), ("0", ("uint8",)), ("7", ("uint8",)), ("vu", ("uint8",)), ("f_u8()", ("uint8",)), ("sa.y", ("uint8",)), ("xa.y", ("uint8",)), ("Cast(vu, uint8)", ("uint8",)),
            ("Convert(\"a\", uint8)", ("uint8",)), ("EnsureType(vu, uint8)", ("uint8",)), ("UncheckedCast(vu, uint8)", ("uint8",)),
            ("vb", ("bytes", 0)), ("f_bytes()", ("bytes", 0)), ("concat(vb, \"q\")", ("bytes", 0)), ("Concat(\"a\", vb)", ("bytes", 0)), ("Txn.ApplicationArgs[0]", ("bytes", 0)),
            ("vb b| \"a\"", ("bytes", 0)), ("sha256(vb)", ("bytes", 0)), ("Convert(vi, bytes)", ("bytes", 0)), ("ARC28Event(\"e(uint64)\", vb)", ("bytes", 0)),
            ("itob(vi)", ("bytes", 0)), ("vg", ("bigint",)), ("Cast(vn, bytes)", ("bytes", 0)), ("UncheckedCast(vn, bytes)", ("bytes", 0)),
            (f'"{self.kb}"', ("bytes", n)), ("vn", ("bytes", n)), ("f_n()", ("bytes", n)), ("KB", ("bytes", n)), ("sa.z", ("bytes", n)), ("xa.z", ("bytes", n)), (f"bzero({n})", ("bytes", n)),
            (f"Rpad(\"a\", {n})", ("bytes", n)), (f"Lpad(\"a\", {n})", ("bytes", n)), (f"Cast(vn, bytes[{n}])", ("bytes", n)), (f"UncheckedCast(vb, bytes[{n}])", ("bytes", n)),
            (f"Convert(vu, bytes[{n}])", ("bytes", n)), (f"ToBytes(vu, {n})", ("bytes", n)), (f"EnsureType(vn, bytes[{n}])", ("bytes", n)),
            ("vm", ("bytes", m)), (f"bzero({m})", ("bytes", m)), ("Txn.Sender", ("bytes", 32)), ("sb.r", ("bytes", 4)), (f"bzero({an})", ("bytes", an)),
            ("sa", ("struct", "A", an)), ("f_a()", ("struct", "A", an)), ("sb.q", ("struct", "A", an)), (f"UncheckedCast(vb, {N['A']})", ("struct", "A", an)), (f"Cast(sc, {N['A']})", ("struct", "A", an)),
            ("xb.q", ("struct", "A", an)), ("sb", ("struct", "B", bn)), ("sc", ("struct", "C", an)), (f"bzero(SizeOf({N['B']}))", ("bytes", bn)), ("sc.u", ("bytes", an)),
            ("xa", ("box", "A", an)), ("xb", ("box", "B", bn)), ("xc", ("box", "C", an)),
            ("f_none(1)", ("none",)), ("f_two()", ("multi",)), ("f_uu()", ("multi",)), ("addw(vi, vi)", ("multi",)), ("log(vb)", ("none",)), ("app_global_get_ex(0, \"a\")", ("multi",)),
        ]
        if (t is None or self.fits(t, ("int",))) and r.random() < 0.08:
            # literals around the bounds of the integer types
            x = r.choice([0, 1, 254, 255, 256, 257, 300, 511, 512, 4095, 65535, 65536, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1])
            return str(x), ("uint8",) if x < 256 else ("int",)
        if t is not None:
            ok = [x for x in pool if self.fits(t, x[1])]
            if ok:
                s, u = r.choice(ok)
            else:
                s, u = r.choice(pool)
        else:
            s, u = r.choice(pool)
        if d and r.random() < 0.3 and s in BINARY:
            s = f"({s})"
        return s, u

    def want(self, r, u):
        """A target type, close to the expression's"""
        ts = self.types()
        if self.isint(u) and r.random() < 0.25:
            return ("uint8",)
        if r.random() < 0.5:
            same = [t for t in ts if self.fits(t, u)]
            if same:
                return r.choice(same)
        return r.choice(ts)

    INT_OPS = "+ - * / % < > <= >= && || & | ^".split()
    BYTE_OPS = "b+ b- b* b/ b% b< b> b<= b>= b& b| b^ b== b!=".split()
    # opcode, kinds of its arguments, number of values it leaves
    OPS = [
        ("itob", "U", 1), ("btoi", "B", 1), ("len", "B", 1), ("sqrt", "U", 1), ("concat", "BB", 1), ("sha256", "B", 1), ("keccak256", "B", 1), ("bsqrt", "B", 1), ("bitlen", ".", 1),
        ("substring3", "BUU", 1), ("extract3", "BUU", 1), ("extract_uint64", "BU", 1), ("getbyte", "BU", 1), ("setbyte", "BUU", 1), ("getbit", ".U", 1), ("shl", "UU", 1), ("shr", "UU", 1),
        ("exp", "UU", 1), ("bzero", "U", 1), ("divw", "UUU", 1), ("addw", "UU", 2), ("mulw", "UU", 2), ("expw", "UU", 2), ("divmodw", "UUUU", 4), ("log", "B", 0), ("app_global_put", "B.", 0),
        ("app_global_get", "B", 1), ("app_global_del", "B", 0), ("replace3", "BUB", 1), ("box_len", "B", 2), ("box_create", "BU", 1), ("box_put", "BB", 0), ("box_extract", "BUU", 1),
        ("app_local_put", ".B.", 0), ("balance", ".", 1), ("ed25519verify_bare", "BBB", 1), ("app_global_get_ex", "UB", 2), ("gaid", None, None),
    ]

    def kind_ok(self, k, u):
        if u[0] in ("none", "multi"):
            return False
        return k == "." or (k == "U") == self.isint(u)

    def setup_case(self, r):
        self.n = r.choice([1, 3, 8, 20])
        self.m = r.choice([2, 5, 32, 33])
        self.an = 9 + self.n
        self.bn = 8 + self.an + 4
        self.names = dict(zip("ABC", r.sample(["Item", "Order_1", "Pair", "Foo_bar", "Z9", "Account"], 3)))
        self.kb = "".join(r.choice("abcdefgh (#,") for _ in range(self.n)) if r.random() < 0.3 else "k" * self.n

    def case(self, r, index, c):
        import tealish

        self.setup_case(r)
        self.top = []
        kind, lines, ok, why, logs = self.template(r)
        src = self.wrap(r, lines, kind)
        if self.top:
            src = src.replace("\nstruct ", "\n" + "\n".join(self.top) + "\nstruct ", 1)
        c.hit("kind_" + kind)
        try:
            with watchdog(60), quiet():
                out, _ = tealish.compile_program(src)
            got, msg = True, ""
        except (tealish.CompileError, tealish.ParseError) as e:
            got, msg = False, str(e)
        except Exception as e:
            raise Violation(f"{kind}: {type(e).__name__}: {e}", source=src)
        if got != ok:
            verb = "accepted an ill-typed program" if got else f"refused a well-typed program ({msg[:200]})"
            raise Violation(f"the compiler {verb}: {kind}: {why}", source=src)
        c.hit("accepted" if ok else "refused")
        c.sig = digest(kind, why, ok)
        if c.sample is None:
            c.sample = {"statement": lines, "kind": kind, "accepted": ok}
        if got:
            try:
                prog = teal.assemble(out)
            except teal.TealError as e:
                raise Violation(f"emitted TEAL does not assemble: {e}", source=src, teal="\n".join(out))
            w = ctx.world(r, None)
            o = avm.run(prog, w)
            if o.kind == "underflow":
                raise Violation("stack underflow in a well-typed program", source=src, teal="\n".join(out))
            if o.kind == "panic" and "expected" in o.msg:
                c.hit("type_panic")
            if o.kind == "accept" and logs:
                n = next((e for e in o.events if e[0] == "log" and e[1][:4] == b"MARK"), None)
                if n is not None:
                    c.hit("sizes_observed")
                    if len(n[1]) - 4 != logs:
                        raise Violation(f"a value of declared size {logs} has {len(n[1]) - 4} bytes at run time: {why}", source=src, teal="\n".join(out))

    def template(self, r):
        k = r.choice(["decl", "decl", "assign", "assign", "arg", "arg", "ret", "field", "boxfield", "op", "op", "op", "binop", "binop", "unop", "argc", "opargc", "names", "stmt",
                      "assert", "boxkey", "std", "std", "stdargc", "retn", "boxarg", "cond", "cond", "bound", "index", "index", "exit", "switch", "switch", "unsized", "zero"])
        if k in ("decl", "assign", "arg", "ret"):
            s, u = self.expr(r)
            t = self.want(r, u)
            ok = self.fits(t, u)
            why = f"{s} of type {u} for {t}"
            tn = self.tname(t)
            logs = self.size(t)
            fn = ""
            mark = ['log(concat("MARK", nv))'] if not self.isint(t) and r.random() < 0.7 and "Unchecked" not in s else []
            if k == "decl":
                return k, [f"{tn} nv = {s}"] + mark, ok, why, logs
            if k == "assign":
                return k, [f"{tn} nv", f"nv = {s}"] + mark, ok, why, logs
            if k == "arg":
                pos = r.randrange(3)
                args = ["1", "vb"]
                sig = ["q1: int", "q2: bytes"]
                args.insert(pos, s)
                sig.insert(pos, f"nv: {tn}")
                fn = [f"func g({', '.join(sig)}):"] + ["    " + m for m in mark] + ["    return", "end"]
                return k, [f"g({', '.join(args)})"] + ["@@"] + fn, ok, why, logs
            pos = r.randrange(3)
            rets = ["1", "vq"]
            types = ["uint8", "bytes"]
            rets.insert(pos, s)
            types.insert(pos, tn)
            names = ["_", "_"]
            names.insert(pos, "nv")
            fn = [f"func g() {', '.join(types)}:", '    bytes vq = "q"'] + [f"    return {', '.join(rets)}", "end"]
            return k, [f"{tn} nv", f"{', '.join(names)} = g()"] + mark + ["@@"] + fn, ok, why, logs
        if k == "unsized":
            # only the last field of a struct can be of any size
            sized = ["int", "uint8", "uint64", "bytes[1]", "bytes[40]", "uint8[3]", "addr"]
            fs = [r.choice(sized) for _ in range(r.randrange(1, 5))]
            t = r.choice(sized + ["bytes", "bigint"] * 4)
            i = r.randrange(len(fs) + 1)
            if i == len(fs):
                t = r.choice(sized)
            fs.insert(i, t)
            self.top = ["struct New:"] + [f"    f{j}: {f}" for j, f in enumerate(fs)] + ["end"]
            return k, [r.choice(["New nv", "vi = SizeOf(New)", "vi = 3"])], t in sized, f"struct with fields {fs}", 0
        if k == "zero":
            # sizes are those of at least one byte
            t, n = r.choice(["bytes", "uint8"]), r.choice(["0", "00", "0", "1", "01", "10", "7"])
            ok = int(n) > 0
            z = f"{t}[{n}]"
            x = r.randrange(5)
            if x == 0:
                return k, [f"{z} nv"], ok, f"variable of type {z}", 0
            if x == 1:
                self.top = ["struct New:", f"    a: {z}", "    b: int", "end"]
                return k, ["New nv"], ok, f"field of type {z}", 0
            if x == 2:
                return k, ["vi = 1", "@@", f"func g(q: {z}) int:", "    return 1", "end"], ok, f"argument of type {z}", 0
            if x == 3:
                return k, [f'{z} nv = Cast(vb, {z})'], ok, f"cast to {z}", 0
            return k, ["vi = 1", "@@", f"func g(q: {z}) {z}:", "    return q", "end"], ok, f"value of type {z}", 0
        if k == "boxarg":
            a, b = r.choice("AB"), None
            x = r.random()
            s, u = self.expr(r, ("box", a, 0) if x < 0.5 else None)
            if x > 0.75:
                s, u = r.choice([("xa", ("box", "A", self.an)), ("xb", ("box", "B", self.bn)), ("xc", ("box", "C", self.an)), ("sc", ("struct", "C", self.an))])
            t = ("box", a, 0)
            ok = self.fits(t, u)
            fn = [f"func g(nv: {self.tname(t)}):", "    return", "end"]
            return k, [f"g({s})", "@@"] + fn, ok, f"{s} of type {u} for a box of {a}", 0
        if k in ("field", "boxfield"):
            s, u = self.expr(r)
            a, f, t = r.choice([("a", "x", ("int",)), ("a", "y", ("uint8",)), ("a", "z", ("bytes", self.n)), ("b", "q", ("struct", "A", self.an)), ("b", "r", ("bytes", 4))])
            if r.random() < 0.4:
                s, u = self.expr(r, t)
            v = ("s" if k == "field" else "x") + a
            return k, [f"{v}.{f} = {s}"], self.fits(t, u), f"{s} of type {u} for field {f} of type {t}", 0
        if k in ("op", "opargc"):
            op, kinds, rets = r.choice(self.OPS[:-1])
            args, oks, us = [], [], []
            for i, x in enumerate(kinds):
                s, u = self.expr(r, {"U": ("int",), "B": ("bytes", 0), ".": ("int",)}[x])
                args.append(s)
                oks.append(self.kind_ok(x, u))
                us.append(u)
            if k == "op" and r.random() < 0.6:
                i = r.randrange(len(args))
                args[i], us[i] = self.expr(r)
                oks[i] = self.kind_ok(kinds[i], us[i])
            ok = all(oks)
            if k == "opargc":
                if r.random() < 0.5:
                    args.pop(r.randrange(len(args)))
                else:
                    args.insert(r.randrange(len(args) + 1), self.expr(r, ("int",))[0])
                ok = False
            e = f"{op}({', '.join(args)})"
            why = f"{e} with {us}"
            if rets == 0:
                return k, [e], ok, why, 0
            if rets == 1:
                x = r.random()
                if x < 0.3:
                    return k, [f"app_global_put(\"a\", {e})"], ok, why, 0
                if x < 0.4:
                    return k, [e], False, "unused value of " + why, 0
                # the result's type does not matter here
                return k, [f"assert(bitlen({e}))"], ok, why, 0
            n = rets if r.random() < 0.7 else max(1, rets + r.choice([-1, 1]))
            names = ", ".join(["_"] * n)
            return k, [f"{names} = {e}"], ok and n == rets, why + f" to {n} names", 0
        if k == "binop":
            byte = r.random() < 0.4
            op = r.choice(self.BYTE_OPS if byte else self.INT_OPS)
            want = ("bytes", 0) if byte else ("int",)
            (a, ua), (b, ub) = self.operand(r, want), self.operand(r, want)
            ok = self.kind_ok("B" if byte else "U", ua) and self.kind_ok("B" if byte else "U", ub)
            e = f"{a} {op} {b}"
            return k, [f"app_global_put(\"a\", {e})"], ok, f"{e} with {ua}, {ub}", 0
        if k == "unop":
            op = r.choice(["!", "~", "b~"])
            a, u = self.operand(r, ("bytes", 0) if op == "b~" else ("int",))
            ok = self.kind_ok("B" if op == "b~" else "U", u)
            return k, [f"app_global_put(\"a\", {op}{a})"], ok, f"{op}{a} with {u}", 0
        if k == "argc":
            f, n, rets = r.choice([("f_int", 0, 1), ("f_none", 1, 0), ("f_u8", 0, 1), ("g3", 3, 0)])
            m = r.choice([n, n, n + 1, max(0, n - 1), n + 2])
            args = ", ".join(self.expr(r, ("int",))[0] for _ in range(m))
            e = f"{f}({args})"
            pre = f"app_global_put(\"a\", {e})" if rets else e
            return k, [pre, "@@", "func g3(a1: int, a2: int, a3: int):", "    return", "end"], m == n, f"{m} arguments for {n}", 0
        if k == "names":
            e, rets = r.choice([("f_two()", 2), ("f_uu()", 2), ("f_int()", 1), ("f_none(1)", 0), ("addw(vi, 1)", 2), ("divmodw(1, 2, 3, 4)", 4), ("vi + 1", 1), ("box_len(vb)", 2), ("log(vb)", 0)])
            n = r.choice([rets, rets, rets + 1, max(1, rets - 1)])
            n = max(1, n)
            names = r.choice([["_"] * n, (["vi"] if e != "f_none(1)" else ["vi"]) + ["_"] * (n - 1)])
            if e == "f_two()" and n == 2 and r.random() < 0.6:
                names = r.choice([["vi", "vb"], ["vb", "vi"], ["vu", "_"], ["_", "vn"], ["_", "vb"]])
                return k, [f"{', '.join(names)} = {e}"], names in (["vi", "vb"], ["_", "vb"]), f"{names} = {e}", 0
            if e == "f_uu()" and n == 2 and r.random() < 0.6:
                names = r.choice([["vi", "vu"], ["vu", "vi"], ["vu", "vb"], ["vb", "_"], ["_", "v64"]])
                return k, [f"{', '.join(names)} = {e}"], "vb" not in names, f"{names} = {e}", 0
            if e in ("addw(vi, 1)", "divmodw(1, 2, 3, 4)") and r.random() < 0.2:
                names[0] = "vu"
                return k, [f"{', '.join(names)} = {e}"], False, f"{names} = {e}", 0
            return k, [f"{', '.join(names)} = {e}"], n == rets, f"{n} names for {rets} values of {e}", 0
        if k == "stmt":
            s, u = self.expr(r, d=0)
            if r.random() < 0.4:
                s, u = r.choice([("f_none(2)", ("none",)), ("log(\"x\")", ("none",)), ("app_global_put(\"a\", 1)", ("none",)), ("f_none(vu)", ("none",)), ("app_global_del(\"a\")", ("none",))])
            # only calls are statements
            return k, [s], u[0] == "none", f"{s} of type {u} as a statement", 0
        if k == "assert":
            s, u = self.expr(r)
            m = r.choice(["", ', "oops"'])
            return k, [f"assert({s}{m})"], self.isint(u), f"assert of {u}", 0
        if k == "cond":
            s, u = self.expr(r, ("int",) if r.random() < 0.3 else None)
            n = r.choice(["", "", "not "])
            lines = r.choice([[f"if {n}{s}:", "    vb = vb", "end"], ["if 0:", "    vb = vb", f"elif {n}{s}:", "    vb = vb", "else:", "    vi = 1", "end"],
                              [f"while {n}{s}:", "    break", "end"], [f"if {n}{s}:", "end"]])
            return k, lines, self.isint(u), f"condition of {u}", 0
        if k == "bound":
            s, u = r.choice([("5000", ("int",)), ("vi", ("int",)), ("v64", ("int",)), ("vu", ("uint8",)), ("KI", ("int",)), ("KU", ("uint8",)), ("KB", ("bytes", self.n)), ("vb", ("bytes", 0)),
                             ("vg", ("bigint",)), ("vn", ("bytes", self.n)), ("sa", ("struct", "A", self.an)), ("xa", ("box", "A", self.an))])
            a, b = r.choice([(s, s), (s, "3"), ("3", s), (s, "vu")])
            v = r.choice(["_", "i9"])
            return k, [f"for {v} in {a}:{b}:", "    " + r.choice(["exit(1)", "vb = vb"]), "end"], self.isint(u), f"loop bound of {u}", 0
        if k == "index":
            s, u = self.expr(r, ("int",) if r.random() < 0.3 else None)
            while s.isdigit():
                s, u = self.expr(r)
            e = r.choice([f"Gtxn[{s}].Fee", f"Gtxn[{s}].TypeEnum", f"Gtxn[{s}].NumAppArgs", f"btoi(Txn.ApplicationArgs[{s}])", f"btoi(Gtxn[0].ApplicationArgs[{s}])", f"btoi(Gtxn[{s}].ApplicationArgs[0])",
                          f"btoi(Gtxn[{s}].ApplicationArgs[vi])", f"btoi(Itxn.Logs[{s}])", f"Txn.Assets[{s}]", f"Txn.Applications[{s}]"])
            return k, [f"vi = {e}"], self.isint(u), f"index of {u}", 0
        if k == "exit":
            s, u = self.expr(r, ("int",) if r.random() < 0.3 else None)
            return k, ["if vi:", f"    exit({s})", "end"], self.isint(u), f"exit value of {u}", 0
        if k == "switch":
            (a, ua), (b, ub) = self.expr(r), self.expr(r)
            ok = all(x[0] not in ("none", "multi") for x in (ua, ub)) and self.isint(ua) == self.isint(ub)
            opts = [f"    {b}: sw1"]
            t = ("int",) if self.isint(ua) else ("bytes", 0)
            for _ in range(r.randrange(3)):
                opts.insert(r.randrange(len(opts) + 1), f"    {self.expr(r, t)[0]}: sw1")
            if r.random() < 0.4:
                opts.append("    else: sw1")
            return k, [f"switch {a}:"] + opts + ["end", "@@", "block sw1:", "    exit(1)", "end"], ok, f"switch of {ua} with option {ub}", 0
        if k == "boxkey":
            s, u = self.expr(r)
            m = r.choice(["Open", "Create", ""])
            a = r.choice("AB")
            ok = self.kind_ok("B", u)
            return k, [f"box<{self.names[a]}> nb = {m}Box({s})"], ok, f"box key of {u}", 0
        if k == "retn":
            n, m = r.choice([(0, 1), (1, 0), (1, 2), (2, 1), (2, 2), (1, 1), (0, 0), (3, 2), (3, 3)])
            fn = [f"func g(){' ' if n else ''}{', '.join(['int'] * n)}:", ("    return " + ", ".join(["5"] * m)).rstrip(), "end"]
            call = f"{', '.join(['_'] * n)} = g()" if n else "g()"
            return k, [call, "@@"] + fn, n == m, f"{m} values returned of {n}", 0
        if k == "stdargc":
            f, args, lo, hi = r.choice([
                ("Cast", ["vi", "int"], 2, 2), ("Convert", ["vi", "bytes"], 2, 2), ("ToBytes", ["vu", "8"], 2, 2), ("FromBytes", ["vb", "int"], 2, 2), ("SizeOf", [self.names["A"]], 1, 1),
                ("Rpad", ["vb", "4"], 2, 2), ("Lpad", ["vb", "4"], 2, 2), ("Concat", ["vb"], 1, 9), ("ARC28Event", ['"e()"'], 1, 9), ("bzero", ["3"], 1, 1), ("EnsureType", ["vb", "bytes"], 2, 2),
                ("UncheckedCast", ["vb", "bytes"], 2, 2)])
            args = list(args)
            x = r.random()
            ok = True
            if x < 0.3:
                args.pop()
                ok = len(args) >= lo
            elif x < 0.7:
                args.append(r.choice(["vb", "KB", '"a"', "f_bytes()"]) if f not in ("EnsureType", "UncheckedCast") else "int")
                ok = len(args) <= hi
            elif f in ("Rpad", "Lpad", "ToBytes"):
                # the size must be known
                args[1] = r.choice(["vi", "vb", '"4"', "f_int()", "2 + 2"])
                ok = False
            elif f == "ARC28Event":
                args[0] = r.choice(["vb", "vi", "5"])
                ok = False
            e = f"{f}({', '.join(args)})"
            return k, [f"assert(bitlen({e}))"], ok, e, 0
        # standard library functions
        f = r.choice(["Cast", "Convert", "ToBytes", "FromBytes", "Rpad", "Lpad", "Concat", "ARC28Event"])
        s, u = self.expr(r)
        ui, ub = self.isint(u), self.kind_ok("B", u)
        if f == "Cast":
            t = r.choice(self.types())
            ok = (ui and self.isint(t)) or (ub and not self.isint(t))
            e = f"Cast({s}, {self.tname(t)})"
        elif f == "Convert":
            t = r.choice(self.types()[:4] + [("bytes", self.n)])
            ok = (ui and t[0] == "bytes") or (ub and self.isint(t))
            e = f"Convert({s}, {self.tname(t)})"
        elif f == "ToBytes":
            ok = ui or u[0] == "bigint"
            e = f"ToBytes({s}, 8)"
        elif f == "FromBytes":
            ok = ub
            e = f"FromBytes({s}, {r.choice(['int', 'bytes'])})"
        elif f in ("Rpad", "Lpad"):
            ok = ub
            e = f"{f}({s}, 40)"
        elif f == "Concat":
            args = [self.expr(r, ("bytes", 0))[0] for _ in range(r.randrange(1, 3))]
            args.insert(r.randrange(len(args) + 1), s)
            ok = ub
            e = f"Concat({', '.join(args)})"
        else:
            ok = ub
            e = f'ARC28Event("ev(byte[])", {s})'
        return k, [f"assert(bitlen({e}))"], ok, f"{e} with {u}", 0

    def operand(self, r, want):
        s, u = self.expr(r, want if r.random() < 0.65 else None, d=0)
        if s in BINARY:
            s = f"({s})"
        return s, u

    def wrap(self, r, lines, kind):
        fns = []
        if "@@" in lines:
            i = lines.index("@@")
            fns = lines[i + 1 :]
            lines = lines[:i]
        fmt = dict(n=self.n, m=self.m, an=self.an, kb=self.kb, **self.names)
        pre = PRELUDE.format(**fmt).splitlines()
        decls = DECLS.format(**fmt).splitlines()
        funcs = FUNCS.format(**fmt).splitlines() + fns
        if r.random() < 0.1:
            lines = ["# " + lines[-1]] + lines
        x = r.random() * (0.7 if kind == "ret" else 1)
        if kind == "switch":
            # ends the program or block and leads to a block beside it
            if x < 0.5:
                return "\n".join(pre + decls + lines + funcs) + "\n"
            ind = lambda ls: ["    " + l for l in ls]
            return "\n".join(pre + ["jump main", "block main:"] + ind(decls + lines + (fns if x < 0.75 else [])) + ["end"] + (funcs[: len(funcs) - len(fns)] if x < 0.75 else funcs)) + "\n"
        ind = lambda ls: ["    " + l for l in ls]
        if x < 0.35:
            body = pre + decls + lines + ["exit(1)"] + funcs
        elif x < 0.5:
            body = pre + decls + ["if vi > 10:"] + ind(lines) + ["end", "exit(1)"] + funcs
        elif x < 0.6:
            body = pre + decls + ["if vi < 10:", "    vi = 1", "elif vi:"] + ind(lines) + ["else:", "    vi = 2", "end", "exit(1)"] + funcs
        elif x < 0.7:
            body = pre + decls + ["for i in 0:2:"] + ind(lines) + ["end", "exit(1)"] + funcs
        elif x < 0.8:
            body = pre + ["jump main", "block main:"] + ind(decls + lines + ["exit(1)"]) + (ind(funcs) if r.random() < 0.5 else []) + ["end"]
            if "    func f_int() int:" not in body:
                body += funcs
        elif x < 0.9:
            body = pre + decls + ["while vi == 1000:"] + ind(["vi = 1"] + lines) + ["end", "exit(1)"] + funcs
        else:
            body = pre + ["run()", "exit(1)", "func run():"] + ind(decls + lines + ["return"]) + ["end"] + funcs
        return "\n".join(body) + "\n"


CHECKS = [Typing]
