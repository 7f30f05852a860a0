"""Programs which show the order in which operands are evaluated, and programs
which put every operator between operands of every kind at the edges of its range"""
from . import lang
from .lang import BYTES, INT, S, bytesn

M64 = 2**64 - 1
EDGE = [0, 1, 2, 3, 7, 8, 10, 63, 64, 127, 128, 255, 256, 257, 1000, 65535, 65536, 2**24, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53 - 1, 2**53,
        2**53 + 1, 2**54 + 3, 2**60 + 1, 2**62, 2**63 - 1, 2**63, 2**63 + 1, M64 - 2, M64 - 1, M64, 10**18 + 7, 12345678901234567891]
INT_OPS = ["+", "-", "*", "/", "%", "|", "&", "^", "<", "<=", ">", ">=", "==", "!=", "&&", "||"]
BYTE_INT = ["b<", "b<=", "b>", "b>=", "b==", "b!="]
BYTE_OPS = ["b+", "b-", "b*", "b/", "b%", "b|", "b&", "b^"]


class Base:
    def __init__(self, rng):
        self.r = rng
        self.p = lang.Program()
        self.p.version = 8
        self.n = 0

    def num(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return r.choice(EDGE)
        if k < 0.75:
            return r.getrandbits(r.randrange(1, 65))
        return r.randrange(12)

    def raw(self, n=None):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 8, 8, 9, 16, 32, 33, 63, 64]) if n is None else n
        k = r.random()
        if k < 0.2:
            return bytes(n)
        if k < 0.4 and n:
            return bytes(n - 1) + bytes([r.randrange(256)])
        if k < 0.5:
            return b"\xff" * n
        return bytes(r.randrange(256) for _ in range(n))

    def blit(self, v):
        return ("bytes", v, lang.bytes_src(v))

    def const(self, v):
        for c in self.p.consts:
            if c.value == v and isinstance(v, int) == lang.is_int(c.type):
                return ("const", c)
        if isinstance(v, int):
            c = lang.Const(f"K{len(self.p.consts)}", INT, v, str(v))
        else:
            # hexadecimal literals are for constants only
            src = "0x" + v.hex() if v and self.r.random() < 0.5 else f'"{lang.bytes_src(v)}"'
            c = lang.Const(f"K{len(self.p.consts)}", BYTES, v, src)
        self.p.consts.append(c)
        return ("const", c)

    def declare(self, body, t, e):
        v = lang.Var(f"v{self.n}", t)
        self.n += 1
        body.append(S("decl", var=v, expr=e))
        return ("var", v)

    def log(self, e, is_int):
        if is_int:
            e = ("op", "itob", (), [e])
        return S("call", expr=("op", "log", (), [e]))


class Pairs(Base):
    """operand of every kind, operator, operand of every kind"""

    def program(self):
        r = self.r
        body = self.p.main.body
        for _ in range(r.randrange(4, 14)):
            k = r.random()
            if k < 0.68:
                self.ints(body)
            elif k < 0.9:
                self.byte(body)
            else:
                e = ("un", r.choice("!~"), self.operand(body, self.num()))
                if r.random() < 0.4:
                    e = ("un", r.choice("!~"), e)
                body.append(self.log(e, True))
        body.append(S("exit", expr=("int", 1)))
        return self.p

    def operand(self, body, v):
        r = self.r
        k = r.random()
        if isinstance(v, int):
            lit = ("int", v) if r.random() < 0.8 else ("int", v, "0" * r.randrange(1, 3) + str(v))
            if k < 0.45:
                return lit
            if k < 0.6:
                return self.const(v)
            if k < 0.8:
                return self.declare(body, INT, lit)
            if k < 0.9:
                return ("op", "btoi", (), [self.blit(v.to_bytes(8, "big"))])
            return ("bin", "|", lit, ("int", 0))
        if k < 0.5:
            return self.blit(v)
        if k < 0.7:
            return self.const(v)
        if k < 0.9:
            return self.declare(body, BYTES, self.blit(v))
        return ("op", "concat", (), [self.blit(v), ("bytes", b"", "")])

    def fits(self, op, a, b):
        if op == "+":
            return a + b <= M64
        if op == "-":
            return a >= b
        if op == "*":
            return a * b <= M64
        return op not in ("/", "%") or b != 0

    def ints(self, body):
        r = self.r
        for _ in range(6):
            op = r.choice(INT_OPS)
            a, b = self.num(), self.num()
            if r.random() < 0.25:
                b = a
            elif r.random() < 0.3:
                b = max(0, min(M64, a + r.choice([-1, 1])))
            if op == "*" and r.random() < 0.6:
                a = a % 2 ** r.randrange(1, 40)
                b = min(b, M64 // max(a, 1))
            if op in "/%" and r.random() < 0.6:
                b = r.choice([1, 2, 3, 7, 10, 255, 256, 1000])
            if self.fits(op, a, b) or r.random() < 0.03:
                break
        body.append(self.log(("bin", op, self.operand(body, a), self.operand(body, b)), True))

    def byte(self, body):
        r = self.r
        k = r.random()
        if k < 0.3:
            op = r.choice(["==", "!="])
            a = self.raw()
            b = a if r.random() < 0.5 else self.raw()
        else:
            op = r.choice(BYTE_INT + BYTE_OPS)
            a, b = self.raw(), self.raw()
            if r.random() < 0.3:
                b = a
            elif r.random() < 0.2:
                b = bytes(r.randrange(1, 3)) + a[:60]
            x, y = int.from_bytes(a, "big"), int.from_bytes(b, "big")
            if (op == "b-" and x < y) or (op == "b*" and len(a) + len(b) > 64):
                a, b = b, a
            if op in ("b/", "b%") and y == 0:
                b = b"\x03"
            if op == "b*" and len(a) + len(b) > 64:
                a, b = a[:8], b[:8]
        body.append(self.log(("bin", op, self.operand(body, a), self.operand(body, b)), op in BYTE_INT or op in ("==", "!=")))


class Ordered(Base):
    """Operands that log when they are evaluated"""

    def program(self):
        r = self.r
        p = self.p
        names = r.sample(["ev", "trace", "note_2", "f", "g"], 3)
        self.fi = self.func(names[0], INT)
        self.fb = self.func(names[1], BYTES)
        # a counter in the state: every call sees how many came before it
        f = lang.Func(names[2], 3)
        f.returns = [INT]
        c = ("op", "app_global_get", (), [("bytes", b"n", "n")])
        f.body = [
            S("call", expr=("op", "app_global_put", (), [("bytes", b"n", "n"), ("bin", "+", c, ("int", 1))])),
            S("return", exprs=[c]),
        ]
        self.fc = f
        p.funcs = [self.fi, self.fb, self.fc]
        p.main.funcs = p.funcs
        body = p.main.body
        self.vars = [self.declare(body, INT, self.lit()) for _ in range(r.randrange(0, 3))]
        for _ in range(r.randrange(2, 5)):
            d = r.choice([1, 2, 2, 3, 4])
            k = r.random()
            if k < 0.35:
                body.append(self.log(self.int(d), True))
            elif k < 0.55:
                body.append(self.log(self.bytes(d), False))
            elif k < 0.65:
                self.vars.append(self.declare(body, INT, self.int(d)))
                body.append(self.log(self.vars[-1], True))
            elif k < 0.75:
                body.append(S("if", branches=[(r.random() < 0.5, self.int(d), [self.log(("int", 7), True)])], else_body=[self.log(self.int(1), True)]))
            elif k < 0.8:
                body.append(S("assert", expr=("bin", "||", self.int(d), ("int", 1)), msg=None))
            elif k < 0.9:
                body.append(S("call", expr=("op", "app_global_put", (), [self.bytes(d - 1), self.int(d - 1)])))
            else:
                body.append(S("call", expr=("op", "log", (), [("std", "Concat", [self.bytes(d - 1) for _ in range(r.randrange(2, 5))])])))
        body.append(S("exit", expr=self.int(2) if r.random() < 0.4 else ("int", 1)))
        p.main.after = p.main.funcs
        return p

    def func(self, name, t):
        f = lang.Func(name, len(self.p.funcs))
        k, v = lang.Var("k", INT), lang.Var("v", t)
        f.args = [k, v]
        f.returns = [t]
        f.body = [self.log(("var", k), True), S("return", exprs=[("var", v)])]
        return f

    def lit(self):
        return ("int", self.num() if self.r.random() < 0.3 else self.r.randrange(1, 9))

    def leaf(self, t):
        r = self.r
        self.n += 1
        k = r.random()
        if t == "int":
            if k < 0.6:
                return ("call", self.fi, [("int", self.n), self.lit()])
            if k < 0.75:
                return ("call", self.fc, [])
            if k < 0.9 and self.vars:
                return r.choice(self.vars)
            return self.lit()
        v = self.blit(self.raw(r.choice([0, 1, 2, 8, 9])))
        if k < 0.7:
            return ("call", self.fb, [("int", self.n), v])
        return v

    def int(self, d):
        r = self.r
        if d <= 0:
            return self.leaf("int")
        k = r.random()
        if k < 0.5:
            op = r.choice(["+", "+", "*", "|", "&", "^", "<", "<=", ">", ">=", "==", "!=", "&&", "||", "+", "-", "/", "%"])
            a, b = self.int(d - 1), self.int(d - 1)
            if r.random() < 0.3:
                a = self.leaf("int")
            elif r.random() < 0.3:
                b = self.leaf("int")
            return ("bin", op, a, b)
        if k < 0.58:
            return ("bin", r.choice(["==", "!="] + BYTE_INT), self.bytes(d - 1), self.bytes(d - 1))
        if k < 0.65:
            return ("un", r.choice("!~"), self.int(d - 1))
        if k < 0.72:
            return ("call", self.fi, [self.int(d - 1), self.int(d - 1)])
        if k < 0.8:
            return ("op", "select", (), [self.int(d - 1), self.int(d - 1), self.int(d - 1)])
        if k < 0.85:
            return ("op", "len", (), [self.bytes(d - 1)])
        if k < 0.9:
            return ("op", "bitlen", (), [self.bytes(d - 1)])
        if k < 0.93:
            return ("op", "setbit", (), [self.int(d - 1), ("bin", "%", self.int(d - 1), ("int", 64)), ("un", "!", self.int(d - 1))])
        if k < 0.96:
            return ("op", "exp", (), [("bin", "%", self.int(d - 1), ("int", 5)), ("bin", "%", ("call", self.fc, []), ("int", 9))])
        return self.leaf("int")

    def bytes(self, d):
        r = self.r
        if d <= 0:
            return self.leaf("bytes")
        k = r.random()
        if k < 0.3:
            return ("op", "itob", (), [self.int(d - 1)])
        if k < 0.5:
            return ("op", "concat", (), [self.bytes(d - 1), self.bytes(d - 1)])
        if k < 0.65:
            return ("bin", r.choice(["b+", "b|", "b&", "b^", "b*", "b-"]), self.bytes(0), self.bytes(0))
        if k < 0.75:
            return ("call", self.fb, [self.int(d - 1), self.bytes(d - 1)])
        if k < 0.85:
            return ("op", "extract3", (), [("op", "itob", (), [self.int(d - 1)]), ("bin", "%", self.int(d - 1), ("int", 4)), ("bin", "%", self.int(d - 1), ("int", 5))])
        if k < 0.95:
            return ("std", "Concat", [self.bytes(d - 1) for _ in range(r.randrange(2, 4))])
        return self.leaf("bytes")


class Nests(Base):
    """Small programs with deep nests of control flow, each branch of which may
    end in anything that leaves it. Conditions are bits of an argument, so that
    every run takes another way through"""

    def __init__(self, rng, jumps=True):
        super().__init__(rng)
        self.jumps = jumps
        self.fn = None
        self.loops = 0
        self.ctr = []
        self.left = rng.choice([8, 15, 25, 40])  # compound statements

    def program(self):
        r = self.r
        p = self.p
        self.blocks = [lang.Block(n, i + 1, p.main) for i, n in enumerate(r.sample(["first", "second", "done", "b_3", "end_up"], r.randrange(1, 4)))] if self.jumps else []
        p.blocks = p.main.blocks = self.blocks
        self.funcs = []
        for n in r.sample(["check", "step", "h2"], r.randrange(0, 3)):
            f = lang.Func(n, len(self.funcs) + 1)
            f.args = [lang.Var("a", INT)]
            f.returns = [INT] if r.random() < 0.7 else []
            self.funcs.append(f)
        p.funcs = p.main.funcs = self.funcs
        done, self.callees = self.funcs, []
        for f in done:
            self.left += 4
            self.fn = f
            self.ctr = [f.args[0]]
            f.body = self.body(r.choice([1, 2, 3]), False) + [self.ret()]
            self.callees.append(f)
        self.fn = None
        ranks = self.blocks
        for i, b in enumerate([p.main] + ranks):
            # only jump ahead, so that runs end
            self.later = ranks[i:]
            self.left += 5
            self.ctr = []
            b.body = self.body(r.choice([2, 3, 4, 5]), False) + [self.leave()]
        p.main.after = self.blocks + self.funcs
        if r.random() < 0.3:
            r.shuffle(p.main.after)
        return p

    def ret(self):
        return S("return", exprs=[self.num_expr()] if self.fn.returns else [])

    def leave(self):
        r = self.r
        if self.fn is not None:
            return self.ret() if r.random() < 0.85 else S("exit", expr=self.small())
        k = r.random()
        if self.later and k < 0.75:
            if k < 0.2:
                n = r.randrange(1, len(self.later) + 1)
                return S("switch", subj=self.num_expr(), options=[(("int", j), r.choice(self.later)) for j in range(n)],
                         else_block=r.choice(self.later) if r.random() < 0.7 else None)
            return S("jump", block=r.choice(self.later))
        return S("exit", expr=self.small())

    def small(self):
        return ("int", self.r.choice([1, 1, 1, 0, 2, 3]))

    def bit(self):
        self.n += 1
        return ("op", "getbit", (), [("op", "sha256", (), [("txna", "ApplicationArgs", ("int", 0))]), ("int", self.r.randrange(256))])

    def num_expr(self):
        r = self.r
        if self.ctr and r.random() < 0.5:
            return ("var", r.choice(self.ctr))
        return self.bit() if r.random() < 0.6 else ("int", r.randrange(4))

    def cond(self):
        r = self.r
        k = r.random()
        if k < 0.55:
            return self.bit()
        if k < 0.75 and self.ctr:
            return ("bin", r.choice(["<", ">", "==", "!=", "<=", ">="]), ("var", r.choice(self.ctr)), ("int", r.randrange(3)))
        if k < 0.85:
            return ("bin", r.choice(["&&", "||", "=="]), self.bit(), self.bit())
        if k < 0.93:
            return ("un", "!", self.bit())
        return self.num_expr()

    def mark(self):
        self.n += 1
        if self.r.random() < 0.75:
            self.p.n_probes += 1
            return S("probe", n=self.p.n_probes)
        return self.log(("int", self.n), True)

    def body(self, d, last=True):
        """A list of statements; the last one may leave"""
        r = self.r
        out = [self.mark()] if r.random() < 0.6 else []
        for _ in range(r.choice([1, 1, 1, 2, 3]) if d > 0 else r.choice([0, 1])):
            self.one(out, d)
            if r.random() < 0.4:
                out.append(self.mark())
        if last and r.random() < 0.4:
            # leave, or stop the loop
            if self.loops and r.random() < 0.6:
                out.append(S("break"))
            else:
                out.append(self.leave())
        if not out:
            out.append(self.mark())
        return out

    def one(self, out, d):
        r = self.r
        k = r.random()
        if d <= 0 or self.left <= 0:
            k /= 10
        if k < 0.1:
            if k < 0.05 and self.callees:
                f = r.choice(self.callees)
                if f.returns:
                    out.append(self.log(("call", f, [self.num_expr()]), True))
                else:
                    out.append(S("call", expr=("call", f, [self.num_expr()])))
            else:
                out.append(self.mark())
        elif k < 0.65:
            self.left -= 1
            n = r.choice([1, 1, 1, 2, 2, 3])
            ctr = list(self.ctr)
            br = []
            for _ in range(n):
                br.append((r.random() < 0.3, self.cond(), self.body(d - 1)))
                self.ctr = list(ctr)
            el = self.body(d - 1) if r.random() < 0.5 else None
            self.ctr = ctr
            out.append(S("if", branches=br, else_body=el))
        else:
            self.loop(out, d)

    def loop(self, out, d):
        r = self.r
        kind = r.choice(["while", "for", "for_"])
        self.left -= 1
        self.n += 1
        ctr = list(self.ctr)
        loops, self.loops = self.loops, self.loops + 1 if kind == "while" else 0
        lo, n = r.randrange(3), r.randrange(0, 4)
        if kind == "while":
            v = lang.Var(f"w{self.n}", INT)
            out.append(S("decl", var=v, expr=("int", 0)))
            self.ctr = ctr + [v]
            neg = r.random() < 0.3
            c = ("bin", ">=" if neg else "<", ("var", v), ("int", n))
            if r.random() < 0.3:
                c = ("bin", "||" if neg else "&&", c, self.cond())
            b = [S("assign", vars=[v], expr=("bin", "+", ("var", v), ("int", 1)))]
            b += self.body(d - 1)
            out.append(S("while", neg=neg, cond=c, body=b))
            ctr = ctr + [v]
        elif kind == "for":
            v = lang.Var(f"i{self.n}", INT)
            self.ctr = ctr + [v]
            out.append(S("for", var=v, start=("int", lo), end=("int", lo + n), body=self.body(d - 1)))
        else:
            out.append(S("for_", start=("int", lo), end=("int", lo + n), body=self.body(d - 1)))
        self.loops = loops
        self.ctr = ctr
