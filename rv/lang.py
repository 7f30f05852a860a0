"""The generator's own model of Tealish programs (never produced by parsing)."""

INT = ("int",)
U64T = ("uint64",)
UINT8 = ("uint8",)
BYTES = ("bytes", 0)
BIGINT = ("bigint",)


def bytesn(n):
    return ("bytes", n)


class Struct:
    def __init__(self, name):
        self.name = name
        self.fields = []  # (name, type)
        self.comments = {}

    def add(self, fname, t):
        self.fields.append((fname, t))

    @property
    def size(self):
        return sum(tsize(t) for _, t in self.fields)

    def offset(self, fname):
        o = 0
        for f, t in self.fields:
            if f == fname:
                return o, t
            o += tsize(t)
        raise KeyError(fname)

    def __repr__(self):
        return f"Struct({self.name})"


def is_int(t):
    return t[0] in ("int", "uint64", "uint8")


def tsize(t):
    """Number of bytes a value of the type takes up; 0 if it is not fixed"""
    k = t[0]
    if k in ("int", "uint64"):
        return 8
    if k == "uint8":
        return 1
    if k == "bytes":
        return t[1]
    if k in ("struct", "box"):
        return t[1].size
    if k == "array":
        return t[1]
    if k == "addr":
        return 32
    return 0


def tstr(t):
    k = t[0]
    if k == "bytes":
        return f"bytes[{t[1]}]" if t[1] else "bytes"
    if k == "struct":
        return t[1].name
    if k == "box":
        return f"box<{t[1].name}>"
    if k == "array":
        return f"uint8[{t[1]}]"
    return k


class Var:
    __slots__ = ("name", "type", "readonly", "maxlen", "kind")

    def __init__(self, name, type, kind="local"):
        self.name, self.type, self.kind = name, type, kind
        self.readonly = False
        self.maxlen = 64

    def __repr__(self):
        return f"Var({self.name}:{tstr(self.type)})"


class Const:
    __slots__ = ("name", "type", "value", "src")

    def __init__(self, name, type, value, src):
        self.name, self.type, self.value, self.src = name, type, value, src


class Func:
    def __init__(self, name, fid):
        self.name = name
        self.fid = fid
        self.args = []  # Vars
        self.returns = []  # types
        self.body = []
        self.effects = False
        self.public = None  # None or dict(oc=...)
        self.scope = None
        self.pre = []  # comment/blank statements between decorator and func
        self.line = 0

    def __repr__(self):
        return f"Func({self.name})"


class Block:
    """A block; the main program is the block with name None"""

    def __init__(self, name, bid, parent=None):
        self.name, self.bid, self.parent = name, bid, parent
        self.body = []  # statements, the last is an exit statement
        self.blocks = []
        self.funcs = []
        self.after = []  # interleaved order of blocks and funcs and comments
        self.prologue_vars = []
        self.line = 0

    def chain(self):
        b = self
        while b is not None:
            yield b
            b = b.parent


class S:
    """A statement. kind and its fields:
    decl var expr|None; assign vars(list of Var|None) expr; setfield var field expr;
    box var method key; call expr; assert expr msg; if branches[(neg, cond, body)]
    else_body; while neg cond body; for var start end body; for_ start end body;
    break; return exprs; jump block; switch subj options[(expr, block)] else_block;
    exit expr; itxn fields[(name, idx, expr)]; igroup body; teal lines fn;
    comment text; blank; probe n; error; router funcs; const const"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.line = 0
        self.__dict__.update(kw)

    def __repr__(self):
        return f"S({self.kind}@{self.line})"


class Program:
    def __init__(self):
        self.version = 8
        self.structs = []
        self.consts = []
        self.main = Block(None, 0)
        self.funcs = []
        self.blocks = []
        self.probe_sigs = {}
        self.n_probes = 0

    def all_stmts(self):
        def walk(body):
            for s in body:
                yield s
                if s.kind == "if":
                    for _, _, b in s.branches:
                        yield from walk(b)
                    if s.else_body is not None:
                        yield from walk(s.else_body)
                elif s.kind in ("while", "for", "for_", "igroup"):
                    yield from walk(s.body)

        def blk(b):
            yield from walk(b.body)
            for f in b.funcs:
                yield from walk(f.body)
            for c in b.blocks:
                yield from blk(c)

        yield from blk(self.main)


def leaves(body):
    """Whether there is a jump or switch in a body"""
    for s in body:
        bodies = [b for _, _, b in s.branches] + [s.else_body or []] if s.kind == "if" else [s.body] if s.kind in ("while", "for", "for_", "igroup") else []
        if s.kind in ("jump", "switch") or any(leaves(b) for b in bodies):
            return True
    return False


def bodies(prog):
    """Every list of statements of a program"""
    def walk(body):
        yield body
        for s in body:
            if s.kind == "if":
                for _, _, b in s.branches:
                    yield from walk(b)
                if s.else_body is not None:
                    yield from walk(s.else_body)
            elif s.kind in ("while", "for", "for_"):
                yield from walk(s.body)

    def blk(b):
        yield from walk(b.body)
        for f in b.funcs:
            yield from walk(f.body)
        for c in b.blocks:
            yield from blk(c)

    yield from blk(prog.main)


# ---------------------------------------------------------------- literals
def bytes_src(value, style=0):
    """TEAL/Tealish source (without quotes) of a byte string"""
    out = []
    for c in value:
        ch = chr(c)
        if ch == '"':
            out.append('\\"')
        elif ch == "\\":
            out.append("\\\\")
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\t":
            out.append("\\t")
        elif 32 <= c < 127:
            out.append(ch)
        else:
            out.append(f"\\x{c:02x}")
    return "".join(out)


# ---------------------------------------------------------------- printing
class Style:
    """How to lay a program out. The default is the canonical style."""

    def __init__(self, rng=None, hostile=False):
        self.rng = rng
        self.hostile = hostile


LAY = None  # a Layout, while a program is printed in another layout
FIELD = {}  # (id of the struct, field) -> name to print, while renaming


class Layout:
    """Random choices among the spellings that the language does not tell apart"""

    def __init__(self, rng):
        self.rng = rng

    def comma(self):
        return self.rng.choice([", ", ",", " , ", ",  ", ",\t"])

    def list_comma(self):
        return self.rng.choice([", ", ",", ",   "])

    def op(self, o):
        if o[0] == "b":
            return " " + o + self.rng.choice(["", " ", "  "])
        return self.rng.choice(["", " ", "  "]) + o + self.rng.choice(["", " ", "  "])

    def pad(self):
        return self.rng.choice(["", "", " ", "  "])


def comma():
    return LAY.comma() if LAY else ", "


def list_comma():
    return LAY.list_comma() if LAY else ", "


def pad():
    return LAY.pad() if LAY else ""


def args(xs):
    """A bracketed argument list"""
    xs = list(xs)
    out = "(" + pad()
    for i, x in enumerate(xs):
        out += (comma() if i else "") + x
    return out + pad() + ")"


def fname(st, f):
    return FIELD.get((id(st), f), f)


def ex(e, top=True):
    """Source of an expression; binary operands are grouped"""
    k = e[0]
    if k == "int":
        return e[2] if len(e) > 2 else str(e[1])
    if k == "bytes":
        return f'"{e[2]}"'
    if k == "hex":
        return e[2]
    if k == "var":
        return e[1].name
    if k == "const":
        return e[1].name
    if k == "enum":
        return e[1]
    if k == "un":
        return f"{e[1]}{ex(e[2], False)}"
    if k == "bin":
        s = f"{ex(e[2], False)}{LAY.op(e[1]) if LAY else ' ' + e[1] + ' '}{ex(e[3], False)}"
        return s if top else f"({pad()}{s}{pad()})"
    if k == "grp":
        return f"({pad()}{ex(e[1])}{pad()})"
    if k == "call":
        return e[1].name + args(ex(a) for a in e[2])
    if k == "op":
        return e[1] + args([imm(i) for i in e[2]] + [ex(a) for a in e[3]])
    if k == "std":
        return e[1] + args(ex(a) if isinstance(a, tuple) and a[0] != "type" else tstr(a[1]) if isinstance(a, tuple) else str(a) for a in e[2])
    if k == "field":
        return f"{e[1].name}.{fname(e[1].type[1], e[2])}"
    if k == "txn":
        return f"Txn.{e[1]}"
    if k == "txna":
        return f"Txn.{e[1]}[{ex(e[2])}]"
    if k == "gtxn":
        return f"Gtxn[{gidx(e[1])}].{e[2]}"
    if k == "gtxna":
        return f"Gtxn[{gidx(e[1])}].{e[2]}[{ex(e[3])}]"
    if k == "itxn":
        return f"Itxn.{e[1]}"
    if k == "itxna":
        return f"Itxn.{e[1]}[{ex(e[2])}]"
    if k == "global":
        return f"Global.{e[1]}"
    if k == "pop":
        return "pop()"
    if k == "push":
        return "push" + args(ex(a) for a in e[1])
    if k == "raw":
        return e[1]
    raise AssertionError(k)


def imm(i):
    if isinstance(i, bytes):
        return f'"{bytes_src(i)}"'
    if isinstance(i, Const):
        return i.name
    return str(i)


def gidx(i):
    if i[0] == "rel":
        return f"{i[1]:+d}"
    return ex(i)


class Printer:
    def __init__(self, prog):
        self.p = prog
        self.lines = []
        self.owner = []  # statement (or other object) of each line

    def w(self, ind, text, owner=None):
        self.lines.append("    " * ind + text)
        self.owner.append(owner)
        return len(self.lines)

    def program(self):
        p = self.p
        if p.version is not None:
            self.w(0, f"#pragma version {p.version}")
        for s in p.structs:
            s.line = self.w(0, f"struct {s.name}:", s)
            for i, (f, t) in enumerate(s.fields):
                for c in s.comments.get(i, []):
                    self.w(1, c)
                self.w(1, f"{fname(s, f)}: {tstr(t)}")
            self.w(0, "end")
        for c in p.consts:
            self.const(c, 0)
        self.block_inner(p.main, 0)
        return "\n".join(self.lines) + "\n"

    def const(self, c, ind, s=None):
        t = "int" if is_int(c.type) else "bytes"
        return self.w(ind, f"const {t} {c.name} = {c.src}", s)

    def block_inner(self, b, ind):
        self.body(b.body, ind)
        for x in b.after:
            if isinstance(x, Block):
                x.line = self.w(ind, f"block {x.name}:", x)
                self.block_inner(x, ind + 1)
                self.w(ind, "end", x)
            elif isinstance(x, Func):
                self.func(x, ind)
            else:
                self.stmt(x, ind)

    def func(self, f, ind):
        if f.public is not None:
            oc = f.public.get("oc")
            self.w(ind, f"@public({'OnCompletion=' + oc if oc else ''})", f)
        for s in f.pre:
            self.stmt(s, ind)
        fargs = "".join((list_comma() if i else "") + f"{a.name}: {tstr(a.type)}" for i, a in enumerate(f.args))
        rets = "".join((list_comma() if i else "") + tstr(t) for i, t in enumerate(f.returns))
        f.line = self.w(ind, f"func {f.name}({fargs}){' ' + rets if rets else ''}:", f)
        self.body(f.body, ind + 1)
        self.w(ind, "end", f)

    def body(self, body, ind):
        for s in body:
            self.stmt(s, ind)

    def stmt(self, s, ind):
        k = s.kind
        w = self.w
        if k == "decl":
            t = f"{tstr(s.var.type)} {s.var.name}"
            s.line = w(ind, t + (f" = {ex(s.expr)}" if s.expr is not None else ""), s)
        elif k == "assign":
            names = "".join((list_comma() if i else "") + (v.name if v else "_") for i, v in enumerate(s.vars))
            s.line = w(ind, f"{names} = {ex(s.expr)}", s)
        elif k == "setfield":
            s.line = w(ind, f"{s.var.name}.{fname(s.var.type[1], s.field)} = {ex(s.expr)}", s)
        elif k == "box":
            s.line = w(ind, f"box<{s.var.type[1].name}> {s.var.name} = {s.method}Box({ex(s.key)})", s)
        elif k == "call":
            s.line = w(ind, ex(s.expr), s)
        elif k == "assert":
            m = f', "{s.msg}"' if s.msg is not None else ""
            s.line = w(ind, f"assert({ex(s.expr)}{m})", s)
        elif k == "if":
            s.branch_lines = []
            for i, (neg, cond, b) in enumerate(s.branches):
                kw = "elif" if i else "if"
                n = w(ind, f"{kw} {'not ' if neg else ''}{ex(cond)}:", s)
                s.branch_lines.append(n)
                self.body(b, ind + 1)
            s.line = s.branch_lines[0]
            if s.else_body is not None:
                s.else_line = w(ind, "else:", s)
                self.body(s.else_body, ind + 1)
            s.end_line = w(ind, "end", s)
        elif k == "while":
            s.line = w(ind, f"while {'not ' if s.neg else ''}{ex(s.cond)}:", s)
            self.body(s.body, ind + 1)
            s.end_line = w(ind, "end", s)
        elif k == "for":
            s.line = w(ind, f"for {s.var.name} in {ex(s.start)}:{ex(s.end)}:", s)
            self.body(s.body, ind + 1)
            s.end_line = w(ind, "end", s)
        elif k == "for_":
            s.line = w(ind, f"for _ in {ex(s.start)}:{ex(s.end)}:", s)
            self.body(s.body, ind + 1)
            s.end_line = w(ind, "end", s)
        elif k == "break":
            s.line = w(ind, "break", s)
        elif k == "return":
            s.line = w(ind, "return" + (" " + "".join((comma() if i else "") + ex(e) for i, e in enumerate(s.exprs)) if s.exprs else ""), s)
        elif k == "jump":
            s.line = w(ind, f"jump {s.block.name}", s)
        elif k == "switch":
            s.line = w(ind, f"switch {ex(s.subj)}:", s)
            for e, b in s.options:
                w(ind + 1, f"{ex(e)}: {b.name}", s)
            if s.else_block is not None:
                w(ind + 1, f"else: {s.else_block.name}", s)
            s.end_line = w(ind, "end", s)
        elif k == "exit":
            s.line = w(ind, f"exit({ex(s.expr)})", s)
        elif k == "itxn":
            s.line = w(ind, "inner_txn:", s)
            s.field_lines = []
            for f, i, e in s.fields:
                ix = f"[{i}]" if i is not None else ""
                s.field_lines.append(w(ind + 1, f"{f}{ix}: {ex(e)}", s))
            s.end_line = w(ind, "end", s)
        elif k == "igroup":
            s.line = w(ind, "inner_group:", s)
            self.body(s.body, ind + 1)
            s.end_line = w(ind, "end", s)
        elif k == "teal":
            s.line = w(ind, "teal:", s)
            s.teal_lines = [w(ind + 1, l, s) for l in s.lines]
            s.end_line = w(ind, "end", s)
        elif k == "probe":
            from .avm import MAGIC

            s.line = w(ind, "teal:", s)
            w(ind + 1, f"pushint {MAGIC + s.n}", s)
            w(ind + 1, "pop", s)
            w(ind, "end", s)
        elif k == "comment":
            s.line = w(ind, f"#{s.text}", s)
        elif k == "blank":
            s.line = w(0, "", s)
        elif k == "error":
            s.line = w(ind, "Error()", s)
        elif k == "router":
            s.line = w(ind, "router:", s)
            for f in s.funcs:
                w(ind + 1, f.name, s)
            s.end_line = w(ind, "end", s)
        elif k == "const":
            s.line = self.const(s.const, ind, s)
        else:
            raise AssertionError(k)


def source(prog):
    return Printer(prog).program()
