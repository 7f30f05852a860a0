"""Variants of a program that the language does not tell apart: layout, comments,
blank lines, names"""
from . import lang
from .lang import Block, Const, Func, Struct, Var

COMMENTS = [
    "", " plain", " it's 'quoted'", ' one " quote', ' "a" "b" "c', " // slashes", " # hash # again", " tl:3: int x = 1",
    " int y = 2", " end", "end", "if x:", " a = b; c", " \\", " \\\"", ' x = "', " \u00e9\u4e2d", " pragma version 3", " ; int 1", ":", " b l0:",
    " `~!@$%^&*()", " 'single", "block foo:", "//", "/* */", " retsub", " #define X 1",
]


def respaced(p, rng):
    """(lines, owners, printer) of the program in another spelling"""
    lang.LAY = lang.Layout(rng)
    try:
        pr = lang.Printer(p)
        pr.program()
    finally:
        lang.LAY = None
    return pr.lines, pr.owner


def in_teal(lines, owners, i):
    o = owners[i]
    return getattr(o, "kind", None) in ("teal", "probe") and lines[i].strip() not in ("teal:",)


def relayout(lines, owners, rng, indent=True, blanks=0.2, comments=0.0, inline=0.0, crlf=False):
    """-> text, [original line numbers], whole-line comments inserted"""
    out, number, added = [], [], []
    style = rng.randrange(4)
    for i, l in enumerate(lines):
        t = l.strip()
        teal = in_teal(lines, owners, i)
        first = i == 0 and t.startswith("#pragma")
        if not first and not teal:
            while rng.random() < blanks:
                out.append(rng.choice(["", " ", "\t", "     "]))
                number.append(None)
            while rng.random() < comments:
                out.append(" " * rng.randrange(8) + "#" + rng.choice(COMMENTS))
                number.append(None)
                added.append(out[-1].strip())
        ind = l[: len(l) - len(l.lstrip())]
        if indent and not first:
            ind = [lambda: "", lambda: " " * rng.randrange(10), lambda: "\t" * (len(ind) // 4), lambda: ind][style]()
        s = ind + t
        if inline and t and t[0] != "#" and not teal and rng.random() < inline:
            s += rng.choice([" ", "  ", ""]) + "#" + rng.choice(COMMENTS)
        elif indent and rng.random() < 0.2 and t and t[0] != "#":
            s += rng.choice([" ", "\t", "   "])
        out.append(s)
        number.append(i + 1)
    return ("\r\n" if crlf else "\n").join(out) + "\n", number, added


# ----------------------------------------------------------------- renaming
WORDS = [
    "returned", "breaker", "iff", "elses", "ending", "format", "forx", "while_1", "switcher", "jumper", "exits", "blocks", "funcs", "funky", "structs",
    "constant", "teals", "notx", "not_", "inn", "ints", "bytesx", "boxed", "txns", "gtxn", "itxn", "global", "load", "store", "sha256", "len", "btoi",
    "itob", "b", "bz", "l0", "l1", "l0_end", "l1_if", "main", "a", "aa", "ab", "abc", "abcd", "x", "x1", "x11", "x_1", "x__1", "blocks__a",
    "pop", "push", "dup", "assertx", "assert_", "log", "err", "retsub", "addr", "pragma", "route", "router_", "public", "uint8x", "bigints", "any",
    "i", "ii", "v", "vv", "val", "value_1", "tmp", "aVar", "camelCase", "zZ9",
]


class Namer:
    def __init__(self, rng):
        self.rng = rng
        self.used = set()

    def low(self, words=None):
        while True:
            n = self.rng.choice(words or WORDS)
            if self.rng.random() < 0.5:
                n += self.rng.choice(["", "_", "0", "_2", "x", "_end", "Z"])
            if self.rng.random() < 0.1:
                n += "y" * self.rng.randrange(1, 60)
            if n in self.used:
                n += str(self.rng.randrange(1000))
            if n not in self.used:
                self.used.add(n)
                return n

    def struct(self):
        while True:
            n = self.rng.choice("ABCDEFGHIJ") + self.rng.choice(["", "b", "_"]) + self.low()
            if n not in self.used:
                self.used.add(n)
                return n

    def const(self):
        while True:
            n = self.rng.choice(["A", "AB", "ABC", "K_1", "K_11", "Q", "Q1", "TXN_X", "LONG_NAME", "X_", "Z9", "INT_", "END_", "NOOP", "PAY_1"]) + self.rng.choice(["", "_", "1", "_2", "Q"])
            if n in self.used:
                n += str(self.rng.randrange(1000))
            if n not in self.used and n not in ("B", "G"):
                self.used.add(n)
                return n


FUNC_WORDS = [w for w in WORDS if w not in (
    "load", "store", "sha256", "len", "btoi", "itob", "b", "bz", "pop", "push", "dup", "log", "err", "retsub", "addr", "func", "txn", "gtxn", "itxn", "global",
)]
# labels of blocks may not look like those of conditionals, or contain a double underscore
BLOCK_WORDS = [w for w in WORDS if not w.startswith(("l0", "l1")) and "__" not in w]


def named(p):
    """All the declared things of a program, each once, in program order"""
    seen, out = set(), []

    def add(o):
        if id(o) not in seen:
            seen.add(id(o))
            out.append(o)

    for s in p.structs:
        add(s)
    for c in p.consts:
        add(c)
    for s in p.all_stmts():
        if s.kind in ("decl", "box", "for"):
            add(s.var)
        elif s.kind == "const":
            add(s.const)

    def blk(b):
        for f in b.funcs:
            add(f)
            for a in f.args:
                add(a)
        for c in b.blocks:
            add(c)
            blk(c)

    blk(p.main)
    for f in p.funcs:
        add(f)
        for a in f.args:
            add(a)
    return out


class renamed:
    """Context in which the program's names are other ones"""

    def __init__(self, p, rng):
        self.p, self.rng = p, rng

    def __enter__(self):
        n = Namer(self.rng)
        self.old = []
        self.map = {}
        for o in named(self.p):
            self.old.append((o, o.name))
        for o, name in self.old:
            if isinstance(o, Struct):
                o.name = n.struct()
                fn = Namer(self.rng)
                for f, _ in o.fields:
                    lang.FIELD[id(o), f] = fn.low()
            elif isinstance(o, Const):
                o.name = n.const()
            elif isinstance(o, Func):
                o.name = n.low(FUNC_WORDS) if o.public is None else name
            elif isinstance(o, Block):
                o.name = n.low(BLOCK_WORDS)
            elif o.name != "_":
                o.name = n.low()
        return self

    def __exit__(self, *a):
        for o, name in self.old:
            o.name = name
        lang.FIELD.clear()
