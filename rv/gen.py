"""Seeded generator of well-typed Tealish programs, as model objects (lang.py).

A profile is a set of features; every program it makes is one the documentation
says is valid, so a rejection by the compiler is a violation of the property the
program exercises. Values are kept within bounds so that most programs run to
the end; a small share of operations may fail at run time on purpose."""
from .lang import (
    BIGINT, BYTES, INT, U64T, UINT8, Block, Const, Func, Program, S, Struct, Var,
    bytes_src, bytesn, is_int, leaves, tsize, tstr,
)
from .teal import U64
from .world import GLOBAL_TYPES, TXN_TYPES

M64 = U64 - 1

VAR_NAMES = [
    "inner_group_flag", "a", "b", "c", "d", "i", "j", "k", "n", "x", "y", "z", "x1", "x2", "x12", "foo",
    "foo_", "fooBar", "aB", "total", "counter", "amount", "returned", "return_value",
    "breaker", "break_even", "iffy", "if_x", "elsewhere", "else_", "elif_", "ended",
    "end_", "endif", "forx", "for_each", "whiles", "while_x", "int_x", "ints", "bytes_x",
    "bytesy", "notx", "not_", "exit_code", "exits", "jumper", "jump_to", "switcher",
    "teal_x", "func_x", "block_x", "struct_x", "const_x", "router_", "inner_x",
    "asserted", "len", "log", "load", "store", "txn", "global", "itob", "pop_", "err",
    "pushint", "callsub", "bnz", "l0_end", "main", "boxy", "box_x", "value", "result",
    "in_x", "tl", "uint8x", "e0x1", "o", "l", "very_long_variable_name_with_many_parts_0",
]
CONST_NAMES = [
    "A", "B", "C", "X", "Y", "Z", "FOO", "FOO_BAR", "FOO_", "A1", "A2", "MAX_VALUE",
    "TOTAL", "END", "RETURN", "IF", "TXN", "INT", "KEY", "KEY_2", "ZERO", "BIG", "ADDR",
    "BYTES", "ELSE", "N", "P0", "TRUE", "LOCKED_",
]
FUNC_NAMES = [
    "f", "g", "h", "compute", "do_it", "get_value", "set_value", "update", "check_all",
    "helper", "helper2", "helper_2", "if_func", "return_it", "break_it", "end_it",
    "for_it", "main_f", "f1", "f2", "f11", "swap_all", "exit_now", "router_f", "pay_",
    "assert_ok", "block_f", "fooBar",
]
BLOCK_NAMES = [
    "first", "second", "third", "main_block", "b1", "b2", "b3", "setup", "finish",
    "end_block", "if_block", "loop_block", "fail_1", "a_", "blk", "nested", "inner",
    "done", "create", "opt_in", "Zed", "jump_here", "DONE", "STEP2", "X9",
]
STRUCT_NAMES = ["Item", "Pair", "Sale", "Foo", "FooBar", "State_1", "Ab", "Cd", "Pool", "User", "A", "Z", "N", "B2"]
FIELD_NAMES = [
    "a", "b", "c", "x", "y", "id", "price", "amount", "owner", "seller", "count", "field_1",
    "total", "end_", "if_", "asset_id", "fooBar", "len", "log", "flag", "data",
]
HOSTILE = [
    "#", " # x", "//", " // note", ";", "; pop", ":", "else:", "a: b", ",", ", ", "(", ")",
    "()", ") + (", " = ", "x = 1", " == ", "\\", '"', '\\"', "\n", "\t", "'", "end", "{",
    "}", "[0]", "<", "> ", "\x00", "\x7f", "\xff", " ", "  ", "  lead", "trail  ", "return",
    "l0_end:", "TMPL_X", "%s", "{}", "0x41", "b64", "?", "@public()", "$", "`", "\\n",
    ", 2)", '")', '" + "', "b:", "int", "#pragma version 6",
]
COMMENTS = [
    " a comment", "", "no space", "#", " // slashes", ' "quoted', " end", " return 1", " if x:",
    "pragm", " x = 1 # y", " else:", " func f():", " block b:", " ;", ":", " @public()",
    " TODO: fix (later)", " '", " \\", "\\n", " teal:", " é ü", "!", " {x}", " const int A = 1",
]

# int and bytes fields which are safe to read in any world
TXN_INT = [f for f, t in TXN_TYPES.items() if t == "U" and f not in
           ("Assets", "Applications", "GroupIndex")]
TXN_BYTES = [f for f, t in TXN_TYPES.items() if t == "B" and f not in
             ("ApplicationArgs", "Accounts", "Logs", "ApprovalProgramPages",
              "ClearStateProgramPages")]
GLOB_INT = [f for f, t in GLOBAL_TYPES.items() if t == "U"]
GLOB_BYTES = [f for f, t in GLOBAL_TYPES.items() if t == "B"]
ITX_INT = ["Amount", "Fee", "XferAsset", "AssetAmount", "ConfigAsset", "ApplicationID"]
ITX_BYTES = ["Receiver", "AssetReceiver", "Note", "CloseRemainderTo", "ConfigAssetName"]
ENUMS = ["NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication",
         "DeleteApplication", "Pay", "Acfg", "Axfer", "Afrz", "Appl"]
EDGE = [0, 1, 2, 7, 10, 127, 128, 255, 256, 257, 1000, 65535, 65536, 2**24, 2**31, 2**32 - 1,
        2**32, 2**53, 2**63 - 1, 2**63, M64 - 1, M64]


class Sc:
    def __init__(self, parent=None):
        self.parent = parent
        self.names = set()
        self.vars = []
        self.consts = []

    def chain(self):
        s = self
        while s is not None:
            yield s
            s = s.parent

    def taken(self, n):
        return any(n in s.names for s in self.chain())


# Whether the generator also writes wide forms (many branches, options, arguments) and loops with empty bodies
WIDE = False


class Gen:
    def __init__(self, rng, feats=(), size=12, depth=3, version=8, panic=0.004,
                 max_vars=40, probe_rate=0.12, tweak=None):
        self.r = rng
        self.f = set(feats)
        self.size = size
        self.depth = depth
        self.version = version
        self.panic = panic
        self.max_vars = max_vars
        self.probe_rate = probe_rate
        self.n_vars = 0
        self.sc = None
        self.init = set()
        self.fn = None
        self.blk = None
        self.loops = 0
        self.in_group = False
        self.in_while = False
        self.nest = 0
        self.key_n = 0
        self.msgs = []
        self.has_itxn = False
        self.used_names = set()
        self.stats = {}
        self.calls = True
        self.w = {}
        if tweak:
            self.w.update(tweak)

    # ------------------------------------------------------------ utilities
    def ch(self, xs):
        return xs[self.r.randrange(len(xs))]

    def p(self, x):
        return self.r.random() < x

    def risky(self):
        return self.p(self.panic)

    def has(self, f):
        return f in self.f

    def pick(self, opts):
        """opts: list of (weight, thing)"""
        t = sum(w for w, _ in opts)
        x = self.r.random() * t
        for w, v in opts:
            x -= w
            if x < 0:
                return v
        return opts[-1][1]

    def name(self, pool, taken):
        for _ in range(20):
            n = self.ch(pool)
            if not taken(n):
                return n
        i = 0
        while True:
            n = f"{self.ch(pool)}{i}" if not pool[0].isupper() else f"{self.ch(pool)}_{i}"
            if not taken(n):
                return n
            i += 1

    def new_var(self, t, kind="local"):
        n = self.name(VAR_NAMES, self.sc.taken)
        v = Var(n, t, kind)
        self.sc.names.add(n)
        v.maxlen = self.hi_for(t)
        return v

    def hi_for(self, t):
        if is_int(t):
            if t[0] == "uint8":
                return 255
            return self.ch([9, 255, 1000, 2**32, M64, M64])
        if tsize(t):
            return tsize(t)
        return self.ch([8, 32, 64, 64])

    def push(self):
        self.sc = Sc(self.sc)

    def popsc(self):
        self.sc = self.sc.parent

    def readable(self, pred):
        out = []
        for s in self.sc.chain():
            for v in s.vars:
                if v in self.init and pred(v):
                    out.append(v)
        return out

    def assignable(self):
        out = []
        for s in self.sc.chain():
            for v in s.vars:
                if not v.readonly and v.type[0] != "box":
                    out.append(v)
        return out

    # ------------------------------------------------------------ literals
    def lit(self, hi=M64):
        r = self.r
        k = r.random()
        if k < 0.5:
            v = r.randrange(0, 11)
        elif k < 0.85:
            v = self.ch(EDGE)
        else:
            v = r.randrange(0, 2 ** r.randrange(1, 65))
        if v > hi:
            v = v % (hi + 1)
        if self.has("lits") and self.p(0.06):
            return ("int", v, "0" * r.randrange(1, 3) + str(v))
        return ("int", v)

    def text(self, maxlen):
        """(value, source) of a non-empty string of at most maxlen bytes"""
        r = self.r
        if self.has("hostile") and self.p(0.45):
            for _ in range(5):
                parts = [self.ch(HOSTILE) if self.p(0.7) else self.ch(["a", "bc", "x y", "1"])
                         for _ in range(r.randrange(1, 4))]
                v = "".join(parts).encode("latin-1")
                if 0 < len(v) <= maxlen:
                    return v, self.src(v)
        if self.has("hostile") and self.p(0.08) and maxlen >= 4:
            s = self.ch(["é", "ü#", "→", "日", "a\u00e9//"])
            v = s.encode()
            if len(v) <= maxlen:
                return v, s
        n = r.randrange(1, min(maxlen, 12) + 1)
        v = bytes(self.ch(b"abcdefgh ABC0123_-.") for _ in range(n))
        return v, self.src(v)

    def exact_text(self, n):
        if n > 20:
            v = bytes(self.ch(b"abcxyz01") for _ in range(n))
            return v, self.src(v)
        v = b""
        for _ in range(50):
            if len(v) >= n:
                break
            t, _ = self.text(n - len(v))
            v += t
        return v, self.src(v)

    def src(self, v):
        if not self.has("hostile"):
            return bytes_src(v)
        out = []
        for c in v:
            if self.p(0.04):
                out.append(f"\\x{c:02x}" if self.p(0.5) else f"\\x{c:02X}")
            else:
                out.append(bytes_src(bytes([c])))
        return "".join(out)

    def blit(self, maxlen):
        if maxlen < 1:
            return ("op", "bzero", (), [("int", 0)]), 0
        v, s = self.text(maxlen)
        return ("bytes", v, s), len(v)

    # ------------------------------------------------------------ int expressions
    def int(self, d=None, hi=M64):
        d = self.depth if d is None else d
        for _ in range(3):
            e, b = self.int_any(d, hi)
            if b <= hi:
                return e
        if hi == M64:
            return e
        if hi == 0:
            return ("int", 0)
        if hi & (hi + 1) == 0 and self.p(0.4):
            return ("bin", "&", e, ("int", hi))
        return ("bin", "%", e, ("int", hi + 1))

    def ib(self, d, hi=M64):
        """int expression with its bound"""
        e, b = self.int_any(d, hi)
        if b > hi:
            return self.int(d, hi), hi
        return e, b

    def int_any(self, d, hi):
        vs = self.readable(lambda v: is_int(v.type))
        opts = [(3, "lit"), (6 if vs else 0, "var")]
        cs = [c for c in self.visible_consts() if is_int(c.type)]
        opts.append((2 if cs else 0, "const"))
        if self.has("enum"):
            opts.append((0.7, "enum"))
        if d > 0:
            opts += [(5, "arith"), (3, "cmp"), (2, "un"), (1.5, "bcmp")]
            if self.has("ops"):
                opts += [(3, "op")]
            if self.has("std"):
                opts += [(2, "std")]
            if self.has("call") and self.calls and self.callable(lambda f: len(f.returns) == 1 and is_int(f.returns[0])):
                opts += [(3, "call")]
            if self.has("state"):
                opts += [(1, "state")]
        if self.has("fields"):
            opts += [(2, "field")]
        sv = [v for v in self.readable(lambda v: v.type[0] in ("struct", "box"))
              if any(is_int(t) for _, t in v.type[1].fields)]
        if sv:
            opts += [(4, "sfield")]
        if self.has_itxn and not self.in_group:
            opts += [(2, "itxn")]
        opts = self.boost(opts)
        k = self.pick(opts)
        self.stats[k] = self.stats.get(k, 0) + 1
        if k == "lit":
            e = self.lit()
            return e, e[1]
        if k == "var":
            v = self.ch(vs)
            return ("var", v), v.maxlen
        if k == "const":
            c = self.ch(cs)
            return ("const", c), c.value
        if k == "enum":
            return ("enum", self.ch(ENUMS)), 6
        if k == "arith":
            return self.arith(d - 1, hi)
        if k == "cmp":
            if self.p(0.5):
                # operands which are sometimes equal
                vs2 = vs or [None]
                v = self.ch(vs2)
                a = ("var", v) if v else self.int(d - 1)
                m = v.maxlen if v else 20
                b = self.int(d - 1, m)
            else:
                a, b = self.int(d - 1), self.int(d - 1)
            if self.p(0.5):
                a, b = b, a
            return ("bin", self.ch(["==", "!=", "<", "<=", ">", ">=", "&&", "||"]), a, b), 1
        if k == "bcmp":
            if self.has("bigint") and self.p(0.5):
                return ("bin", self.ch(["b==", "b!=", "b<", "b<=", "b>", "b>="]), self.bytes(d - 1, 64), self.bytes(d - 1, 64)), 1
            return ("bin", self.ch(["==", "!="]), self.bytes(d - 1), self.bytes(d - 1)), 1
        if k == "un":
            if self.p(0.6):
                return ("un", "!", self.int(d - 1)), 1
            return ("un", "~", self.int(d - 1)), M64
        if k == "call":
            f = self.ch(self.callable(lambda f: len(f.returns) == 1 and is_int(f.returns[0])))
            return self.callx(f, d - 1), self.ret_hi(f, 0)
        if k == "op":
            return self.int_op(d - 1)
        if k == "std":
            return self.int_std(d - 1)
        if k == "state":
            key = self.state_key("i")
            if self.p(0.6):
                return ("op", "app_global_get", (), [key]), M64
            return ("op", "app_local_get", (), [("txn", "Sender"), key]), M64
        if k == "field":
            return self.field(True, d), M64
        if k == "sfield":
            v = self.ch(sv)
            f, t = self.ch([(f, t) for f, t in v.type[1].fields if is_int(t)])
            return ("field", v, f), 256 ** tsize(t) - 1
        if k == "itxn":
            return ("itxn", self.ch(ITX_INT)), M64
        raise AssertionError(k)

    boost_std = boost_fields = boost_lits = False

    def boost(self, opts):
        if self.boost_std:
            opts = [(w * 6 if k == "std" else w, k) for w, k in opts]
        if self.boost_fields:
            opts = [(w * 6 if k == "field" else w * 3 if k == "itxn" else w, k) for w, k in opts]
        if self.boost_lits:
            opts = [(w * 4 if k in ("lit", "const", "enum", "benum") else w, k) for w, k in opts]
        return opts

    def arith(self, d, hi):
        r = self.r
        if self.risky():
            # might well fail at run time
            return ("bin", self.ch(["+", "-", "*", "/", "%"]), self.int(d), self.int(d)), M64
        k = self.pick([(4, "+"), (3, "-"), (2, "*"), (2, "/"), (3, "%"), (1.5, "|"), (1.5, "&"), (1.5, "^")])
        if k == "+":
            a, x = self.ib(d, self.ch([255, 2**32, M64 // 2]))
            b, y = self.ib(d, M64 - x)
            return ("bin", "+", a, b), x + y
        if k == "-":
            b, y = self.ib(d, self.ch([10, 255, 2**32, M64 // 2]))
            a, x = self.ib(d, M64 - y)
            return ("bin", "-", ("bin", "+", a, ("int", y)), b), x + y
        if k == "*":
            a, x = self.ib(d, self.ch([10, 255, 2**32 - 1]))
            b, y = self.ib(d, M64 // max(x, 1))
            return ("bin", "*", a, b), x * y
        if k == "/":
            a, x = self.ib(d)
            if self.p(0.5):
                n = r.randrange(1, 300)
                return ("bin", "/", a, ("int", n)), x // n
            b, y = self.ib(d, M64 - 1)
            return ("bin", "/", a, ("bin", "+", b, ("int", 1))), x
        if k == "%":
            a, x = self.ib(d)
            if self.p(0.6):
                n = r.randrange(1, 300)
                return ("bin", "%", a, ("int", n)), n - 1
            b, y = self.ib(d, M64 - 1)
            return ("bin", "%", a, ("bin", "+", b, ("int", 1))), min(x, y)
        a, x = self.ib(d)
        b, y = self.ib(d)
        m = (1 << max(x.bit_length(), y.bit_length())) - 1
        return ("bin", k, a, b), min(x, y) if k == "&" else m

    def int_op(self, d, k=None):
        k = k or self.ch(["len", "bitlen", "sqrt", "exp", "shl", "shr", "getbyte", "getbit", "setbit",
                     "btoi", "select", "extract_uint16", "extract_uint64", "divw"])
        if k == "len":
            e, n = self.bb(d)
            return ("op", "len", (), [e]), n
        if k == "bitlen":
            return ("op", "bitlen", (), [self.int(d) if self.p(0.5) else self.bytes(d)]), 1024
        if k == "sqrt":
            return ("op", "sqrt", (), [self.int(d)]), 2**32 - 1
        if k == "exp":
            return ("op", "exp", (), [("bin", "+", self.int(d, 6), ("int", 1)), self.int(d, 10)]), 7**10
        if k in ("shl", "shr"):
            a, x = self.ib(d)
            return ("op", k, (), [a, self.int(d, 63)]), M64 if k == "shl" else x
        if k == "getbyte":
            n = self.r.randrange(1, 9)
            return ("op", "getbyte", (), [self.sized(n, d), self.int(d, n - 1)]), 255
        if k == "getbit":
            return ("op", "getbit", (), [self.int(d), self.int(d, 63)]), 1
        if k == "setbit":
            return ("op", "setbit", (), [self.int(d), self.int(d, 63), self.int(d, 1)]), M64
        if k == "btoi":
            n = self.r.randrange(0, 9)
            return ("op", "btoi", (), [self.bytes(d, n)]), 256**n - 1
        if k == "select":
            a, x = self.ib(d)
            b, y = self.ib(d)
            return ("op", "select", (), [a, b, self.int(d)]), max(x, y)
        if k == "extract_uint16":
            n = self.r.randrange(2, 9)
            return ("op", k, (), [self.sized(n, d), self.int(d, n - 2)]), 65535
        if k == "extract_uint64":
            n = self.r.randrange(8, 20)
            return ("op", k, (), [self.sized(n, d), self.int(d, n - 8)]), M64
        if k == "divw":
            return ("op", "divw", (), [("int", 0), self.int(d), ("bin", "+", self.int(d, 99), ("int", 1))]), M64
        raise AssertionError(k)

    def int_std(self, d):
        k = self.ch(["Convert", "FromBytes", "SizeOf", "Cast", "EnsureType", "Convert8"])
        if k == "Convert":
            n = self.r.randrange(0, 9)
            return ("std", "Convert", [self.typed_bytes(d, n), ("type", self.ch([INT, U64T]))]), 256**n - 1
        if k == "Convert8":
            return ("std", "Convert", [self.sized(1, d), ("type", UINT8)]), 255
        if k == "FromBytes":
            n = self.r.randrange(0, 9)
            return ("std", "FromBytes", [self.typed_bytes(d, n), ("type", INT)]), 256**n - 1
        if k == "SizeOf":
            if self.prog.structs:
                s = self.ch(self.prog.structs)
                return ("std", "SizeOf", [("type", ("struct", s))]), s.size
            t = self.ch([INT, UINT8, bytesn(17)])
            return ("std", "SizeOf", [("type", t)]), tsize(t)
        if k == "Cast":
            t = self.ch([INT, UINT8, U64T])
            hi = 256 ** tsize(t) - 1
            return ("std", "Cast", [self.typed_int(d, hi if not self.risky() else M64), ("type", t)]), hi
        t = UINT8
        return ("std", "EnsureType", [self.int(d, 255 if not self.risky() else M64), ("type", t)]), 255

    def u8(self, d):
        """An expression whose type fits a uint8"""
        opts = [(2, "lit")]
        vs = self.readable(lambda v: v.type[0] == "uint8")
        if vs:
            opts.append((4, "var"))
        sv = [(v, f) for v in self.readable(lambda v: v.type[0] in ("struct", "box"))
              for f, t in v.type[1].fields if t[0] == "uint8"]
        if sv:
            opts.append((3, "field"))
        if self.has("std") and d > 0:
            opts.append((3, "cast"))
        fs = self.callable(lambda f: len(f.returns) == 1 and f.returns[0][0] == "uint8")
        if self.has("call") and self.calls and fs and d > 0:
            opts.append((3, "call"))
        k = self.pick(opts)
        if k == "lit":
            return self.lit(255)
        if k == "var":
            return ("var", self.ch(vs))
        if k == "field":
            return ("field", *self.ch(sv))
        if k == "call":
            return self.callx(self.ch(fs), d - 1)
        return ("std", self.ch(["Cast", "EnsureType"]), [self.typed_int(d - 1, 255 if not self.risky() else M64), ("type", UINT8)])

    # ------------------------------------------------------------ bytes expressions
    def bytes(self, d=None, maxlen=64):
        d = self.depth if d is None else d
        return self.bb(d, maxlen)[0]

    def bb(self, d, maxlen=64):
        for _ in range(5):
            e, n = self.bytes_any(d, maxlen)
            if n <= maxlen:
                return e, n
        return self.blit(maxlen)

    def bytes_any(self, d, maxlen):
        if maxlen < 1:
            return self.blit(0)
        vs = self.readable(lambda v: not is_int(v.type) and v.type[0] != "box" and v.maxlen <= maxlen)
        opts = [(3, "lit"), (6 if vs else 0, "var")]
        cs = [c for c in self.visible_consts() if not is_int(c.type) and len(c.value) <= maxlen]
        opts.append((2 if cs else 0, "const"))
        if d > 0:
            opts += [(2, "itob"), (2.5, "concat")]
            if self.has("ops"):
                opts += [(4, "op")]
            if self.has("std"):
                opts += [(3, "std")]
            if self.has("bigint"):
                opts += [(3, "big")]
            if self.has("call") and self.calls and self.callable(lambda f: len(f.returns) == 1 and not is_int(f.returns[0])):
                opts += [(3, "call")]
            if self.has("state"):
                opts += [(1, "state")]
        if self.has("fields"):
            opts += [(2, "field")]
        sv = [v for v in self.readable(lambda v: v.type[0] in ("struct", "box"))
              if any(not is_int(t) for _, t in v.type[1].fields)]
        if sv:
            opts += [(4, "sfield")]
        if self.has_itxn and not self.in_group:
            opts += [(1.5, "itxn")]
        if self.has("enum"):
            opts += [(0.4, "benum")]
        opts = self.boost(opts)
        k = self.pick(opts)
        self.stats["b" + k] = self.stats.get("b" + k, 0) + 1
        if k == "lit":
            return self.blit(maxlen)
        if k == "var":
            v = self.ch(vs)
            return ("var", v), v.maxlen
        if k == "const":
            c = self.ch(cs)
            return ("const", c), len(c.value)
        if k == "benum":
            return ("op", "itob", (), [("enum", self.ch(ENUMS))]), 8
        if k == "itob":
            return ("op", "itob", (), [self.int(d - 1)]), 8
        if k == "concat":
            if self.has("std") and self.p(0.6):
                n = self.some(5)
                parts = [self.bb(d - 1 if n < 5 else 0, max(1, maxlen // n)) for _ in range(n)]
                return ("std", "Concat", [e for e, _ in parts]), sum(x for _, x in parts)
            a, x = self.bb(d - 1, max(1, maxlen // 2))
            b, y = self.bb(d - 1, max(1, maxlen // 2))
            return ("op", "concat", (), [a, b]), x + y
        if k == "op":
            return self.bytes_op(d - 1, maxlen)
        if k == "std":
            return self.bytes_std(d - 1, maxlen)
        if k == "big":
            h = max(1, min(maxlen, 32) // 2)
            a, x = self.bb(d - 1, h)
            b, y = self.bb(d - 1, h)
            o = self.ch(["b+", "b*", "b|", "b&", "b^", "b~", "bsqrt", "b%", "b/", "b-"])
            if o == "b~":
                return ("un", "b~", a), x
            if o == "bsqrt":
                return ("op", "bsqrt", (), [a]), x
            if o in ("b%", "b/"):
                return ("bin", o, a, ("bin", "b+", b, ("bytes", b"\x01", "\\x01"))), x + 1
            if o == "b-":
                return ("bin", "b-", ("bin", "b+", a, b), b if self.pure(b) else ("bytes", b"\x00", "\\x00")), max(x, y) + 1
            return ("bin", o, a, b), x + y + 1
        if k == "call":
            f = self.ch(self.callable(lambda f: len(f.returns) == 1 and not is_int(f.returns[0])))
            return self.callx(f, d - 1), self.ret_hi(f, 0)
        if k == "state":
            key = self.state_key("b")
            if self.p(0.6):
                return ("op", "app_global_get", (), [key]), 64
            return ("op", "app_local_get", (), [("txn", "Sender"), key]), 64
        if k == "field":
            return self.field(False, d), 40
        if k == "sfield":
            v = self.ch(sv)
            f, t = self.ch([(f, t) for f, t in v.type[1].fields if not is_int(t)])
            return ("field", v, f), tsize(t)
        if k == "itxn":
            if self.p(0.4):
                return ("itxna", "Logs", self.int(d - 1 if d > 0 else 0, 2)), 8
            return ("itxn", self.ch(ITX_BYTES)), 40
        raise AssertionError(k)

    def some(self, n):
        """A small number from 1, rarely a larger one"""
        return self.r.randrange(5, self.ch([15, 40]) if WIDE else 15) if self.p(0.04) else self.r.randrange(1, n)

    def pure(self, e):
        k = e[0]
        if k in ("int", "bytes", "var", "const", "hex", "enum", "field", "txn", "global"):
            return k != "field" or e[1].type[0] == "struct"
        return False

    def bytes_op(self, d, maxlen):
        k = self.ch(["sha256", "substring", "extract", "extract3", "substring3", "replace3", "replace2",
                     "setbyte", "bzero", "select", "keccak256", "setbit", "sha512_256"])
        if k in ("sha256", "keccak256", "sha512_256"):
            return ("op", k, (), [self.bytes(d)]), 32
        n = self.r.randrange(1, 12)
        if k == "substring":
            s = self.r.randrange(0, n + 1)
            e = self.r.randrange(s, n + 1)
            return ("op", k, (s, e), [self.sized(n, d)]), e - s
        if k == "extract":
            s = self.r.randrange(0, n + 1)
            m = self.r.randrange(0, n - s + 1)
            return ("op", k, (s, m), [self.sized(n, d)]), (m or n - s)
        if k == "extract3":
            m = self.r.randrange(0, n + 1)
            return ("op", k, (), [self.sized(n, d), self.int(d, n - m), ("int", m)]), m
        if k == "substring3":
            s = self.r.randrange(0, n + 1)
            return ("op", k, (), [self.sized(n, d), self.int(d, s), ("int", s)]), s
        if k == "replace3":
            m = self.r.randrange(0, n + 1)
            x = self.sized(m, d) if m else ("op", "bzero", (), [("int", 0)])
            return ("op", k, (), [self.sized(n, d), self.int(d, n - m), x]), n
        if k == "replace2":
            m = self.r.randrange(1, n + 1)
            return ("op", k, (self.r.randrange(0, n - m + 1),), [self.sized(n, d), self.sized(m, d)]), n
        if k == "setbyte":
            return ("op", k, (), [self.sized(n, d), self.int(d, n - 1), self.int(d, 255)]), n
        if k == "setbit":
            return ("op", k, (), [self.sized(n, d), self.int(d, 8 * n - 1), self.int(d, 1)]), n
        if k == "bzero":
            m = self.r.randrange(0, min(maxlen, 20) + 1)
            return ("op", k, (), [self.int(d, m)]), m
        a, x = self.bb(d, maxlen)
        b, y = self.bb(d, maxlen)
        return ("op", "select", (), [a, b, self.int(d)]), max(x, y)

    def bytes_std(self, d, maxlen):
        k = self.ch(["Convert", "Rpad", "Lpad", "ToBytes", "Cast", "UncheckedCast", "ARC28Event", "Address", "Concat", "sized"])
        if k == "Convert":
            return ("std", "Convert", [self.typed_int(d), ("type", BYTES)]), 8
        if k in ("Rpad", "Lpad", "ToBytes", "sized"):
            n = self.r.randrange(1, min(maxlen, 16) + 1)
            return self.sized(n, d), n
        if k == "Cast":
            a, x = self.typed_bytes(d, maxlen), maxlen
            return ("std", "Cast", [a, ("type", BYTES)]), x
        if k == "UncheckedCast":
            a, x = self.bb(d, maxlen)
            return ("std", "UncheckedCast", [a, ("type", self.ch([BYTES, BIGINT]))]), x
        if k == "ARC28Event":
            sig = self.ch([b"f()", b"set_manager(address)", b"e(uint64,(byte[],bool))", b"log;(x)", b"a//b"])
            parts = [self.bb(d, 8) for _ in range(self.some(3) - (self.p(0.5)))]
            return ("std", k, [("bytes", sig, bytes_src(sig)), *[e for e, _ in parts]]), 4 + sum(x for _, x in parts)
        if k == "Address":
            from .teal import encode_address

            a = encode_address(bytes(self.r.randrange(256) for _ in range(32)))
            return ("std", "Address", [f'"{a}"']), 32
        n = self.some(5)
        parts = [self.bb(d if n < 5 else 0, max(1, maxlen // n)) for _ in range(n)]
        return ("std", "Concat", [e for e, _ in parts]), sum(x for _, x in parts)

    def sized(self, n, d, t=None):
        """An expression typed as exactly n bytes (n > 0), for a variable of type bytes[n] or a struct"""
        opts = [(2 if n <= 64 else 0, "lit"), (1, "bzero")]
        vs = self.readable(lambda v: v.type[0] in ("bytes", "struct") and tsize(v.type) == n)
        if vs:
            opts.append((5, "var"))
        sv = [(v, f) for v in self.readable(lambda v: v.type[0] in ("struct", "box"))
              for f, t in v.type[1].fields if not is_int(t) and tsize(t) == n]
        if sv:
            opts.append((3, "field"))
        cs = [c for c in self.visible_consts() if not is_int(c.type) and len(c.value) == n]
        if cs:
            opts.append((2, "const"))
        if n == 32 and self.has("fields"):
            opts.append((2, "sender"))
        if d > 0 and self.has("std"):
            opts += [(1.5, "Rpad"), (1.5, "Lpad"), (1, "ToBytes"), (1.5, "Convert"), (2, "Cast"), (0.7, "EnsureType"), (0.7, "UncheckedCast")]
        fs = self.callable(lambda f: len(f.returns) == 1 and not is_int(f.returns[0]) and tsize(f.returns[0]) == n)
        if d > 0 and self.has("call") and self.calls and fs:
            opts.append((3, "call"))
        k = self.pick(opts)
        if k == "lit":
            v, s = self.exact_text(n)
            return ("bytes", v, s)
        if k == "var":
            return ("var", self.ch(vs))
        if k == "field":
            return ("field", *self.ch(sv))
        if k == "const":
            return ("const", self.ch(cs))
        if k == "sender":
            return ("txn", "Sender")
        if k == "call":
            return self.callx(self.ch(fs), d - 1)
        if k == "bzero":
            ss = [s for s in self.prog.structs if s.size == n]
            if ss and self.p(0.7):
                return ("op", "bzero", (), [("std", "SizeOf", [("type", ("struct", self.ch(ss)))])])
            return ("op", "bzero", (), [("int", n)])
        if k in ("Rpad", "Lpad"):
            return ("std", k, [self.typed_bytes(d - 1, n if not self.risky() else n + 8), n])
        hi = 256 ** min(n, 8) - 1
        if k == "ToBytes":
            return ("std", k, [self.typed_int(d - 1, hi if self.p(0.7) else M64), n])
        if k == "Convert":
            return ("std", k, [self.typed_int(d - 1, hi if not self.risky() else M64), ("type", bytesn(n))])
        # a value which has this size in fact
        ty = t if t is not None and self.p(0.5) else bytesn(n)
        x = self.unsized_of(n, d - 1) if not self.risky() else self.bytes(d - 1)
        return ("std", k, [x, ("type", ty)])

    def unsized_of(self, n, d):
        """bytes of exactly n bytes at run time, of unknown size at compile time"""
        if n >= 2 and self.p(0.6):
            m = self.r.randrange(1, n)
            return ("op", "concat", (), [self.sized(m, min(d, 1)), self.sized(n - m, min(d, 1))])
        if n < 60 and self.p(0.5):
            return ("op", "extract", (0, n), [self.sized(n + self.r.randrange(0, 4), min(d, 1))])
        return ("op", "substring3", (), [self.sized(n, min(d, 1)), ("int", 0), ("int", n)])

    ANY = ("select", "app_global_get", "app_local_get", "setbit")

    def typed_int(self, d, hi=M64):
        """An int expression whose type the compiler knows"""
        e = self.int(d, hi)
        if e[0] == "op" and e[1] in self.ANY:
            return ("bin", "|", e, ("int", 0))
        return e

    def typed_bytes(self, d, maxlen=64):
        e = self.bytes(d, maxlen)
        if e[0] == "op" and e[1] in self.ANY:
            return ("std", "Concat", [e])
        return e

    # ------------------------------------------------------------ fields
    def field(self, want_int, d):
        k = self.pick([(3, "txn"), (2, "global"), (2, "gtxn"), (2, "txna"), (1.5, "gtxna")])
        if k == "global":
            return ("global", self.ch(GLOB_INT if want_int else GLOB_BYTES))
        if k == "txn":
            return ("txn", self.ch(TXN_INT if want_int else TXN_BYTES))
        g = self.group_index(d)
        if k == "gtxn":
            return ("gtxn", g, self.ch(TXN_INT if want_int else TXN_BYTES))
        arr, n = self.ch([("Assets", 3), ("Applications", 3)] if want_int else [("ApplicationArgs", 5), ("Accounts", 3)])
        i = ("int", self.r.randrange(n)) if self.p(0.5) or d <= 0 else self.int(d - 1, n - 1)
        if self.p(0.02):
            # past the end, most of the time
            cs = [c for c in self.visible_consts() if is_int(c.type)]
            i = ("const", self.ch(cs)) if cs and self.p(0.7) else ("int", self.ch([n, 15, 16, 17, 255]))
        if k == "txna":
            return ("txna", arr, i)
        return ("gtxna", g, arr, i)

    n_group, rel = 4, 1

    def group_index(self, d):
        # worlds have n_group transactions, and at least rel before and after the current one
        k = self.r.random()
        if k < 0.35:
            return ("rel", self.ch([i for i in range(-self.rel, self.rel + 1) if i]))
        if k < 0.6:
            return ("int", self.r.randrange(self.n_group))
        return self.int(min(d, 1) - 1 if d > 0 else 0, self.n_group - 1)

    # ------------------------------------------------------------ calls
    def visible_consts(self):
        out = []
        for s in self.sc.chain():
            out += s.consts
        return out

    def callable(self, pred):
        """User functions which may be called here"""
        b = self.blk
        out = []
        if b is None:
            return out
        for blk in b.chain():
            for f in blk.funcs:
                if f.public is not None:
                    continue
                if self.fn is not None and f.fid <= self.fn.fid and f in self.fn_block.funcs:
                    continue
                if f.grouping and (self.in_group or (self.fn is not None and not self.fn.grouping)):
                    continue
                if f.cost > self.budget():
                    continue
                if pred(f):
                    out.append(f)
        return out

    def budget(self):
        return 10**9

    def ret_hi(self, f, i):
        t = f.returns[i]
        return f.ret_hi[i]

    def callx(self, f, d):
        return ("call", f, [self.of_type(a.type, d, a.maxlen) for a in f.args])

    def of_type(self, t, d, hi=None):
        """An expression assignable to the type"""
        if t[0] == "uint8":
            return self.u8(d)
        if is_int(t):
            if self.has("ops") and d > 0 and hi in (None, M64) and self.p(0.08):
                # one conversion and nothing else
                return self.int_op(d, self.ch(["btoi", "btoi", "extract_uint64", "len", "getbyte"]))[0]
            return self.int(d, M64 if hi is None else hi)
        if t[0] == "box":
            vs = self.readable(lambda v: v.type == t)
            return ("var", self.ch(vs)) if vs else None
        if tsize(t):
            return self.sized(tsize(t), d, t)
        return self.bytes(d, 64 if hi is None else hi)

    def state_key(self, k):
        n = self.r.randrange(3)
        v = f"{k}{n}".encode()
        cs = [c for c in self.visible_consts() if not is_int(c.type) and c.value == v]
        if cs:
            return ("const", self.ch(cs))
        return ("bytes", v, v.decode())

    # ------------------------------------------------------------ statements
    def some_type(self):
        opts = [(6, INT), (3, BYTES)]
        if self.has("u64"):
            opts.append((1, U64T))
        if self.has("uint8"):
            opts.append((2, UINT8))
        if self.has("bigint"):
            opts.append((2, BIGINT))
        if self.has("bytesn"):
            opts.append((3, bytesn(self.ch([1, 2, 3, 4, 7, 8, 9, 16, 32, 33]))))
        if self.prog.structs and self.has("struct"):
            opts.append((4, ("struct", self.ch(self.prog.structs))))
        return self.pick(opts)

    def bind(self, v):
        self.sc.vars.append(v)
        self.init.add(v)
        self.n_vars += 1

    def declare(self, t=None, out=None, calls=True):
        t = t or self.some_type()
        v = self.new_var(t)
        old, self.calls = self.calls, calls and self.calls
        if out is not None and self.p(0.2):
            out.append(S("decl", var=v, expr=None))
            self.sc.vars.append(v)
            self.n_vars += 1
            s = S("assign", vars=[v], expr=self.of_type(t, self.depth, v.maxlen))
            out.append(s)
            self.init.add(v)
        else:
            e = self.of_type(t, self.depth, v.maxlen)
            s = S("decl", var=v, expr=e)
            if out is not None:
                out.append(s)
            self.bind(v)
        self.calls = old
        return s

    def stmts(self, n, top=False):
        out = []
        for _ in range(n):
            self.stmt(out)
        if self.has("comment") and self.p(0.15):
            self.filler(out)
        return out

    def block_body(self, n=None):
        """Body of an if branch, loop or group"""
        self.nest += 1
        n = n if n is not None else self.r.randrange(1, 4)
        b = self.stmts(n)
        self.nest -= 1
        return b

    def filler(self, out):
        if self.p(0.6):
            out.append(S("comment", text=self.ch(COMMENTS)))
        else:
            out.append(S("blank"))

    def new_probe(self):
        n = self.prog.n_probes
        self.prog.n_probes += 1
        return S("probe", n=n)

    def stmt(self, out):
        if self.has("comment") and self.p(0.12):
            self.filler(out)
        if self.has("probe") and self.p(self.probe_rate):
            out.append(self.new_probe())
        o = []
        can_nest = self.nest < 3
        if self.n_vars < self.max_vars:
            o.append((4, "decl"))
        if any(v for v in self.assignable()):
            o.append((5, "assign"))
        o.append((2.2, "log"))
        if self.has("dump"):
            o.append((2.5, "dump"))
        o.append((0.8, "assert"))
        if can_nest and self.has("if"):
            o.append((3, "if"))
        if can_nest and self.has("loop") and self.loops < 2 and self.nest < 3:
            o.append((1.5, "while"))
            o.append((1.2, "for"))
            if self.has("unders") and (self.fn is not None or self.has("unders_main")):
                o.append((1.2, "for_"))
        if self.has("call") and self.calls:
            if self.callable(lambda f: not f.returns):
                o.append((3, "call"))
            if self.callable(lambda f: len(f.returns) > 1):
                o.append((2.5, "mcall"))
        if self.has("multi"):
            o.append((1.5, "multi"))
        if self.has("state"):
            o.append((2, "state"))
        if self.prog.structs:
            if [v for v in self.readable(lambda v: v.type[0] in ("struct", "box"))]:
                o.append((4, "setfield"))
            if self.has("box"):
                o.append((2, "box"))
        if self.has("itxn"):
            o.append((2, "itxn"))
            if self.has("igroup") and can_nest and not self.in_group and (self.fn is None or self.fn.grouping):
                o.append((1.3, "igroup"))
        if self.has("teal"):
            o.append((1.5, "teal"))
        if self.has("pushpop"):
            o.append((1, "pushpop"))
        if self.loops and self.in_while and self.nest and not self.in_group and self.p(0.5):
            o.append((0.8, "break"))
        if self.fn is not None and self.nest and not self.in_group and self.has("call"):
            o.append((0.5, "return"))
        if self.has("exits") and self.nest and self.p(0.4):
            o.append((0.3, "exit"))
            o.append((0.15, "error"))
        if self.has("lconst") and self.nest == 0:
            o.append((1, "const"))
        o = [(w * self.w.get(k, 1), k) for w, k in o]
        k = self.pick(o)
        self.stats["s" + k] = self.stats.get("s" + k, 0) + 1
        getattr(self, "g_" + k)(out)

    def g_decl(self, out):
        self.declare(out=out)

    def g_const(self, out):
        c = self.new_const()
        out.append(S("const", const=c))
        self.sc.consts.append(c)

    def g_assign(self, out):
        v = self.ch(self.assignable())
        e = self.of_type(v.type, self.depth, v.maxlen)
        out.append(S("assign", vars=[v], expr=e))
        self.init.add(v)

    def g_log(self, out):
        if self.p(0.5):
            out.append(S("call", expr=("op", "log", (), [self.bytes()])))
        else:
            out.append(S("call", expr=("op", "log", (), [("op", "itob", (), [self.int()])])))

    def g_dump(self, out):
        """Log the values of the variables that are live here"""
        vs = self.readable(lambda v: v.type[0] != "box")
        if len(vs) > 12:
            vs = self.r.sample(vs, 12)
        for v in vs:
            x = ("op", "itob", (), [("var", v)]) if is_int(v.type) else ("var", v)
            out.append(S("call", expr=("op", "log", (), [x])))

    def g_assert(self, out):
        msg = None
        if self.p(0.4):
            if self.msgs and self.p(0.25):
                msg = self.ch(self.msgs)
            else:
                v, msg = self.text(20)
                self.msgs.append(msg)
        if self.risky() or self.p(0.02):
            e = self.int()
        else:
            x = self.int(self.depth - 1 if self.depth > 0 else 0, M64 - 1)
            e = ("bin", self.ch(["||", "+", "|"]), x, ("int", 1))
            if self.p(0.3):
                e = ("bin", "<=", x, ("int", M64))
        out.append(S("assert", expr=e, msg=msg))

    def cond(self):
        return self.int(self.r.randrange(0, 3))

    def wide_if(self, out):
        """One of many branches, by the value of a variable"""
        n = self.r.randrange(9, 14)
        v = self.new_var(INT)
        v.readonly = True
        v.maxlen = n
        out.append(S("decl", var=v, expr=self.int(1, n) if self.p(0.5) else ("int", self.r.randrange(n + 1))))
        self.bind(v)
        base = set(self.init)
        branches = []
        for i in range(n):
            b = self.block_body(1) if self.p(0.5) else [S("call", expr=("op", "log", (), [("bytes", b"%d" % i, str(i))]))]
            branches.append((False, ("bin", "==", ("var", v), ("int", i)), b))
            self.init = set(base)
        eb = self.block_body(1) if self.p(0.5) else None
        self.init = base
        out.append(S("if", branches=branches, else_body=eb))

    def empty_loop(self, out):
        """A loop or if of which only the condition does something"""
        fs = self.callable(lambda f: len(f.returns) == 1 and is_int(f.returns[0])) if self.has("call") and self.calls else []
        c = self.callx(self.ch(fs), 1) if fs else self.cond()
        b = [S("comment", text=self.ch(COMMENTS)) for _ in range(self.r.randrange(2))] if self.has("comment") else []
        if self.has("loop") and self.p(0.7):
            out.append(S("while", neg=False, cond=("bin", "&&", c, ("int", 0)), body=b))
        else:
            out.append(S("if", branches=[(self.p(0.2), c, b)], else_body=[] if self.p(0.3) else None))

    def g_if(self, out):
        if WIDE and self.p(0.03) and self.nest < 2:
            return self.wide_if(out)
        if WIDE and self.p(0.04):
            return self.empty_loop(out)
        n = self.pick([(5, 1), (2, 2), (1, 3), (0.5, 4)])
        branches = []
        base = set(self.init)
        ends = []
        for i in range(n):
            neg = self.p(0.15)
            self.init = set(base)
            c = self.cond()
            self.init = set(base)
            b = self.block_body()
            if self.has("cov") or True:
                pass
            branches.append((neg, c, b))
            ends.append((b, self.init))
        eb = None
        self.init = set(base)
        if self.p(0.55):
            eb = self.block_body()
            ends.append((eb, self.init))
        else:
            ends.append(([], set(base)))
        res = None
        for b, s in ends:
            if b and b[-1].kind in ("return", "exit", "jump", "error"):
                continue
            res = set(s) if res is None else res & s
        self.init = res if res is not None else set(base)
        out.append(S("if", branches=branches, else_body=eb))

    def g_while(self, out):
        fuel = self.new_var(INT)
        fuel.readonly = True
        n = self.r.randrange(0, 5)
        fuel.maxlen = 5
        out.append(S("decl", var=fuel, expr=("int", n)))
        self.bind(fuel)
        test = ("bin", ">", ("var", fuel), ("int", 0))
        neg = self.p(0.2)
        c = test
        if self.p(0.4):
            c = ("bin", "&&", test, self.cond())
        if neg:
            c = ("un", "!", c)
        base = set(self.init)
        self.push()
        self.loops += 1
        was, self.in_while = self.in_while, True
        dec = S("assign", vars=[fuel], expr=("bin", "-", ("var", fuel), ("int", 1)))
        b = self.block_body()
        if self.p(0.5) or self.can_skip(b):
            b = [dec] + b
        else:
            b = b + [dec]
        self.loops -= 1
        self.in_while = was
        self.popsc()
        self.init = base
        out.append(S("while", neg=neg, cond=c, body=b))

    def can_skip(self, b):
        return False

    def bound(self, hi):
        """A literal or a name, as loops take: (expr, value bound)"""
        cs = [c for c in self.visible_consts() if is_int(c.type) and c.value <= hi]
        if cs and self.p(0.3):
            c = self.ch(cs)
            return ("const", c), c.value
        n = self.r.randrange(0, hi + 1)
        return ("int", n), n

    def g_for(self, out, under=False):
        # a literal start, an end which is not below the start
        s, sv = self.bound(3)
        ro = None
        if self.p(0.35):
            # an end variable which stays as it is while the loop runs
            ro = self.new_var(INT)
            ro.maxlen = sv + 4
            ro.readonly = True
            k = self.r.randrange(0, 5)
            x = self.int(1, k) if k else ("int", 0)
            out.append(S("decl", var=ro, expr=("bin", "+", ("int", sv), x)))
            self.bind(ro)
            e = ("var", ro)
            ev = sv + 4
        else:
            e = ("int", sv + self.r.randrange(0, 5))
            ev = e[1]
        if self.p(0.15):
            st = self.new_var(INT)
            st.maxlen = sv
            st.readonly = True
            out.append(S("decl", var=st, expr=s))
            self.bind(st)
            s = ("var", st)
        base = set(self.init)
        self.push()
        self.loops += 1
        # break leaves while loops only
        was, self.in_while = self.in_while, False
        if under:
            b = self.block_body()
            st = S("for_", start=s, end=e, body=b)
        else:
            v = self.new_var(INT)
            v.maxlen = ev
            v.readonly = True
            self.bind(v)
            b = self.block_body()
            st = S("for", var=v, start=s, end=e, body=b)
        self.loops -= 1
        self.in_while = was
        self.popsc()
        self.init = base
        out.append(st)

    def g_for_(self, out):
        self.g_for(out, True)

    def g_break(self, out):
        self.wrap_if(out, S("break"))

    def wrap_if(self, out, s):
        base = set(self.init)
        b = [] if self.p(0.6) else self.block_body(1)
        self.init = base
        out.append(S("if", branches=[(self.p(0.2), self.cond(), b + [s])], else_body=None))

    def ret(self):
        ex = []
        for i, t in enumerate(self.fn.returns):
            d = self.depth if len(self.fn.returns) == 1 else 0
            calls, self.calls = self.calls, self.calls and len(self.fn.returns) == 1
            ex.append(self.of_type(t, d, self.fn.ret_hi[i]))
            self.calls = calls
        return S("return", exprs=ex)

    def g_return(self, out):
        self.wrap_if(out, self.ret())

    def g_exit(self, out):
        self.wrap_if(out, S("exit", expr=self.int(1)))

    def g_error(self, out):
        out.append(S("if", branches=[(False, ("bin", "==", self.int(1), ("int", self.r.randrange(2**20))), [S("error")])], else_body=None))

    def g_call(self, out):
        f = self.ch(self.callable(lambda f: not f.returns))
        out.append(S("call", expr=self.callx(f, self.depth)))

    def targets(self, out, types, his):
        """Variables (or None) to assign results of these types to"""
        vs = []
        for t, hi in zip(types, his):
            if self.p(0.15):
                vs.append(None)
                continue
            fit = [v for v in self.assignable() if v not in vs and self.fits(v, t, hi)]
            if fit and self.p(0.6):
                vs.append(self.ch(fit))
                continue
            v = self.new_var(t)
            v.maxlen = max(hi, v.maxlen) if not tsize(t) or is_int(t) else tsize(t)
            out.append(S("decl", var=v, expr=None))
            self.sc.vars.append(v)
            self.n_vars += 1
            vs.append(v)
        if all(v is None for v in vs) and len(vs) == 1:
            return self.targets(out, types, his)
        return vs

    def fits(self, v, t, hi):
        if is_int(t):
            if t[0] == "uint8":
                return is_int(v.type) and v.maxlen >= 255
            return v.type[0] in ("int", "uint64") and v.maxlen >= hi
        if is_int(v.type):
            return False
        if tsize(v.type):
            return tsize(v.type) == tsize(t) and t[0] != "box"
        return v.maxlen >= hi

    def g_mcall(self, out):
        f = self.ch(self.callable(lambda f: len(f.returns) > 1))
        vs = self.targets(out, f.returns, f.ret_hi)
        e = self.callx(f, self.depth)
        out.append(S("assign", vars=vs, expr=e))
        self.init |= {v for v in vs if v}

    def g_multi(self, out):
        k = self.ch(["addw", "mulw", "expw", "divmodw", "gget", "box_len", "lget", "acct", "box_get"])
        d = self.depth - 1 if self.depth > 0 else 0
        if k in ("addw", "mulw"):
            e = ("op", k, (), [self.int(d), self.int(d)])
            ts, hs = [INT, INT], [M64, M64]
        elif k == "expw":
            e = ("op", k, (), [("bin", "+", self.int(d, 8), ("int", 1)), self.int(d, 30)])
            ts, hs = [INT, INT], [M64, M64]
        elif k == "divmodw":
            e = ("op", k, (), [self.int(d), self.int(d), self.int(d, 1), ("bin", "+", self.int(d, 1000), ("int", 1))])
            ts, hs = [INT] * 4, [M64] * 4
        elif k == "gget":
            e = ("op", "app_global_get_ex", (), [("int", 0), self.state_key(self.ch("inn"))])
            ts, hs = [INT, INT], [1, M64]
        elif k == "lget":
            e = ("op", "app_local_get_ex", (), [("txn", "Sender"), ("int", 0), self.state_key("i")])
            ts, hs = [INT, INT], [1, M64]
        elif k == "acct":
            f, t, hi = self.ch([("AssetTotal", INT, M64), ("AssetDecimals", INT, M64), ("AssetName", BYTES, 20), ("AssetURL", BYTES, 20)])
            e = ("op", "asset_params_get", (f,), [self.int(d, 1000)])
            ts, hs = [INT, t], [M64, hi]
        elif k == "box_get":
            e = ("op", "box_get", (), [("bytes", *self.ch([(b"raw0", "raw0"), (b"nope", "nope")]))])
            ts, hs = [INT, BYTES], [1, 40]
        else:
            e = ("op", "box_len", (), [("bytes", *self.ch([(b"raw0", "raw0"), (b"nope", "nope")]))])
            ts, hs = [INT, INT], [1, M64]
        vs = self.targets(out, ts, hs)
        out.append(S("assign", vars=vs, expr=e))
        self.init |= {v for v in vs if v}

    def g_state(self, out):
        k = self.ch(["gput", "gput", "lput", "boxput"])
        if k == "boxput":
            out.append(S("call", expr=("op", "box_put", (), [("bytes", b"raw0", "raw0"), self.sized(12, self.depth)])))
            return
        t = self.ch("ib")
        v = self.int() if t == "i" else self.bytes(None, 64)
        key = self.state_key(t)
        if k == "gput":
            out.append(S("call", expr=("op", "app_global_put", (), [key, v])))
        else:
            out.append(S("call", expr=("op", "app_local_put", (), [("txn", "Sender"), key, v])))

    def g_setfield(self, out):
        v = self.ch(self.readable(lambda v: v.type[0] in ("struct", "box")))
        if v.readonly:
            return
        f, t = self.ch(v.type[1].fields)
        e = self.of_type(t, self.depth, 256 ** tsize(t) - 1 if is_int(t) else None)
        if t[0] in ("int", "uint64") and self.has("ops") and self.p(0.25):
            # conversions right at the field
            e = self.int_op(self.ch([0, 1]), self.ch(["btoi", "btoi", "extract_uint64", "extract_uint16", "len", "getbyte"]))[0]
        out.append(S("setfield", var=v, field=f, expr=e))

    def g_box(self, out):
        s = self.ch(self.prog.structs)
        v = self.new_var(("box", s))
        v.maxlen = 64
        m = self.ch(["Open", "Create", ""])
        if m == "Create" and (self.fn is not None or self.loops or (self.blk and self.blk.name)) and self.p(0.9):
            m = "Open"
        if m == "Create":
            self.key_n += 1
            key = f"{s.name}_new{self.key_n}".encode()
            if self.p(0.03):
                key = f"{s.name}_pre0".encode()
        else:
            key = f"{s.name}_pre{self.r.randrange(2)}".encode()
            if self.p(0.02):
                key = b"nope" if self.p(0.5) else b"raw0"
        kx = ("bytes", key, key.decode())
        rekey = None
        if self.p(0.25) and len(key) > 2:
            kx = ("op", "concat", (), [("bytes", key[:2], key[:2].decode()), ("bytes", key[2:], key[2:].decode())])
        elif self.p(0.2):
            kv = self.new_var(BYTES)
            kv.maxlen = len(key)
            kv.readonly = True
            out.append(S("decl", var=kv, expr=kx))
            self.bind(kv)
            kx = ("var", kv)
            if self.p(0.5):
                # the box stays where it is when the variable of its key changes
                then = self.ch([b"raw0", f"{s.name}_pre{self.r.randrange(2)}".encode(), b"nope"])
                kv.readonly = False
                kv.maxlen = max(len(key), len(then))
                rekey = S("assign", vars=[kv], expr=("bytes", then, then.decode()))
        out.append(S("box", var=v, method=m, key=kx))
        if rekey is not None:
            out.append(rekey)
        if m in ("Open", "Create") or key.startswith(s.name.encode()):
            self.bind(v)
        else:
            self.sc.vars.append(v)

    def g_itxn(self, out):
        fields = []
        calls, self.calls = self.calls, self.calls and self.has("itxn_calls")
        self.sub_in_itxn = True
        fields.append(("TypeEnum", None, ("enum", self.ch(["Pay", "Axfer", "Appl", "Acfg"])) if self.p(0.8) else ("int", self.r.randrange(1, 7))))
        for _ in range(self.r.randrange(0, 5)):
            if self.p(0.6):
                fields.append((self.ch(ITX_INT), None, self.int(self.r.randrange(0, 3))))
            else:
                fields.append((self.ch(ITX_BYTES), None, self.bytes(self.r.randrange(0, 3))))
        if self.p(0.35):
            for i in range(self.r.randrange(9, 14) if WIDE and self.p(0.15) else self.r.randrange(1, 4)):
                fields.append(("ApplicationArgs", i, self.bytes(1)))
        if self.p(0.2):
            for i in range(self.r.randrange(1, 3)):
                fields.append((self.ch(["Accounts"]), i, self.bytes(1)))
        if self.p(0.2):
            fields.append((self.ch(["Assets", "Applications"]), 0, self.int(1)))
        if self.p(0.7):
            fields.append(("Fee", None, ("int", 0)))
        self.calls = calls
        out.append(S("itxn", fields=fields))
        if self.fn is None and self.nest == 0:
            self.has_itxn = True

    def g_igroup(self, out):
        b = []
        self.in_group = True
        self.nest += 1
        self.g_itxn(b)
        for _ in range(self.r.randrange(0, 4)):
            k = self.r.random()
            if k < 0.6:
                self.g_itxn(b)
            else:
                self.stmt(b)
        self.nest -= 1
        self.in_group = False
        out.append(S("igroup", body=b))

    def g_teal(self, out):
        k = self.r.randrange(8)
        r = self.r
        if k == 5:
            # bytes that are special to Tealish or to TEAL, and runs of blanks
            v = "".join(r.choice(["a", "B", "7", "  ", "   ", "\t", "#", "//", ";", ":", ",", "(", ")", "'", "end", "teal:", "é", "=", "{x}", "%s", "[0]"]) for _ in range(r.randrange(0, 8)))
            lines = [r.choice(["byte", "pushbytes", "byte  "]) + f' "{v}"' + r.choice(["", "   ", " // x", "//"]), "log"]
            fn = lambda ref, v=v.encode(): ref.w.ev("log", v)
        elif k == 6:
            v = bytes(r.randrange(256) for _ in range(r.randrange(1, 9)))
            import base64

            b = base64.b64encode(v).decode()
            lines = [r.choice([f"byte 0x{v.hex()}", f"pushbytes 0x{v.hex()}", f"byte base64 {b}", f"byte b64({b})", f"byte base64({b})"]), r.choice(["log", " log", "log // done"])]
            fn = lambda ref, v=v: ref.w.ev("log", v)
        elif k == 7:
            # nothing at all, blanks, comments of both kinds
            n = r.randrange(2**64)
            lines = r.choice([[], ["// x  y\tz"], ["", "// a"]]) + [f"int {n}", r.choice(["itob", "itob ; pop;int 8 ; itob"]), "log"]
            fn = lambda ref, v=n if lines[-2] == "itob" else 8: ref.w.ev("log", v.to_bytes(8, "big"))
        elif k == 0:
            n = r.randrange(10**6)
            lines = [f"pushint {n}", "itob", "log"]
            fn = lambda ref, n=n: ref.w.ev("log", n.to_bytes(8, "big"))
        elif k == 1:
            v, s = self.text(12)
            lines = [f'byte "{s}" // {self.ch(["note", "a; b", "#", chr(34)])}', "log"]
            fn = lambda ref, v=v: ref.w.ev("log", v)
        elif k == 2:
            self.lab_n = getattr(self, "lab_n", 0) + 1
            l = r.choice(["inline_label_", "inline_label_", "end.", "end-", "else.", "teal.", "if-", "exit-", "return."]) + str(self.lab_n)
            a = r.randrange(3)
            lines = [f"int {a}", f"bz {l}", 'byte "t"', "log", f"{l}:" + r.choice(["", "", " ", " // end", " int 1; pop"])]
            fn = lambda ref, a=a: ref.w.ev("log", b"t") if a else None
        elif k == 3:
            lines = ["txn Sender", "len", "itob; log"]
            fn = lambda ref: ref.w.ev("log", (32).to_bytes(8, "big"))
        else:
            lines = ["// only a comment", "int 1", "pop"]
            fn = None
        out.append(S("teal", lines=lines, fn=fn))

    def g_pushpop(self, out):
        n = self.r.randrange(1, 4)
        es, vs = [], []
        pre = []
        for _ in range(n):
            t = self.ch([INT, BYTES])
            vs.append(self.new_var(t))
            vs[-1].maxlen = M64 if t == INT else 64
            pre.append(S("decl", var=vs[-1], expr=None))
            es.append(self.of_type(t, 1, vs[-1].maxlen))
        out += pre
        out.append(S("call", expr=("push", es)))
        for v in vs[::-1]:
            self.sc.vars.append(v)
            self.n_vars += 1
            out.append(S("assign", vars=[v], expr=("pop",)))
            self.init.add(v)

    # ------------------------------------------------------------ program
    def new_const(self):
        n = self.name(CONST_NAMES, self.sc.taken)
        self.sc.names.add(n)
        if self.p(0.55):
            e = self.lit()
            return Const(n, INT, e[1], e[2] if len(e) > 2 else str(e[1]))
        k = self.r.random()
        if k < 0.2:
            v = bytes(self.r.randrange(256) for _ in range(self.r.randrange(1, 9)))
            h = v.hex() if self.p(0.5) else v.hex().upper()
            return Const(n, bytesn(len(v)), v, "0x" + h)
        if k < 0.3 and self.has("state"):
            v = self.ch(["i0", "i1", "b0", "b1", "i2"]).encode()
            return Const(n, bytesn(len(v)), v, f'"{v.decode()}"')
        if k < 0.33:
            return Const(n, BYTES, b"", '""')
        v, s = self.text(16)
        return Const(n, bytesn(len(v)), v, f'"{s}"')

    def new_struct(self, names):
        s = Struct(self.name(STRUCT_NAMES, lambda n: n in names))
        names.add(s.name)
        used = set()
        for i in range(self.r.randrange(1, 7)):
            f = self.name(FIELD_NAMES, lambda n: n in used)
            used.add(f)
            o = [(4, INT), (2, UINT8), (4, bytesn(self.ch([1, 2, 3, 8, 16, 32, 40]))), (1, U64T)]
            if self.prog.structs:
                o.append((1.5, ("struct", self.ch(self.prog.structs))))
            if self.has("array"):
                o.append((1, ("array", self.r.randrange(1, 9))))
            if self.has("bigstruct") and self.p(0.3):
                o.append((3, bytesn(self.ch([200, 255, 256, 300]))))
            s.add(f, self.pick(o))
            if self.has("comment") and self.p(0.1):
                s.comments[i] = [self.ch(["# field", "", "#"])]
        return s

    def program(self):
        r = self.r
        p = self.prog = Program()
        p.version = self.version
        self.push()
        if self.has("struct") or self.has("box"):
            names = set()
            for _ in range(r.randrange(1, 4)):
                s = self.new_struct(names)
                if s.size <= 1000:
                    p.structs.append(s)
        if self.has("const"):
            for _ in range(r.randrange(0, 6)):
                c = self.new_const()
                p.consts.append(c)
                self.sc.consts.append(c)
        self.shape(p.main, 0)
        self.gen_block(p.main)
        self.popsc()
        return p

    def shape(self, b, depth):
        """Declare the tree of blocks and the functions' signatures"""
        p = self.prog
        b.bid = len(p.blocks)
        p.blocks.append(b)
        r = self.r
        n_f = 0
        if self.has("func"):
            n_f = r.randrange(1, 5) if depth == 0 else (r.randrange(0, 3) if self.has("nested_fn") else 0)
        names = {x.name for blk in b.chain() for x in blk.funcs + blk.blocks} | {x.name for x in b.chain()}
        b.funcs = []
        for _ in range(n_f):
            n = self.name(FUNC_NAMES, lambda n: n in names)
            names.add(n)
            b.funcs.append(self.signature(n))
        if self.has("router") and depth == 0:
            for _ in range(r.randrange(1, 5)):
                n = self.name(FUNC_NAMES, lambda n: n in names)
                names.add(n)
                b.funcs.append(self.signature(n, public=True))
        n_b = 0
        if self.has("block"):
            n_b = r.randrange(1, 4) if depth == 0 else (r.randrange(0, 3) if depth < 3 else 0)
        kids = []
        for _ in range(n_b):
            n = self.name(BLOCK_NAMES, lambda n: n in names)
            names.add(n)
            k = Block(n, 0, b)
            kids.append(k)
        b.blocks = kids
        for k in kids:
            self.shape(k, depth + 1)

    def signature(self, name, public=False):
        r = self.r
        f = Func(name, len(self.prog.funcs))
        self.prog.funcs.append(f)
        f.grouping = self.has("igroup") and not public and self.p(0.2)
        f.cost = 0
        f.prog_probe = None
        saved = self.sc
        if public:
            f.public = {"oc": self.ch([None, None, None, "NoOp", "OptIn", "CloseOut", "UpdateApplication", "DeleteApplication", "CreateApplication"])}
        # arguments and returns never clash with names of enclosing scopes: they are named when the body is made
        f.arg_types = [self.some_type() for _ in range(self.pick([(1, 0), (3, 1), (3, 2), (2, 3), (0.6, 5), (0.25, self.r.randrange(6, 15))]))]
        f.returns = [self.some_type() for _ in range(self.pick([(2, 0), (4, 1), (1.5, 2), (1, 3), (0.4, 5)]))]
        if public and f.public["oc"]:
            pass
        f.args = []
        for t in f.arg_types:
            v = Var("?", t, "arg")
            v.maxlen = self.hi_for(t)
            if public and is_int(t) and t[0] != "uint8":
                v.maxlen = M64
            if public and not is_int(t) and not tsize(t):
                v.maxlen = 40
            f.args.append(v)
        f.ret_hi = [self.hi_for(t) for t in f.returns]
        self.sc = saved
        return f

    def gen_block(self, b):
        r = self.r
        outer_init = set(self.init)
        self.blk = b
        if b.parent is not None:
            self.push()
        sc = self.sc
        main = b.parent is None
        body = b.body
        # the prologue: variables nested blocks and functions can rely on
        if self.has("probe"):
            body.append(self.new_probe())
        n_pro = r.randrange(1, 4)
        before = set(self.init)
        for _ in range(n_pro):
            self.declare(out=body, calls=False)
        if self.has("jump") and b.bid == 0:
            self.fuel = self.new_var(INT)
            self.fuel.readonly = True
            self.fuel.maxlen = 6
            body.append(S("decl", var=self.fuel, expr=("int", r.randrange(0, 6))))
            self.bind(self.fuel)
        b.prologue_vars = list(self.init - before)
        pro_init = set(self.init)
        self.has_itxn = False
        n = r.randrange(2, self.size + 1) if main or self.size < 4 else r.randrange(1, max(2, self.size // 2))
        if self.has("block") and self.blk_targets(b):
            k = max(1, n // 3)
            for _ in range(3):
                body += self.stmts(k)
                if self.p(0.5):
                    self.cond_jump(body)
                elif self.has("loop") and self.p(0.3):
                    self.loop_jump(body)
        else:
            body += self.stmts(n)
        self.has_itxn = False
        if self.has("probe"):
            body.append(self.new_probe())
        self.exit_stmt(b, body)
        after_init = self.init
        # nested functions and blocks
        for f in b.funcs:
            self.init = set(pro_init)
            self.gen_func(f, b)
        for k in b.blocks:
            self.init = set(pro_init)
            self.blk = k
            self.gen_block(k)
            self.blk = b
        items = list(b.funcs) + list(b.blocks)
        if self.has("mix_defs"):
            r.shuffle(items)
        b.after = []
        for x in items:
            if self.has("comment") and self.p(0.3):
                self.filler(b.after)
            b.after.append(x)
        if self.has("comment") and self.p(0.2):
            self.filler(b.after)
        if b.parent is not None:
            self.popsc()
        self.init = outer_init

    def blk_targets(self, b):
        out = []
        for x in b.chain():
            for c in x.blocks:
                if c not in out:
                    out.append(c)
        return out

    def fwd(self, b):
        return [x for x in self.blk_targets(b) if x.bid > b.bid]

    def cond_jump(self, out):
        b = self.blk
        t = self.fwd(b)
        back = [x for x in self.blk_targets(b) if x.bid <= b.bid]
        base = set(self.init)
        if back and self.has("jump") and self.p(0.5):
            body = [S("assign", vars=[self.fuel], expr=("bin", "-", ("var", self.fuel), ("int", 1))), S("jump", block=self.ch(back))]
            c = ("bin", ">", ("var", self.fuel), ("int", 0))
            out.append(S("if", branches=[(False, c, body)], else_body=None))
        elif t:
            pre = self.block_body(1) if self.p(0.4) else []
            self.init = base
            end = []
            if self.has("switch") and self.p(0.25):
                self.switch(end, t)
            else:
                end.append(S("jump", block=self.ch(t)))
            out.append(S("if", branches=[(self.p(0.2), self.cond(), pre + end)], else_body=None))

    def loop_jump(self, out):
        """A loop that may be left by a jump"""
        base = set(self.init)
        under = self.p(0.6)
        v = None
        self.push()
        self.loops += 1
        was, self.in_while = self.in_while, False
        a, k = self.r.randrange(0, 3), self.r.randrange(1, 4)
        if not under:
            v = self.new_var(INT)
            v.maxlen = a + k
            v.readonly = True
            self.bind(v)
        b = self.block_body(1) if self.p(0.5) else []
        if self.p(0.3):
            # within a further loop
            b2 = []
            self.cond_jump(b2)
            b.append(S("for_", start=("int", 0), end=("int", self.r.randrange(1, 3)), body=b2))
        else:
            self.cond_jump(b)
        self.loops -= 1
        self.in_while = was
        self.popsc()
        self.init = base
        s = dict(start=("int", a), end=("int", a + k), body=b)
        if not under or leaves(b) or self.has("unders_main"):
            out.append(S("for_", **s) if under else S("for", var=v, **s))

    def exit_stmt(self, b, out):
        t = self.fwd(b)
        o = [(1.5, "exit")]
        if t:
            o += [(2, "jump"), (3 if self.has("switch") else 0, "switch")]
        pubs = [f for blk in b.chain() for f in blk.funcs if f.public is not None]
        if pubs and not hasattr(self.prog, "routed"):
            o = [(1, "router")] if not t or self.p(0.75) else o + [(1, "router")]
        k = self.pick(o)
        if k == "exit":
            out.append(S("exit", expr=self.int() if self.p(0.5) else ("int", self.ch([0, 1, 1, 1, 7]))))
        elif k == "jump":
            out.append(S("jump", block=self.ch(t)))
        elif k == "switch":
            self.switch(out, t)
        else:
            self.r.shuffle(pubs)
            k = self.r.randrange(1, len(pubs) + 1)
            out.append(S("router", funcs=pubs[:k]))
            self.prog.routed = pubs[:k]

    def switch(self, out, t):
        calls, self.calls = self.calls, False
        n = self.r.randrange(9, 16) if WIDE and self.p(0.03) else self.r.randrange(1, 5)
        used = set()
        opts = []
        fs = self.callable(lambda f: len(f.returns) == 1 and is_int(f.returns[0])) if self.has("switch_eff") else []
        if fs:
            subj = self.callx(self.ch(fs), 1)
            for v in range(n):
                opts.append((("int", v), self.ch(t)))
        elif self.p(0.6):
            m = self.r.randrange(1, 6) if n < 9 else n
            # a subject whose value is close to the options
            subj = self.int(1, m)
            while len(opts) < n:
                v = self.r.randrange(0, m + 2)
                if v in used and self.p(0.8):
                    n -= 1
                    continue
                used.add(v)
                x = ("int", v)
                vs = self.readable(lambda v: is_int(v.type))
                if vs and self.p(0.2):
                    x = ("var", self.ch(vs))
                cs = [c for c in self.visible_consts() if is_int(c.type)]
                if cs and self.p(0.2):
                    x = ("const", self.ch(cs))
                if self.has("enum") and self.p(0.1):
                    x = ("enum", self.ch(ENUMS))
                if self.p(0.1):
                    x = ("bin", "+", ("int", v), ("int", 0))
                opts.append((x, self.ch(t)))
        else:
            if self.has("fields") and self.p(0.6):
                subj = ("txna", "ApplicationArgs", ("int", 0))
            else:
                subj = self.bytes(1)
            for _ in range(n):
                if self.p(0.6):
                    v = self.ch([b"a", b"m0", b"m1", b"opt_in"])
                    if v in used:
                        continue
                    used.add(v)
                    opts.append((("bytes", v, v.decode()), self.ch(t)))
                else:
                    opts.append((self.blit(10)[0], self.ch(t)))
        if not opts:
            opts.append((("int", 1) if subj[0] in ("int", "bin", "var") and False else self.like(subj), self.ch(t)))
        self.calls = calls
        out.append(S("switch", subj=subj, options=opts, else_block=self.ch(t) if self.p(0.75) else None))

    def like(self, subj):
        return subj

    def gen_func(self, f, b):
        outer = (self.fn, self.nest, self.loops, self.in_group, self.has_itxn, self.in_while)
        saved = set(self.init)
        if not self.has("outer"):
            self.init = set()
        self.fn, self.fn_block = f, b
        self.blk = b
        self.nest = self.loops = 0
        self.in_group = self.has_itxn = self.in_while = False
        self.push()
        # functions may use the outer variables that exist whenever they are called;
        # the names of the others stay reserved
        keep = set()
        if self.has("outer"):
            for x in b.chain():
                keep |= set(x.prologue_vars)
        hidden = [(s, s.vars) for s in self.sc.chain()]
        for s, _ in hidden:
            s.vars = [v for v in s.vars if v in keep]
        for v in f.args:
            v.name = self.name(VAR_NAMES, self.sc.taken)
            self.sc.names.add(v.name)
            self.bind(v)
        body = f.body
        if self.has("comment") and f.public is not None and self.p(0.2):
            self.filler(f.pre)
        if self.has("probe"):
            pr = self.new_probe()
            self.prog.probe_sigs[pr.n] = (len(f.args), len(f.returns))
            body.append(pr)
        body += self.stmts(self.r.randrange(0, max(2, self.size // 2)))
        body.append(self.ret())
        if self.has("comment") and self.p(0.1):
            self.filler(body)
        self.popsc()
        for s, v in hidden:
            s.vars = v
        self.fn, self.nest, self.loops, self.in_group, self.has_itxn, self.in_while = outer
        self.init = saved
