"""An independent, strict assembler for TEAL text (the output of the compiler).

It follows the rules of the go-algorand assembler: statements separated by
newlines or `;`, `//` comments outside strings, string escapes, `#define`
macros replaced token by token, `label:` definitions, immediates checked for
number, kind and range. It shares no code with tealish.
"""
import base64
import binascii
import hashlib
import json
import os
import re

SPEC = json.load(open(os.path.join(os.path.dirname(__file__), "avmspec.json")))
# array fields are not theirs, though they are listed
SCALAR_OPS = ("txn", "gtxn", "gtxns", "itxn", "gitxn")
U64 = 2**64


class TealError(Exception):
    def __init__(self, msg, line=0):
        super().__init__(f"TEAL line {line}: {msg}")
        self.line = line


def tokenize(line, n=0):
    """-> list of statements, each a list of tokens; strings keep their quotes"""
    stmts, cur = [], []
    i, start, in_str = 0, None, False

    def flush(end):
        nonlocal start
        if start is not None:
            cur.append(line[start:end])
            start = None

    def in_b64():
        if start is not None and re.match(r"(base64|b64)\([^)]*$", line[start:i]):
            return True
        return bool(cur) and cur[-1] in ("base64", "b64")

    while i < len(line):
        c = line[i]
        if in_str:
            if c == "\\":
                i += 1
            elif c == '"':
                in_str = False
                i += 1
                if i < len(line) and not line[i].isspace() and line[i] != ";":
                    if not line.startswith("//", i):
                        raise TealError("token runs on after a string", n)
                flush(i)
                continue
        elif c.isspace():
            flush(i)
        elif c == ";":
            flush(i)
            stmts.append(cur)
            cur = []
        elif line.startswith("//", i) and not in_b64():
            flush(i)
            break
        elif c == '"':
            if start is not None:
                raise TealError("quote inside a token", n)
            start = i
            in_str = True
        elif start is None:
            start = i
        i += 1
    if in_str:
        raise TealError("unterminated string", n)
    flush(len(line))
    stmts.append(cur)
    return [s for s in stmts if s]


def parse_string(tok, n=0):
    assert tok[0] == '"' and tok[-1] == '"'
    s = tok[1:-1].encode()
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i : i + 1]
        if c == b"\\":
            e = s[i + 1 : i + 2]
            if e == b"x":
                h = s[i + 2 : i + 4]
                if not re.fullmatch(rb"[0-9a-fA-F]{2}", h):
                    raise TealError("bad \\x escape", n)
                out.append(int(h, 16))
                i += 4
                continue
            m = {b"n": 10, b"r": 13, b"t": 9, b"\\": 92, b'"': 34}.get(e)
            if m is None:
                raise TealError(f"bad escape {e!r}", n)
            out.append(m)
            i += 2
            continue
        out += c
        i += 1
    return bytes(out)


def parse_uint(tok, n=0):
    t = tok
    try:
        if re.fullmatch(r"0[xX][0-9a-fA-F_]+", t):
            v = int(t[2:].replace("_", ""), 16)
        elif re.fullmatch(r"0[bB][01_]+", t):
            v = int(t[2:].replace("_", ""), 2)
        elif re.fullmatch(r"0[oO]?[0-7_]+", t):
            v = int(t.lower().replace("o", "").replace("_", ""), 8)
        elif re.fullmatch(r"[0-9][0-9_]*", t):
            if len(t) > 1 and t[0] == "0":
                raise ValueError
            v = int(t.replace("_", ""))
        else:
            raise ValueError
    except ValueError:
        raise TealError(f"bad integer {tok!r}", n)
    if v >= U64:
        raise TealError(f"integer {tok} out of range", n)
    return v


def encode_address(raw):
    import base64

    return base64.b32encode(raw + sha512_256(raw)[-4:]).decode().rstrip("=")


def decode_address(tok, n=0):
    if not re.fullmatch(r"[A-Z2-7]{58}", tok):
        raise TealError(f"bad address {tok!r}", n)
    raw = base64.b32decode(tok + "=" * (-len(tok) % 8))
    pk, chk = raw[:32], raw[32:]
    if sha512_256(pk)[-4:] != chk:
        raise TealError("bad address checksum", n)
    return pk


def sha512_256(b):
    try:
        return hashlib.new("sha512_256", b).digest()
    except ValueError:
        from Cryptodome.Hash import SHA512

        return SHA512.new(b, truncate="256").digest()


NAMED_INTS = {
    "NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3,
    "UpdateApplication": 4, "DeleteApplication": 5,
    "unknown": 0, "pay": 1, "keyreg": 2, "acfg": 3, "axfer": 4, "afrz": 5, "appl": 6,
}


def parse_bytes(toks, n=0):
    """-> (value, number of tokens used)"""
    try:
        return _parse_bytes(toks, n)
    except binascii.Error as e:
        raise TealError(f"bad bytes constant {toks[:2]}: {e}", n)


def _parse_bytes(toks, n):
    t = toks[0]
    if t[0] == '"':
        return parse_string(t, n), 1
    if re.fullmatch(r"0x([0-9a-fA-F]{2})*", t):
        return bytes.fromhex(t[2:]), 1
    if t in ("base64", "b64") and len(toks) > 1:
        return base64.b64decode(toks[1], validate=True), 2
    if t in ("base32", "b32") and len(toks) > 1:
        s = toks[1].rstrip("=")
        return base64.b32decode(s + "=" * (-len(s) % 8)), 2
    m = re.fullmatch(r"(base64|b64|base32|b32)\((.*)\)", t)
    if m:
        return parse_bytes([m[1], m[2]], n)[0], 1
    raise TealError(f"bad bytes constant {t!r}", n)


U8 = "u8"
IMM = {
    "load": [U8], "store": [U8], "gload": [U8, U8], "gloads": [U8], "gaid": [U8],
    "arg": [U8], "dig": [U8], "bury": [U8], "cover": [U8], "uncover": [U8],
    "popn": [U8], "dupn": [U8], "extract": [U8, U8], "substring": [U8, U8],
    "replace2": [U8], "proto": [U8, U8], "frame_dig": ["i8"], "frame_bury": ["i8"],
    "pushint": ["int"], "pushbytes": ["bytes"], "pushints": ["int*"],
    "pushbytess": ["bytes*"], "intcblock": ["int*"], "bytecblock": ["bytes*"],
    "intc": [U8], "bytec": [U8],
    "b": ["label"], "bz": ["label"], "bnz": ["label"], "callsub": ["label"],
    "switch": ["label*"], "match": ["label*"],
    "txn": ["f"], "global": ["f"], "gtxn": [U8, "f"], "txna": ["f", U8],
    "gtxna": [U8, "f", U8], "gtxns": ["f"], "gtxnsa": ["f", U8], "txnas": ["f"],
    "gtxnas": [U8, "f"], "gtxnsas": ["f"], "itxn_field": ["f"], "itxn": ["f"],
    "itxna": ["f", U8], "itxnas": ["f"], "gitxn": [U8, "f"], "gitxna": [U8, "f", U8],
    "gitxnas": [U8, "f"],
    "method": ["method"], "addr": ["addr"], "int": ["nint"], "byte": ["bytes"],
}
for _n, _o in SPEC.items():
    if _n not in IMM:
        if "enum" in _o:
            IMM[_n] = ["f"]
        else:
            assert _o["size"] == 1, _n
            IMM[_n] = []

# spellings resolved by the number of immediates
ALIASES = {
    ("replace", 0): "replace3", ("replace", 1): "replace2",
    ("extract", 0): "extract3", ("substring", 0): "substring3",
    ("txn", 2): "txna", ("itxn", 2): "itxna", ("gtxn", 3): "gtxna",
    ("gtxns", 2): "gtxnsa", ("gitxn", 3): "gitxna",
}


class Instr:
    __slots__ = ("op", "imms", "line")

    def __init__(self, op, imms, line):
        self.op, self.imms, self.line = op, imms, line

    def __repr__(self):
        return f"{self.line}:{self.op} {self.imms}"


class Assembled:
    def __init__(self):
        self.instrs = []
        self.labels = {}
        self.label_lines = {}
        self.version = None
        self.defines = {}

    def canonical(self):
        """Instructions with branch targets as instruction indices"""
        out = []
        for i in self.instrs:
            imms = tuple(
                self.labels[x[1]] if isinstance(x, tuple) and x[0] == "label" else x
                for x in i.imms
            )
            out.append((i.op,) + imms)
        return out


def assemble(lines):
    p = Assembled()
    first = True
    for n, line in enumerate(lines, 1):
        if "\n" in line or "\r" in line:
            raise TealError("line break inside a line", n)
        for toks in tokenize(line, n):
            if toks[0] == "#pragma":
                if toks[1:2] == ["version"]:
                    if not first:
                        raise TealError("#pragma version is not first", n)
                    if len(toks) != 3 or not toks[2].isdigit():
                        raise TealError("bad #pragma version", n)
                    p.version = int(toks[2])
                    first = False
                    continue
                raise TealError("unknown pragma", n)
            first = False
            if toks[0] == "#define":
                if len(toks) < 3:
                    raise TealError("bad #define", n)
                name = toks[1]
                if not re.fullmatch(r"[A-Za-z_+\-*/%=<>!&|^~][A-Za-z0-9_+\-*/%=<>!&|^~]*", name):
                    raise TealError(f"bad macro name {name!r}", n)
                if name in IMM or name in p.labels:
                    raise TealError(f"macro {name!r} shadows an op or label", n)
                p.defines[name] = toks[2:]
                continue
            if toks[0].startswith("#"):
                raise TealError(f"unknown directive {toks[0]!r}", n)
            exp = []
            for t in toks:
                exp += _expand(t, p.defines, n)
            toks = exp
            if toks[0].endswith(":") and toks[0][0] != '"':
                label = toks[0][:-1]
                if not re.fullmatch(r"[A-Za-z0-9_+\-*/%=<>!&|^~.]+", label):
                    raise TealError(f"bad label {label!r}", n)
                if label in p.labels:
                    raise TealError(f"duplicate label {label!r}", n)
                if label in p.defines:
                    raise TealError(f"label {label!r} is a macro", n)
                p.labels[label] = len(p.instrs)
                p.label_lines[label] = n
                toks = toks[1:]
                if not toks:
                    continue
            p.instrs.append(_instr(toks, n))
    for i in p.instrs:
        for x in i.imms:
            if isinstance(x, tuple) and x[0] == "label" and x[1] not in p.labels:
                raise TealError(f"undefined label {x[1]!r}", i.line)
    return p


def _expand(tok, defines, n, depth=0):
    if depth > 20:
        raise TealError("macro recursion", n)
    if tok in defines:
        out = []
        for t in defines[tok]:
            out += _expand(t, defines, n, depth + 1)
        return out
    return [tok]


def _instr(toks, n):
    op, args = toks[0], toks[1:]
    if op not in ("pushbytes", "byte", "pushbytess", "bytecblock"):
        op = ALIASES.get((op, len(args)), op)
    if op not in IMM:
        raise TealError(f"unknown op {op!r}", n)
    imms, k = [], 0
    for kind in IMM[op]:
        many = kind.endswith("*")
        if not many and k >= len(args):
            raise TealError(f"{op} expects {len(IMM[op])} immediates", n)
        while k < len(args):
            t = args[k]
            used = 1
            if kind == U8:
                v = parse_uint(t, n)
                if v > 255:
                    raise TealError(f"{op}: immediate {v} > 255", n)
            elif kind == "i8":
                try:
                    v = int(t)
                except ValueError:
                    raise TealError(f"{op}: bad immediate {t!r}", n)
                if not -128 <= v <= 127:
                    raise TealError(f"{op}: immediate {v} out of range", n)
            elif kind in ("int", "int*", "nint"):
                if t in NAMED_INTS and kind == "nint":
                    v = NAMED_INTS[t]
                else:
                    v = parse_uint(t, n)
            elif kind in ("bytes", "bytes*"):
                v, used = parse_bytes(args[k:], n)
            elif kind in ("label", "label*"):
                v = ("label", t)
            elif kind == "f":
                if t not in SPEC[op]["enum"] or (op in SCALAR_OPS and t in SPEC["txna"]["enum"]):
                    raise TealError(f"{op}: unknown field {t!r}", n)
                v = t
            elif kind == "method":
                if t[0] != '"':
                    raise TealError("method expects a string", n)
                v = parse_string(t, n)
            elif kind == "addr":
                v = decode_address(t, n)
            else:
                raise AssertionError(kind)
            imms.append(v)
            k += used
            if not many:
                break
    if k != len(args):
        raise TealError(f"{op}: unexpected {args[k:]!r}", n)
    return Instr(op, tuple(imms), n)
