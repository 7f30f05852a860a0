"""Transaction context and ledger seen by a program, and the semantics of the
AVM opcodes over it. Used by the TEAL interpreter (avm.py) and, through calls
by opcode name, by the reference interpreter (ref.py)."""
import copy
import hashlib
import math

from .teal import SPEC, U64, sha512_256

MAXB = 4096


class Panic(Exception):
    pass


def hbytes(*parts, n=8):
    h = hashlib.blake2b(digest_size=32)
    for p in parts:
        if isinstance(p, int):
            p = b"i" + str(p).encode()
        elif isinstance(p, str):
            p = b"s" + p.encode()
        elif isinstance(p, (list, tuple)):
            p = b"l" + hbytes(*p, n=32)
        else:
            p = b"b" + p
        h.update(len(p).to_bytes(4, "big") + p)
    d = h.digest()
    while len(d) < n:
        d += hashlib.blake2b(d, digest_size=32).digest()
    return d[:n]


def hint(*parts):
    d = hbytes(*parts, n=10)
    # mostly small numbers, sometimes any 64 bit number
    k = d[8] % 8
    v = int.from_bytes(d[:8], "big")
    return v if k == 0 else v % 2**32 if k == 1 else v % 256 if k < 5 else v % 10


ADDRESS_FIELDS = {
    "Sender", "Receiver", "CloseRemainderTo", "AssetSender", "AssetReceiver",
    "AssetCloseTo", "RekeyTo", "ConfigAssetManager", "ConfigAssetReserve",
    "ConfigAssetFreeze", "ConfigAssetClawback", "FreezeAssetAccount", "Accounts",
    "ZeroAddress", "CreatorAddress", "CurrentApplicationAddress",
    "CallerApplicationAddress", "TxID", "Lease", "GroupID",
}
TXN_TYPES = dict(zip(SPEC["txn"]["enum"], SPEC["txn"]["enumtypes"]))
GLOBAL_TYPES = dict(zip(SPEC["global"]["enum"], SPEC["global"]["enumtypes"]))
ITXN_TYPES = dict(zip(SPEC["itxn_field"]["enum"], SPEC["itxn_field"]["enumtypes"]))
ARRAYS = ["ApplicationArgs", "Accounts", "Assets", "Applications", "Logs",
          "ApprovalProgramPages", "ClearStateProgramPages"]
COUNTS = {"NumAppArgs": "ApplicationArgs", "NumAccounts": "Accounts",
          "NumAssets": "Assets", "NumApplications": "Applications",
          "NumLogs": "Logs", "NumApprovalProgramPages": "ApprovalProgramPages",
          "NumClearStateProgramPages": "ClearStateProgramPages"}


class World:
    def __init__(self, seed=b"w"):
        self.seed = seed if isinstance(seed, bytes) else str(seed).encode()
        self.group = [{}]
        self.gi = 0
        self.globals = {}
        self.app_global = {}
        self.app_local = {}
        self.boxes = {}
        self.events = []
        self.scratch = {}
        self.inner = None  # txns being built
        self.last_inner = []
        self.n_inner = 0

    locator = None  # gives the place in the source or TEAL of each event

    def locate(self, fn):
        self.locs = []
        self.locator = fn

    def clone(self):
        return copy.deepcopy(self)

    def ev(self, *e):
        self.events.append(e)
        if self.locator is not None:
            self.locs.append(self.locator())

    # ---- fields
    def txn_field(self, gi, f, i=None):
        if not 0 <= gi < len(self.group):
            raise Panic("group index")
        return self._field(self.group[gi], ("t", gi), f, i)

    def _field(self, txn, tag, f, i=None):
        if f in ARRAYS:
            arr = txn.get(f, [])
            if i is None:
                i = 0
            if f == "Accounts":
                arr = [self._field(txn, tag, "Sender")] + arr
            if f == "Applications":
                arr = [self.global_field("CurrentApplicationID")] + arr
            if i >= len(arr):
                raise Panic(f"index {i} of {f}")
            return arr[i]
        if i is not None:
            raise Panic(f"{f} is not an array")
        if f in COUNTS:
            return len(txn.get(COUNTS[f], []))
        if f in txn:
            return txn[f]
        if f == "GroupIndex":
            return tag[1] if tag[0] == "t" else hint(self.seed, tag, f)
        if f == "OnCompletion":
            return 0
        return self.pseudo_field(tag, f, TXN_TYPES[f])

    def pseudo_field(self, tag, f, t):
        if t == "U":
            return hint(self.seed, tag, f)
        if f in ADDRESS_FIELDS:
            return hbytes(self.seed, tag, f, n=32)
        n = hbytes(self.seed, tag, f, "len", n=1)[0] % 20
        return hbytes(self.seed, tag, f, n=n)

    def global_field(self, f):
        if f in self.globals:
            return self.globals[f]
        if f == "GroupSize":
            return len(self.group)
        if f == "ZeroAddress":
            return bytes(32)
        if f == "CurrentApplicationID":
            return 1234
        return self.pseudo_field(("g",), f, GLOBAL_TYPES[f])

    # ---- inner transactions
    def itxn_field(self, f):
        if not self.last_inner:
            raise Panic("no inner txn")
        return self._inner_field(len(self.last_inner) - 1, f)

    def _inner_field(self, t, f, i=None):
        if not 0 <= t < len(self.last_inner):
            raise Panic("inner txn index")
        txn = self.last_inner[t]
        d = {}
        for k, v in txn:
            if k in ARRAYS:
                d.setdefault(k, []).append(v)
            else:
                d[k] = v
        if f == "Logs":
            d["Logs"] = [hbytes(self.seed, self.n_inner, t, "log", j, n=5 + j) for j in range(3)]
        return self._field(d, ("i", self.n_inner, t), f, i)


def _b(x):
    if not isinstance(x, bytes):
        raise Panic("expected bytes")
    return x


def _u(x):
    if isinstance(x, bytes):
        raise Panic("expected uint")
    return x


def _ck(v):
    if v >= U64:
        raise Panic("overflow")
    if v < 0:
        raise Panic("underflow")
    return v


def _big(x):
    if len(_b(x)) > 64:
        raise Panic("math on too long bytes")
    return int.from_bytes(x, "big")


def _unbig(v):
    return v.to_bytes((v.bit_length() + 7) // 8, "big")


def _bs(x):
    if len(x) > MAXB:
        raise Panic("byte string too long")
    return x


def _sub(x, s, e):
    if s > e or e > len(x):
        raise Panic("substring range")
    return x[s:e]


def _ext(x, s, n):
    if s + n > len(x):
        raise Panic("extract range")
    return x[s : s + n]


def _extn(x, s, n):
    return int.from_bytes(_ext(_b(x), _u(s), n), "big")


def _rep(x, s, y):
    if s + len(y) > len(x):
        raise Panic("replace range")
    return x[:s] + y + x[s + len(y) :]


def _same(a, b):
    if isinstance(a, bytes) != isinstance(b, bytes):
        raise Panic("cannot compare")
    return int(a == b)


def _div(a, b):
    if _u(b) == 0:
        raise Panic("/ 0")
    return _u(a) // b


def _mod(a, b):
    if _u(b) == 0:
        raise Panic("% 0")
    return _u(a) % b


def _exp(a, b):
    if _u(a) == 0 and _u(b) == 0:
        raise Panic("0^0")
    if a > 1 and b > 64:
        raise Panic("overflow")
    return _ck(a**b)


def _expw(a, b):
    if _u(a) == 0 and _u(b) == 0:
        raise Panic("0^0")
    if a > 1 and b > 128:
        raise Panic("overflow")
    v = a**b
    if v >= 2**128:
        raise Panic("overflow")
    return [v >> 64, v % U64]


def _divmodw(a, b, c, d):
    x, y = (_u(a) << 64) + _u(b), (_u(c) << 64) + _u(d)
    if y == 0:
        raise Panic("/ 0")
    q, r = divmod(x, y)
    return [q >> 64, q % U64, r >> 64, r % U64]


def _divw(a, b, c):
    if _u(c) == 0:
        raise Panic("/ 0")
    return _ck(((_u(a) << 64) + _u(b)) // c)


def _getbit(x, i):
    if isinstance(x, bytes):
        if i >= len(x) * 8:
            raise Panic("getbit")
        return (x[i // 8] >> (7 - i % 8)) & 1
    if i > 63:
        raise Panic("getbit")
    return (x >> i) & 1


def _setbit(x, i, v):
    if v > 1:
        raise Panic("setbit value")
    if isinstance(x, bytes):
        if i >= len(x) * 8:
            raise Panic("setbit")
        y = bytearray(x)
        m = 0x80 >> (i % 8)
        y[i // 8] = y[i // 8] | m if v else y[i // 8] & ~m & 255
        return bytes(y)
    if i > 63:
        raise Panic("setbit")
    return x | (1 << i) if v else x & ~(1 << i)


def _setbyte(x, i, v):
    if i >= len(_b(x)) or v > 255:
        raise Panic("setbyte")
    y = bytearray(x)
    y[i] = v
    return bytes(y)


def _bop(f):
    def g(a, b):
        n = max(len(_b(a)), len(_b(b)))
        v = f(int.from_bytes(a, "big"), int.from_bytes(b, "big"))
        return v.to_bytes(n, "big")

    return g


def _bsubt(a, b):
    v = _big(a) - _big(b)
    if v < 0:
        raise Panic("b- underflow")
    return _unbig(v)


def _bdiv(a, b):
    if _big(b) == 0:
        raise Panic("b/ 0")
    return _unbig(_big(a) // _big(b))


def _bmod(a, b):
    if _big(b) == 0:
        raise Panic("b% 0")
    return _unbig(_big(a) % _big(b))


def _keccak(b):
    from Cryptodome.Hash import keccak

    return keccak.new(digest_bits=256, data=b).digest()


PURE = {
    "+": lambda a, b: _ck(_u(a) + _u(b)),
    "-": lambda a, b: _ck(_u(a) - _u(b)),
    "*": lambda a, b: _ck(_u(a) * _u(b)),
    "/": _div,
    "%": _mod,
    "<": lambda a, b: int(_u(a) < _u(b)),
    ">": lambda a, b: int(_u(a) > _u(b)),
    "<=": lambda a, b: int(_u(a) <= _u(b)),
    ">=": lambda a, b: int(_u(a) >= _u(b)),
    "&&": lambda a, b: int(bool(_u(a)) and bool(_u(b))),
    "||": lambda a, b: int(bool(_u(a)) | bool(_u(b))),
    "==": _same,
    "!=": lambda a, b: 1 - _same(a, b),
    "!": lambda a: int(_u(a) == 0),
    "|": lambda a, b: _u(a) | _u(b),
    "&": lambda a, b: _u(a) & _u(b),
    "^": lambda a, b: _u(a) ^ _u(b),
    "~": lambda a: _u(a) ^ (U64 - 1),
    "len": lambda a: len(_b(a)),
    "itob": lambda a: _u(a).to_bytes(8, "big"),
    "concat": lambda a, b: _bs(_b(a) + _b(b)),
    "mulw": lambda a, b: [(_u(a) * _u(b)) >> 64, (a * b) % U64],
    "addw": lambda a, b: [(_u(a) + _u(b)) >> 64, (a + b) % U64],
    "divmodw": _divmodw,
    "divw": _divw,
    "expw": _expw,
    "exp": _exp,
    "sqrt": lambda a: math.isqrt(_u(a)),
    "shl": lambda a, b: (_u(a) << _shift(b)) % U64,
    "shr": lambda a, b: _u(a) >> _shift(b),
    "bitlen": lambda a: (int.from_bytes(a, "big") if isinstance(a, bytes) else a).bit_length(),
    "substring3": lambda a, s, e: _sub(_b(a), _u(s), _u(e)),
    "extract3": lambda a, s, n: _ext(_b(a), _u(s), _u(n)),
    "extract_uint16": lambda a, s: _extn(a, s, 2),
    "extract_uint32": lambda a, s: _extn(a, s, 4),
    "extract_uint64": lambda a, s: _extn(a, s, 8),
    "replace3": lambda a, s, b: _rep(_b(a), _u(s), _b(b)),
    "getbit": lambda a, i: _getbit(a, _u(i)),
    "setbit": lambda a, i, v: _setbit(a, _u(i), _u(v)),
    "getbyte": lambda a, i: _extn(a, i, 1),
    "setbyte": lambda a, i, v: _setbyte(a, _u(i), _u(v)),
    "select": lambda a, b, c: b if _u(c) else a,
    "b+": lambda a, b: _unbig(_big(a) + _big(b)),
    "b-": _bsubt,
    "b*": lambda a, b: _unbig(_big(a) * _big(b)),
    "b/": _bdiv,
    "b%": _bmod,
    "b<": lambda a, b: int(_big(a) < _big(b)),
    "b>": lambda a, b: int(_big(a) > _big(b)),
    "b<=": lambda a, b: int(_big(a) <= _big(b)),
    "b>=": lambda a, b: int(_big(a) >= _big(b)),
    "b==": lambda a, b: int(_big(a) == _big(b)),
    "b!=": lambda a, b: int(_big(a) != _big(b)),
    "b|": _bop(lambda a, b: a | b),
    "b&": _bop(lambda a, b: a & b),
    "b^": _bop(lambda a, b: a ^ b),
    "b~": lambda a: bytes(255 - x for x in _b(a)),
    "bsqrt": lambda a: _unbig(math.isqrt(_big(a))),
    "sha256": lambda a: hashlib.sha256(_b(a)).digest(),
    "sha512_256": lambda a: sha512_256(_b(a)),
    "sha3_256": lambda a: hashlib.sha3_256(_b(a)).digest(),
    "keccak256": lambda a: _keccak(_b(a)),
}


def _shift(b):
    if _u(b) > 63:
        raise Panic("shift")
    return b


def _btoi(a):
    if len(_b(a)) > 8:
        raise Panic("btoi")
    return int.from_bytes(a, "big")


def _bzero(a):
    if _u(a) > MAXB:
        raise Panic("bzero")
    return bytes(a)


PURE["btoi"] = _btoi
PURE["bzero"] = _bzero


def _app_opt(w, acct):
    return w.app_local.setdefault(acct, {})


def op_call(w, op, imms, args):
    """Apply an opcode to its arguments -> list of results (bottom first)"""
    f = PURE.get(op)
    if f is not None:
        r = f(*args)
        return r if isinstance(r, list) else [r]
    g = STATE.get(op)
    if g is not None:
        r = g(w, imms, args)
        return r if isinstance(r, list) else [] if r is None else [r]
    # an opcode whose result is a fixed but arbitrary function of its operands
    spec = SPEC[op]
    for t, a in zip(spec["args"], args):
        if t == "B":
            _b(a)
        elif t == "U":
            _u(a)
    out = []
    for k, t in enumerate(spec["returns"]):
        if t == "." and "enumtypes" in spec and imms:
            t = dict(zip(spec["enum"], spec["enumtypes"]))[imms[0]]
        if t == ".":
            t = "BU"[hbytes(op, list(imms), n=1)[0] % 2]
        tag = (w.seed, "op", op, list(imms), list(args), k)
        if t == "U":
            out.append(hint(*tag))
        else:
            out.append(hbytes(*tag, n=1 + hbytes(*tag, n=1)[0] % 16))
    w.ev("op", op, tuple(imms), tuple(args))
    return out


def _log(w, i, a):
    w.ev("log", _b(a[0]))


def _gput(w, i, a):
    w.app_global[_b(a[0])] = a[1]
    w.ev("gput", a[0], a[1])


def _gget(w, i, a):
    return w.app_global.get(_b(a[0]), 0)


def _gget_ex(w, i, a):
    _u(a[0])
    if a[0] in (0, 1234):
        v = w.app_global.get(_b(a[1]))
    else:
        v = None
    return [0, 0] if v is None else [v, 1]


def _gdel(w, i, a):
    w.app_global.pop(_b(a[0]), None)
    w.ev("gdel", a[0])


def _lput(w, i, a):
    w.app_local[(a[0], _b(a[1]))] = a[2]
    w.ev("lput", *a)


def _lget(w, i, a):
    return w.app_local.get((a[0], _b(a[1])), 0)


def _lget_ex(w, i, a):
    v = w.app_local.get((a[0], _b(a[2]))) if _u(a[1]) in (0, 1234) else None
    return [0, 0] if v is None else [v, 1]


def _ldel(w, i, a):
    w.app_local.pop((a[0], _b(a[1])), None)
    w.ev("ldel", *a)


def _name(b):
    if not 1 <= len(_b(b)) <= 64:
        raise Panic("box name")
    return b


def _bcreate(w, i, a):
    k, n = _name(a[0]), _u(a[1])
    if n > 32768:
        raise Panic("box size")
    if k in w.boxes:
        if len(w.boxes[k]) != n:
            raise Panic("box size mismatch")
        return 0
    w.boxes[k] = bytes(n)
    w.ev("box_create", k, n)
    return 1


def _box(w, k):
    if _name(k) not in w.boxes:
        raise Panic("no such box")
    return w.boxes[k]


def _bextract(w, i, a):
    return _bs(_ext(_box(w, a[0]), _u(a[1]), _u(a[2])))


def _breplace(w, i, a):
    w.boxes[a[0]] = _rep(_box(w, a[0]), _u(a[1]), _b(a[2]))
    w.ev("box_replace", *a)


def _bdel(w, i, a):
    v = w.boxes.pop(_name(a[0]), None)
    w.ev("box_del", a[0])
    return int(v is not None)


def _blen(w, i, a):
    v = w.boxes.get(_name(a[0]))
    return [0, 0] if v is None else [len(v), 1]


def _bget(w, i, a):
    v = w.boxes.get(_name(a[0]))
    return [b"", 0] if v is None else [_bs(v), 1]


def _bput(w, i, a):
    k = _name(a[0])
    if k in w.boxes and len(w.boxes[k]) != len(_b(a[1])):
        raise Panic("box size mismatch")
    w.boxes[k] = _b(a[1])
    w.ev("box_put", *a)


def _ibegin(w, i, a):
    if w.inner is not None:
        raise Panic("itxn_begin without itxn_submit")
    w.inner = [[]]


def _inext(w, i, a):
    if w.inner is None:
        raise Panic("itxn_next without itxn_begin")
    w.inner.append([])


def _ifield(w, i, a):
    if w.inner is None:
        raise Panic("itxn_field without itxn_begin")
    t = ITXN_TYPES[i[0]]
    (_b if t == "B" else _u)(a[0])
    w.inner[-1].append((i[0], a[0]))


def _isubmit(w, i, a):
    if w.inner is None:
        raise Panic("itxn_submit without itxn_begin")
    w.last_inner = w.inner
    w.inner = None
    w.n_inner += 1
    w.ev("itxn", tuple(tuple(t) for t in w.last_inner))


def _idx(x):
    return _u(x)


STATE = {
    "log": _log,
    "app_global_put": _gput, "app_global_get": _gget, "app_global_get_ex": _gget_ex,
    "app_global_del": _gdel, "app_local_put": _lput, "app_local_get": _lget,
    "app_local_get_ex": _lget_ex, "app_local_del": _ldel,
    "box_create": _bcreate, "box_extract": _bextract, "box_replace": _breplace,
    "box_del": _bdel, "box_len": _blen, "box_get": _bget, "box_put": _bput,
    "itxn_begin": _ibegin, "itxn_next": _inext, "itxn_field": _ifield,
    "itxn_submit": _isubmit,
    "extract": lambda w, i, a: _b(a[0])[i[0]:] if i[1] == 0 and i[0] <= len(_b(a[0])) else _ext(_b(a[0]), i[0], i[1]),
    "substring": lambda w, i, a: _sub(_b(a[0]), i[0], i[1]),
    "replace2": lambda w, i, a: _rep(_b(a[0]), i[0], _b(a[1])),
    "txn": lambda w, i, a: w.txn_field(w.gi, i[0]),
    "txna": lambda w, i, a: w.txn_field(w.gi, i[0], i[1]),
    "txnas": lambda w, i, a: w.txn_field(w.gi, i[0], _idx(a[0])),
    "gtxn": lambda w, i, a: w.txn_field(i[0], i[1]),
    "gtxna": lambda w, i, a: w.txn_field(i[0], i[1], i[2]),
    "gtxnas": lambda w, i, a: w.txn_field(i[0], i[1], _idx(a[0])),
    "gtxns": lambda w, i, a: w.txn_field(_idx(a[0]), i[0]),
    "gtxnsa": lambda w, i, a: w.txn_field(_idx(a[0]), i[0], i[1]),
    "gtxnsas": lambda w, i, a: w.txn_field(_idx(a[0]), i[0], _idx(a[1])),
    "itxn": lambda w, i, a: w.itxn_field(i[0]),
    "itxna": lambda w, i, a: w._inner_field(len(w.last_inner) - 1, i[0], i[1]),
    "itxnas": lambda w, i, a: w._inner_field(len(w.last_inner) - 1, i[0], _idx(a[0])),
    "gitxn": lambda w, i, a: w._inner_field(i[0], i[1]),
    "gitxna": lambda w, i, a: w._inner_field(i[0], i[1], i[2]),
    "gitxnas": lambda w, i, a: w._inner_field(i[0], i[1], _idx(a[0])),
    "global": lambda w, i, a: w.global_field(i[0]),
    "method": lambda w, i, a: sha512_256(i[0])[:4],
    "load": lambda w, i, a: w.scratch.get(i[0], 0),
    "store": lambda w, i, a: w.scratch.__setitem__(i[0], a[0]),
    "loads": lambda w, i, a: w.scratch.get(_u(a[0]), 0) if _u(a[0]) < 256 else _p("slot"),
    "stores": lambda w, i, a: w.scratch.__setitem__(_u(a[0]), a[1]) if _u(a[0]) < 256 else _p("slot"),
}


def _p(m):
    raise Panic(m)
