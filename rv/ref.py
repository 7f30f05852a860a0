"""Reference interpreter: what a Tealish program means, over the generator's own
model of the program. Written from docs/language.rst and docs/stdlib.rst; shares
no code with the compiler. AVM opcodes called by name act through
world.op_call, exactly as the TEAL interpreter calls them."""
from .lang import is_int, leaves, tsize
from .teal import U64, decode_address, sha512_256
from .world import Panic, op_call, _b, _u

BUILTIN = {
    "NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4,
    "DeleteApplication": 5, "Pay": 1, "Acfg": 3, "Axfer": 4, "Afrz": 5, "Appl": 6,
}


FIELDS = ("txn", "txna", "gtxn", "gtxna", "itxn", "itxna", "global")


class Exit(Exception):
    def __init__(self, v):
        self.v = v


class JumpTo(Exception):
    def __init__(self, b):
        self.b = b


class Return(Exception):
    def __init__(self, vals):
        self.vals = vals


class Break(Exception):
    pass


class Limit(Exception):
    pass


class Result:
    def verdict(self):
        if self.kind in ("accept", "reject"):
            return ("return", self.value)
        return (self.kind,)


class Ref:
    def __init__(self, prog, world, max_steps=15000, switch_reeval=False):
        self.p = prog
        self.w = world
        self.env = {}
        self.steps = 0
        self.max_steps = max_steps
        self.group = 0
        self.switch_reeval = switch_reeval
        self.stack = []  # for push/pop
        self.kinds = set()
        self.std = {}
        self.fields = {}
        self.leak = 0  # counters of top level `for _` loops entered so far
        self.leaks = {}  # probe -> values of leak seen there
        self.fdepth = 0
        self.ldepth = 0
        self.cur = None
        self.visited = set()  # every value of line
        self.line = 0  # or (first, last), within the current statement

    @property
    def line(self):
        return self._line

    @line.setter
    def line(self, v):
        self._line = v
        self.visited.add(v)

    def run(self, locate=False):
        r = Result()
        if locate:
            self.w.locate(lambda: self.line)
        r.value, r.msg = None, ""
        try:
            blk = self.p.main
            while True:
                try:
                    self.body(blk.body)
                    raise AssertionError("block without exit statement")
                except JumpTo as j:
                    blk = j.b
        except Exit as e:
            r.value = e.v
            r.kind = "accept" if e.v else "reject"
        except Panic as e:
            r.kind, r.msg = "panic", str(e)
        except Limit:
            r.kind = "limit"
        r.events = self.w.events
        r.stmt = self.cur
        r.line = self.line
        return r

    # ------------------------------------------------------------ statements
    def body(self, b):
        for s in b:
            self.stmt(s)

    def stmt(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit
        self.cur = s
        self.line = s.line
        self.kinds.add(s.kind)
        getattr(self, "s_" + s.kind)(s)

    def s_decl(self, s):
        if s.expr is not None:
            self.env[s.var] = self.e(s.expr)

    def s_assign(self, s):
        vals = self.multi(s.expr)
        assert len(vals) == len(s.vars), (s, vals)
        for v, x in zip(s.vars, vals):
            if v is not None:
                self.env[v] = x

    def s_setfield(self, s):
        off, t = s.var.type[1].offset(s.field)
        v = self.e(s.expr)
        if is_int(t):
            v = _u(v).to_bytes(8, "big")[8 - tsize(t):]
        if s.var.type[0] == "box":
            op_call(self.w, "box_replace", (), [self.env[s.var], off, v])
        else:
            self.env[s.var] = op_call(self.w, "replace3", (), [self.env[s.var], off, v])[0]

    def s_box(self, s):
        key = self.e(s.key)
        n = s.var.type[1].size
        if s.method == "Open":
            ln, ok = op_call(self.w, "box_len", (), [key])
            if not ok or ln != n:
                raise Panic("assert")
        elif s.method == "Create":
            if not op_call(self.w, "box_create", (), [key, n])[0]:
                raise Panic("assert")
        self.env[s.var] = key

    def s_call(self, s):
        self.multi(s.expr)

    def s_assert(self, s):
        if _u(self.e(s.expr)) == 0:
            raise Panic("assert")

    def s_if(self, s):
        for i, (neg, cond, b) in enumerate(s.branches):
            self.line = s.branch_lines[i] if hasattr(s, "branch_lines") else s.line
            c = _u(self.e(cond)) != 0
            if c != bool(neg):
                return self.body(b)
        if s.else_body is not None:
            self.body(s.else_body)

    def s_while(self, s):
        self.ldepth += 1
        try:
            while (_u(self.e(s.cond)) != 0) != bool(s.neg):
                self.tick()
                self.body(s.body)
                self.line = s.line
        except Break:
            pass
        finally:
            self.ldepth -= 1

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit

    def s_for(self, s):
        self.env[s.var] = self.e(s.start)
        self.ldepth += 1
        try:
            while self.env[s.var] != self.e(s.end):
                self.tick()
                self.body(s.body)
                self.line = s.line
                self.env[s.var] = self.env[s.var] + 1
                if self.env[s.var] >= U64:
                    raise Panic("overflow")
        finally:
            self.ldepth -= 1

    def s_for_(self, s):
        i = self.e(s.start)
        if self.fdepth == 0 and self.ldepth == 0 and not leaves(s.body):
            self.leak += 1
        self.ldepth += 1
        try:
            while i != self.e(s.end):
                self.tick()
                self.body(s.body)
                self.line = s.line
                i += 1
                if i >= U64:
                    raise Panic("overflow")
        finally:
            self.ldepth -= 1

    def s_break(self, s):
        raise Break

    def s_return(self, s):
        raise Return([self.e(x) for x in s.exprs[::-1]][::-1])

    def s_jump(self, s):
        raise JumpTo(s.block)

    def s_switch(self, s):
        self.line = (s.line, getattr(s, "end_line", s.line))
        v = None if self.switch_reeval else self.e(s.subj)
        for x, b in s.options:
            if self.switch_reeval:
                v = self.e(s.subj)
            if op_call(self.w, "==", (), [v, self.e(x)])[0]:
                raise JumpTo(b)
        if s.else_block is not None:
            raise JumpTo(s.else_block)
        raise Panic("switch")

    def s_exit(self, s):
        raise Exit(_u(self.e(s.expr)))

    def s_itxn(self, s):
        w = self.w
        if self.group == 0:
            op_call(w, "itxn_begin", (), [])
        elif self.group == 1:
            op_call(w, "itxn_begin", (), [])
            self.group = 2
        else:
            op_call(w, "itxn_next", (), [])
        for k, (f, _, x) in enumerate(s.fields):
            if hasattr(s, "field_lines"):
                self.line = s.field_lines[k]
            v = self.e(x)
            op_call(w, "itxn_field", (f,), [v])
        self.line = s.line
        if self.group == 0:
            op_call(w, "itxn_submit", (), [])

    def s_igroup(self, s):
        if self.group != 0:
            raise Panic("group in a group")
        self.group = 1
        self.body(s.body)
        self.line = s.line
        op_call(self.w, "itxn_submit", (), [])
        self.group = 0

    def s_teal(self, s):
        self.line = (s.line, getattr(s, "end_line", s.line))
        if s.fn:
            s.fn(self)

    def s_probe(self, s):
        self.line = (s.line, s.line + 3)
        self.w.ev("probe", s.n)
        if self.leak and self.fdepth == 0:
            self.leaks.setdefault(s.n, set()).add(self.leak)

    def s_comment(self, s):
        pass

    s_blank = s_const = s_comment

    def s_error(self, s):
        raise Panic("err")

    def s_router(self, s):
        w = self.w
        self.line = at = (s.line, getattr(s, "end_line", s.line))
        sel = w.txn_field(w.gi, "ApplicationArgs", 0)
        for f in s.funcs:
            if f.name.encode() == sel:
                break
        else:
            raise Panic("no route")
        oc = f.public.get("oc") or "NoOp"
        if oc == "CreateApplication":
            if w.txn_field(w.gi, "ApplicationID") != 0:
                raise Panic("assert")
        elif w.txn_field(w.gi, "OnCompletion") != BUILTIN[oc]:
            raise Panic("assert")
        args = []
        for i, a in enumerate(f.args):
            v = w.txn_field(w.gi, "ApplicationArgs", i + 1)
            if is_int(a.type):
                v = op_call(w, "btoi", (), [v])[0]
                if v >= 256 ** tsize(a.type):
                    raise Panic("assert")
            elif tsize(a.type) and len(v) != tsize(a.type):
                raise Panic("assert")
            args.append(v)
        vals = self.invoke(f, args)
        self.line = at
        if f.returns:
            out = b""
            for v in vals:
                out += v if isinstance(v, bytes) else v.to_bytes(8, "big")
            w.ev("log", bytes.fromhex("151f7c75") + out)
        raise Exit(1)

    # ------------------------------------------------------------ expressions
    def multi(self, e):
        """Values of a call, in the order in which names are assigned"""
        k = e[0]
        if k == "op":
            args = [self.e(a) for a in e[3]]
            return op_call(self.w, e[1], tuple(self.immv(i) for i in e[2]), args)[::-1]
        if k == "call":
            return self.invoke(e[1], [self.e(a) for a in e[2]])
        if k == "push":
            for a in e[1]:
                self.stack.append(self.e(a))
            return []
        return [self.e(e)]

    def immv(self, i):
        if hasattr(i, "value"):
            return i.value
        return i

    def invoke(self, f, args):
        self.tick()
        for a, v in zip(f.args, args):
            self.env[a] = v
        self.fdepth += 1
        at = self.cur, self.line
        try:
            self.visited.add((f.line, f.line))
            self.body(f.body)
        except Return as r:
            self.cur, self.line = at
            return r.vals
        finally:
            self.fdepth -= 1
        raise AssertionError("func without return")

    def e(self, e):
        k = e[0]
        if k in ("int", "bytes", "hex"):
            return e[1]
        if k in FIELDS:
            self.fields[k] = self.fields.get(k, 0) + 1
        if k == "var":
            return self.env[e[1]]
        if k == "const":
            return e[1].value
        if k == "bin":
            a = self.e(e[2])
            b = self.e(e[3])
            return op_call(self.w, e[1], (), [a, b])[0]
        if k == "un":
            return op_call(self.w, e[1], (), [self.e(e[2])])[0]
        if k == "grp":
            return self.e(e[1])
        if k in ("op", "call"):
            r = self.multi(e)
            assert len(r) == 1, e
            return r[0]
        if k == "enum":
            return BUILTIN[e[1]]
        if k == "field":
            v = self.env[e[1]]
            off, t = e[1].type[1].offset(e[2])
            if e[1].type[0] == "box":
                x = op_call(self.w, "box_extract", (), [v, off, tsize(t)])[0]
            else:
                x = op_call(self.w, "extract3", (), [v, off, tsize(t)])[0]
            return int.from_bytes(x, "big") if is_int(t) else x
        if k == "txn":
            return self.w.txn_field(self.w.gi, e[1])
        if k == "txna":
            return self.w.txn_field(self.w.gi, e[1], _u(self.e(e[2])))
        if k == "gtxn":
            return self.w.txn_field(self.gi(e[1]), e[2])
        if k == "gtxna":
            g = self.gi(e[1])
            i = _u(self.e(e[3]))
            return self.w.txn_field(g, e[2], i)
        if k == "itxn":
            return self.w.itxn_field(e[1])
        if k == "itxna":
            return self.w._inner_field(len(self.w.last_inner) - 1, e[1], _u(self.e(e[2])))
        if k == "global":
            return self.w.global_field(e[1])
        if k == "pop":
            return self.stack.pop()
        if k == "std":
            self.std[e[1]] = self.std.get(e[1], 0) + 1
            return getattr(self, "x_" + e[1])(*e[2])
        raise AssertionError(e)

    def gi(self, i):
        if i[0] == "rel":
            g = self.w.gi + i[1]
            if g < 0:
                raise Panic("underflow")
            return g
        return _u(self.e(i))

    # ------------------------------------------------------------ stdlib
    def x_Cast(self, x, t):
        v, t = self.e(x), t[1]
        return self.fit(v, t)

    def fit(self, v, t):
        n = tsize(t)
        if is_int(t):
            if _u(v) >= 256**n:
                raise Panic("assert")
        elif n and len(_b(v)) != n:
            raise Panic("assert")
        return v

    def x_UncheckedCast(self, x, t):
        return self.e(x)

    def x_EnsureType(self, x, t):
        return self.fit(self.e(x), t[1])

    def x_Convert(self, x, t):
        v, t = self.e(x), t[1]
        n = tsize(t)
        if is_int(t):
            v = op_call(self.w, "btoi", (), [v])[0]
            return self.fit(v, t)
        return self.int_bytes(v, n)

    def int_bytes(self, v, n):
        if n and v >= 256**n:
            raise Panic("assert")
        return v.to_bytes(n or 8, "big")

    def x_ToBytes(self, x, n):
        v = self.e(x)
        if isinstance(v, bytes):  # a bigint
            v = int.from_bytes(v, "big")
        return (v % 256 ** n).to_bytes(n, "big")

    def x_FromBytes(self, x, t):
        v, t = self.e(x), t[1]
        if is_int(t):
            return op_call(self.w, "btoi", (), [v])[0]
        if tsize(t) and len(v) != tsize(t):
            raise Panic("assert")
        return v

    def x_SizeOf(self, t):
        return tsize(t[1])

    def x_Rpad(self, x, n):
        v = _b(self.e(x))
        if len(v) > n:
            raise Panic("pad")
        return v + bytes(n - len(v))

    def x_Lpad(self, x, n):
        v = _b(self.e(x))
        if len(v) > n:
            raise Panic("pad")
        return bytes(n - len(v)) + v

    def x_Concat(self, *xs):
        out = None
        vals = [_b(self.e(x)) for x in xs]
        # evaluated right to left after all operands; only totals can fail
        out = vals[-1]
        for v in vals[:-1][::-1]:
            out = op_call(self.w, "concat", (), [v, out])[0]
        return out

    def x_Address(self, a):
        return decode_address(a.strip('"'))

    def x_ARC28Event(self, sig, *xs):
        vals = [_b(self.e(x)) for x in xs]
        return sha512_256(sig[1])[:4] + b"".join(vals)
