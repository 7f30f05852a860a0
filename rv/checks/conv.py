"""Checked conversions at run time"""
from .. import avm, ctx, lang, ref
from ..common import Violation, digest
from ..lang import BIGINT, BYTES, INT, S, UINT8, U64T, bytesn, is_int, tsize
from .sem import Diff, assemble, compile_src

INTS = [0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 65535, 65536, 2**24 - 1, 2**24, 2**31, 2**32 - 1, 2**32, 2**40, 2**48 - 1, 2**56 - 1, 2**56, 2**63, 2**64 - 2, 2**64 - 1]


class Conversions(Diff):
    prop = "C09"
    rule = ("casts, conversions, paddings and box openings of values only known at run time, in declarations, assignments, arguments, returns and struct "
            "fields, run on values below, at and above every boundary of the type; a case counts if some runs passed and some were refused, or all passed and values were logged")
    quick = 9000
    thorough = 60000
    need = {"run_accept": 2000, "run_panic": 2000, "events": 2000}

    def case(self, rng, index, c):
        self.hint = {}
        p = lang.Program()
        p.version = 8
        main = p.main
        n_structs = rng.choice([1, 2])
        for k in range(n_structs):
            st = lang.Struct(["Item", "Pair_2"][k])
            for i in range(rng.randrange(1, 4)):
                o = [INT, UINT8, U64T, bytesn(rng.choice([1, 2, 5, 8, 9, 32]))]
                if p.structs:
                    o.append(("struct", p.structs[0]))
                st.add("abcd"[i], rng.choice(o))
            p.structs.append(st)
        self.rng, self.p, self.n, self.n_fn = rng, p, 0, 0
        self.boxes = {}
        self.static_bad = False
        body = main.body
        for k in range(rng.choice([1, 1, 2, 3])):
            self.template(body, k)
        body.append(S("exit", expr=("int", 1)))
        main.after = main.funcs
        src = lang.source(p)
        try:
            out, _ = compile_src(src, c)
        except Violation:
            # a conversion that can never succeed might be refused by the compiler
            if self.static_bad:
                c.hit("static_refused")
                return
            raise
        prog = assemble(out, src)
        kinds = set()
        trace = []
        for _ in range(14):
            w = ctx.world(rng, p)
            args = []
            for i in range(8):
                h = self.hint.get(i)
                args.append(self.value(h))
            w.group[w.gi]["ApplicationArgs"] = args
            for key, n in self.boxes.items():
                m = rng.choice([n, n, n, n, n - 1, n + 1, None, 0])
                if m is None or m < 0:
                    w.boxes.pop(key, None)
                else:
                    w.boxes[key] = bytes(rng.randrange(256) for _ in range(m))
            w2 = w.clone()
            rf = ref.Ref(p, w)
            r = rf.run()
            o = avm.run(prog, w2)
            self.compare(p, src, out, r, o, None)
            if w.boxes != w2.boxes:
                raise Violation("box contents differ from what the source means", source=src, teal="\n".join(out), args=args)
            c.hit("runs")
            c.hit("run_" + r.kind)
            c.hit("events", len(r.events))
            for kd, k in rf.std.items():
                c.hit("std_" + kd, k)
            kinds.add(r.kind)
            trace.append(digest(r.events, r.verdict()))
        if len(kinds) > 1 or (kinds == {"accept"} and r.events):
            c.sig = digest(src, trace)
            if c.sample is None:
                c.sample = {"source": src, "outcomes": sorted(kinds)}

    # ---- values
    def value(self, h):
        r = self.rng
        if h is None:
            return b"x"
        kind, n = h
        if kind == "int":
            # n: the number of bytes the value has to fit
            v = r.choice(INTS) if r.random() < 0.5 else r.randrange(256 ** r.randrange(1, 9))
            if r.random() < 0.4 and n < 8:
                v = r.choice([256**n - 1, 256**n, 256**n + 1, 256**n - 2, 0])
            full = v.to_bytes(8, "big")
            x = r.random()
            if x < 0.6:
                return full
            if x < 0.95:
                return full.lstrip(b"\0")
            return b"\0" + full
        m = r.choice([n, n, n, n, n, n - 1, n + 1, 0, 1, 2 * n, n + 8])
        return bytes(r.randrange(256) for _ in range(max(0, m)))

    def arg(self, kind, n):
        i = self.n % 8
        self.n += 1
        self.hint[i] = (kind, n)
        e = ("txna", "ApplicationArgs", ("int", i))
        return e

    def int_in(self, n):
        """A run time int which should fit n bytes"""
        r = self.rng
        e = ("op", "btoi", (), [self.arg("int", n)])
        k = r.random()
        if k > 0.8:
            return self.known_int(n)
        if k > 0.7:
            # small on both sides, not in sum
            a, b = (("std", "Cast", [("op", "btoi", (), [self.arg("int", 1)]), ("type", UINT8)]) if r.random() < 0.8 else ("int", r.choice([1, 2, 255])) for _ in range(2))
            return ("bin", r.choice("+**-|"), a, b)
        if k < 0.1:
            e = ("bin", "+", e, ("int", r.choice([0, 1, 255])))
        elif k < 0.2:
            e = ("bin", r.choice("&|^"), e, ("int", r.choice([255, 256, 1])))
        elif k < 0.25:
            e = ("op", "shr", (), [e, ("int", 8)])
        elif k < 0.3:
            e = ("bin", "-", e, ("int", 1))
        return e

    def known_int(self, n):
        """A value with a type of a known size, or a literal"""
        r = self.rng
        k = r.random()
        if k < 0.6:
            v = r.choice(INTS) if r.random() < 0.6 else r.choice([256**n - 1, min(2**64 - 1, 256**n), min(2**64 - 1, 256**n + 1), 255, 256])
            self.static_bad |= v >= 256**n
            return ("int", v)
        if k < 0.75:
            st = r.choice(self.p.structs)
            self.static_bad |= st.size >= 256**n
            return ("std", "SizeOf", [("type", ("struct", st))])
        t = r.choice([UINT8, INT, U64T])
        e = ("std", r.choice(["Cast", "EnsureType"]), [("op", "btoi", (), [self.arg("int", r.choice([n, tsize(t)]))]), ("type", t)])
        return self.through(e, t)

    def through(self, e, t):
        """The value, maybe as what a function returns"""
        if self.rng.random() < 0.6:
            return e
        self.n_fn += 1
        f = lang.Func(f"g{self.n_fn}", 50 + self.n_fn)
        f.returns = [t]
        f.body = [S("return", exprs=[e])]
        self.p.main.funcs.append(f)
        return ("call", f, [])

    def known_bytes(self, n):
        r = self.rng
        m = r.choice([n, n, n, n + 1, max(1, n - 1), n + 8, 2 * n, 1, 8, 32])
        k = r.random()
        if m != n:
            self.static_bad = True
        if k < 0.4:
            v = bytes(r.choice(b"az09 ~") for _ in range(m))
            return ("bytes", v, v.decode())
        if k < 0.5:
            return ("op", "itob", (), [self.int_in(8)])
        if k < 0.6:
            return ("op", "bzero", (), [("int", m)])
        if k < 0.7:
            return self.through(("std", r.choice(["Rpad", "Lpad"]), [self.arg("bytes", m), m]), bytesn(m))
        if k < 0.8:
            st = r.choice(self.p.structs)
            return self.through(("std", "Cast", [self.arg("bytes", st.size), ("type", ("struct", st))]), ("struct", st))
        return self.through(("std", r.choice(["Cast", "EnsureType"]), [self.arg("bytes", m), ("type", bytesn(m))]), bytesn(m))

    def bytes_in(self, n):
        """A run time byte string which should have n bytes"""
        r = self.rng
        k = r.random()
        if k < 0.25:
            return self.known_bytes(n)
        if k < 0.75 or n < 2:
            return self.arg("bytes", n)
        m = r.randrange(1, n)
        if k < 0.9:
            return ("op", "concat", (), [self.arg("bytes", m), ("bytes", b"z" * (n - m), "z" * (n - m))])
        return ("std", "Concat", [self.arg("bytes", m), self.arg("bytes", n - m)])

    def small(self):
        return self.rng.choice([1, 1, 2, 3, 4, 7, 8, 9, 16, 31, 32, 33, 64, 100, 128, 255, 256, 300])

    def int_type(self):
        return self.rng.choice([UINT8, UINT8, INT, U64T])

    def bytes_type(self):
        if self.rng.random() < 0.35:
            return ("struct", self.rng.choice(self.p.structs))
        return bytesn(self.small())

    def any_type(self):
        return self.int_type() if self.rng.random() < 0.5 else self.bytes_type()

    def checked(self, t):
        """An expression of exactly this type with a run time check"""
        r = self.rng
        if is_int(t):
            n = tsize(t)
            k = r.choice(["Cast", "EnsureType", "Convert", "Convert"])
            if k == "Convert":
                x = self.arg("int", n)
                if r.random() < 0.3:
                    m = r.choice([1, 2, 8, 9])
                    x = ("std", "Cast", [self.arg("bytes", m), ("type", bytesn(m))])
                return ("std", k, [x, ("type", t)])
            return ("std", k, [self.int_in(n), ("type", t)])
        n = tsize(t)
        o = ["Cast", "Cast", "EnsureType"]
        if t[0] == "bytes":
            o += ["Convert", "Convert", "Rpad", "Lpad", "ToBytes"]
        k = r.choice(o)
        if k == "Convert":
            return ("std", k, [self.int_in(min(n, 8)), ("type", t)])
        if k == "ToBytes":
            if r.random() < 0.4:
                m = r.choice([n, n, n, 1, 8, 2 * n])
                x = ("std", r.choice(["FromBytes", "UncheckedCast"]), [("std", "Concat", [self.arg("bytes", m)]), ("type", BIGINT)])
                return ("std", k, [x, n])
            return ("std", k, [self.int_in(min(n, 8)), n])
        if k in ("Rpad", "Lpad"):
            x = self.bytes_in(n)
            return ("std", k, [x, n])
        return ("std", k, [self.bytes_in(n), ("type", t)])

    def log(self, body, e, t):
        if is_int(t):
            e = ("op", "itob", (), [e])
        body.append(S("call", expr=("op", "log", (), [e])))

    def fresh(self, t):
        self.p.n_probes += 1
        return lang.Var(f"v{self.p.n_probes}", t)

    def template(self, body, k):
        r = self.rng
        t = self.any_type()
        kind = r.choice(["decl", "decl", "assign", "arg", "ret", "field", "boxfield", "log", "nested", "open", "create", "frombytes", "unsized", "mret"])
        if kind == "decl":
            v = self.fresh(t)
            body.append(S("decl", var=v, expr=self.checked(t)))
            self.log(body, ("var", v), t)
            if is_int(t) and r.random() < 0.5:
                u = self.fresh(INT)
                body.append(S("decl", var=u, expr=("bin", "+", ("var", v), ("int", 1))))
                self.log(body, ("var", u), INT)
        elif kind == "assign":
            v = self.fresh(t)
            body.append(S("decl", var=v, expr=None))
            inner = [S("assign", vars=[v], expr=self.checked(t))]
            self.log(inner, ("var", v), t)
            if r.random() < 0.5:
                body += inner
            elif r.random() < 0.5:
                body.append(S("if", branches=[(False, ("bin", ">", self.int_in(8), ("int", 300)), inner)], else_body=None))
            else:
                body.append(S("for", var=self.fresh(INT), start=("int", 0), end=("int", 2), body=inner))
        elif kind in ("arg", "ret", "mret"):
            f = lang.Func(f"f{k}", k)
            if kind == "arg":
                a = self.fresh(t)
                b = self.fresh(INT)
                f.args, f.returns = [a, b], []
                self.log(f.body, ("var", a), t)
                self.log(f.body, ("var", b), INT)
                f.body.append(S("return", exprs=[]))
                body.append(S("call", expr=("call", f, [self.checked(t), ("int", 77)])))
            elif kind == "ret":
                a = self.fresh(INT)
                f.args, f.returns = [a], [t]
                f.body.append(S("return", exprs=[self.checked(t)]))
                self.log(body, ("call", f, [("int", 9)]), t)
            else:
                t2 = self.any_type()
                f.args, f.returns = [], [t, t2]
                f.body.append(S("return", exprs=[self.checked(t), self.checked(t2)]))
                v1, v2 = self.fresh(t), self.fresh(t2)
                body.append(S("decl", var=v1, expr=None))
                body.append(S("decl", var=v2, expr=None))
                body.append(S("assign", vars=[v1, v2], expr=("call", f, [])))
                self.log(body, ("var", v1), t)
                self.log(body, ("var", v2), t2)
            self.p.main.funcs.append(f)
        elif kind == "field":
            st = r.choice(self.p.structs)
            v = self.fresh(("struct", st))
            body.append(S("decl", var=v, expr=("op", "bzero", (), [("std", "SizeOf", [("type", ("struct", st))])])))
            f, ft = r.choice(st.fields)
            body.append(S("setfield", var=v, field=f, expr=self.checked(ft)))
            self.log(body, ("var", v), v.type)
            self.log(body, ("field", v, f), ft)
        elif kind == "boxfield":
            st = r.choice(self.p.structs)
            v = self.fresh(("box", st))
            key = f"k{k}".encode()
            body.append(S("box", var=v, method="Create", key=("bytes", key, key.decode())))
            f, ft = r.choice(st.fields)
            body.append(S("setfield", var=v, field=f, expr=self.checked(ft)))
            self.log(body, ("field", v, f), ft)
        elif kind == "log":
            self.log(body, self.checked(t), t)
        elif kind == "nested":
            if is_int(t):
                m = r.choice([1, 2, 8])
                e = ("std", "Convert", [self.checked(bytesn(m)), ("type", t)])
            else:
                x = self.checked(r.choice([UINT8, INT]))
                e = ("std", "Convert", [x, ("type", bytesn(tsize(t)))])
                t = bytesn(tsize(t))
            if r.random() < 0.5:
                e = ("std", "Cast", [e, ("type", t)])
            self.log(body, e, t)
        elif kind in ("open", "create"):
            st = r.choice(self.p.structs)
            v = self.fresh(("box", st))
            key = f"q{k}".encode()
            self.boxes[key] = st.size
            body.append(S("box", var=v, method="Open" if kind == "open" else "Create", key=("bytes", key, key.decode())))
            for f, ft in st.fields:
                self.log(body, ("field", v, f), ft)
        elif kind == "frombytes":
            t = self.any_type()
            x = self.arg("int", 8) if is_int(t) else self.bytes_in(tsize(t))
            self.log(body, ("std", "FromBytes", [x, ("type", t)]), t)
        elif kind == "unsized":
            e = r.choice([
                ("std", "Convert", [self.int_in(8), ("type", BYTES)]),
                ("std", "Cast", [self.arg("bytes", 5), ("type", BYTES)]),
                ("std", "EnsureType", [self.arg("bytes", 5), ("type", BYTES)]),
                ("std", "UncheckedCast", [self.arg("bytes", 5), ("type", bytesn(6))]),
            ])
            self.log(body, e, BYTES)


CHECKS = [Conversions]
