"""Opcodes called like functions"""
import re

from .. import avm, ctx, lang, ref, teal
from ..common import Violation, digest, quiet, watchdog
from ..lang import BYTES, INT, S
from ..teal import IMM, SPEC
from ..world import ARRAYS, PURE, STATE
from .sem import Diff, assemble, compile_src

SKIP = {
    # control flow, constants, stack and scratch manipulation, directives and statements of their own
    "b", "bz", "bnz", "callsub", "retsub", "return", "err", "assert", "switch", "match", "proto", "frame_dig", "frame_bury",
    "pushint", "pushbytes", "pushints", "pushbytess", "intc", "intc_0", "intc_1", "intc_2", "intc_3", "intcblock",
    "bytec", "bytec_0", "bytec_1", "bytec_2", "bytec_3", "bytecblock", "pop", "popn", "dup", "dup2", "dupn", "dig", "bury", "cover", "uncover", "swap",
    "load", "store", "loads", "stores", "itxn_begin", "itxn_next", "itxn_submit", "itxn_field", "method", "block",
}
OPS = sorted(o for o in SPEC if re.fullmatch(r"[a-z][a-z0-9_]*", o) and o not in SKIP) + ["block"]
FIELD_POS = {op: [i for i, k in enumerate(IMM[op]) if k == "f"] for op in OPS}


class OpCalls(Diff):
    prop = "C14"
    rule = ("every opcode of the language specification that can be called, with typed operands (literals, variables, nested calls) and every immediate field, in "
            "statements and expressions; the recorded operands, immediates and results must be those written; calls with a wrong operand type or count must be refused")
    quick = 14000
    thorough = 80000
    need = {"ops_observed": 1500, "refused": 400, "accepted": 2500}

    def case(self, rng, index, c):
        op = OPS[index % len(OPS)]
        if rng.random() < 0.2:
            return self.refused(rng, c, op)
        p = lang.Program()
        p.version = 8
        self.rng, self.p, self.k = rng, p, 0
        body = p.main.body
        self.ints, self.bs = [], []
        for i in range(rng.randrange(1, 4)):
            v = lang.Var(f"i{i}", INT)
            body.append(S("decl", var=v, expr=("int", rng.choice([0, 1, 2, 3, 5, 200, 100000]))))
            self.ints.append(v)
            v = lang.Var(f"b{i}", BYTES)
            t = "".join(rng.choice("abcdxyz") for _ in range(rng.randrange(8, 33)))
            body.append(S("decl", var=v, expr=("bytes", t.encode(), t)))
            self.bs.append(v)
        if op in ("itxn", "itxna", "itxnas", "gitxn", "gitxna", "gitxnas"):
            for _ in range(1):
                body.append(S("itxn", fields=[("TypeEnum", None, ("int", 6)), ("ApplicationID", None, ("int", 7)), ("ApplicationArgs", None, ("bytes", b"q0", "q0")),
                                              ("ApplicationArgs", None, ("bytes", b"q1", "q1")), ("Accounts", None, ("txn", "Sender")), ("Fee", None, ("int", 0))]))
        consts = []
        for _ in range(rng.randrange(1, 3)):
            e, rets = self.call(op)
            self.use(body, e, rets)
        for i in self.ints:
            body.append(S("call", expr=("op", "app_global_put", (), [("bytes", b"z", "z"), ("var", i)])))
        body.append(S("exit", expr=("int", 1)))
        if rng.random() < 0.2:
            # the same in a function
            f = lang.Func("run", 0)
            f.args, f.returns, f.pre = [], [], []
            f.body = body[:-1] + [S("return", exprs=[])]
            p.main.body = [S("call", expr=("call", f, [])), S("exit", expr=("int", 1))]
            p.main.funcs = p.main.after = [f]
        src = lang.source(p)
        out, _ = compile_src(src, c, op=op)
        prog = assemble(out, src)
        c.hit("accepted")
        for _ in range(2):
            w = ctx.world(rng, p)
            w2 = w.clone()
            r = ref.Ref(p, w).run()
            o = avm.run(prog, w2)
            c.hit("run_" + r.kind)
            self.compare(p, src, out, r, o, None)
            if r.kind == "accept":
                c.hit("ops_observed")
                c.hit("op_" + op)
                c.sigs.add(digest(op))
        if r.kind == "accept":
            c.sig = digest(src)
            if c.sample is None:
                c.sample = {"op": op, "source": src[-300:], "events": [repr(e)[:100] for e in r.events[:4]]}

    # ---- operands
    def small(self, hi=6):
        r = self.rng
        x = r.random()
        if x < 0.4:
            return ("int", r.randrange(0, hi))
        if x < 0.6:
            return ("bin", "+", ("int", r.randrange(0, 3)), ("int", r.randrange(0, 3)))
        if x < 0.8:
            vs = [v for v in self.ints]
            return ("var", r.choice(vs))
        return ("op", "len", (), [("bytes", b"abc"[: r.randrange(1, 4)], "abc"[: r.randrange(1, 4)])]) if False else ("op", "bitlen", (), [("int", r.randrange(0, 16))])

    def any_int(self):
        r = self.rng
        x = r.random()
        if x < 0.3:
            return ("int", r.choice([0, 1, 7, 255, 256, 2**32, 2**64 - 1, r.randrange(10**6)]))
        if x < 0.6:
            return ("var", r.choice(self.ints))
        if x < 0.8:
            return ("bin", r.choice("+|^&"), ("var", r.choice(self.ints)), ("int", r.randrange(1000)))
        return ("op", "len", (), [("var", r.choice(self.bs))])

    def any_bytes(self, n=None):
        r = self.rng
        if n is None:
            n = r.choice([0, 1, 3, 8, 9, 16, 32])
        x = r.random()
        t = "".join(r.choice("abcdefgh #,)(=:") for _ in range(n))
        if x < 0.4:
            return ("bytes", t.encode(), t)
        if x < 0.6:
            return ("var", r.choice(self.bs))
        if x < 0.8:
            return ("op", "concat", (), [("bytes", t.encode(), t), ("var", r.choice(self.bs))])
        return ("op", "itob", (), [self.any_int()])

    def call(self, op):
        """A call expression and the list of its results' kinds"""
        r = self.rng
        spec = SPEC[op]
        field = None
        imms = []
        for i, k in enumerate(IMM[op]):
            if k == "f":
                fs = list(spec["enum"])
                arr = op in ("txna", "txnas", "gtxna", "gtxnas", "gtxnsa", "gtxnsas", "itxna", "itxnas", "gitxna", "gitxnas")
                if "enumtypes" in spec and op not in ("acct_params_get", "app_params_get", "asset_params_get", "asset_holding_get", "block", "global", "json_ref"):
                    fs = [f for f in fs if (f in ARRAYS) == arr]
                    if op in ("itxna", "itxnas", "gitxna", "gitxnas"):
                        fs = ["ApplicationArgs", "Accounts"]
                field = r.choice(fs)
                imms.append(field)
            elif op in ("gtxn", "gtxna", "gtxnas") and i == 0:
                imms.append(r.randrange(4))
            elif op in ("gitxn", "gitxna", "gitxnas") and i == 0:
                imms.append(0)
            elif op in ("gtxna", "gtxnsa", "txna", "itxna", "gitxna"):
                imms.append(r.randrange(2))
            elif op == "substring" and i == 1:
                imms.append(imms[0] + r.randrange(0, 5))
            elif op == "extract":
                imms.append(r.randrange(0, 4))
            else:
                imms.append(r.randrange(0, 4) if r.random() < 0.7 else r.randrange(256))
        if op == "substring" and imms[0] > 3:
            imms = [1, 4]
        if op == "replace2":
            imms = [r.randrange(0, 3)]
        # named constants as immediates
        for i, v in enumerate(imms):
            if isinstance(v, int) and r.random() < 0.15:
                self.k += 1
                cst = lang.Const(f"IMM_{self.k}", INT, v, str(v))
                self.p.consts.append(cst)
                imms[i] = cst
        args = []
        for i, t in enumerate(spec["args"]):
            args.append(self.operand(op, i, t))
        rets = []
        for t in spec["returns"]:
            if t == "." and field is not None and "enumtypes" in spec:
                t = dict(zip(spec["enum"], spec["enumtypes"]))[field]
            rets.append(t)
        return ("op", op, tuple(imms), args), rets

    def operand(self, op, i, t):
        r = self.rng
        if op in ("gtxns", "gtxnsa", "gtxnsas") and i == 0:
            return ("int", r.randrange(4)) if r.random() < 0.5 else ("bin", "+", ("int", 1), ("int", r.randrange(3)))
        if op in ("txnas", "gtxnas", "itxnas", "gitxnas", "gtxnsas"):
            return ("int", r.randrange(2)) if r.random() < 0.6 else ("bin", "-", ("int", 2), ("int", r.randrange(1, 3)))
        if op in ("divmodw", "divw"):
            return [("int", 0), ("int", r.randrange(10**6)), ("int", 0) if op == "divmodw" else ("int", r.randrange(1, 90)), ("int", r.randrange(1, 999))][i]
        if op in ("exp", "expw"):
            return ("int", r.randrange(1, 5))
        if op in ("shl", "shr") and i == 1:
            return ("int", r.randrange(64))
        if op == "setbyte" and i == 2:
            return ("int", r.randrange(256)) if r.random() < 0.7 else self.any_int()
        if op == "setbit" and i == 2:
            return ("int", r.randrange(2))
        if op in ("getbit", "setbit") and i == 0:
            return self.any_bytes(9) if r.random() < 0.6 else self.any_int()
        if op in ("getbit", "setbit") and i == 1:
            return ("int", r.randrange(30))
        if op in ("extract_uint16", "extract_uint32", "extract_uint64", "extract3", "substring3", "getbyte", "setbyte", "replace3", "replace2", "extract", "substring"):
            if t == "B" and i == 0:
                return ("var", r.choice(self.bs)) if op == "extract_uint64" or r.random() < 0.5 else self.any_bytes(16)
            if t == "B":
                return self.any_bytes(r.randrange(0, 3))
            if op == "substring3":
                return ("int", r.randrange(0, 4) if i == 1 else r.randrange(4, 9))
            return ("int", r.randrange(0, 5)) if op != "extract_uint64" else ("int", 0)
        if op == "bzero":
            return self.small(40) if r.random() < 0.5 else ("int", r.randrange(64))
        if op == "btoi":
            return self.any_bytes(r.randrange(0, 9)) if r.random() < 0.5 else ("bytes", b"ab", "ab")
        if op == "select" and i == 2:
            return ("int", r.randrange(2))
        if op.startswith("box_"):
            if i == 0:
                k = r.choice([b"raw0", b"raw0", b"nope", b"newbox"])
                return ("bytes", k, k.decode())
            if op == "box_create":
                return ("int", r.randrange(1, 60))
            if t == "U":
                return ("int", r.randrange(0, 4))
            return self.any_bytes(12 if op == "box_put" else 2)
        if op.startswith("app_local") and i == 0:
            return ("txn", "Sender") if r.random() < 0.6 else ("int", r.randrange(3))
        if op.startswith("app_") and t == "B":
            k = r.choice([b"i0", b"b0", b"i1", b"nokey"])
            return ("bytes", k, k.decode())
        if op == "app_global_get_ex" or op == "app_local_get_ex":
            return ("int", r.choice([0, 0, 1234, 5]))
        if t == "U":
            return self.any_int()
        if t == "B":
            return self.any_bytes()
        return self.any_int() if r.random() < 0.5 else self.any_bytes()

    def use(self, body, e, rets):
        r = self.rng

        def put(x):
            body.append(S("call", expr=("op", "app_global_put", (), [("bytes", b"k", "k"), x])))

        if not rets:
            body.append(S("call", expr=e))
        elif len(rets) == 1:
            if rets[0] == ".":
                put(e)
                return
            t = INT if rets[0] == "U" else BYTES
            x = r.random()
            if x < 0.4:
                put(e)
            elif x < 0.7:
                self.k += 1
                v = lang.Var(f"res{self.k}", t)
                body.append(S("decl", var=v, expr=e))
                put(("var", v))
            elif t == INT:
                put(("bin", "|", e, ("int", 1)) if r.random() < 0.5 else ("bin", "^", ("int", 6), e))
            else:
                put(("op", "sha256", (), [e]) if r.random() < 0.5 else ("op", "concat", (), [("bytes", b"<", "<"), e]))
        else:
            vs = []
            for t in rets[::-1]:  # the first name takes the top of the stack
                self.k += 1
                if t == "." or r.random() < 0.15:
                    vs.append(None)
                    continue
                v = lang.Var(f"res{self.k}", INT if t == "U" else BYTES)
                body.append(S("decl", var=v, expr=None))
                vs.append(v)
            body.append(S("assign", vars=vs, expr=e))
            for v in vs:
                if v is not None:
                    put(("var", v))

    def refused(self, rng, c, op):
        """The same call with a wrong operand"""
        import tealish

        p = lang.Program()
        p.version = 8
        self.rng, self.p, self.k = rng, p, 0
        self.ints, self.bs = [lang.Var("i0", INT)], [lang.Var("b0", BYTES)]
        if rng.random() < 0.06:
            return self.uncallable(rng, c)
        e, rets = self.call(op)
        args = list(e[3])
        wrong = imms = None
        typed = [i for i, t in enumerate(SPEC[op]["args"]) if t in "UB"]
        x = rng.random()
        if IMM[op] and rng.random() < 0.5:
            imms = [k.name if isinstance(k, lang.Const) else str(k) for k in e[2]]
            i = rng.randrange(len(imms))
            y = rng.random()
            if y < 0.25:
                imms.pop(i)
                wrong = "an immediate missing"
                if rng.random() < 0.3:
                    args, imms = [], []
                    wrong = "nothing in the parentheses"
            elif y < 0.4:
                imms.insert(i, rng.choice(["1", imms[i]]))
                wrong = "an immediate too many"
            elif y < 0.5 and FIELD_POS[op] and args:
                args[rng.randrange(len(args))] = ("raw", imms[FIELD_POS[op][0]])
                wrong = "a field name as an operand"
            else:
                bad = ['"a"', "i0", "b0", "1 + 1", "(1)", "itob(1)", "Nope", "NOPE", "0x01", "-1", "Txn.Fee", "18446744073709551616", ""]
                if i in FIELD_POS[op]:
                    other = [f for o in OPS if FIELD_POS[o] for f in SPEC[o]["enum"] if f not in SPEC[op]["enum"]]
                    if op in teal.SCALAR_OPS:
                        other = other + list(ARRAYS) * 3
                    bad += [rng.choice(other)] * 6 + ["0", "1", imms[i].lower(), imms[i] + "X"]
                else:
                    bad += ["256", "257", "1000", "65536", str(2**32), str(2**64 - 1)] * 2
                imms[i] = rng.choice(bad)
                wrong = f"the immediate {imms[i]!r}"
                if op == "substring" and rng.random() < 0.3:
                    a = rng.randrange(1, 256)
                    imms = [str(a), str(rng.choice([0, a - 1, rng.randrange(a)]))]
                    wrong = "an end before the start"
        elif typed and x < 0.6:
            i = rng.choice(typed)
            t = SPEC[op]["args"][i]
            args[i] = rng.choice([("var", self.bs[0]), ("bytes", b"abc", "abc"), ("txn", "Note"), ("op", "itob", (), [("int", 1)])]) if t == "U" else \
                rng.choice([("var", self.ints[0]), ("int", 5), ("txn", "Fee"), ("op", "len", (), [("var", self.bs[0])]), ("bin", "+", ("int", 1), ("int", 2))])
            wrong = f"operand {i} of the wrong type"
        elif args and x < 0.8:
            args.pop(rng.randrange(len(args)))
            wrong = "an operand missing"
        else:
            args.append(("var", rng.choice(self.ints + self.bs)))
            wrong = "an operand too many"
        if imms is None:
            call = lang.ex((e[0], e[1], e[2], args))
        else:
            call = f"{op}({', '.join(imms + [a[1] if a[0] == 'raw' else lang.ex(a) for a in args])})"
        if imms is None and SPEC[op]["returns"] in ("U", "B") and rng.random() < 0.25:
            # the call is right, its result is used as the other type
            call = lang.ex(e)
            wrong = "its result used as the wrong type"
            u = rets[0] == "U"
            stmt = rng.choice([f"{'bytes' if u else 'int'} res = {call}", f"{'b0' if u else 'i0'} = {call}", f"log({call})" if u else f"assert({call})",
                               f"{call} b| b0" if u else f"i0 = {call} + 1", f"app_global_put({call}, 1)" if u else f"i0 = sqrt({call})"])
        elif not rets:
            stmt = call
        elif len(rets) == 1:
            stmt = f'app_global_put("k", {call})'
        else:
            stmt = f"{', '.join(['_'] * len(rets))} = {call}"
        src = "#pragma version 8\n" + "".join(f"const int {k.name} = {k.src}\n" for k in p.consts) + f'int i0 = 1\nbytes b0 = "b"\n{stmt}\nexit(1)\n'
        try:
            with watchdog(60), quiet():
                tealish.compile_program(src)
        except (tealish.CompileError, tealish.ParseError):
            c.hit("refused")
            c.sig = digest("refused", op, wrong)
            return
        except Exception as x:
            raise Violation(f"{type(x).__name__} instead of a compile error: {x}", source=src)
        raise Violation(f"call of {op} with {wrong} was accepted", source=src)

    def uncallable(self, rng, c):
        """Opcodes that jump or take a list of immediates can not be called, whatever the arguments"""
        import tealish

        op = rng.choice(["b", "bz", "bnz", "callsub", "switch", "match", "intcblock", "bytecblock", "pushints", "pushbytess", "nosuchop", "Nope", "jump"])
        args = [rng.choice(["i0", "b0", "1", '"a"', "K", "L", "OptIn", "Pay", "main", "l0_end", "f", "k"]) for _ in range(rng.choice([0, 1, 1, 2, 2, 2, 3, 3]))]
        if rng.random() < 0.5:
            args = [rng.choice(["1", "K", '"a"', "OptIn"]) for _ in range(2)] + (["i0"] if op in ("bz", "bnz") or rng.random() < 0.2 else [])
        call = f"{op}({', '.join(args)})"
        stmt = rng.choice([call, call, call, f"int x = {call}", f"i0 = {call}", f"assert({call})", f"i0 = 1 + {call}", f"if {call}:\n    i0 = 2\nend"])
        src = f'#pragma version 8\nconst int K = 1\nconst bytes L = "l"\nint i0 = 1\nbytes b0 = "b"\n{stmt}\nexit(1)\nfunc f():\n    return\nend\nblock k:\n    exit(1)\nend\n'
        try:
            with watchdog(60), quiet():
                tealish.compile_program(src)
        except (tealish.CompileError, tealish.ParseError):
            c.hit("refused")
            c.hit("uncallable")
            c.sig = digest("uncallable", op, len(args))
            return
        except Exception as x:
            raise Violation(f"{type(x).__name__} instead of a compile error: {x}", source=src)
        raise Violation(f"call of {op}, which can not be called, was accepted", source=src)


CHECKS = [OpCalls]
