"""Property of the compiler's errors: they name the line at fault"""
import contextlib
import io
import re

from .. import lang, layout
from ..gen import Gen
from ..common import Check, Violation, digest, watchdog
from .texts import ALL, SourceMap, line_kind

# statements of one line with one fault, wrong wherever they stand
WRONG = """zz_undefined = 5
log(zz_undefined)
int zz1 = "abc"
zz_nofunc()
log(5)
itob("a")
int zz2 = itob(3)
app_global_put("a")
assert("x")
int zz3 = Txn.Nope
int zz4 = Global.Nope
x = = 5
int zz5 = 1 +
const int lower = 5
int 5x = 3
zz_nosuch(1)
int zz6 = ZZCONST
Nope zz7
bytes[4] zz8 = "abc"
itob(5)
int zz9 = Cast("a", bytes)
int zza = 18446744073709551616
log("abc
int zzb = Txn.ApplicationArgs
int zzc = Txn.Accounts[
!!!
int zzd, zze = 5
int zzf = addw(1, 2)
_ = log("a")
uint8 zzg = 256
box<Nope> zzh = OpenBox("a")
int zzi = SizeOf(Nope)
bytes zzj = Rpad("a", "b")
int zzk = btoi(zz_undef)
log(concat("a", 5))
int zzl = ((1 + 2)
int zzm = -1
bytes zzn = 0x123
foo
int zzo = Cast(300, uint8)
int zzp = Convert(5, int)
zzq.field = 5
int zzr = zzs.field
int zzt = Gtxn[0].Nope
int zzu = Itxn.Nope
int zzv = Gtxn["a"].Fee
bytes zzw = concat("a")
bytes zzx = "a" + "b"
int zzy = !"a"
bytes[2] zzz = Rpad("abc", 2)""".split("\n")

# faults of more than a line: the lines any of which may be named are marked with BAD|
STRUCTURAL = {
    'break_main': 'int a = 1\nBAD|break\nlog("a")\nexit(1)',
    'break_for': 'for i in 0:3:\n    BAD|break\nend\nexit(1)',
    'break_func': 'exit(f())\nfunc f() int:\n    BAD|break\n    return 1\nend',
    'return_main': 'log("a")\nBAD|return 1\nexit(1)',
    'return_block': 'jump b\nblock b:\n    BAD|return\nend',
    'noreturn': 'exit(f())\nBAD|func f() int:\nBAD|    int a = 1\nBAD|end\nfunc g():\n    return\nend',
    'emptyfunc': 'exit(f())\nBAD|func f() int:\nBAD|end\nfunc g():\n    return\nend',
    'latestruct': 'int a = 1\nBAD|struct A:\nBAD|    x: int\nBAD|end\nexit(1)',
    'afterexit': 'int a = 1\nexit(1)\nBAD|int b = 1\nfunc f():\n    return\nend',
    'afterexitb': 'jump b\nblock b:\n    int a = 1\n    exit(1)\n    BAD|int b = 1\nend',
    'funcbefore': 'int a = 1\nBAD|func f():\nBAD|    return\nBAD|end\nexit(1)',
    'blockbefore': 'int a = 1\nBAD|block f:\nBAD|    exit(1)\nBAD|end\nexit(1)',
    'noexitblock': 'jump b\nBAD|block b:\nBAD|    int a = 1\nBAD|end',
    'funcinif': 'BAD|if 1:\n    BAD|func f():\n    BAD|    return\n    BAD|end\nend\nexit(1)',
    'blockinwhile': 'BAD|while 1:\n    BAD|block f:\n    BAD|    exit(1)\n    BAD|end\nend\nexit(1)',
    'structinif': 'if 1:\n    BAD|struct A:\n    BAD|    x: int\n    BAD|end\nend\nexit(1)',
    'dupfunc': 'exit(1)\nBAD|func f():\nBAD|    return\nBAD|end\nBAD|func f():\nBAD|    return\nBAD|end',
    'dupblock': 'jump b\nBAD|block b:\nBAD|    exit(1)\nBAD|end\nBAD|block b:\nBAD|    exit(1)\nBAD|end',
    'dupstruct': 'BAD|struct A:\nBAD|    x: int\nBAD|end\nBAD|struct A:\nBAD|    x: int\nBAD|end\nexit(1)',
    'dupvar': 'BAD|int a = 1\nlog("")\nBAD|int a = 2\nexit(1)',
    'labelconst': 'const int A = 1\nlog("")\njump A\nBAD|block A:\n    exit(1)\nBAD|end',
    'teallabelconst': 'const int A = 1\nBAD|teal:\n    BAD|A:\n    BAD|int 1\n    pop\nBAD|end\nexit(A)',
    'dupconst': 'BAD|const int A = 1\nlog("")\nBAD|const int A = 2\nexit(1)',
    'stray_end': 'int a = 1\nBAD|end\nexit(1)',
    'stray_else': 'int a = 1\nBAD|else:\nexit(1)',
    'stray_elif': 'int a = 1\nBAD|elif 1:\nexit(1)',
    'else_else': 'if 1:\n    log("a")\nelse:\n    log("a")\nBAD|else:\n    log("b")\nBAD|end\nexit(1)',
    'else_elif': 'if 1:\n    log("a")\nelse:\n    log("a")\nBAD|elif 1:\n    log("b")\nBAD|end\nexit(1)',
    'unclosed_if': 'log("a")\nBAD|if 1:\nBAD|    log("b")\nBAD|exit(1)',
    'unclosed_func': 'log("a")\nexit(1)\nBAD|func f():\nBAD|    return',
    'unclosed_teal': 'log("a")\nBAD|teal:\nBAD|    pop\nBAD|exit(1)',
    'itxn_idx': 'inner_txn:\n    TypeEnum: 6\n    BAD|ApplicationArgs[1]: "a"\n    Fee: 0\nend\nlog("a")\nexit(1)',
    'itxn_dupidx': 'inner_txn:\n    TypeEnum: 6\n    BAD|ApplicationArgs[0]: "a"\n    BAD|ApplicationArgs[0]: "b"\n    Fee: 0\nend\nlog("a")\nexit(1)',
    'route_unknown': 'router:\n    f\n    BAD|g\nend\n@public()\nfunc f():\n    return\nend',
    'route_private': 'router:\n    f\n    BAD|g\nend\n@public()\nfunc f():\n    return\nend\nBAD|func g():\nBAD|    return\nBAD|end',
    'bad_oc': 'router:\n    BAD|f\nend\nBAD|@public(OnCompletion=Foo)\nBAD|func f():\nBAD|    return\nBAD|end',
    'duparg': 'exit(1)\nBAD|func f(a: int, a: int):\nBAD|    return\nBAD|end',
    'jump_inner': 'jump b\nblock b:\n    jump c\n    block c:\n        exit(1)\n    end\nend\nblock d:\n    BAD|jump c\nend',
    'setconst': 'const int A = 1\nBAD|A = 2\nexit(1)',
    'setfunc': 'log("q")\nBAD|f = 2\nexit(1)\nfunc f():\n    return\nend',
    'two_pragma': 'log("q")\nBAD|#pragma version 8\nexit(1)',
    'struct_unk': 'struct A:\n    x: int\n    BAD|y: B\nend\nexit(1)',
    'struct_dupf': 'BAD|struct A:\n    x: int\n    BAD|x: int\nend\nexit(1)',
    'const_unused_bad': 'log("a")\nBAD|const int A = 18446744073709551616\nexit(1)',
    'const_type': 'log("a")\nBAD|const bytes A = 1\nexit(1)',
    'multi_ret': 'exit(1)\nfunc f() int, bytes:\n    log("a")\n    BAD|return "a", 1\nend',
    'multi_ret2': 'exit(1)\nfunc f() int, bytes:\n    log("a")\n    BAD|return 1\nend',
    'unused_value': 'log("a")\nBAD|f()\nexit(1)\nfunc f() int:\n    return 1\nend',
    'argn': 'log("a")\nBAD|f(1)\nexit(1)\nfunc f():\n    return\nend',
    'argt': 'log("a")\nBAD|f("a")\nexit(1)\nfunc f(a: int):\n    return\nend',
    'argt_in_func': 'exit(1)\nfunc g():\n    log("q")\n    BAD|f("a")\n    return\nend\nfunc f(a: int):\n    return\nend',
    'box_var': 'struct I:\n    a: int\nend\nlog("a")\nBAD|box<I> z = NopeBox("k")\nexit(1)',
    'box_key': 'struct I:\n    a: int\nend\nlog("a")\nBAD|box<I> z = Box(1)\nexit(1)',
    'box_field': 'struct I:\n    a: int\nend\nbox<I> z = Box("1")\nBAD|z.q = 1\nexit(1)',
    'box_field2': 'struct I:\n    a: int\nend\nbox<I> z = Box("1")\nBAD|int q = z.q\nexit(1)',
    'box_field3': 'struct I:\n    a: int\nend\nbox<I> z = Box("1")\nBAD|z.a = "q"\nexit(1)',
    'switch_t': 'switch 1:\n    1: b\n    BAD|"a": b\nend\nblock b:\n    exit(1)\nend',
    'blocklabel': 'jump b\nblock b:\n    teal:\n        BAD|b:\n    end\n    exit(1)\nend',
    'switch_target': 'switch 1:\n    1: b\n    BAD|2: c\n    3: b\nend\nblock b:\n    exit(1)\nend',
    'switch_elsetarget': 'switch 1:\n    1: b\n    2: b\n    BAD|else: c\nend\nblock b:\n    exit(1)\nend',
    'switch_undef': 'switch 1:\n    1: b\n    BAD|v: b\nend\nblock b:\n    exit(1)\nend',
    'group_idx': 'inner_group:\n    inner_txn:\n        TypeEnum: 6\n        ApplicationArgs[0]: "a"\n        BAD|ApplicationArgs[2]: "a"\n        Fee: 0\n    end\n    inner_txn:\n        TypeEnum: 1\n    end\nend\nlog("a")\nexit(1)',
    'group_field': 'inner_group:\n    inner_txn:\n        TypeEnum: 1\n    end\n    inner_txn:\n        TypeEnum: 1\n        BAD|Nope: 1\n    end\nend\nlog("a")\nexit(1)',
    'elif_type': 'int a = 1\nif a:\n    log("a")\nelif a == 2:\n    log("b")\nBAD|elif "a":\n    log("c")\nelse:\n    log("d")\nend\nexit(1)',
    'elif_undef': 'int a = 1\nif a:\n    log("a")\nBAD|elif b:\n    log("b")\nelif a:\n    log("c")\nelse:\n    log("d")\nend\nexit(1)',
    'nested_elif': 'int a = 1\nif a:\n    if a == 2:\n        log("a")\n    BAD|elif zz(a):\n        log("b")\n    end\nelif a:\n    log("c")\nend\nexit(1)',
    'else_body': 'int a = 1\nif a:\n    log("a")\nelse:\n    log("b")\n    BAD|log(a)\n    log("b")\nend\nexit(1)',
    'while_cond': 'int a = 1\nwhile a:\n    a = 0\nend\nBAD|while itob(a):\n    a = 1\nend\nexit(1)',
    'for_end': 'int a = 1\nfor i in 0:a:\n    a = 0\nend\nBAD|for i in 0:zz:\n    a = 1\nend\nexit(1)',
    'for_var': 'int a = 1\nBAD|for a in 0:5:\n    log("a")\nend\nexit(1)',
    'scope_out': 'int a = 1\nwhile a:\n    int b = 1\n    a = b\nend\nBAD|a = b\nexit(1)',
    'func_scope': 'exit(f())\nfunc f() int:\n    int b = 1\n    return b\nend\nfunc g() int:\n    log("a")\n    BAD|return b\nend',
    'same_twice': 'int a = 1\nbytes b = "a"\na = len(b)\nb = itob(a)\nBAD|a = len(a)\na = len(b)\nexit(1)',
    'same_text': 'while 1:\n    int q = 1\n    log(itob(q + 1))\nend\nBAD|log(itob(q + 1))\nexit(1)',
    'same_text2': 'func_()\nexit(1)\nfunc func_():\n    int q = 1\n    log(itob(q + 1))\n    return\nend\nfunc g():\n    bytes q = "a"\n    BAD|log(itob(q + 1))\n    return\nend',
    'dupfunc_in': 'jump b\nblock b:\n    exit(1)\n    BAD|func f():\n    BAD|    return\n    BAD|end\n    BAD|func f():\n    BAD|    return\n    BAD|end\nend',
    'field_get': 'struct I:\n    a: int\nend\nI i = Cast(bzero(8), I)\nint x = i.a\nBAD|int y = i.b\nexit(1)',
    'field_set': 'struct I:\n    a: int\nend\nI i = Cast(bzero(8), I)\ni.a = 1\nBAD|i.a = "a"\nexit(1)',
    'not_struct': 'int i = 1\nlog("a")\nBAD|i.a = 1\nexit(1)',
    'not_struct2': 'int i = 1\nlog("a")\nBAD|int j = i.a\nexit(1)',
    'decorator': 'exit(1)\nBAD|@public\nBAD|func f():\nBAD|    return\nBAD|end',
    'decorator_early': 'int a = 1\nBAD|@public()\nBAD|func f():\nBAD|    return\nBAD|end\nexit(1)',
    'decorator_alone': 'exit(1)\nfunc f():\n    return\nend\nBAD|@public()\nBAD|block b:\n    exit(1)\nend',
    'decorator_again': 'router:\n    f\nend\nBAD|@public()\nBAD|@public(OnCompletion=OptIn)\nBAD|func f():\n    return\nend',
    'decorator_value': 'router:\n    f\nend\nBAD|@public(OptIn)\nfunc f():\n    return\nend',
    'switch_else_else': 'switch 1:\n    1: b\n    else: b\n    2: b\n    BAD|else: b\nend\nblock b:\n    exit(1)\nend',
    'struct_unsized': 'struct A:\n    x: int\n    BAD|y: bytes\n    BAD|z: int\nend\nexit(1)',
    'multi_assign': 'int a = 1\nint b = 1\na, b = addw(a, b)\nBAD|a, b = len("a")\nexit(1)',
    'multi_type': 'int a = 1\nbytes b = "a"\nBAD|a, b = addw(a, 1)\nexit(1)',
    'multi_undef': 'int a = 1\na, _ = addw(a, 1)\nBAD|a, c = addw(a, 1)\nexit(1)',
    'ret_call': 'exit(g())\nfunc f() int, int:\n    return 1, 2\nend\nfunc g() int:\n    BAD|return f()\nend',
    'stmt_in_itxn': 'inner_txn:\n    TypeEnum: 1\n    BAD|log("a")\n    Fee: 0\nend\nexit(1)',
    'stmt_in_struct': 'struct A:\n    a: int\n    BAD|log("a")\n    b: int\nend\nexit(1)',
    'stmt_in_switch': 'switch 1:\n    1: b\n    BAD|log("a")\nend\nblock b:\n    exit(1)\nend',
    'bad_assert': 'int a = 1\nassert(a)\nBAD|assert(itob(a), "no")\nexit(1)',
    'bad_exit': 'int a = 1\nif a:\n    BAD|exit("a")\nend\nexit(1)',
}

# which may carry code, of one line, in a place where statements stand
SIMPLE = {"decl", "assign", "call", "assert", "setfield"}


def faults(lines, owners, k):
    """[(kind, the line with a fault)] for a line of a valid program"""
    t = lines[k].strip()
    kd = line_kind(lines, owners, k)
    o = []
    if kd == "itxnfield":
        n, v = t.split(":", 1)
        o += [("fieldvalue", f"{n}: zz_undef"), ("fieldname", f"Nope: {v.strip()}"), ("fieldsyntax", f"{n}: (1"), ("fieldcolon", f"{n} 5")]
        m = re.match(r"(\w+)\[\d+\]:(.*)", t)
        if m:
            o += [("fieldindex", f"{m[1]}[{i}]:{m[2]}") for i in (12, 77)]
    elif kd == "option":
        o += [("target", re.sub(r":\s*(\w+)\s*$", ": zz_nowhere", t)), ("optionsyntax", "1 2")]
        if not t.startswith("else"):
            o.append(("option", re.sub(r"^.*:", "zz_undef:", t)))
    elif kd in ("if", "elif", "while"):
        o += [("condname", f"{kd} zz_undef:"), ("condtype", f'{kd} "a":'), ("condsyntax", f"{kd} (1:"), ("condmissing", f"{kd}:")]
    elif kd in ("for", "for_"):
        h = re.sub(r" in .*", "", t)
        o += [("from", h + " in zz_undef:5:"), ("to", h + " in 0:zz_undef:"), ("bound", h + ' in 0:"a":')]
    elif kd == "switch":
        o += [("subject", "switch zz_undef:")]
    elif kd == "return":
        o += [("results", "return zz_undef, zz_undef, zz_undef, zz_undef, zz_undef, zz_undef"), ("results", t + (", 1" if t != "return" else " 1")), ("resultsyntax", "return (1")]
    elif kd == "jump":
        o += [("jump", "jump zz_nowhere")]
    elif kd == "exit":
        o += [("exit", "exit(zz_undef)"), ("exit", 'exit("a")')]
    elif kd == "assert":
        o += [("assert", "assert(zz_undef)")]
    elif kd == "decl" and "=" in t:
        h = t.split("=", 1)[0]
        o += [("value", h + "= zz_undef"), ("valuesyntax", h + "= (")]
    elif kd == "const":
        o += [("const", "const int A"), ("const", 'const int ZZ = "a"')]
    elif kd == "box":
        o += [("box", 'box<Nope> zz = OpenBox("a")')]
    elif kd == "func":
        o += [("argtype", re.sub(r"\(.*\)", "(zz: nope)", t)), ("resulttype", re.sub(r"\).*", ") nope:", t))]
    elif kd == "struct" and t.startswith("struct"):
        o += [("struct", "struct nope:")]
    elif kd == "route":
        o += [("route", "zz_nowhere")]
    elif kd == "setfield":
        o += [("setfield", re.sub(r"\.\w+ *=", ".zz_nope =", t, count=1))]
    elif kd == "struct" and t != "end" and ":" in t:
        o += [("fieldtype", t.split(":")[0] + ": nope"), ("fieldtype", t.split(":")[0])]
    elif kd == "end" and getattr(owners[k], "kind", None) not in ("router",):
        o += [("end", "ende")]
    return [(a, b) for a, b in o if b != t]


def insertable(lines, owners, k):
    """May a statement be put before line k?"""
    return getattr(owners[k], "kind", None) in SIMPLE and line_kind(lines, owners, k) in SIMPLE and lines[k].strip() != ""


class Blame(Check):
    prop = "C32"
    quick = 450
    thorough = 30000
    rule = ("generated programs of every feature in random layouts with one (or two) faulty statements put in or made of one that is there: the error must name the line of a faulty statement and so must "
            "the formatter's and inspection's if they refuse it; warnings must name the line they are about; the same with lines added above; counts if an error was located (distinct by text)")
    need = {"located": 1200, "moved": 250, "warnings": 100}

    def structural(self, rng, c, name):
        lines = STRUCTURAL[name].split("\n")
        new, ok = ["#pragma version 8"], set()
        noise = ["", "  ", "# a comment", "#", "# line 3", "# end"]
        inner = None
        step = rng.choice([2, 4, 4, 8])
        for i, l in enumerate(lines):
            bad = "BAD|" in l
            l = l.replace("BAD|", "")
            # what may stand before it: in inline TEAL nothing, between two lines at fault more of the same
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 5]) if inner != "teal:" else 0):
                new.append(rng.choice(noise))
                if bad and i and "BAD|" in lines[i - 1]:
                    ok.add(len(new))
            ind = len(l) - len(l.lstrip())
            new.append(" " * (ind // 4 * step) + l.strip())
            if bad:
                ok.add(len(new))
            inner = "teal:" if l.strip() == "teal:" else None if l.strip() == "end" else inner
        if len(new) in ok:
            # the end of the program
            ok.add(len(new) + 1)
        self.judge(rng, c, new, ok, ["structural " + name], must=True)

    def case(self, rng, index, c):
        names = sorted(STRUCTURAL)
        for i in range(3):
            self.structural(rng, c, names[(index * 3 + i) % len(names)])
        f = {x for x in sorted(ALL) if rng.random() < 0.6} | ({"router"} if rng.random() < 0.15 else set())
        p = Gen(rng, f, size=rng.choice([2, 2, 3, 5]), max_vars=12, depth=rng.choice([1, 1, 2])).program()
        lines, owners = SourceMap.plain(None, p) if rng.random() < 0.3 else layout.respaced(p, rng)
        for _ in range(5):
            new = list(lines)
            at, kinds = [], []
            marks = {}  # index in lines -> what to do
            n = 2 if rng.random() < 0.15 else 1
            ks = [k for k in range(len(lines)) if lines[k].strip() and (lines[k].strip() != "end" or rng.random() < 0.2) and (insertable(lines, owners, k) or faults(lines, owners, k))]
            if len(ks) < n:
                return
            for k in rng.sample(ks, n):
                fs = faults(lines, owners, k)
                ind = lines[k][: len(lines[k]) - len(lines[k].lstrip())]
                if insertable(lines, owners, k) and (not fs or rng.random() < 0.5):
                    marks[k] = ("put", ind + rng.choice(WRONG), "put")
                else:
                    kind, t = rng.choice(fs)
                    marks[k] = ("replace", ind + t, kind)
            new, ok, start = [], set(), {}
            for k, l in enumerate(lines):
                start[k] = len(new) + 1
                if k in marks:
                    how, t, kind = marks[k]
                    new.append(t)
                    ok.add(len(new))
                    kinds.append(kind)
                    if how == "put":
                        new.append(l)
                else:
                    new.append(l)
            self.judge(rng, c, new, ok, kinds)
        self.warning(rng, c, lines, owners)

    def refusal(self, f, text):
        from tealish.errors import CompileError, ParseError

        err = io.StringIO()
        try:
            with watchdog(60), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err):
                f(text)
        except (CompileError, ParseError) as e:
            return str(e), err.getvalue()
        return None, err.getvalue()

    def judge(self, rng, c, new, ok, kinds, must=False):
        import tealish

        text = "\n".join(new) + "\n"
        msg, _ = self.refusal(tealish.compile_program, text)
        if msg is None and must:
            raise Violation(f"accepted: {kinds[0]}", source=text)
        if msg is None:
            c.hit("accepted")
            return
        self.named(msg, ok, new, text, "compile", kinds)
        for k in kinds:
            c.hit("fault_" + k.split(" ")[0])
        c.hit("located")
        c.sigs.add(digest(text))
        if rng.random() < 0.3:
            for name, f in (("reformat", tealish.reformat_program), ("inspect", tealish.inspect_program)):
                m, _ = self.refusal(f, text)
                if m is not None:
                    self.named(m, ok, new, text, name, kinds)
                    c.hit("located_" + name)
        if rng.random() < 0.3:
            # further down
            n = rng.choice([1, 2, 7, 30])
            more = [rng.choice(["", "# a comment", "   ", "#", "\t# line 3"]) for _ in range(n)]
            i = 1 if new[0].startswith("#pragma") else 0
            if 1 in ok:
                return
            new2 = new[:i] + more + new[i:]
            if i and rng.random() < 0.35:
                # no version line
                new2, n = more + new[i:], n - 1
            text2 = "\n".join(new2) + "\n"
            m, _ = self.refusal(tealish.compile_program, text2)
            if m is None:
                raise Violation(f"refused ({msg[:200]}), but accepted with blank and comment lines added", source=text, variant=text2)
            self.named(m, {x + n for x in ok}, new2, text2, "compile", kinds)
            c.hit("moved")
        if c.sample is None and len(new) < 40:
            c.sample = {"source": text, "lines_at_fault": sorted(ok), "error": msg}

    def named(self, msg, ok, lines, text, what, kinds):
        got = [int(x) for x in re.findall(r"(?:[Ll]ine|at) (\d+)", msg)]
        if not ok & set(got):
            k = min(ok)
            raise Violation(f"{what}: the fault ({', '.join(kinds)}) is in line {k} {lines[k - 1].strip()!r:.100}; the error names {got}: {msg}"[:600], source=text)

    def warning(self, rng, c, lines, owners):
        """A cast without effect gives a warning with its line"""
        import tealish

        ks = [k for k in range(len(lines)) if insertable(lines, owners, k)]
        if not ks:
            return
        k = rng.choice(ks)
        t = rng.choice(["int zzw = Cast(len(\"a\"), int)", "bytes zzw = Cast(sha256(\"q\"), bytes)", "uint8 zzw = Cast(7, uint8)"])
        new = lines[:k] + [t] + lines[k:]
        text = "\n".join(new) + "\n"
        msg, err = self.refusal(tealish.compile_program, text)
        if msg is not None:
            return
        got = [int(x) for x in re.findall(r"(?:[Ll]ine|at) (\d+)", err)]
        if "arning" in err:
            for i, l in re.findall(r" at line (\d+)\n (.*)", err):
                if int(i) > len(new) or new[int(i) - 1].strip() != l.strip():
                    raise Violation(f"the warning names line {i} {l!r}, which is {new[int(i) - 1] if int(i) <= len(new) else None!r}", source=text, warnings=err)
            if got and k + 1 not in got and err.count("arning") > 0 and t in err:
                raise Violation(f"the warning about {t!r} in line {k + 1} names {got}", source=text, warnings=err)
            c.hit("warnings")


CHECKS = [Blame]
