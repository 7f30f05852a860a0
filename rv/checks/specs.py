"""Language specifications: the one in effect decides what can be used"""
import copy
import json
import os
import re
import subprocess
import sys

from .. import common
from ..common import Check, Inconclusive, Violation, digest
from .cli import scratch
from .opcalls import OPS

PACKAGED = None
KEEP = re.compile(r"(bzero|g?i?txn.*|global|itxn_field|method|block|base64_decode|json_ref|vrf_verify|ecdsa_.*)$")
TXN = ["txn", "gtxn", "gtxns", "itxn", "gitxn"]
TXNA = ["txna", "gtxna", "gtxnsa", "itxna", "gitxna", "txnas", "gtxnas", "gtxnsas"]
HEADER = '#pragma version 8\nint ia = 1\nint ib = 2\nint ic = 3\nbytes ba = "abc"\nbytes bb = "d"\nbytes bc = "e"\n'
CHILD = os.path.join(common.ROOT, "rv", "specchild.py")


def child(mode, args, cwd, stdin="", env=None, seconds=120):
    try:
        p = subprocess.run([sys.executable, "-B", CHILD, mode] + args, cwd=cwd, input=stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=seconds,
                           env={"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": cwd, "PYTHONPATH": common.REPO, "PYTHONHASHSEED": "0", **(env or {})})
    except subprocess.TimeoutExpired:
        raise Inconclusive("a process took too long")
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def fields_of(op):
    return list(zip(op.get("ArgEnum", []), op.get("ArgEnumTypes", "") or "U" * len(op.get("ArgEnum", []))))


def has_field(spec, op, name):
    return any(o["Name"] == op and name in o.get("ArgEnum", []) for o in spec["Ops"])


class Probe:
    """A program and whether it must compile, and if so one line it must contain"""

    def __init__(self, src, ok, line=None, what=""):
        self.src, self.ok, self.line, self.what = src, ok, line, what


class Specs(Check):
    prop = "C29"
    quick = 220
    thorough = 3600
    rule = ("specifications derived from the packaged one by adding, removing and changing opcodes and fields, in effect in a scratch directory or not: programs using what is there and what is "
            "not compiled by the real compiler in processes of their own; chains of fetch, update and diff with a stand-in network: requests, stored file, output and exit code")
    need = {"accepted": 1200, "refused": 2500, "packaged": 25, "fetched": 35, "fetch_failed": 40, "diff": 20, "new_ops_listed": 80}

    def setup(self, tier):
        global PACKAGED
        with open(os.path.join(common.REPO, "tealish", "langspec.json")) as f:
            PACKAGED = json.load(f)

    # ------------------------------------------------------------ specifications
    def new_op(self, rng, name):
        k = rng.random()
        op = {"Opcode": rng.randrange(256), "Name": name, "Size": 1, "Doc": "d", "Groups": ["x"]}
        args = "".join(rng.choice("UB.UB") for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5])))
        rets = "".join(rng.choice("UB.UB") for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])))
        if k < 0.3:
            n = rng.choice([1, 1, 2, 3])
            op["Size"] = 1 + n
            op["ImmediateNote"] = " ".join("{%s %s}" % (rng.choice(["uint8", "uint8", "int8"]), w) for w in rng.sample(["start position", "length", "depth", "transaction group index"], n))
        elif k < 0.55:
            op["Size"] = 2
            op["ArgEnum"] = rng.sample(["ZzAlpha", "ZzBeta", "ZzGamma", "Sender", "Zz2", "ZzA1b"], rng.randrange(1, 5))
            op["ArgEnumTypes"] = "".join(rng.choice("UB") for _ in op["ArgEnum"])
            op["ImmediateNote"] = "{uint8 some field index}"
        if args:
            op["Args"] = args
        if rets:
            op["Returns"] = rets
        if rng.random() < 0.3:
            op["DocExtra"] = "more \u00e9"
        return op

    def derive(self, rng, base):
        s = copy.deepcopy(base)
        touched = []
        ops = {o["Name"]: o for o in s["Ops"]}
        removable = [o for o in OPS if o in ops and not KEEP.match(o)]
        for name in rng.sample(removable, rng.randrange(0, 5)):
            s["Ops"].remove(ops.pop(name))
            touched.append(name)
        for _ in range(rng.randrange(0, 5)):
            name = "zz_" + rng.choice("abcdefgh") + str(rng.randrange(40))
            if name not in ops:
                ops[name] = self.new_op(rng, name)
                s["Ops"].insert(rng.randrange(len(s["Ops"]) + 1), ops[name])
                touched.append(name)
        for name in rng.sample(removable, rng.randrange(0, 4)):
            if name in ops and ops[name]["Size"] == 1:
                n = self.new_op(rng, name)
                o = ops[name]
                if rng.random() < 0.5:
                    for k in ("Args", "Returns"):
                        o.pop(k, None)
                        if k in n:
                            o[k] = n[k]
                else:
                    o.clear()
                    o.update(n)
                touched.append(name)
        fields = []
        for group in (TXN, ["global"], ["itxn_field"], TXNA, ["asset_params_get"], ["acct_params_get"], ["app_params_get"]):
            if rng.random() < 0.5 or group[0] not in ops:
                continue
            what = rng.choice(["add", "add", "remove", "retype"])
            have = ops[group[0]]
            old = have["ArgEnum"]
            arrays = ops["txna"]["ArgEnum"]
            if what == "add":
                f, t = rng.choice(["ZzField", "ZzOther", "NewThing", "Zz9"]), rng.choice("UB")
                if f in old:
                    continue
                for g in group:
                    ops[g]["ArgEnum"] = ops[g]["ArgEnum"] + [f]
                    ops[g]["ArgEnumTypes"] = ops[g]["ArgEnumTypes"] + t
                if group is TXNA:
                    for g in TXN:
                        if f not in ops[g]["ArgEnum"]:
                            ops[g]["ArgEnum"] = ops[g]["ArgEnum"] + [f]
                            ops[g]["ArgEnumTypes"] = ops[g]["ArgEnumTypes"] + t
                        else:
                            i = ops[g]["ArgEnum"].index(f)
                            ops[g]["ArgEnumTypes"] = ops[g]["ArgEnumTypes"][:i] + t + ops[g]["ArgEnumTypes"][i + 1:]
            else:
                cands = [f for f in old if f not in ("TypeEnum", "Sender") and (group is TXNA or f not in arrays)]
                if not cands:
                    continue
                f = rng.choice(cands)
                for g in group:
                    i = ops[g]["ArgEnum"].index(f)
                    types = ops[g]["ArgEnumTypes"]
                    if what == "remove":
                        ops[g]["ArgEnum"] = ops[g]["ArgEnum"][:i] + ops[g]["ArgEnum"][i + 1:]
                        ops[g]["ArgEnumTypes"] = types[:i] + types[i + 1:]
                    else:
                        ops[g]["ArgEnumTypes"] = types[:i] + ("U" if types[i] == "B" else "B") + types[i + 1:]
                if group is TXNA and what == "retype":
                    for g in TXN:
                        if f in ops[g]["ArgEnum"]:
                            i = ops[g]["ArgEnum"].index(f)
                            types = ops[g]["ArgEnumTypes"]
                            ops[g]["ArgEnumTypes"] = types[:i] + ("U" if types[i] == "B" else "B") + types[i + 1:]
            fields.append((group[0], f))
        if rng.random() < 0.2:
            s["EvalMaxVersion"] = 9
        if rng.random() < 0.2:
            rng.shuffle(s["Ops"])
        return s, touched, fields

    # ---------------------------------------------------------------- probes
    def arg(self, rng, kind):
        if kind == ".":
            kind = rng.choice("UB")
        if kind == "U":
            return rng.choice(["ia", "ib", "ic", "7", "(ia + 1)"])
        return rng.choice(["ba", "bb", "bc", '"xyz"', 'concat(ba, "q")'] if self.concat else ["ba", "bb", "bc", '"xyz"'])

    def imms(self, rng, op):
        """-> texts of good immediates, and of bad ones"""
        n = op["Size"] - 1
        if not n:
            return [], None
        if "ArgEnum" in op:
            return [rng.choice(op["ArgEnum"])], [rng.choice(["NoSuchField", "ZzNot", "ia", "CamelCase"])]
        notes = re.findall(r"\{(u?int8) ", op.get("ImmediateNote", ""))
        good = [str(rng.choice([0, 1, 2, 5, 127] + ([128, 200, 255] if k == "uint8" else []))) for k in notes]
        bad = list(good)
        if op["Name"] == "substring":
            good.sort(key=int)
            bad = list(good)
        i = rng.randrange(n)
        bad[i] = rng.choice(["256", "1000", "ia", "NoSuchField"])
        return good, bad

    def program(self, rng, name, texts, rets, flip=None):
        call = f"{name}({', '.join(texts)})"
        if not rets:
            return HEADER + call + "\nexit(1)\n"
        kinds = [rng.choice("UB") if k == "." else k for k in rets[::-1]]
        if flip is not None:
            kinds[flip] = "B" if kinds[flip] == "U" else "U"
        if len(kinds) > 1 or rng.random() < 0.5:
            return HEADER + "\n".join(f"{'int' if k == 'U' else 'bytes'} r{i}" for i, k in enumerate(kinds)) + "\n" + ", ".join(f"r{i}" for i in range(len(kinds))) + f" = {call}\nexit(1)\n"
        return HEADER + ", ".join(f"{'int' if k == 'U' else 'bytes'} r{i}" for i, k in enumerate(kinds)) + f" = {call}\nexit(1)\n"

    def op_probes(self, rng, spec, name):
        op = next((o for o in spec["Ops"] if o["Name"] == name), None)
        if op is None:
            # whatever it was, or might have been
            old = next((o for o in PACKAGED["Ops"] if o["Name"] == name), None) or {"Name": name, "Size": 1}
            texts = self.imms(rng, old)[0] + [self.arg(rng, k) for k in old.get("Args", "")]
            return [Probe(self.program(rng, name, texts, old.get("Returns", "")), False, what=f"{name} is not in the specification")]
        out = []
        args, rets = op.get("Args", ""), op.get("Returns", "")
        good, bad = self.imms(rng, op)
        texts = [self.arg(rng, k) for k in args]
        line = " ".join([name] + good)
        sig = f"{name} takes {op.get('Size') - 1} immediates and {args or 'nothing'}, gives {rets or 'nothing'} (stack order)"
        out.append(Probe(self.program(rng, name, good + texts, rets), True, line, sig))
        wrong = []
        for i, k in enumerate(args):
            if k != ".":
                t = list(texts)
                t[i] = self.arg(rng, "B" if k == "U" else "U")
                wrong.append((good + t, None, f"operand {i} of the wrong kind"))
        if args:
            wrong.append((good + texts[:-1], None, "an operand less"))
        wrong.append((good + texts + ["ia"], None, "an operand more"))
        wrong.append((good + texts + ["ba"], None, "an operand more"))
        if bad:
            wrong.append((bad + texts, None, "a wrong immediate"))
            wrong.append((good[1:] + texts, None, "an immediate less"))
        for i, k in enumerate(rets[::-1]):
            if k != ".":
                wrong.append((good + texts, i, f"result {i} to a variable of the wrong kind"))
        for t, flip, what in rng.sample(wrong, min(len(wrong), 4)):
            out.append(Probe(self.program(rng, name, t, rets, flip), False, what=f"{what}: {sig}"))
        if rets and rng.random() < 0.5:
            out.append(Probe(self.program(rng, name, good + texts, ""), False, what=f"results not consumed: {sig}"))
        if not rets and rng.random() < 0.5:
            out.append(Probe(self.program(rng, name, good + texts, rng.choice("UB")), False, what=f"a result that is not there: {sig}"))
        return out

    def field_probes(self, rng, spec, op, f):
        """Programs reading (or setting) a field, by the specification"""
        types = {o["Name"]: dict(fields_of(o)) for o in spec["Ops"]}
        t = types.get(op, {}).get(f)
        arrays = types["txna"]
        out = []

        def read(expr, line, t):
            what = f"field {f} of {op} is {t or 'not there'}"
            if t is None:
                return [Probe(HEADER + f"{k} r = {expr}\nexit(1)\n", False, what=what) for k in ("int", "bytes")]
            a, b = ("int", "bytes") if t == "U" else ("bytes", "int")
            return [Probe(HEADER + f"{a} r = {expr}\nexit(1)\n", True, line, what), Probe(HEADER + f"{b} r = {expr}\nexit(1)\n", False, what="wrong kind: " + what)]

        if op == "txn" and f not in arrays:
            n = rng.randrange(16)
            expr, line = rng.choice([(f"Txn.{f}", f"txn {f}"), (f"Gtxn[{n}].{f}", f"gtxn {n} {f}"), (f"Gtxn[ia].{f}", f"gtxns {f}"), (f"Itxn.{f}", f"itxn {f}")])
            out += read(expr, line, t)
        elif op == "txna":
            i, n = rng.randrange(4), rng.randrange(16)
            expr, line = rng.choice([(f"Txn.{f}[{i}]", f"txna {f} {i}"), (f"Gtxn[{n}].{f}[{i}]", f"gtxna {n} {f} {i}"), (f"Txn.{f}[ia]", f"txnas {f}")])
            out += read(expr, line, t)
        elif op == "global":
            out += read(f"Global.{f}", f"global {f}", t)
        elif op == "itxn_field":
            v = rng.choice(["ia", "ba"] if t is None else ["ia"] if t == "U" else ["ba"])
            out.append(Probe(HEADER + f"inner_txn:\n  TypeEnum: 1\n  {f}: {v}\nend\nexit(1)\n", t is not None, t and f"itxn_field {f}", f"inner transaction field {f} is {t or 'not there'}"))
        elif op in ("asset_params_get", "acct_params_get", "app_params_get"):
            what = f"field {f} of {op} is {t or 'not there'}"
            out.append(Probe(HEADER + f"int e\n{rng.choice(['int', 'bytes'])} v\ne, v = {op}({f}, {'ba' if op == 'acct_params_get' else 'ia'})\nexit(1)\n", t is not None, t and f"{op} {f}", what))
        return out

    def probes(self, rng, spec, names, fields):
        types = {o["Name"] for o in spec["Ops"]}
        self.concat = any(o["Name"] == "concat" and o.get("Args") == "BB" and o.get("Returns") == "B" and o["Size"] == 1 for o in spec["Ops"])
        out = []
        for n in names:
            out += self.op_probes(rng, spec, n)
        for op, f in fields:
            out += self.field_probes(rng, spec, op, f)
        return out

    def verdicts(self, cwd, probes, spec, pair, c, local):
        code, out, err = child("probes", [], cwd, json.dumps({"sources": [p.src for p in probes], "pair": pair}))
        if code:
            raise Violation("the library can not be used in a directory with this specification" if local else "the library can not be used", error_output=err[-3000:], spec=self.short(spec))
        r = json.loads(out)
        if not r["file"].startswith(os.path.realpath(common.REPO) + os.sep):
            raise RuntimeError(r["file"])
        where = "with a local specification" if local else "with the packaged specification"
        if r["active"] != spec:
            raise Violation(f"{where}: another one is in effect", spec=self.short(spec))
        for p, v in zip(probes, r["verdicts"]):
            detail = dict(source=p.src, verdict=v, spec=self.short(spec))
            if v[0] == "crash":
                raise Violation(f"{where}: the compiler crashes", what=p.what, **detail)
            if p.ok and v[0] != "ok":
                raise Violation(f"{where}: rejected although {p.what}", **detail)
            if not p.ok and v[0] == "ok":
                raise Violation(f"{where}: accepted although {p.what}", **detail)
            if p.ok:
                lines = [l.split("//")[0].split() for l in v[1]]
                if p.line.split() not in lines:
                    raise Violation(f"{where}: `{p.line}` is not in the TEAL ; {p.what}", **detail)
            c.hit("accepted" if p.ok else "refused")
        names = [{o["Name"] for o in s["Ops"]} for s in pair]
        if [set(x) for x in r["compare"]] != [names[0] - names[1], names[1] - names[0]] or any(len(x) != len(set(x)) for x in r["compare"]):
            raise Violation("comparing two specifications does not name exactly what only one has", got=r["compare"], expected=[sorted(names[0] - names[1]), sorted(names[1] - names[0])])
        if set(r["new"]) != names[1] - names[0]:
            raise Violation("new_ops does not name exactly the new opcodes", got=r["new"], expected=sorted(names[1] - names[0]))
        mine = {o["Name"] for o in spec["Ops"]} - {o["Name"] for o in PACKAGED["Ops"]}
        if set(r["new_local"]) != mine:
            raise Violation(f"{where}: get_new_local_ops does not name exactly the new opcodes", got=r["new_local"], expected=sorted(mine))
        c.hit("compared")

    def short(self, spec):
        """What differs from the packaged one"""
        a, b = ({o["Name"]: o for o in s["Ops"]} for s in (PACKAGED, spec))
        return {"removed": sorted(set(a) - set(b)), "added": [b[x] for x in b if x not in a], "changed": [b[x] for x in b if x in a and a[x] != b[x]]}

    def case(self, rng, index, c):
        with scratch() as root:
            if index % 2:
                return self.chain(rng, root, c)
            return self.local(rng, root, c)

    def local(self, rng, root, c):
        spec, touched, fields = self.derive(rng, PACKAGED)
        other = self.derive(rng, rng.choice([PACKAGED, spec]))[0]
        here, away = os.path.join(root, "here"), os.path.join(root, "away")
        os.mkdir(here)
        os.mkdir(away)
        with open(os.path.join(here, "langspec.json"), "w") as f:
            json.dump(spec, f)
        names, fs = self.pick(rng, touched, fields)
        self.verdicts(here, self.probes(rng, spec, names, fs), spec, [spec, other], c, True)
        if rng.random() < 0.6:
            self.verdicts(away, self.probes(rng, PACKAGED, names, fs), PACKAGED, [other, PACKAGED], c, False)
            c.hit("packaged")
        c.sig = digest(json.dumps(spec, sort_keys=True))
        c.sample = {"specification": self.short(spec)}

    def pick(self, rng, touched, fields):
        have = [o for o in OPS if not KEEP.match(o) and o in {x["Name"] for x in PACKAGED["Ops"]}]
        fs = list(fields)
        for op in ("txn", "global", "itxn_field", "txna"):
            o = next(x for x in PACKAGED["Ops"] if x["Name"] == op)
            fs.append((op, rng.choice(o["ArgEnum"] if op != "txn" else [f for f in o["ArgEnum"] if f not in next(x for x in PACKAGED["Ops"] if x["Name"] == "txna")["ArgEnum"]])))
        fs = [(op, f) for op, f in fs if op != "itxn_field" or f not in ("TypeEnum", "ApplicationArgs", "Accounts", "Applications", "Assets", "ApprovalProgramPages", "ClearStateProgramPages")]
        return list(dict.fromkeys(touched + rng.sample(have, 3) + [f"zz_none{rng.randrange(9)}"])), list(dict.fromkeys(fs))

    # --------------------------------------------------------------- commands
    def signature(self, op):
        kinds = {"U": "int", "B": "bytes", ".": "any"}
        return op["Name"], [kinds[k] for k in op.get("Args", "")], [kinds[k] for k in op.get("Returns", "")[::-1]]

    def listing(self, out, name, new, spec, bad):
        lines = [l for l in out.splitlines() if l.strip()]
        if not new:
            if lines:
                raise bad("there is output although there are no new opcodes")
            return
        if not lines or lines[0] != f"New ops @ {name}:":
            raise bad("the head of the list is missing")
        got = {}
        for l in lines[1:]:
            m = re.fullmatch(r"(\w+)\((.*?)\)(?: -> (.*))?", l.strip())
            if not m:
                raise bad(f"a line that names no opcode: {l}")
            args = [x.split(":") for x in (m[2].split(", ") if m[2] else [])]
            if m[1] in got:
                raise bad(f"{m[1]} listed twice")
            got[m[1]] = (m[1], [t.strip() for n, t in args if n not in ("i", "F")], m[3].split(", ") if m[3] else [], sum(n in ("i", "F") for n, t in args))
        exp = {}
        for o in spec["Ops"]:
            if o["Name"] in new:
                exp[o["Name"]] = (*self.signature(o), 1 if "ArgEnum" in o else o["Size"] - 1)
        if set(got) != set(exp):
            raise bad(f"opcodes listed: {sorted(got)}, new ones: {sorted(exp)}")
        for n in exp:
            if tuple(got[n]) != tuple(exp[n]):
                raise bad(f"{n} is listed as {got[n]}, it is {exp[n]}")

    def chain(self, rng, root, c):
        work = os.path.join(root, "work")
        os.mkdir(work)
        local = None
        done = []
        touched, fields = [], []
        names = {"packaged": {o["Name"] for o in PACKAGED["Ops"]}}
        if rng.random() < 0.3:
            local, touched, fields = self.derive(rng, PACKAGED)
            with open(os.path.join(work, "langspec.json"), "w") as f:
                json.dump(local, f)
            done.append("a langspec.json is there")
        for step in range(rng.choice([1, 2, 2, 3])):
            spec, t, fl = self.derive(rng, rng.choice([PACKAGED, local or PACKAGED]))
            fault = rng.choice([None, None, None, None, 404, 500, "down", "text", "noops", "broken"])
            cmd = rng.choice(["fetch", "fetch", "fetch", "update", "diff", "diffurl"])
            branch = rng.choice(["master", "feature/avm-box", "rel/stable", "v3.12.2-stable", "blob", "blobs/x", "httpx", "fix/http", "a-b_c.d", "rel/blob/1"])
            go = "https://github.com/algorand/go-algorand/raw/%s/data/transactions/logic/langspec.json"
            if cmd == "update":
                arg, url = None, go % "master"
            elif cmd == "diff":
                arg, url = None, None
            else:
                k = rng.randrange(4)
                own = rng.choice(["https://example.org/specs/langspec.json", "http://127.0.0.1:1234/blob/x.json", "https://example.org/github/blob/l.json?x=1", "http://localhost/l"])
                file = f"https://github.com/{rng.choice(['algorand', 'someone'])}/{rng.choice(['go-algorand', 'fork', 'blob'])}/%s/{rng.choice(['master', 'a1b2c3', 'x/blob/y'])}/langspec.json"
                arg, url = [(branch, go % branch), (own, own), (file % "blob", file % "raw"), (file % "raw", file % "raw")][k]
                if k == 2 and "/blob/blob/" in arg:
                    # a repository of the name blob: not determined what is replaced
                    arg, url = file.replace("/blob/%s", "/fork/%s") % "blob", file.replace("/blob/%s", "/fork/%s") % "raw"
                if k == 3 and "/blob/" in arg:
                    arg, url = own, own
            path = os.path.join(root, f"served{step}")
            with open(path, "wb") as f:
                if fault == "text":
                    f.write(b"<html>not json</html>")
                elif fault == "noops":
                    f.write(b'{"EvalMaxVersion": 8}')
                elif fault == "broken":
                    f.write(json.dumps(spec).encode()[:-rng.randrange(1, 900)])
                else:
                    f.write(json.dumps(spec, ensure_ascii=rng.random() < 0.5).encode())
            routes = {}
            if url and fault != "down":
                status = fault if isinstance(fault, int) else 200
                if rng.random() < 0.2:
                    moved = "https://raw.githubusercontent.com/moved/langspec.json"
                    routes = {url: [302, moved], moved: [status, path]}
                    expected_urls = [f"GET {url}", f"GET {moved}"]
                else:
                    routes = {url: [status, path]}
                    expected_urls = [f"GET {url}"]
            else:
                expected_urls = [f"GET {url}"] if url else []
            log = os.path.join(root, f"urls{step}")
            args = ["langspec", {"diffurl": "diff"}.get(cmd, cmd)] + ([arg] if arg else [])
            shown = " ".join(args[1:]) + (f" [{fault}]" if fault and url else "")
            code, out, err = child("command", args, work, env={"RV_ROUTES": json.dumps(routes), "RV_URLS": log})
            done.append(shown)

            def bad(what):
                return Violation(f"langspec {shown}: {what}", commands=done, exit_code=code, output=out[-3000:], error_output=err[-2000:], urls=urls, spec=self.short(spec), local=local and self.short(local))

            urls = open(log).read().splitlines() if os.path.exists(log) else []
            if urls != expected_urls:
                raise bad(f"requests {urls}, expected {expected_urls}")
            p = os.path.join(work, "langspec.json")
            if set(os.listdir(work)) - {"langspec.json"}:
                raise bad(f"files left: {os.listdir(work)}")
            try:
                now = json.load(open(p)) if os.path.exists(p) else None
            except ValueError:
                raise bad("langspec.json is not JSON any more")
            if url and fault:
                if code == 0:
                    raise bad("exit code 0 although it failed")
                if now != local:
                    raise bad("langspec.json changed although it failed")
                c.hit("fetch_failed")
                continue
            if code:
                raise bad("fails")
            mine = {o["Name"] for o in spec["Ops"]}
            if cmd in ("fetch", "update"):
                if now != spec:
                    raise bad("langspec.json is not what was fetched")
                local, touched, fields = spec, touched + t, fields + fl
                new = mine - names["packaged"]
                self.listing(out, arg or "master", new, spec, bad)
                c.hit("fetched")
            else:
                if now != local:
                    raise bad("langspec.json changed")
                if cmd == "diff":
                    new = {o["Name"] for o in (local or PACKAGED)["Ops"]} - names["packaged"]
                    self.listing(out, "./langspec.json", new, local or PACKAGED, bad)
                else:
                    new = mine - {o["Name"] for o in (local or PACKAGED)["Ops"]}
                    self.listing(out, arg, new, spec, bad)
                c.hit("diff")
            c.hit("new_ops_listed", len(new))
        n, fs = self.pick(rng, list(dict.fromkeys(touched)), list(dict.fromkeys(fields)))
        spec = local or PACKAGED
        known = {o["Name"] for o in spec["Ops"]}
        self.verdicts(work, self.probes(rng, spec, n, fs), spec, [PACKAGED, spec], c, local is not None)
        c.sig = digest(done, json.dumps(spec, sort_keys=True))
        if c.sample is None:
            c.sample = {"commands": done, "specification": self.short(spec)}


CHECKS = [Specs]
