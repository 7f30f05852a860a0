"""Inspection of programs: the reported structs against the layout of the model
and against what the compiled code does with bytes of known position"""
import json

from .. import avm, common, ctx, lang, layout
from ..common import Check, Violation, digest, quiet, watchdog
from ..world import World
from .sem import assemble, compile_src
from .texts import generate


def inspected(src, **detail):
    import tealish

    try:
        with watchdog(60), quiet():
            return tealish.inspect_program(src)
    except Exception as e:
        raise Violation(f"valid program cannot be inspected: {type(e).__name__}: {e}"[:500], source=src, **detail)


def type_names(t):
    """What a field of this type may be called"""
    k, n = t[0], lang.tsize(t)
    if k == "struct":
        return {t[1].name, f"{t[1].name}[{n}]"}
    if k == "array":
        return {f"uint8[{n}]", f"array[{n}]"}
    if k == "addr":
        return {"addr", "addr[32]"}
    if k in ("int", "uint64"):
        return {"int", "uint64"}
    return {lang.tstr(t)}


def check_report(got, structs, bad):
    if list(got) != ["structs"]:
        raise bad(f"inspection has the parts {list(got)}")
    got = got["structs"]
    if list(got) != [s.name for s in structs]:
        raise bad(f"inspection lists the structs {list(got)}, the program has {[s.name for s in structs]}")
    for s in structs:
        g = got[s.name]
        if sorted(g) != ["fields", "size"]:
            raise bad(f"inspection describes struct {s.name} by {sorted(g)}")
        if list(g["fields"]) != [f for f, _ in s.fields]:
            raise bad(f"struct {s.name} has the fields {[f for f, _ in s.fields]}, inspection lists {list(g['fields'])}")
        off = 0
        for f, t in s.fields:
            x = g["fields"][f]
            if sorted(x) != ["offset", "size", "type"]:
                raise bad(f"inspection describes field {s.name}.{f} by {sorted(x)}")
            if x["size"] != lang.tsize(t) or x["offset"] != off:
                raise bad(f"{s.name}.{f} is at {off}, {lang.tsize(t)} long; inspection says {x['offset']}, {x['size']}")
            if x["type"] not in type_names(t):
                raise bad(f"{s.name}.{f} has the type {lang.tstr(t)}; inspection says {x['type']}")
            off += lang.tsize(t)
        if g["size"] != off:
            raise bad(f"struct {s.name} is {off} long; inspection says {g['size']}")
    try:
        if json.loads(json.dumps(got)) != got:
            raise bad("the inspection does not survive JSON")
    except (TypeError, ValueError) as e:
        raise bad(f"the inspection is not JSON: {e}")


class Inspect(Check):
    prop = "C30"
    quick = 1200
    thorough = 14000
    rule = ("programs of every feature, inspected in two layouts; and programs with structs of random fields whose every field is read and written through variables, function "
            "arguments and boxes on bytes of known position: names, order, types, sizes and offsets reported must be those of the declarations and those the code uses")
    need = {"structs": 1500, "fields_read": 2000, "fields_written": 600, "through_box": 80, "through_function": 80}

    def case(self, rng, index, c):
        if index % 2:
            return self.whole(rng, c)
        self.layouts(rng, c)

    def whole(self, rng, c):
        g, p = generate(rng, extra=("struct", "box"))
        src = lang.source(p)
        first = inspected(src)
        bad = lambda what: Violation(what, source=src, inspection=json.dumps(first, indent=1, default=repr))
        check_report(first, p.structs, bad)
        c.hit("structs", len(p.structs))
        lines, owners = layout.respaced(p, rng)
        v, _, _ = layout.relayout(lines, owners, rng)
        again = inspected(v, original=src)
        if again != first or json.dumps(again) != json.dumps(first):
            raise bad("inspection depends on the layout of the text")
        c.hit("programs")
        c.sig = digest(src)

    # ---- every field, observed
    def structs(self, rng):
        nm = layout.Namer(rng)
        out = []
        for _ in range(rng.randrange(1, 6)):
            s = lang.Struct(nm.struct())
            fn = layout.Namer(rng)
            big = rng.random() < 0.1
            for _ in range(rng.choice([1, 2, 3, 5, 8, 20])):
                o = [lang.INT, lang.U64T, lang.UINT8, lang.UINT8, lang.bytesn(rng.choice([1, 2, 3, 4, 8, 31, 32, 33, 64])), ("array", rng.randrange(1, 40)), ("addr",)]
                if big:
                    o.append(lang.bytesn(rng.choice([200, 254, 255, 256, 257, 300])))
                if out:
                    o.append(("struct", rng.choice(out)))
                t = rng.choice(o)
                if s.size + lang.tsize(t) > 900:
                    continue
                s.fields.append((fn.low(), t))
            if s.fields:
                out.append(s)
        return out or self.structs(rng)

    def text(self, rng, structs):
        out = []
        for s in structs:
            out.append(f"struct {s.name}:")
            for f, t in s.fields:
                if rng.random() < 0.1:
                    out.append(rng.choice(["# the next field", "", "    # x: int"]))
                out.append(f"    {f}: {lang.tstr(t)}" + ("  # bytes[3]" if rng.random() < 0.1 else ""))
            out.append("end")
            if rng.random() < 0.5:
                out.append(rng.choice(["", "# struct Zz:", "# end"]))
        return out

    def use(self, rng, s, v, data, log, c):
        """Lines which read and write fields of variable v, holding data"""
        out = []
        fields = list(s.fields)
        rng.shuffle(fields)
        for f, t in fields[:12]:
            off, _ = s.offset(f)
            n = lang.tsize(t)
            if rng.random() < 0.35 and n <= 64:
                w = bytes(rng.randrange(256) for _ in range(n))
                if lang.is_int(t):
                    out.append(f"{v}.{f} = {int.from_bytes(w, 'big')}")
                else:
                    out.append(f'{v}.{f} = "{"".join(chr(92) + "x%02x" % b for b in w)}"')
                data[off:off + n] = w
                c.hit("fields_written")
            x = bytes(data[off:off + n])
            if lang.is_int(t):
                out.append(f"log(itob({v}.{f}))")
                x = x.rjust(8, b"\0")
            else:
                out.append(f"log({v}.{f})")
            log.append((x, f"{s.name}.{f}"))
            c.hit("fields_read")
        return out

    def layouts(self, rng, c):
        structs = self.structs(rng)
        w = World(rng.getrandbits(64).to_bytes(8, "big"))
        args, main, funcs, log = [], [], [], []
        for i, s in enumerate(structs[:4]):
            first = bytes(rng.randrange(256) for _ in range(s.size))
            data = bytearray(first)
            how = rng.choice(["var", "var", "box", "func"])
            arg = f"Cast(Txn.ApplicationArgs[{len(args)}], {s.name})"
            if how == "box":
                w.boxes[b"k%d" % i] = first
                main.append(f'box<{s.name}> b{i} = OpenBox("k{i}")')
                main += self.use(rng, s, f"b{i}", data, log, c)
                c.hit("through_box")
            elif how == "func":
                # the call happens here, so what it logs comes here
                funcs += [f"func fn{i}(v: {s.name}):"] + ["    " + l for l in self.use(rng, s, "v", data, log, c)] + ["    return", "end", ""]
                main.append(f"fn{i}({arg})")
                args.append(first)
                c.hit("through_function")
            else:
                main.append(f"{s.name} v{i} = {arg}")
                args.append(first)
                main += self.use(rng, s, f"v{i}", data, log, c)
                main.append(f"log(v{i})")
                log.append((bytes(data), s.name))
            if rng.random() < 0.3:
                main.append(f"log(itob(SizeOf({s.name})))")
                log.append((s.size.to_bytes(8, "big"), f"SizeOf({s.name})"))
        w.group = [{"ApplicationArgs": args}]
        src = "\n".join(["#pragma version 8"] + self.text(rng, structs) + main + ["exit(1)", ""] + funcs)
        got = inspected(src)
        bad = lambda what: Violation(what, source=src, inspection=json.dumps(got, indent=1, default=repr))
        check_report(got, structs, bad)
        c.hit("structs", len(structs))
        out, _ = compile_src(src, None)
        o = avm.run(assemble(out, src), w)
        seen = [e[1] for e in o.events if e[0] == "log"]
        for k, (x, what) in enumerate(log):
            if k >= len(seen) or seen[k] != x:
                raise bad(f"the code reads {what} as {seen[k].hex() if k < len(seen) else o.verdict()}, the reported layout gives {x.hex()}")
        if o.kind != "accept" or len(seen) != len(log):
            raise bad(f"the program ended with {o.verdict()} after {len(seen)} of {len(log)} observations")
        c.hit("runs")
        c.sig = digest(src)
        if c.sample is None and len(src) < 1500:
            c.sample = {"source": src, "inspection": got}


CHECKS = [Inspect]
