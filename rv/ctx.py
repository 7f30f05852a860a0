"""Random transaction contexts and ledgers for generated programs"""
from .world import World, hbytes
from .teal import U64


def world(rng, prog=None, n_group=4, gi=None, args=None):
    w = World(rng.getrandbits(64).to_bytes(8, "big"))
    w.group = []
    for t in range(n_group):
        txn = {
            "ApplicationArgs": [
                rng.choice([b"", b"a", b"m0", b"m1", b"opt_in", bytes(rng.randrange(256) for _ in range(rng.randrange(0, 12))),
                            rng.randrange(0, 2 ** rng.randrange(1, 65)).to_bytes(8, "big")])
                for _ in range(rng.randrange(5, 8))
            ],
            "Accounts": [hbytes(w.seed, "acct", t, i, n=32) for i in range(3)],
            "Assets": [rng.randrange(1, 10**9) for _ in range(3)],
            "Applications": [rng.randrange(1, 10**9) for _ in range(3)],
            "OnCompletion": rng.choice([0, 0, 0, 1, 2, 4, 5]),
            "ApplicationID": rng.choice([0, 1234, 1234]),
            "TypeEnum": rng.randrange(1, 7),
        }
        w.group.append(txn)
    w.gi = gi if gi is not None else rng.choice([1, 2])
    if args is not None:
        w.group[w.gi]["ApplicationArgs"] = args
    s = w.txn_field(w.gi, "Sender")
    for i in range(3):
        v = rng.choice([0, 1, rng.randrange(1000), rng.randrange(U64)])
        w.app_global[f"i{i}".encode()] = v
        w.app_local[(s, f"i{i}".encode())] = rng.randrange(1000)
        w.app_global[f"b{i}".encode()] = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 65)))
        w.app_local[(s, f"b{i}".encode())] = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 65)))
    w.boxes[b"raw0"] = bytes(rng.randrange(256) for _ in range(12))
    if prog is not None:
        for st in prog.structs:
            for i in range(2):
                w.boxes[f"{st.name}_pre{i}".encode()] = bytes(rng.randrange(256) for _ in range(st.size))
    return w


def router_world(rng, prog):
    """A world which mostly calls one of the routes, sometimes not quite"""
    w = world(rng, prog)
    txn = w.group[w.gi]
    pubs = [f for f in prog.funcs if f.public is not None]
    routed = getattr(prog, "routed", pubs) or pubs
    f = rng.choice(routed if rng.random() < 0.9 else pubs)
    name = f.name.encode()
    if rng.random() < 0.05:
        name = rng.choice([b"", name[:-1], name + b"x", name.upper(), b"\x00" + name])
    args = [name]
    from .lang import is_int, tsize

    for a in f.args:
        n = tsize(a.type)
        bad = rng.random() < 0.04
        if is_int(a.type):
            if n == 1:
                m = 1 if rng.random() < 0.6 else 8
                v = rng.randrange(256).to_bytes(m, "big")
                if bad:
                    v = rng.randrange(256, 70000).to_bytes(8, "big")
            else:
                v = rng.choice([rng.randrange(10), rng.randrange(1000), rng.randrange(U64)])
                v = v.to_bytes(8, "big")
                if bad:
                    v = rng.choice([b"", b"\x01" * 9, v[-1:]])
        else:
            m = n or rng.randrange(0, 41)
            if bad and n:
                m = max(0, n + rng.choice([-1, 1, -n]))
            v = bytes(rng.randrange(256) for _ in range(m))
        args.append(v)
    if rng.random() < 0.02 and len(args) > 1:
        args.pop()
    if rng.random() < 0.1:
        args.append(b"extra")
    txn["ApplicationArgs"] = args
    oc = f.public.get("oc")
    if rng.random() < 0.85:
        from .ref import BUILTIN

        if oc == "CreateApplication":
            txn["ApplicationID"] = 0
        else:
            txn["OnCompletion"] = BUILTIN[oc or "NoOp"]
    return w
