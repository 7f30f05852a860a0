"""Stand-ins for the assemblers: what they do is a function of the text they are
given and of the fault injected for it, and every call is recorded"""
import base64
import hashlib
import json
import os
import signal
import sys
import time

MESSAGES = {
    "fail": "-: 3: unknown opcode: nonsense\n-: 7: label \"x\" not found (it's)",
    "fail_err": "error: something in assembly is wrong",
    "partial": "-: 9: arg 0 wanted type uint64",
    "err400": "3: unknown opcode: nonsense; \u00e9",
    "err404": "/teal/compile was not enabled in the configuration file",
    "err500": "internal trouble",
}
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def vlq(n):
    n = n << 1 if n >= 0 else (-n << 1) | 1
    out = ""
    while True:
        d, n = n & 31, n >> 5
        out += B64[d | (32 if n else 0)]
        if not n:
            return out


def key(text):
    return hashlib.sha256(text.encode()).hexdigest()[:16]


def assemble(text):
    """-> bytecode, source map, program counter -> number of the line of the text, from 1"""
    h = hashlib.sha256(text.encode()).digest()
    mappings, pcs, last, pc = [""], {}, 0, 1
    for n, line in enumerate(text.split("\n")):
        l = line.strip()
        if not l or l.startswith(("//", "#")) or l.endswith(":"):
            continue
        mappings.append("AA" + vlq(n - last) + "A")
        last = n
        size = 1 + hashlib.sha256(h + b"%d" % n).digest()[0] % 5
        mappings += [""] * (size - 1)
        pcs[pc] = n + 1
        pc += size
    code = b"\x08" + h * (1 + h[0] % 9)
    return code, {"version": 3, "sources": ["<stdin>"], "names": [], "mapping": "", "mappings": ";".join(mappings)}, pcs


def record(d, **kw):
    f = os.path.join(d, f"{time.time_ns()}-{os.getpid()}.json")
    with open(f + ".tmp", "w") as o:
        json.dump(kw, o)
    os.rename(f + ".tmp", f)


def goal():
    args = sys.argv[1:]
    text = sys.stdin.buffer.read().decode("utf-8", "replace")
    mode = json.loads(os.environ["STANDIN_MODES"]).get(key(text), "unexpected")
    record(os.environ["STANDIN_LOG"], how="goal", args=args, text=text, mode=mode)
    if mode == "unexpected":
        sys.stdout.write("unexpected text\n")
        return 1
    if mode == "slow":
        time.sleep(int(key(text), 16) % 97 / 400)
        mode = "ok"
    if args[:2] != ["clerk", "compile"] or "-" not in args or "-o" not in args:
        sys.stdout.write("wrong usage\n")
        return 1
    out = args[args.index("-o") + 1]
    code, smap, _ = assemble(text)
    if mode in ("fail", "fail_err"):
        (sys.stdout if mode == "fail" else sys.stderr).write(MESSAGES[mode] + "\n")
        return 1
    if mode == "killed":
        os.kill(os.getpid(), signal.SIGKILL)
    if mode != "nofile":
        with open(out, "wb") as f:
            f.write(code)
    if mode == "partial":
        sys.stdout.write(MESSAGES[mode] + "\n")
        return 2
    if "--map" in args or "-m" in args:
        if mode == "badmap":
            smap = json.dumps(smap)[:-9]
        elif mode == "oldmap":
            smap = json.dumps({**smap, "version": 2})
        else:
            smap = json.dumps(smap)
        if mode != "nomap":
            with open(out + ".map", "w") as f:
                f.write(smap)
    return 0


def algod(log, modes, port_fd):
    """A server, until it is killed"""
    import http.server

    class H(http.server.BaseHTTPRequestHandler):
        def log_message(self, *a):
            pass

        def answer(self, status, body):
            self.send_response(status)
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            self.wfile.write(body)

        def do_POST(self):
            text = self.rfile.read(int(self.headers.get("Content-Length", 0))).decode("utf-8", "replace")
            mode = modes.get(key(text), "unexpected")
            record(log, how="algod", path=self.path, token=self.headers.get("X-Algo-API-Token"), text=text, mode=mode)
            code, smap, _ = assemble(text)
            good = {"hash": "H", "result": base64.b64encode(code).decode(), "sourcemap": smap}
            if mode == "slow":
                time.sleep(int(key(text), 16) % 97 / 400)
                mode = "ok"
            if not self.path.startswith("/v2/teal/compile"):
                return self.answer(404, b"{}")
            if "sourcemap=true" not in self.path.lower():
                del good["sourcemap"]
            if mode == "ok":
                self.answer(200, json.dumps(good).encode())
            elif mode in ("err400", "err404"):
                self.answer(int(mode[3:]), json.dumps({"message": MESSAGES[mode]}).encode())
            elif mode == "err500":
                self.answer(500, MESSAGES[mode].encode())
            elif mode == "notjson":
                self.answer(200, b"<html>hello</html>")
            elif mode == "noresult":
                self.answer(200, b"{}")
            elif mode == "nomap":
                del good["sourcemap"]
                self.answer(200, json.dumps(good).encode())
            elif mode == "oldmap":
                good["sourcemap"] = {**smap, "version": 2}
                self.answer(200, json.dumps(good).encode())
            elif mode == "cut":
                b = json.dumps(good).encode()
                self.send_response(200)
                self.send_header("Content-Length", str(len(b)))
                self.end_headers()
                self.wfile.write(b[: len(b) // 2])
                self.close_connection = True
            elif mode == "close":
                self.close_connection = True
            else:
                self.answer(400, json.dumps({"message": "unexpected text"}).encode())

    s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
    os.write(port_fd, str(s.server_address[1]).encode())
    os.close(port_fd)
    s.serve_forever()


if __name__ == "__main__":
    rc = goal()
    sys.stdout.flush()
    os._exit(rc)
