"""A process of its own in some directory: the compiler with the specification in
effect there, or its command line with a stand-in network"""
import json
import os
import sys

sys.dont_write_bytecode = True


def probes():
    import tealish
    from tealish import compile_program, langspec
    from tealish.errors import CompileError, ParseError

    q = json.load(sys.stdin)
    out = {"file": os.path.realpath(tealish.__file__), "verdicts": []}
    for src in q["sources"]:
        try:
            out["verdicts"].append(["ok", list(compile_program(src)[0])])
        except (CompileError, ParseError) as e:
            out["verdicts"].append(["rejected", str(e)])
        except Exception as e:
            out["verdicts"].append(["crash", repr(e)])
    out["new_local"] = list(langspec.get_new_local_ops())
    out["active"] = langspec.get_active_langspec().as_dict()
    a, b = (langspec.LangSpec(s) for s in q["pair"])
    out["compare"] = [list(x) for x in langspec.compare_langspecs(a, b)]
    out["new"] = list(b.new_ops(a))
    json.dump(out, sys.stdout)


def command():
    routes, log = json.loads(os.environ["RV_ROUTES"]), os.environ["RV_URLS"]
    import requests
    from requests.adapters import HTTPAdapter
    from requests.models import Response

    def send(self, request, **kw):
        with open(log, "a") as f:
            f.write(f"{request.method} {request.url}\n")
        r = routes.get(request.url)
        if r is None or r[0] == "down":
            raise requests.ConnectionError("stand-in: no such host")
        resp = Response()
        resp.status_code, resp.url, resp.request = r[0], request.url, request
        if r[0] in (301, 302):
            resp.headers["Location"] = r[1]
            body = b""
        else:
            with open(r[1], "rb") as f:
                body = f.read()
        resp._content = body
        resp.headers["Content-Type"] = "text/plain; charset=utf-8"
        import io

        resp.raw = io.BytesIO(body)
        return resp

    HTTPAdapter.send = send
    from tealish.cli import cli

    cli.main(args=sys.argv[2:], prog_name="tealish")


if __name__ == "__main__":
    # the directory of this file must not be searched, the working directory neither
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.dirname(os.path.realpath(__file__))]
    {"probes": probes, "command": command}[sys.argv[1]]()
