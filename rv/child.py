"""A process of its own: calls of the library in order"""
import pickle
import sys

sys.dont_write_bytecode = True
if __name__ == "__main__":
    import os

    os.environ["VERIF_REPO"] = sys.argv[1]
    from rv import common
    from rv.checks.calls import call, plain

    common.import_tealish()
    with common.quiet():
        out = [plain(call(op, src)) for op, src in pickle.loads(sys.stdin.buffer.read())]
    sys.stdout.buffer.write(pickle.dumps(out))
