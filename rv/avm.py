"""Instrumented interpreter for assembled TEAL: the monitor's eyes.

Records every externally visible effect (through World.events), probes (a
`pushint MAGIC+n; pop` pair emitted by inline TEAL in generated programs) with
the stack depth at which they were reached, and stack depth bookkeeping for
subroutines."""
from .teal import SPEC
from .world import Panic, op_call, _u

MAGIC = 7_700_000_000_000


class Outcome:
    def __init__(self):
        self.kind = None  # accept / reject / panic / limit / fell_off
        self.value = None
        self.msg = ""
        self.events = []
        self.steps = 0
        self.stack = []
        self.line = 0
        self.lines = None
        self.depth_errors = []
        self.max_depth = 0
        self.slots = set()

    def verdict(self):
        if self.kind in ("accept", "reject"):
            return ("return", self.value)
        return (self.kind,)


ARGC = {}
for _n, _o in SPEC.items():
    ARGC[_n] = len(_o["args"])


def run(prog, w, max_steps=600000, trace_lines=False, sigs=None):
    """sigs: probe number -> (number of args, number of returns) for the first
    probe of a function, to check its stack discipline"""
    o = Outcome()
    o.events = w.events
    stack = o.stack
    calls = []  # [return pc, depth at call, probe depth, sig]
    main_frame = [None, 0, 0, None]
    pc = 0
    instrs, labels = prog.instrs, prog.labels
    n = len(instrs)
    lines = [] if trace_lines else None
    o.lines = lines
    steps = 0

    def where():
        """TEAL line executed, then those of the calls that led there"""
        return [o.line] + [instrs[f[0] - 1].line for f in reversed(calls)]

    if trace_lines:
        w.locate(where)
    try:
        while True:
            if pc >= n:
                o.kind = "fell_off"
                o.msg = "execution ran off the end of the program"
                break
            steps += 1
            if steps > max_steps:
                o.kind = "limit"
                break
            ins = instrs[pc]
            op, imms = ins.op, ins.imms
            o.line = ins.line
            if lines is not None:
                lines.append(ins.line)
            pc += 1
            if op == "pushint" or op == "int":
                v = imms[0]
                if v >= MAGIC and pc < n and instrs[pc].op == "pop" and v < MAGIC + 10**9:
                    pc += 1
                    p = v - MAGIC
                    frame = calls[-1] if calls else main_frame
                    if frame[2] is None:
                        frame[2] = len(stack)
                        if sigs and p in sigs:
                            frame[3] = sigs[p]
                            want = frame[1] - sigs[p][0]
                            if len(stack) != want:
                                o.depth_errors.append(("entry", p, len(stack), want))
                    elif frame[2] != len(stack):
                        o.depth_errors.append(("probe", p, len(stack), frame[2]))
                    w.ev("probe", p)
                else:
                    stack.append(v)
            elif op == "pushbytes" or op == "byte" or op == "addr":
                stack.append(imms[0])
            elif op == "load":
                o.slots.add(imms[0])
                stack.append(w.scratch.get(imms[0], 0))
            elif op == "store":
                o.slots.add(imms[0])
                w.scratch[imms[0]] = stack.pop()
            elif op == "b":
                pc = labels[imms[0][1]]
            elif op == "bz":
                if _u(stack.pop()) == 0:
                    pc = labels[imms[0][1]]
            elif op == "bnz":
                if _u(stack.pop()) != 0:
                    pc = labels[imms[0][1]]
            elif op == "callsub":
                calls.append([pc, len(stack), None, None])
                if len(calls) > 300:
                    raise Panic("call depth")
                pc = labels[imms[0][1]]
            elif op == "retsub":
                if not calls:
                    raise Panic("retsub with empty callstack")
                frame = calls.pop()
                if frame[3] is not None:
                    want = frame[1] - frame[3][0] + frame[3][1]
                    if len(stack) != want:
                        o.depth_errors.append(("return", frame[3], len(stack), want))
                pc = frame[0]
            elif op == "return":
                o.value = _u(stack.pop())
                o.kind = "accept" if o.value else "reject"
                break
            elif op == "err":
                raise Panic("err")
            elif op == "assert":
                if _u(stack.pop()) == 0:
                    raise Panic("assert")
            elif op == "switch":
                i = _u(stack.pop())
                if i < len(imms):
                    pc = labels[imms[i][1]]
            elif op == "match":
                v = stack.pop()
                k = len(imms)
                if len(stack) < k:
                    raise Panic("match underflow")
                vals = stack[len(stack) - k :]
                del stack[len(stack) - k :]
                for i, x in enumerate(vals):
                    if isinstance(x, bytes) == isinstance(v, bytes) and x == v:
                        pc = labels[imms[i][1]]
                        break
            elif op == "dup":
                stack.append(stack[-1])
            elif op == "dup2":
                if len(stack) < 2:
                    raise IndexError
                stack += stack[-2:]
            elif op == "pop":
                stack.pop()
            elif op == "swap":
                a, b = stack.pop(), stack.pop()
                stack += [a, b]
            elif op == "dig":
                stack.append(stack[-1 - imms[0]] if imms[0] < len(stack) else stack[10**9])
            elif op == "bury":
                v = stack.pop()
                if imms[0] == 0 or imms[0] > len(stack):
                    raise Panic("bury")
                stack[-imms[0]] = v
            elif op == "cover":
                v = stack.pop()
                if imms[0] > len(stack):
                    raise Panic("cover")
                stack.insert(len(stack) - imms[0], v)
            elif op == "uncover":
                if imms[0] >= len(stack):
                    raise Panic("uncover")
                stack.append(stack.pop(-1 - imms[0]))
            elif op == "popn":
                if imms[0] > len(stack):
                    raise Panic("popn")
                if imms[0]:
                    del stack[-imms[0] :]
            elif op == "dupn":
                v = stack[-1]
                stack += [v] * imms[0]
            elif op in ("pushints", "pushbytess"):
                stack += list(imms)
            elif op in ("proto", "frame_dig", "frame_bury"):
                raise Panic("frames are not modelled")
            else:
                k = ARGC[op]
                if len(stack) < k:
                    raise Panic(f"stack underflow in {op}")
                if k:
                    args = stack[-k:]
                    del stack[-k:]
                else:
                    args = []
                stack += op_call(w, op, imms, args)
            if len(stack) > 1000:
                raise Panic("stack overflow")
            if len(stack) > o.max_depth:
                o.max_depth = len(stack)
    except Panic as e:
        o.kind = "panic"
        o.msg = str(e)
    except IndexError:
        o.kind = "underflow"
        o.msg = "stack underflow"
    o.steps = steps
    o.where = where()
    return o
