#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below, for the
properties whose check is registered in rv/checks"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from rv.checks import all_checks  # noqa

N, E, S, T, I = ("tealish/nodes.py", "tealish/expression_nodes.py", "tealish/stdlib.py", "tealish/types.py", "tealish/__init__.py")
SC, U, L, B, C, BI, ER, BA = ("tealish/scope.py", "tealish/utils.py", "tealish/langspec.py", "tealish/build.py", "tealish/cli.py", "tealish/tealish_builtins.py", "tealish/errors.py", "tealish/base.py")

DIFF = ("runtime monitoring: generated programs are compiled by the real compiler and the emitted TEAL is run by an instrumented TEAL interpreter; "
        "an online monitor compares its event trace (logs, state and box writes, inner transactions, outcome) with a reference semantics of the source")
TRUST = ("Held on the generated programs, worlds and inputs actually run; trusts the reference semantics of the documented language and the TEAL interpreter "
         "(written independently of the compiler, from the AVM documentation), which cover AVM 8.")

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=DIFF, note=TRUST, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           **({"state": state} if state else {}),
                           "observe_at": observe or ["outcome, logs, state, boxes and inner transactions of the emitted TEAL when it is run"],
                           "hook_needed": None},
                  _t=technique, _n=note))


prop("C01", "Expressions compute what the source says",
     "For every valid program, each expression (integer and byte literals, constants, variables, parenthesised groups, unary and binary operators, opcode calls, nested calls) "
     "leaves exactly the value the source denotes, with operands evaluated left to right and grouping as written. A run that must fail (overflow, underflow, division by zero, ...) fails, and one that must not does not.",
     ["programs", "inputs"], "every well-typed expression tree and every run-time input",
     "the tests compare emitted text for a few dozen one-line expressions; none runs the TEAL or nests operators, calls and groups freely",
     [E, N, BA], [("expression parsing", "tealish/tealish_expressions.tx, class GenericExpression"), ("binary operations and groups", "expression_nodes.py BinaryOp, Group, UnaryOp"), ("opcode calls", "expression_nodes.py FunctionCall.process_op_call")])
prop("C02", "Conditionals and loops run the statements the source says, in order",
     "For every valid program, if/elif/else chains, while loops, for loops, anonymous for loops, break, assert and exit execute exactly the statements, in the order and number of times, that the source denotes. "
     "This holds at any nesting depth and for adjacent, nested and repeated constructs.",
     ["programs", "inputs"], "every nesting and sequence of control-flow statements and every run-time condition outcome",
     "the tests check the emitted lines of single constructs; nothing runs nested or repeated ones, where label or slot reuse would show",
     [N, I], [("conditional labels and branches", "nodes.py IfStatement, IfThen, Elif, Else"), ("loops", "nodes.py WhileStatement, ForStatement, For_Statement, Break"), ("unique label counter", "__init__.py TealishCompiler.conditional_count / level")])
prop("C03", "Blocks are reached exactly through the jumps, switches and falls the source writes",
     "For every valid program with blocks (nested to any depth), switch, jump and a program start that names blocks, control reaches exactly the block named, never falls through into a neighbouring block, and the code of each block runs with the outer block's variables as its parent wrote them. "
     "The alternatives of a switch are tried in the order written and its else is taken only if none matches.",
     ["programs", "inputs"], "every tree of blocks, every way to leave a block and every subject value",
     "tests cover one or two flat blocks and check emitted text",
     [N, SC], [("switch and jump", "nodes.py Switch, SwitchOption, SwitchElse, Jump, ExitNode"), ("block labels and scopes", "nodes.py Block, scope.py")])
prop("C04", "Functions return what their body computes and touch nothing else",
     "For every valid program, calling a function with any arguments evaluates the arguments left to right once, runs its body, and delivers its return values in order; nested and sequential calls, and functions nested in functions and blocks, never disturb variables of the caller. "
     "A function without return values leaves nothing behind.",
     ["programs", "inputs"], "every non-recursive call graph, argument list, multiple-value return and calling context",
     "tests call one function at a time and compare text; slot clashes and argument order across nested calls are not exercised",
     [N, E, SC], [("function frames: argument slots and return", "nodes.py Func, Return; expression_nodes.py FunctionCall.process_function_call"), ("slot allocation for functions", "scope.py, nodes.py InlineStatement/Func")])
prop("C05", "Variables keep their last assigned value; no two live variables share storage",
     "For every valid program, reading a variable yields the value last assigned to it in the same activation, whatever other variables, scopes, loops, calls and boxes were used in between. "
     "A program needing more storage than exists is rejected at compile time rather than compiled with shared storage.",
     ["programs", "inputs"], "every declaration and assignment pattern over up to the whole scratch space",
     "the number of scopes and variables a test uses is tiny; sharing shows only for particular scope combinations",
     [SC, N], [("slot allocation", "scope.py Scope.declare_var / find_slot; nodes.py declare_var"), ("release at the end of a scope", "nodes.py WhileStatement, ForStatement, Block, Func")],
     observe=["values loaded and stored per scratch slot, logs"])
prop("C06", "The operand stack is balanced at every statement boundary",
     "In every run of every compiled program, each statement leaves the operand stack as deep as it found it (except inline TEAL, push and pop, which change it by what they name), no operation underflows it, and a function returns with exactly its results added. "
     "A program that runs to its end leaves only the exit value.",
     ["programs", "inputs"], "every program, at every executed statement boundary",
     "tests compare text; a leaked value is invisible there and harmless in a short run",
     [N, E], [("discarding unused values", "nodes.py LineStatement / FunctionCallStatement"), ("loops and switch clean-up", "nodes.py ForStatement, Switch")],
     observe=["stack height at each line of TEAL mapped back to source statements"],
     technique="runtime monitoring: stack-height invariant asserted by an instrumented TEAL interpreter at every statement boundary of generated programs")
prop("C07", "Struct fields read and write exactly their own bytes",
     "For every struct layout (integers, small integers, sized bytes, nested structs and arrays of small integers), reading a field yields the bytes at its place decoded as its type, and assigning a field changes only those bytes. "
     "Initialising a struct gives a value of exactly the struct's size.",
     ["programs", "inputs"], "every layout up to the limits of a value, every field and stored content",
     "tests use two or three fixed layouts and compare text, so offset errors past the first fields are unseen",
     [N, E, T], [("field offsets and sizes", "types.py StructType / StructField"), ("field access", "expression_nodes.py StructOrBoxField; nodes.py StructOrBoxAssignment")])
prop("C08", "Boxes hold exactly what the program writes, at the key it names",
     "For every valid program, creating, opening and addressing a box and reading, writing or deleting it affects exactly the box of the named key: a field write changes only that field's bytes, a read gives the current contents, and the size or existence checks the source asks for are made.",
     ["programs", "inputs"], "every struct layout, key expression, box content and existence state",
     "tests check text of one access each; no run of the emitted code touches a box",
     [N, E, S], [("box declaration and access", "nodes.py BoxDeclaration; expression_nodes.py StructOrBoxField; nodes.py StructOrBoxAssignment"), ("box functions", "stdlib.py OpenBox, CreateBox, Box ...")])
prop("C09", "Checked conversions accept exactly the values that fit and keep the value",
     "Every run-time conversion the language offers (casts, type checks, conversions, padding, opening a box) yields the same value in its new representation when the value fits the target type, and stops the program when it does not. "
     "No conversion lets a value of the wrong size through.",
     ["programs", "inputs"], "every source and target type pair and every run-time value, in particular around each size boundary",
     "tests compile conversions and compare text; they never execute one on a boundary value",
     [S, T], [("conversion functions", "stdlib.py Cast, SizeCheck, EnsureType, Convert, ToBytes, Rpad, FromBytes"), ("size checks", "types.py, stdlib.py")])
prop("C10", "Type rules: ill-typed programs are rejected, well-typed ones accepted",
     "A program that gives a variable, argument, return value, struct field, box, operator or built-in function a value of a type its declaration does not allow, or a condition, loop bound, index, exit or switch a value of the wrong kind, is rejected at compile time; one that respects the types is accepted.",
     ["programs"], "every combination of declared type, context and expression type",
     "tests try a few combinations out of the whole matrix of contexts and types",
     [T, N, E, S], [("assignability", "types.py AVMType.can_hold / type_lookup"), ("checks in each context", "nodes.py Assignment, Func, Return; expression_nodes.py"), ("argument checks of built-ins", "stdlib.py")],
     technique="runtime monitoring: the compiler's verdict on generated programs is checked against a table of the type rules (accept/reject monitor)",
     note="Held on the generated programs; the acceptance table is written from the documentation and probed against the released behaviour.")
prop("C11", "Standard library functions compute what they document",
     "For every standard library function and every argument, the compiled code computes the documented result and fails exactly when documented: casts, conversions between numbers and byte strings, padding, concatenation of any number of arguments, sizes, addresses and ARC-28 events.",
     ["programs", "inputs"], "all functions with all argument kinds, nested in arbitrary expressions",
     "tests compile each once with one argument list and compare text",
     [S], [("standard library", "stdlib.py")])
prop("C12", "The router dispatches a call to the public function named, with its arguments decoded",
     "In a program with a router, a call whose first argument names a listed public function, with matching completion kind and creation state, runs exactly that function with the following arguments decoded and checked as their types, and logs its results in the documented form; any other call is refused. A declaration of a public function that is not understood (its parameters, or two declarations) is an error.",
     ["programs", "inputs"], "every set of public functions, signatures, completion kinds and call arguments",
     "tests compile one router and compare text; no call is ever dispatched",
     [N, S], [("router", "nodes.py Router"), ("public functions", "nodes.py Decorator, Func")])
prop("C13", "Inner transactions are submitted with exactly the fields written",
     "For every valid program, each inner transaction or group is submitted once, with exactly the fields and values written, in order (array fields by index), grouped as written, and afterwards its results are those of that transaction.",
     ["programs", "inputs"], "every field subset, value expression, group shape and position in the program",
     "tests compare text for a handful of field sets",
     [N], [("inner transactions", "nodes.py InnerTxn, InnerGroup, InnerTxnFieldSetter"), ("results", "expression_nodes.py InnerTxnField, InnerTxnArrayField")])
prop("C14", "Every AVM opcode can be called with exactly its operands",
     "For every opcode of the AVM the language exposes, a call with the documented immediates and operands in order is accepted and emits that opcode with those immediates after the operands; a wrong number or kind of operands is rejected.",
     ["programs", "configurations"], "all opcodes, immediates and operand forms",
     "tests use about a tenth of the opcodes, once each",
     [E, L, BI], [("opcode calls", "expression_nodes.py FunctionCall.process_op_call"), ("language specification", "langspec.py, tealish/langspec.json")],
     technique="runtime monitoring: emitted opcodes of generated calls are checked against an independent table of AVM opcodes and executed where they can be; rejection monitor for wrong operands",
     note="Held on the generated calls; trusts the independent opcode table.")
prop("C15", "Transaction, group, global and inner fields read the field named",
     "For every field expression (of the current transaction, of a group transaction with constant, computed or relative index, of globals, of inner transactions, with constant or computed array index) the compiled program reads exactly that field of exactly that transaction.",
     ["programs", "inputs"], "all fields, index forms and positions",
     "tests use a few fields, in text",
     [E], [("field expressions", "expression_nodes.py TxnField, TxnArrayField, GroupTxnField, GroupTxnArrayField, PositiveGroupIndex, NegativeGroupIndex, GlobalField")])
prop("C16", "Literals and constants denote exactly their written bytes and numbers",
     "Every string, hex, base and integer literal and every constant denotes in the compiled program exactly the bytes or number written, whatever characters it contains (quotes, escapes, comment signs, delimiters), in every place a literal can stand.",
     ["inputs", "programs"], "all literal texts in all positions",
     "tests use plain words and small numbers; the hostile characters are what breaks text-based translation",
     [E, N, I, U], [("literals", "expression_nodes.py Integer, Bytes; nodes.py Const"), ("comment and quote handling", "utils.py split_outside_quotes; nodes.py"), ("writer", "__init__.py TealWriter.write")])
prop("C31", "Inline TEAL is passed through unchanged and in place",
     "Every line of inline TEAL, alone or in a teal block, appears in the compiled program exactly where written and unchanged, comments and strings included, and runs between the statements around it.",
     ["programs", "inputs"], "all TEAL lines in all statement positions",
     "one test with one line of TEAL",
     [N], [("inline TEAL", "nodes.py Teal, TealLine")])


prop("C17", "Names resolve to the innermost visible declaration; misplaced or undefined ones are errors",
     "A use of a variable, constant, function, block or struct is accepted exactly when a declaration is visible from it, and refers to the innermost one; duplicate visible declarations, undefined names, and statements in places the language does not allow are rejected with an error rather than compiled.",
     ["programs"], "every tree of scopes, placement of declaration and use, and misplaced statement",
     "tests check a couple of undefined names; the relation between scope trees and uses is combinatorial",
     [SC, N, BA], [("scopes", "scope.py Scope.lookup_*"), ("placement", "nodes.py possible_child_nodes, Program")],
     technique="runtime monitoring: generated scope trees with one declaration and one use (or two competing declarations); verdict of the compiler and the value observed at run time against an executable visibility rule",
     note="Held on the generated scope trees.")
prop("C18", "Whatever compiles is well-formed TEAL",
     "Every program the compiler accepts yields TEAL that assembles: the declared version line comes first, every branch target is defined exactly once, every instruction is known and its immediates are well-formed; and the same after minification or comment removal.",
     ["programs"], "every accepted program, valid or mutated",
     "tests never assemble the output",
     [I, N, E, U], [("output", "__init__.py TealWriter, TealishCompiler.check_labels"), ("version", "nodes.py TealVersion; langspec.py")],
     technique="runtime monitoring: an independent TEAL assembler checks every output of the compiler over generated and mutated programs and the repository's own examples",
     note="Held on the programs explored; trusts the independent assembler.", observe=["compiler output"])
prop("C19", "The source map points every TEAL line and program counter at its source line",
     "For every compiled program, each TEAL line that comes from a source statement maps to that statement's line, every lookup direction agrees with the others and with the program counters of the assembler's map, and saving and reloading the map (also as a mapping of text keys) changes nothing.",
     ["programs", "inputs"], "all programs, lines, program counters and assert messages",
     "tests look at one small map",
     [U, I], [("line tracking", "__init__.py TealWriter"), ("map", "utils.py TealishMap")],
     technique="runtime monitoring: the source line the map gives for every executed TEAL line is compared with the statement the reference semantics executes; map algebra checked over recorded lookups",
     observe=["map lookups, executed TEAL lines"])
prop("C20", "The source is carried along in the TEAL as comments that change nothing",
     "The readable output contains the source statements as comments next to the code they produced, in source order, and the comments that stand between statements; comments (ordinary, trailing or odd ones) never change what the program does.",
     ["programs", "inputs"], "every program and comment text",
     "one expected-output file",
     [I, N], [("writer", "__init__.py TealWriter.write"), ("comments", "nodes.py Comment, BaseNode.write")],
     technique="runtime monitoring: outputs of generated programs are scanned for the statements, in order; comment variants are compared instruction by instruction")
prop("C21", "Formatting is idempotent and canonical",
     "Formatting a formatted program changes nothing, and programs that differ only in layout (spaces, indentation, blank lines) that the language ignores have the same formatted statements.",
     ["programs"], "every valid program in every layout",
     "tests format a few snippets once",
     [N, I], [("formatter", "nodes.py _tealish methods; __init__.py TealishCompiler.reformat")],
     technique="runtime monitoring: format outputs of generated programs in random layouts compared (idempotence and confluence monitor)", observe=["formatter output"])
prop("C22", "Formatting never changes what a program means and keeps its comments",
     "The formatted program compiles, to the same instructions as the original, and contains the same comment lines in the same order.",
     ["programs"], "every valid program",
     "tests compare text of a few snippets",
     [N, I], [("formatter", "nodes.py _tealish methods"), ("entry point", "__init__.py reformat_program")],
     technique="runtime monitoring: compile before and after formatting, compare the assembled instructions", observe=["formatter output, compiler output before and after"])
prop("C23", "Minified and comment-stripped TEAL behaves the same, and its line map is right",
     "Minifying the TEAL of any program, or stripping its comments, gives a program with the same instructions in the same order with consistently renamed labels, and the returned line map gives for each remaining line the line it came from.",
     ["programs", "inputs"], "all emitted or hand-written TEAL lines, with comment signs and labels inside strings, names sharing prefixes",
     "one small example",
     [U], [("minify", "utils.py minify_teal, replace_labels"), ("strip", "utils.py strip_comments")],
     technique="runtime monitoring: assembled instruction streams before and after compared with an independent assembler; line map checked line by line", observe=["minified output and its map"])
prop("C24", "Meaning depends on names, layout and comments only as the language says",
     "Two programs that differ only in the layout, comments or blank lines compile to the same instructions; two that differ by a consistent renaming of variables, constants, functions, blocks, structs and fields compile to the same instructions up to label names.",
     ["programs"], "every program, layout and injective renaming",
     "tests use one layout and short names",
     [N, E, I, SC], [("line parsing", "nodes.py patterns"), ("expression grammar", "tealish_expressions.tx"), ("label generation", "scope.py, nodes.py")],
     technique="runtime monitoring: metamorphic comparison of the instructions of program variants", observe=["compiler output of variants"])
prop("C25", "Compilation is deterministic and independent of history and of other threads",
     "Compiling, formatting or inspecting a source gives the same result every time, in any order after any other successful or failing compilation in the process, in any thread, and under any hash seed.",
     ["histories", "schedules", "programs"], "all sequences and interleavings of calls in one process, and any process",
     "each test compiles a fresh program; none checks state left by the one before",
     [I, N, T, L, BA], [("compiler state per program", "__init__.py TealishCompiler"), ("module-level registries", "types.py, langspec.py, nodes.py, base.py")],
     technique="runtime monitoring: results recorded over random histories of calls, concurrent threads with injected switches and fresh processes are compared with single-call results", observe=["results of each call in a recorded history"])
prop("C26", "Any text terminates with output or one reported error",
     "For any input text, compiling, formatting or inspecting terminates in time roughly proportional to its length and either succeeds or raises a syntax or compile error naming a line of the input; no other failure escapes.",
     ["inputs"], "all texts: valid programs with edits, token soup, long lines, deep nesting, odd characters",
     "tests try a few malformed lines",
     [I, N, E, ER, BA], [("error reporting", "__init__.py report_errors; errors.py"), ("line parsing", "nodes.py, base.py"), ("expression parser", "expression_nodes.py parse_expression")],
     technique="runtime monitoring: hostile inputs under an exception monitor and a step counter (interpreter line events, regular-expression watchdog)", observe=["exceptions, elapsed work"])
prop("C27", "The command line writes exactly the documented files",
     "Each command reads the named source (or every source of the named directory) and writes exactly its outputs, with the contents the library gives for that source; a failing source is reported with a nonzero exit, and nothing else in the file system changes.",
     ["inputs", "configurations", "histories"], "all commands, options, file trees and failing sources",
     "two or three command line tests",
     [C], [("commands", "cli.py compile, build, format, inspect, langspec")],
     technique="runtime monitoring: file system snapshots around each real command in a scratch directory compared with the expected effects", observe=["exit code, output, file tree before and after"])
prop("C28", "Build artefacts belong together, whatever the assembler does",
     "After a build with an assembler, the program, its bytecode and its map written belong to the same source, and the map composes the compiler's and the assembler's; if the assembler fails the command fails with its message, and concurrent or repeated builds never mix up their files.",
     ["fault_sequences", "schedules", "inputs"], "all assembler behaviours (success, error, garbage, missing) and concurrent builds",
     "no test runs an assembler",
     [B, C, U], [("assemblers", "build.py assemble_with_goal, assemble_with_algod"), ("build command", "cli.py _build"), ("map composition", "utils.py TealishMap.update_from_teal_sourcemap")],
     technique="runtime monitoring: stand-in assemblers (a goal program and an algod server on loopback) with injected faults; artefacts checked against recorded calls", observe=["assembler calls, files"])
prop("C29", "The active language specification alone decides what opcodes exist",
     "With a specification in effect (the packaged one, or a local one in the working directory), exactly its opcodes and fields, with its operand kinds, are usable; fetching, updating and comparing specifications report and store exactly what they name.",
     ["configurations", "inputs"], "all specifications derived by adding, removing or changing entries",
     "tests only use the packaged one",
     [L, C], [("specification", "langspec.py LangSpec, Op"), ("choice of the active one", "langspec.py get_active_langspec"), ("commands", "cli.py langspec")],
     technique="runtime monitoring: commands run in scratch directories with generated specifications; verdicts and outputs checked against the specification given", observe=["verdicts, output, stored file"])
prop("C30", "Inspection reports every struct and its layout as compiled",
     "Inspecting a program lists exactly its structs with each field's type, size and offset and the total size, as the compiled program uses them.",
     ["programs"], "all programs with structs",
     "one small example",
     [I, T, C], [("inspect", "__init__.py inspect_program, get_structs")],
     technique="runtime monitoring: inspection results compared with the layout of the generated model and with offsets observed in compiled accesses", observe=["inspection result"])


prop("C32", "A reported error or warning names the line at fault",
     "When a program is refused because of a faulty statement (undefined name, wrong type or count, unknown field, malformed line or expression), the error names a line of that statement as numbered in the text given, "
     "wherever the statement stands and whatever lines are above it; the formatter and inspection name the same fault if they refuse the text, and a warning names the line it is about.",
     ["programs", "inputs"], "every valid program with a fault in any one statement, in every layout",
     "tests check that a few wrong programs raise, hardly ever which line is named",
     [N, E, I, BA, ER, S], [("line counting", "__init__.py TealishCompiler.consume_line; nodes.py BaseNode.__init__"), ("errors and warnings", "errors.py; __init__.py report_errors"), ("parse errors", "nodes.py consume methods")],
     technique="runtime monitoring: faults put into generated programs at known lines; the lines named by the errors and warnings raised are monitored", observe=["errors raised, warnings printed"])


def main():
    have = all_checks()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] in have:
                f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    for p in P:
        if p["id"] in have:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check.sh {p['id']} quick",
                "thorough_cmd": f"./check.sh {p['id']} thorough",
                "technique": p["_t"],
                "level": "exploration",
                "level_note": p["_n"],
            })
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo: everything is observed at the compiler's inputs and outputs, in the execution of its output, and by wrapping public calls from the harness."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    missing = sorted(set(have) - {p["id"] for p in P})
    if missing:
        print("no text for", missing)
    print(len(checks), "checks")


main()
