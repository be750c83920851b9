#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (the texts live here)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
P = []


def p(id, title, statement, over, text, why, files, state, mech, observe, level_note, level="model_checking"):
    P.append(dict(level=level, level_note=level_note, prop=dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=x, where=files[0]) for x in state], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))))


NOTE = ("TLC decides, for every recorded run, whether spec/Skull.tla allows it; spec invariants are checked on every state. Bounded: kits of spec/Gen.tla within "
        "the stated lengths and random programs.")
LL = "skull/codegen/llvm/"

p("P01", "Expressions evaluate to the value the language defines",
  "In every program the compiler accepts, an expression evaluates to the value given by the documented precedence, associativity and operator meanings, on 64 bit integers, IEEE doubles, booleans, runes and strings. Every operand is evaluated exactly once, from left to right, before the operator is applied. Comparison and equality operators compare values (strings by content).",
  ["programs", "inputs"], "every expression of every accepted program, whatever its nesting, types and operand values (results the language leaves open, such as overflow, excepted)",
  "tests compare a handful of emitted texts; the meaning of an expression depends on combinations of operators, operand kinds and values that no list of examples covers",
  ["skull/parse/ast_node.c", "skull/semantic/expr.c", LL + "expr.c", "skull/shim.ll"], ["expression tree", "LLVM values"],
  [("precedence climbing", "skull/parse/ast_node.c"), ("operator code generation", LL + "expr.c")], ["arguments of external functions called by the compiled program", "exit status"], NOTE)
p("P02", "Control flow runs exactly the statements the source says, in order",
  "A compiled program executes its statements in source order; an if/elif/else chain runs the first branch whose condition holds and no other, a while loop repeats as long as its condition holds, break and continue act on the innermost loop, return ends the function or program at once. The value returned at top level is the exit status (modulo 256), and 0 without one. Loops run in bounded stack space.",
  ["programs", "histories"], "every nesting of branches, loops, jumps and functions, and every sequence of answers its conditions give",
  "nestings and paths through them are unbounded; tests pin the emitted text of a few shapes and never run most of them",
  [LL + "flow.c", LL + "func.c", LL + "core.c", "skull/semantic/flow.c"], ["current basic block", "loop targets"],
  [("branch and loop code generation", LL + "flow.c"), ("exit shim", LL + "write.c")], ["sequence of external calls", "exit status"], NOTE)
p("P03", "Variables, functions and references keep and share state as declared",
  "Reading a variable gives the value it was last assigned; arguments and results are passed by value, each call has its own parameters and locals, and functions see the current value of top-level variables. A reference denotes the variable it was taken from: it reads that variable's current value, also through further references and across calls. Variables of a block or loop body are initialised anew every time control reaches their definition.",
  ["programs", "histories"], "every sequence of definitions, assignments, calls (recursive ones too) and reference operations",
  "the state a program builds up depends on its whole history of assignments and calls",
  [LL + "assign.c", LL + "func.c", "skull/semantic/assign.c"], ["variables", "stack slots", "globals"],
  [("variable storage", LL + "assign.c"), ("calls", LL + "func.c")], ["arguments of external functions", "exit status"], NOTE)
p("P04", "The C backend produces a program that behaves like the LLVM one",
  "For every accepted program, the text written by the C backend is accepted by a C23 compiler and the resulting program makes the same external calls with the same arguments in the same order, and has the same exit status, as the one made with the default backend. Excepted are the constructs recorded as known findings.",
  ["programs"], "every accepted program outside the listed exceptions",
  "the two code generators are separate; tests compare one fixed C text", ["skull/codegen/c/expr.c", "skull/codegen/c/assign.c", "skull/codegen/c/flow.c", "skull/codegen/c/func.c", "skull/codegen/c/write.c"],
  ["C text"], [("C code generation", "skull/codegen/c/core.c")], ["behaviour of the compiled C text"], NOTE)
p("P05", "Optimization levels and debug info never change what a program does",
  "Compiling the same source with -O1, -O2, -O3 or -g gives a program with the same external calls, arguments, order and exit status as without, and the compiler reports the same diagnostics. Programs whose behaviour the language leaves open are excepted.",
  ["programs", "configurations"], "every accepted program and every optimization/debug option",
  "each option changes the code of every program; tests look at a few texts", [LL + "write.c", LL + "debug.c", LL + "expr.c"], ["LLVM module"],
  [("pass pipeline", LL + "write.c"), ("debug metadata", LL + "debug.c")], ["behaviour of the compiled program", "standard error"], NOTE)
p("P06", "Exactly the well-typed programs are accepted",
  "An operator, condition, assignment, definition, argument or returned value whose type does not fit is always refused, so that no value is ever used as one of another type; a program whose types fit is never refused for its types. Types are never converted implicitly, and an alias is the type it names.",
  ["programs"], "every expression form in every context with every combination of types",
  "the combinations of operator, operand types and context grow with each other; tests sample a few", ["skull/semantic/expr.c", "skull/semantic/assign.c", "skull/semantic/func.c", "skull/semantic/types.c"],
  ["types of expressions and symbols"], [("expression typing", "skull/semantic/expr.c"), ("type equality", "skull/semantic/types.c")], ["exit status of the compiler"], NOTE)
p("P07", "Constants are never reassigned",
  "A name defined without mut, a parameter or a function can never be the target of an accepted assignment, wherever the assignment stands; a mutable variable can be reassigned with a value of its type. A constant therefore keeps its first value for as long as it exists.",
  ["programs", "histories"], "every order and nesting of definitions and assignments of a name",
  "whether a name is constant depends on which definition is visible at that point of any history of scopes", ["skull/semantic/assign.c", "skull/semantic/scope.c", "skull/semantic/variable.c"],
  ["constness of variables"], [("assignment validation", "skull/semantic/assign.c")], ["exit status of the compiler", "values seen by external functions"], NOTE)
p("P08", "Names resolve to the innermost visible definition; clashes are refused",
  "A use of a name denotes the definition visible at that point, where blocks, functions and namespaces open scopes that end with them and qualified names reach into namespaces; a name that is not visible is refused. Defining a name again where the language forbids it (same scope, shadowing, other kind of symbol) is always refused, and a name can be reused once its scope has ended.",
  ["programs", "histories"], "every sequence of definitions, uses and scopes opened and closed",
  "visibility depends on the whole history of scopes", ["skull/semantic/scope.c", "skull/semantic/symbol.c", "skull/semantic/func.c", "skull/semantic/assign.c"],
  ["scope chain", "symbol tables"], [("lookup", "skull/semantic/scope.c")], ["exit status of the compiler", "behaviour of the program"], NOTE)
p("P09", "Misplaced control flow is always refused",
  "break and continue outside a loop, else/elif without an if, statements that can never be reached, a value-returning function with a path that does not return, returns of a value from a void function (or of none from another) and declarations where they are not allowed are refused; programs without such a fault are not refused for their control flow.",
  ["programs"], "every nesting and sequence of control flow statements", "faults depend on the arrangement of arbitrarily nested statements",
  ["skull/semantic/flow.c", "skull/semantic/func.c", "skull/semantic/entry.c"], ["current function", "loop nesting"], [("flow validation", "skull/semantic/flow.c")], ["exit status of the compiler"], NOTE)
p("P10", "Every error names the right fault at the right line and column",
  "When a program is refused, standard error shows one line per diagnostic with the file name, severity, the line and column (counted in characters from 1) of the offending token and a message naming the first fault; colours are used exactly when they were asked for. Nothing else is printed.",
  ["inputs", "configurations"], "every rejected source text, with and without colour", "positions depend on everything that comes before a fault, messages on which rule fires first",
  ["skull/common/errors.c", "skull/parse/token.c", "skull/semantic/expr.c", "skull/parse/ast_node.c"], ["token locations", "pending diagnostics"],
  [("error reporting", "skull/common/errors.c"), ("location tracking", "skull/parse/token.c")], ["standard error of the compiler"], NOTE)
p("P11", "Warnings are complete, correct and obey -q and --werror",
  "A warning is shown for every needlessly mutable variable outside of function bodies, every unused variable or function there, every constant condition and every type annotation that could have been deduced, each once and in order, and for nothing else. With --werror a warning makes compilation fail; with -q warnings are not shown and do not affect the result.",
  ["programs", "configurations"], "every program with every combination of the two options", "whether a symbol is used is a property of the whole program",
  ["skull/semantic/unused.c", "skull/common/errors.c", "skull/semantic/flow.c", "skull/semantic/assign.c"], ["used and reassigned marks", "pending diagnostics"],
  [("end of scope checks", "skull/semantic/unused.c")], ["standard error and exit status of the compiler"], NOTE)
p("P12", "Every text is split into tokens without loss, and trivia never matters",
  "Words, brackets, operators, quotes and comments are separated by the documented rules: brackets, commas and unary marks stand alone, quotes and comments run to their end whatever they contain, and blanks, line ends and comments between tokens only separate. Text outside of comments is never dropped or merged, and each token keeps its own line and column.",
  ["inputs"], "every source text up to the explored lengths, over an alphabet with every special character", "tokenization is a state machine over all strings",
  ["skull/parse/token.c", "skull/parse/classify.c"], ["tokenizer state"], [("tokenizer", "skull/parse/token.c"), ("classification", "skull/parse/classify.c")], ["exit status and standard error of the compiler"], NOTE)
p("P14", "Literals denote the value they spell, or are refused",
  "An integer literal in any base, with sign and digit separators, denotes its mathematical value and is refused if it does not fit 64 bits; a float literal denotes the nearest double and is refused when out of range; a rune or string literal denotes exactly its characters with escapes replaced, encoded as UTF-8. Malformed literals and escapes are always refused.",
  ["inputs"], "every spelling of numbers, runes and strings within the explored lengths", "the values and spellings are unbounded; tests check a few",
  ["skull/parse/classify.c", "skull/semantic/expr.c", "skull/common/str.c"], ["literal values"], [("literal evaluation", "skull/semantic/expr.c"), ("escapes", "skull/common/str.c")],
  ["values received by external functions", "exit status of the compiler"], NOTE)
p("P15", "Exactly the texts of the grammar are accepted",
  "Statements, blocks, declarations, calls and expressions are accepted in exactly the forms the language documents: missing or surplus brackets, commas, operands, operators, line ends and blocks are refused wherever they occur, and no well-formed text is refused.",
  ["inputs"], "every sequence of tokens within the explored lengths and mutations of valid programs", "the grammar is recursive; faults can stand anywhere",
  ["skull/parse/ast_node.c"], ["parser position"], [("recursive descent parser", "skull/parse/ast_node.c")], ["exit status of the compiler"], NOTE)


def main():
    import checks
    # P13, P16.. live in mkprops2 once they exist
    try:
        import mkprops2
        mkprops2.add(p, NOTE)
    except ImportError:
        pass
    P.sort(key=lambda x: x["prop"]["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as h:
        for x in P:
            h.write(json.dumps(x["prop"], ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[],
             notes="TLA+ specification in spec/, checked with TLC and bound to the real compiler by trace conformance; see DESIGN.md. Checks build /repo's working tree out of tree (.build).")
    for x in P:
        i = x["prop"]["id"]
        assert i in checks.PLANS, i
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                                evidence_file="evidence/%s.json" % i,
                                technique="TLA+ specification checked with TLC; conformance of recorded runs of the real compiler, on inputs enumerated by TLC, to the specification",
                                level=x["level"], level_note=x["level_note"]))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
main()
