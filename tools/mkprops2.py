"""properties about the compiler as a program"""


def add(p, NOTE):
    p("P13", "No input makes the compiler crash, hang or touch memory it should not",
      "Whatever bytes the source consists of, and whichever options are given, the compiler ends by itself with exit status 0 or 1, never by a signal, an abort or an internal failure, and never reads or writes memory outside of live objects or runs into undefined behaviour. Status 1 always comes with a message, status 0 never with an error, and all output forms (LLVM, assembly, object, C, any optimization level, -g) agree on whether the source is accepted; --werror may only turn success into failure. Nesting deeper than 200 levels is excepted.",
      ["inputs", "configurations"], "every sequence of bytes, including invalid UTF-8, NUL bytes, truncated programs, very long tokens and lines, with every output form", "memory errors and crashes hide in combinations of malformed input that tests do not list",
      ["skull/common/str.c", "skull/parse/token.c", "skull/parse/ast_node.c", "skull/semantic/entry.c", "skull/codegen/llvm/core.c", "skull/codegen/c/core.c"],
      ["heap objects: tokens, AST, symbols, strings"], [("pipeline", "skull/pipeline.c"), ("UTF-8 decoding", "skull/common/str.c")], ["exit status", "standard error", "reports of AddressSanitizer and UBSan"],
      "spec/Robust.tla on the compiler built with AddressSanitizer and UBSan: the specification decides acceptance, all forms must end in order and agree. Random and enumerated inputs; long ones are only held to ending in order.")
    p("P16", "The command line is obeyed exactly or refused",
      "Every list of arguments is either carried out exactly as documented (input, -o, -c, -S, -E, -g, -q, -O1..3, --c-backend, --werror, --color, --llvm-no-verify, -- for the linker, -h, -v) or refused with exit status 1 and a message naming a fault: unknown, repeated, incomplete or contradicting options, and names without .sk, are always refused. The order of options does not matter, file names are taken literally whatever characters they contain, and COLOR is honoured unless --color contradicts it.",
      ["inputs", "configurations"], "every sequence of arguments up to three words over 45 words, with every value of COLOR, and every output mode with every kind of source and destination", "the number of combinations and orders of options is far beyond the dozen that tests try",
      ["skull/cli.c", "skull/real_main.c"], ["parsed options"], [("option parsing", "skull/cli.c"), ("linking", "skull/codegen/llvm/write.c")], ["exit status", "standard output", "standard error"],
      "TLC enumerates command lines (spec/CliGen.tla) and judges what the real front end did with each (spec/CliConform.tla).")
    p("P17", "Output is made in full, or failure is reported and nothing left behind",
      "Exit status 0 means that exactly the requested file was written, complete, of the requested kind and standing for the source; no other file is created, changed or removed, and intermediate files are gone. If anything fails (faulty or unreadable source, directory or device in the way, full disk, missing directory, linker missing, failing or killed), the exit status is not 0, a message is shown, and no file is left over or damaged except a destination the linker had already begun. Files of earlier runs have no influence.",
      ["histories", "fault_sequences", "configurations"], "every output mode, source, destination and fault of the world it meets", "tests run the success path of a few modes and never make the disk full or the linker fail",
      ["skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/real_main.c", "skull/common/io.c"], ["files written", "object file that is to be linked"],
      [("writing and linking", "skull/codegen/llvm/write.c")], ["directory tree before and after", "exit status"],
      "spec/Cli.tla follows the file system through every phase; invariants FailureIsClean, SuccessMakes, SourcesStay; the real tree is compared with it after every invocation, with linkers that fail, die or leave half a file.")
    p("P18", "A compiled module works from C as declared",
      "An object, assembly or LLVM file made from a module defines the function .module, which runs it, and one symbol module.name per exported function or variable, and nothing else that could clash. Called from C with the types of the documentation, exported functions get their arguments and return their results unchanged, exported variables can be read, and module state is kept between calls, in any order of uses and with every option.",
      ["programs", "histories", "configurations"], "every set of exports with every signature of basic types, and every sequence of uses", "the tests link one C program to one module",
      ["skull/codegen/llvm/func.c", "skull/codegen/llvm/assign.c", "skull/codegen/llvm/core.c", "skull/codegen/llvm/write.c"], ["linkage of symbols", "globals of the module"],
      [("symbol names and linkage", "skull/codegen/llvm/func.c"), ("globals", "skull/codegen/llvm/assign.c")], ["symbol table of the object file", "values seen by a C program"],
      "spec/Embed.tla continues the behaviour of Exec.tla after the module has run; random modules used from generated C programs.")
    p("P19", "The result depends on nothing but source and options",
      "Two runs with the same source, name and options give the same exit status, the same diagnostics and byte for byte the same output, whatever the directory, locale, environment, heap contents, order of options and files left from before. Of an accepted source only its tokens count: other blanks, comments, indentation or empty lines give the same code.",
      ["inputs", "configurations", "histories"], "every source and option, in every environment", "a test runs in one environment, once; dependence on uninitialised memory or on left-over files does not show there",
      ["skull/pipeline.c", "skull/codegen/llvm/core.c", "skull/codegen/c/core.c", "skull/semantic/shared.c", "skull/common/local.c"], ["output bytes"],
      [("pipeline", "skull/pipeline.c"), ("locale", "skull/common/local.c")], ["output files and standard error of the compiler"],
      "spec/Det.tla: histories of calls must describe one function of text and options, and of tokens where the text is accepted.")
