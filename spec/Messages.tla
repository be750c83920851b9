------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* The text of a diagnostic.                                                *)
(***************************************************************************)
EXTENDS Check

(* the pieces of a message between the holes its arguments fill *)
Pieces(code) ==
    CASE code = "UnexpectedToken" -> <<"unexpected token: \"", "\"">>
      [] code = "EofBracket" -> <<"Reached EOF, expected closing bracket">>
      [] code = "NotInt" -> <<"expected an integer">>
      [] code = "ParamType" -> <<"expected param of type \"", "\", got \"", "\"">>
      [] code = "SameType" -> <<"expected type \"", "\", got \"", "\"">>
      [] code = "RuneTooLong" -> <<"rune contains too many characters">>
      [] code = "BadEscape" -> <<"bad escape sequence: \"", "\"">>
      [] code = "VarNotFound" -> <<"variable \"", "\" not found">>
      [] code = "Overflow" -> <<"overflow occurred while parsing \"", "\"">>
      [] code = "MissingOpen" -> <<"missing opening bracket">>
      [] code = "MissingParen" -> <<"missing closing parenthesis">>
      [] code = "NoFunction" -> <<"function \"", "\" missing declaration">>
      [] code = "MissingBlock" -> <<"", " statement must be followed by code block">>
      [] code = "NoClosingComment" -> <<"expected closing \"#}\" for block comment">>
      [] code = "NoClosingQuote" -> <<"expected closing quote">>
      [] code = "VoidAssign" -> <<"function returning type void cannot be assigned to variable \"", "\"">>
      [] code = "ImportIdent" -> <<"expected identifier after \"import\"">>
      [] code = "VarDefined" -> <<"variable \"", "\" already defined">>
      [] code = "NonIntMain" -> <<"returning non-int expression \"", "\" from main">>
      [] code = "NonBool" -> <<"expected boolean expression">>
      [] code = "FuncDefined" -> <<"cannot redeclare function \"", "\"">>
      [] code = "Shadow" -> <<"variable \"", "\" shadows existing variable">>
      [] code = "ExpectedReturn" -> <<"expected return value in function \"", "\"">>
      [] code = "VoidReturn" -> <<"unexpected return from void function \"", "\"">>
      [] code = "MissingIf" -> <<"else/elif statement missing preceding if statement">>
      [] code = "UnexpectedBlock" -> <<"unexpected code block">>
      [] code = "EmptyBlock" -> <<"code block cannot be empty">>
      [] code = "DeadCode" -> <<"unreachable code">>
      [] code = "ReassignConst" -> <<"cannot reassign const variable \"", "\"">>
      [] code = "InvalidExpr" -> <<"invalid expression near \"", "\"">>
      [] code = "Dangling" -> <<"expression cannot be used on its own">>
      [] code = "Redundant" -> <<"redundant assignment of variable \"", "\" to itself">>
      [] code = "DivByZero" -> <<"division by zero">>
      [] code = "Nested" -> <<"cannot declare nested function \"", "\" as external or exported">>
      [] code = "ExpectedComma" -> <<"expected comma">>
      [] code = "UnclosedCall" -> <<"function call missing closing parenthesis">>
      [] code = "TypeNotFound" -> <<"type \"", "\" could not be found">>
      [] code = "AliasDefined" -> <<"alias \"", "\" is already defined">>
      [] code = "AssignMissingExpr" -> <<"expected expression in assignment variable">>
      [] code = "ReturnMissing" -> <<"expected expression in return">>
      [] code = "ExpectedExpr" -> <<"expected expression after \"", "\"">>
      [] code = "ControlChar" -> <<"control character cannot be used in rune">>
      [] code = "NumParams" -> <<"invalid number of parameters">>
      [] code = "InvalidComment" -> <<"invalid start of comment">>
      [] code = "IllegalSeqAt" -> <<"illegal UTF8 sequence at character offset ", "">>
      [] code = "IllegalSeq" -> <<"illegal UTF8 sequence in this region">>
      [] code = "PowType" -> <<"cannot use type \"", "\" for power operator">>
      [] code = "ExpectedNewline" -> <<"expected a newline">>
      [] code = "NotConst" -> <<"variable \"", "\" should be constant">>
      [] code = "VarUnused" -> <<"variable \"", "\" is unused">>
      [] code = "FuncUnused" -> <<"function \"", "\" is unused">>
      [] code = "AlwaysTrue" -> <<"condition is always true">>
      [] code = "AlwaysFalse" -> <<"condition is always false">>
      [] code = "FileEmpty" -> <<"file is empty">>
      [] code = "NestedComment" -> <<"cannot put opening block comment in existing block comment">>
      [] code = "TrivialType" -> <<"explicit type \"", "\" can be trivialy deduced">>
      [] code = "NotNumeric" -> <<"expected a numeric value">>
      [] code = "Bom" -> <<"BOM found">>
      [] code = "BreakOutside" -> <<"break must be inside while loop">>
      [] code = "ContinueOutside" -> <<"continue must be inside while loop">>
      [] code = "MutAlias" -> <<"type alias cannot be mutable">>
      [] code = "TypeExpr" -> <<"type aliases cannot be used in expressions">>
      [] code = "DoubleUnary" -> <<"cannot use unary operator twice">>
      [] code = "UnexpectedUnary" -> <<"unexpected unary operator">>
      [] code = "RefIdent" -> <<"cannot take reference of non-identifier">>
      [] code = "MissingAssignment" -> <<"variable is missing an assignment">>
      [] code = "UnexpectedComma" -> <<"unexpected comma">>
      [] code = "CannotDeref" -> <<"cannot dereference expression">>
      [] code = "LoadModule" -> <<"could not load module \"", "\": ", "">>
      [] code = "RedefineAs" -> <<"cannot redeclare ", " \"", "\" as ", "">>

RECURSIVE Fill(_, _, _)
Fill(ps, args, k) == IF k >= Len(ps) THEN <<ps[k]>> ELSE <<ps[k], args[k]>> \o Fill(ps, args, k + 1)

(* colour: "no", or "yes" for the terminal escape sequences around the kind *)
Esc == Text(<<27>>)
Kind(sev, colour) ==
    IF colour
    THEN IF sev = "E" THEN Esc \o "[1m" \o Esc \o "[91mCompilation error" \o Esc \o "[0m"
                      ELSE Esc \o "[1m" \o Esc \o "[93mWarning" \o Esc \o "[0m"
    ELSE IF sev = "E" THEN "Compilation error" ELSE "Warning"

Render(file, colour, d) ==
    StrCat(<<file, ": ", Kind(d.sev, colour), ": ">>
           \o (IF d.l = 0 THEN <<>> ELSE <<"line ", Num(d.l), " column ", Num(d.c), ": ">>)
           \o Fill(Pieces(d.code), d.args, 1) \o <<"\n">>)

(* everything written about a compilation; quiet hides the warnings *)
Shown(quiet, ds) == IF quiet THEN SelectSeq(ds, LAMBDA d : d.sev = "E") ELSE ds
Report(file, colour, quiet, ds) ==
    LET s == Shown(quiet, ds) IN StrCat([k \in DOMAIN s |-> Render(file, colour, s[k])])
==============================================================================
