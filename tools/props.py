"""The properties, as data.  tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

E = "src/wizard/expr.py"
V = "src/wizard/value.py"
X = "src/wizard/contexts/contexts.py"
F = "src/wizard/functions.py"
K = "src/wizard/contexts/keywords.py"
FA = "src/wizard/contexts/factory.py"
R = "src/wizard/runner.py"
SR = "src/wizard/scriptrunner.py"
ST = "src/wizard/state.py"
T = "src/wizard/tweaks.py"
SV = "src/wizard/severity.py"
ER = "src/wizard/errors.py"
M = "src/wizard/utils/mappings.py"
CU = "src/wizard/contexts/utils.py"
U = "src/wizard/utils/__init__.py"


def P(id, title, statement, over, quant, why, files, mech, level_note=None, na=None):
    return dict(
        id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
        level_note=level_note, na=na,
    )


PROPS = [
    P(
        "C01",
        "Arithmetic on script values is typed and exact",
        "The arithmetic operators + - * / % ^ and unary minus give, on numbers (booleans count as 0 and 1), exactly the value and the type of "
        "the ordinary arithmetic operation (integers are unbounded, / always gives a float), and + concatenates two strings. Every other "
        "combination of operand types is a script type error, never a value and never a Python error.",
        ["inputs"],
        "for every pair of operand types and every pair of values of these types",
        "The tests evaluate a handful of constants; a wrong rounding, a wrong operand order on one type pair or an accepted bad type pair only shows "
        "on particular values and type combinations.",
        [V, E],
        [("typed operators of values", V), ("evaluation of binary and unary expressions", E)],
    ),
    P(
        "C02",
        "Comparisons are consistent, total per type, and optionally ignore case",
        "== and != are defined on all basic values and are each other's negation; < <= > >= order two numbers or two strings and are a type error on "
        "anything else. The forms with a colon compare two strings ignoring case and are a type error on anything else; sub-packages compare for "
        "equality with names and sub-packages without regard to case and have no order.",
        ["inputs"],
        "for every operator, every pair of operand types and every pair of values, with case-sensitive and case-insensitive forms",
        "The tests compare a few constants; boundary values (equal operands, prefixes, characters around the case ranges, booleans against numbers) are not sampled.",
        [E, V],
        [("comparison of values", V), ("case-insensitive comparison", E)],
    ),
    P(
        "C03",
        "Logical operators follow truthiness and give booleans",
        "and/&, or/| and not/! give a boolean that is the logical combination of the truth of their operands: zero, the empty string and the empty list are "
        "false, everything else is true. Conditions of If, Elif and While use the same truth.",
        ["inputs"],
        "for every pair of operand types and values",
        "The tests use a few booleans and integers, and never combine operand types.",
        [V, E],
        [("logical operators on values", V), ("evaluation of conditions", X)],
    ),
    P(
        "C04",
        "Indexing and slicing stay inside their operand",
        "s[k] is the k-th character of a string (or of a sub-package name) or the k-th sub-package of a list, counting from the end when k is negative, and a "
        "script index error naming k when k is out of range. s[a:b:c] is the usual Python slice for every presence, sign and size of its parts; other operand "
        "types are type errors.",
        ["inputs"],
        "for every string or list up to the bound and every integer index, start, end and step, present or missing",
        "Off-by-one and sign errors at the ends of a sequence, or a mix-up of the optional slice parts, need the right combination of length, index and form; the tests use two or three.",
        [E, V],
        [("indexing and slicing of values", V), ("finding the parts of a slice", E)],
    ),
    P(
        "C05",
        "Operators group as documented",
        "An expression without parentheses means the same as the fully parenthesised expression in which operators bind in the documented order: powers, then "
        "products, then sums, then comparisons, then the logical operators, each grouping from left to right, and a unary operator binds tighter than any "
        "binary operator. Parentheses override this.",
        ["inputs", "programs"],
        "for every pair and triple of binary operators, every unary operator before a binary one, and all operand values",
        "The grouping of a pair of operators is visible only on operand values for which both groupings differ; the tests check a few pairs on one value each.",
        ["src/wizard/antlr4/wizardParser.py", E],
        [("precedence predicates of the generated parser", "src/wizard/antlr4/wizardParser.py"), ("evaluation of the two operands", E)],
    ),
    P(
        "C06",
        "Assignments change exactly the assigned variable",
        "After x = e, x op= e, x++, x--, ++x or --x the variable x has the value of e, of x op e, or x plus or minus one (which is also the value of the "
        "expression), and no other variable changed. A compound assignment or increment of a variable that was never set is a name error, and a failed one leaves every "
        "variable as it was.",
        ["inputs", "histories"],
        "for every starting value of the variables, of every type, and every operator",
        "Tests assign a few constants; wrong operator choice, operand order or an effect on another variable shows on specific values and types.",
        [X, E, ST],
        [("assignment and compound assignment", X), ("increment and decrement", E), ("variables of a state", ST)],
    ),
    P(
        "C07",
        "Built-in functions and methods compute what they document",
        "str, int, float, len, lower, startswith, endswith, find and rfind compute the documented conversion, length, case mapping, prefix/suffix test or position for "
        "every argument, with the documented neutral result on arguments of another type, and s.f(x) is f(s, x). A wrong number of arguments is a "
        "type error.",
        ["inputs"],
        "for every string, number and position, every number of arguments and every argument type",
        "Search positions, missing optional arguments, several prefixes and empty strings interact; the tests call each function once or twice.",
        [F, E],
        [("built-in functions", F), ("argument checking of functions", F), ("method calls", E)],
    ),
    P(
        "C08",
        "Literals denote their text",
        "A string literal is its text between the quotes with the Python escape sequences replaced, a backslash before any other character (also before the letter of an incomplete hexadecimal escape) dropped, and all other "
        "characters, including non-ASCII ones, kept; both kinds of quotes are equivalent. Integer and decimal literals have their decimal value, and True, False and "
        "SubPackages are the constants.",
        ["inputs"],
        "for every literal text up to the bound, over a mixed alphabet of ASCII and other letters",
        "Runs of backslashes, escapes next to the quote and characters outside Latin-1 interact, and only specific short texts expose an error.",
        [E],
        [("decoding of string literals", E), ("number literals and constants", E)],
    ),
    P(
        "C09",
        "If runs exactly the first branch whose condition holds",
        "An If statement evaluates its conditions in order until one is true, runs the body of that condition exactly once, or the Else body when there is none, and then "
        "continues after the EndIf. Conditions after the first true one are not evaluated, and the effects of evaluated conditions and of the body are kept.",
        ["inputs", "programs"],
        "for every chain of conditions up to the bound, every truth assignment and every condition type",
        "Tests run two or three chains with constant conditions.",
        [X],
        [("If statement", X)],
    ),
    P(
        "C10",
        "For and While run their body exactly as often as they should",
        "For x from a to b by s runs its body for a, a+s, ... up to and including b, in this order, for positive and negative steps; For x in v runs it for every "
        "character, file or sub-package of v in order; While runs it as long as its condition holds. Each turn sees the variables left by the one before, and nothing else changes.",
        ["inputs", "programs"],
        "for every start, end, step, sequence and condition within the bounds",
        "Boundary ranges (empty, single value, steps that do not divide the range, negative steps) are rarely tested; the project's tests only count up.",
        [X],
        [("For statement", X), ("While statement", X)],
    ),
    P(
        "C11",
        "Break and Continue act on the innermost block they can act on",
        "Break ends the innermost enclosing For or While loop or Case, and the script continues after it (after a Case: after the Select, or with the next "
        "matching case of a SelectMany); Continue starts the next turn of the innermost enclosing loop. Blocks in between are left, the variables "
        "keep the values they have, and outside of such a block both are script parse errors.",
        ["inputs", "programs"],
        "for every nest of blocks up to the bound, every moment at which the statement runs and every outcome of the conditions",
        "Nesting is combinatorial; the tests contain one loop with one Break.",
        [X],
        [("Break and Continue", X), ("state handed back to the block", FA)],
    ),
    P(
        "C12",
        "Select offers the options of the script and runs the chosen cases",
        "A SelectOne or SelectMany shows its description, options and defaults (marked by a bar, the first option of a SelectOne without one), then runs the cases "
        "of the chosen options in script order; without Break a case falls through into the next one, Default runs when no case matched or the last case falls "
        "through, and every dialog ends.",
        ["inputs", "programs"],
        "for every list of options and cases up to the bound, with arbitrary names, labels, Breaks and answers",
        "The outcome depends on the subset chosen, the order of the cases and the presence of every Break; the tests fix one of each.",
        [X, FA],
        [("parsing of options and defaults", X), ("choice of the cases, falling through", X)],
    ),
    P(
        "C13",
        "A context never changes, so a run can be rewound to any step",
        "Executing a context never changes the context or its state: executing it again gives the same continuation, step for step, and choosing another answer at a "
        "dialog executed before is as if that answer had been given at once.",
        ["inputs", "histories", "programs"],
        "for every step of a run of every program within the bounds, all variable values, all kinds of state-changing statements, and all pairs of answers",
        "A shared mutable object shows only when a run is resumed from an earlier context after a later statement changed the object; the tests never execute a context twice.",
        [X, K, FA, ST, R],
        [("copies of contexts and states", FA), ("state of the runner", R), ("state of the interpreter", ST)],
    ),
    P(
        "C14",
        "Selection keywords keep the selected sub-packages and plugins",
        "SelectSubPackage, SelectPlugin, SelectAll, SelectAllPlugins and their DeSelect forms add or remove exactly the sub-packages and plugins they name, regardless "
        "of case and of what was selected before: a selected sub-package brings its plugins, SelectAllPlugins selects the plugins of the selected sub-packages, and nothing is listed twice.",
        ["inputs", "histories"],
        "for every selection before, every sequence of operations up to the bound, and every name",
        "The result depends on the whole history of selections and on names that differ only by case or are shared between sub-packages; the tests run single keywords.",
        [R, V],
        [("selection keywords", R), ("case-insensitive names", V)],
    ),
    P(
        "C15",
        "Renames, notes and INI tweaks are recorded exactly and in order",
        "RenamePlugin, ResetPluginName, ResetAllPluginNames, Note, EditINI and DisableINILine record exactly what the script says, in order and each once: a plugin has its "
        "latest new name whatever the spelling of its name, INI settings are listed per file (files without regard to case) with value and comment, and notes are texts. A "
        "statement with a wrong number of arguments records nothing.",
        ["inputs", "histories"],
        "for every history of these statements up to the bound, with arbitrary names, values and comments",
        "Renaming, resetting and editing interact through names equal up to case and through the order of the statements; the tests record one entry of each kind.",
        [R, T, V],
        [("renames and notes of the runner state", R), ("INI tweaks", T)],
    ),
    P(
        "C16",
        "Plugin and sub-package names compare without regard to case",
        "Names of plugins and sub-packages are equal, ordered and hashed by their case-folded text, among each other and with texts, so a set, dictionary or sorted list of them never "
        "distinguishes spellings. The name itself keeps its spelling, a name does not compare with anything else, and the plugins of a sub-package are its files with a plugin extension.",
        ["inputs"],
        "for every pair and triple of names up to the bound over a mixed alphabet of ASCII and other letters",
        "Equality, order and hash must agree on every pair, including characters whose case folding changes the length; the tests use a few ASCII names.",
        [V],
        [("case-insensitive names", V), ("plugins of a sub-package", V)],
    ),
    P(
        "C17",
        "Every issue follows the severity set for it",
        "An issue of a script (several defaults, a variable that was not set, a note that is no text, a missing sub-package or plugin) is an error, exactly one warning, or silently allowed "
        "as the setting of this issue says, or the default setting when it has none. Settings of one context never affect another, and an allowed script goes on as documented.",
        ["inputs", "histories", "configurations"],
        "for every history of settings up to the bound, every issue and every script value that may or may not be the issue",
        "The severity reached depends on the order of general and specific settings in several contexts; the tests use one setting at a time.",
        [SV, E, X, R],
        [("severity policy", SV), ("issues of the runner", R), ("issue of variables", E)],
    ),
    P(
        "C18",
        "The script runner calls back in order, and abort and rewind work anywhere",
        "Running a script calls the user interface exactly for the dialogs, requirements, manager functions and warnings of the script in order, with the answers applied, then once at the "
        "end for completion, cancellation or an error, and returns the matching status and state. From any callback the run may be aborted, failed, or rewound to any earlier "
        "callback, after which it continues as if the later callbacks had never happened.",
        ["inputs", "histories", "programs", "fault_sequences"],
        "for every script, every answer, and every placement of aborts, failures and rewinds among the callbacks within the bounds",
        "A leak from an abandoned continuation needs a particular rewind after particular answers; the tests run scripts straight through.",
        [SR, "src/wizard/manager.py", R],
        [("loop over the contexts, abort and rewind", SR)],
    ),
    P(
        "C19",
        "Manager functions pass arguments and results through unchanged",
        "A manager function called in a script calls the corresponding method of the mod manager exactly once with exactly the values of its arguments, and has exactly the result, with its "
        "type, as its value. A wrong number of arguments or an argument of a wrong type is a type error and the manager is not called.",
        ["inputs"],
        "for every function, every number of arguments up to the bound, all argument values and types and all results",
        "The tests call each function once with fixed arguments and results.",
        [F, "src/wizard/manager.py", SR],
        [("manager functions", F), ("argument checking", F)],
    ),
    P(
        "C20",
        "Exec() is the text in its place",
        "Exec(t) behaves like the statements of the text t written in its place: it sees and changes the same variables, and Break, Continue, Return and Cancel in it act on the blocks "
        "around the Exec. Its argument must be one string, a text that does not parse is a parse error at this point, and Exec is not an expression.",
        ["inputs", "programs"],
        "for every nest of blocks outside and inside up to the bound, every leaf statement and all values",
        "The tests execute one text at top level; control flow across the border of the text needs a nest on both sides.",
        [X, E],
        [("Exec and the end of its text", X)],
    ),
    P(
        "C21",
        "Errors of scripts are script errors at the right place",
        "Every way a script can go wrong at run time (types, names, indices, arguments, misplaced statements, missing names; arithmetic errors of Python excepted) is the matching script error with the line, column and "
        "context of the failing construct and what it is about, never another Python exception. The failing statement changes no variable, and the statements before it took effect once.",
        ["inputs", "programs"],
        "for every kind of failure in every construct, nested in blocks and expressions up to the bound, at any turn of a loop, with arbitrary operands",
        "The error position and kind depend on where the failing expression stands; the tests look at the kind of a few errors at top level.",
        [ER, X, E, FA],
        [("errors and their contexts", ER), ("conversion of Python errors", X)],
    ),
    P(
        "C24",
        "Cancel, Return and the end of the script terminate as such",
        "Cancel and Return end the script at once wherever they stand, with the variables as they are; the final context says whether the script was cancelled (with the message, if "
        "any), returned or completed, exactly one of these. A message that is not a string is a type error.",
        ["inputs", "programs"],
        "for every nest of blocks up to the bound, every moment at which the statement runs, and every message",
        "Termination from inside nested loops and cases is a combination of contexts the tests do not sample.",
        [X],
        [("Cancel and Return", X), ("end of a body", X), ("termination context", X)],
    ),
    P(
        "C22",
        "Effects of expressions happen once, in order, wherever they stand",
        "Wherever the language evaluates expressions, every operand is evaluated exactly once and in order, its effects on the variables are seen by everything "
        "evaluated after it and remain after the statement, and the condition of a While is evaluated before every turn. Expressions in parts of a script that are not executed are never "
        "evaluated, and looking at the properties of a context has no effect.",
        ["inputs", "programs"],
        "for every place an expression can stand in, in every nest of blocks up to the bound, with arbitrary effects of every operand",
        "An effect that is lost, doubled or reordered shows only with an effectful operand at that place; the tests use increments in a few statements.",
        [E, X, K, CU],
        [("evaluation of expressions in contexts", CU), ("operands, calls and indices", E), ("arguments of keywords and dialogs", K)],
    ),
    P(
        "C23",
        "Stacked mappings are the mapping below with the changes on top",
        "A stacked mutable mapping reads as the mapping below it with its own changes on top: it behaves in every operation of a mutable mapping as a plain dictionary that started as a copy, "
        "sees later changes below that it does not hide, and never changes the mapping below. This holds for stacks on stacks.",
        ["inputs", "histories"],
        "for every history of operations up to the bound on any level of a stack, with arbitrary keys and values",
        "Deletions, shadowing and re-insertion on different levels interact; only particular histories expose an error.",
        [M],
        [("stacked mappings", M)],
    ),
    P(
        "C25",
        "Keywords reach the keyword visitor of the application",
        "Every keyword statement, under each of its names, calls exactly the visitor method of that name once, when the statement is executed, with its context, the state and exactly the "
        "values of the arguments; the changes the visitor makes to that state are seen by the following statements. A wrong number of arguments is a type error and an error of the visitor ends "
        "the script; the requirements of RequireVersions are the arguments with the missing ones empty.",
        ["inputs", "programs"],
        "for every keyword, number of arguments, argument values and place in a nest of blocks within the bounds",
        "There are about 20 keywords with different arguments; the tests call a few of them once through the runner.",
        [K, FA, "src/wizard/keywords.py"],
        [("keyword contexts", K), ("factory of keyword contexts", FA), ("keyword visitor", "src/wizard/keywords.py")],
    ),
    P(
        "C26",
        "Values given to an application have one fixed type and behave as in scripts",
        "A value keeps the type and content it was made with, void for None; two values are equal in Python exactly when both have the same type and equal contents, and void equals only void. "
        "Its Python operators, comparisons, indexing, slices, membership and truth are those of scripts, type errors and index errors included, and leave their operands as they were.",
        ["inputs"],
        "for every pair of types and every pair of contents within the bounds",
        "The tests compare a few values built from constants of one type.",
        [V, E],
        [("values", V), ("operators of scripts", E)],
    ),
    P(
        "C27",
        "in and in: look for a whole name",
        "t in c is true exactly when the sub-package list c has a sub-package, or the sub-package c a file, whose whole name is t; in: ignores case. Anything else as text or container is a "
        "type error.",
        ["inputs"],
        "for every text and every list of names up to the bound, and every pair of operand types",
        "A match of a part of a name, or of another spelling, needs particular pairs of names; the tests look for one name.",
        [E, V],
        [("membership", V), ("evaluation of in", E)],
    ),
    P(
        "C28",
        "Statements one after another mean what they mean alone",
        "Running a script whose lines are two complete statements is running the first and then, on the state it leaves, the second: same state, calls, warnings, end of the script and errors "
        "(with their lines shifted). Comments, blank lines, indentation, trailing spaces, the kind of line ends, a missing last line end and the splitting of the options of a Select over lines "
        "change nothing.",
        ["inputs", "programs"],
        "for every pair of statements of the listed kinds and every start state within the bounds, except the recorded findings",
        "Statements that leave something behind (a stale context, a parse that reaches into the next line) only show in particular neighbourhoods; the tests run a handful of whole scripts.",
        [X, FA, "src/wizard/antlr4/wizardParser.py"],
        [("sequence of body contexts", X), ("factory of contexts", FA), ("parser", "src/wizard/antlr4/wizardParser.py")],
    ),
    P(
        "C29",
        "A run depends only on the script, its start state and the answers",
        "Runs started from one parsed script by one factory do not influence each other in whatever order their steps are taken, change neither their start state nor the list of sub-packages, and "
        "are the same from a string, a text file or an input stream. exec_until gives the first context of the run of one of the given types, or the end. The state and the factory of an "
        "application are used for every context of the run. A copy of a context by the factory goes on like the original, or in the state given, and shares no state with it.",
        ["inputs", "schedules", "programs"],
        "for every start state and every order of steps of two runs within the bounds, for scripts with every kind of statement",
        "Shared mutable structures (parse tree, visitors, lists of values) only show when two runs overlap in a particular order; the tests finish one run before the next.",
        [X, FA, "src/wizard/interpreter.py", U, ST],
        [("contexts", X), ("factory of contexts", FA), ("exec_until", "src/wizard/interpreter.py"), ("ways to start", U)],
    ),
    P(
        "C30",
        "A broken part of a script is an error when it is reached, never skipped",
        "When the execution of a script reaches a statement that cannot be parsed, it ends with a parse error; it never goes on as if the statement or the rest of its block were not there. "
        "A broken statement whose extent is clear has no effect unless it is reached: everything before it and instead of it is executed as written, and the error is reported on its line. "
        "A stray token or an incomplete expression may already make the block it is in a parse error, without anything after it being executed.",
        ["inputs", "programs", "faults"],
        "for every broken statement of the list, in every block and nest of blocks within the bounds, for every outcome of every condition at every evaluation",
        "The parser recovers from errors by guessing and marks contexts of the tree; whether the mark is looked at depends on which context it is and on the path the execution takes. The tests have one script with broken parts.",
        ["src/wizard/utils/error_strategy.py", X, FA, E, K],
        [("recovery of the parser", "src/wizard/utils/error_strategy.py"), ("execution of a context", X), ("contexts of a Select", FA), ("expressions", E), ("arguments of keywords", K)],
    ),
    P(
        "C31",
        "Functions of an application are called with what the script says",
        "A function given in the dictionary, or else as a method visitNAME of the expression visitor, is called exactly once per call in the script, with the current state and exactly the values of "
        "the arguments, what it changes in that state stays, and what it gives is the value of the call; v.NAME() calls exactly the function of the type of v. Any other name, those of the visitor's own methods included, is a script name "
        "error naming it and calls nothing. A wrapped Python method is called only when the number and types of the arguments are the declared ones; anything else is a type error.",
        ["inputs", "programs"],
        "for all arguments and results, all identifiers as names, and all signatures of wrapped methods within the bounds",
        "Which of several functions is meant, and whether an internal method can be reached, depends on names, types and numbers of arguments together; the tests use a handful of fixed functions.",
        [E, F],
        [("calls of functions and methods", E), ("wrapping of Python methods", F)],
    ),
]

NOTES = (
    "All checks run the same engine (symwiz/): it instruments the modules of /repo/src/wizard at import, executes them on symbolic inputs and asks z3 at every branch and assertion. "
    "No hooks in /repo. Repaired and recorded defects are in known_findings.json."
)
