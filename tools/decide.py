"""How each property is decided (for DESIGN.md), and the measured times."""

HOW = {
    "C01": "scripts `r = a op b` with both variables symbolic, for every pair of types; oracle: the same Python operation on the raw operands, its type included, or WizardTypeError exactly outside the documented table.",
    "C02": "all comparison operators on two symbolic values of every pair of types at once: negation, totality, symmetry with the reversed operator, agreement with the order of the raw values and of the lower-cased texts.",
    "C03": "as C01 for the logical operators and for If/Elif/While conditions; oracle: truth table over the documented truth of each operand.",
    "C04": "`s[k]` and `s[a:b:c]` with all of them symbolic; oracle: indexing of the same symbolic sequence written out as a case distinction over the positions.",
    "C05": "an unparenthesised expression and the fully parenthesised one (made from the documented order) evaluated on the same symbolic operands; the solver decides that they have the same value, type or error for all operands.",
    "C06": "one assignment or increment on symbolic variables; oracle: the value of the corresponding expression, every other variable the same term as before, and nothing changed after an error.",
    "C07": "every function called on symbolic arguments of every type and number; oracle: definitions of prefix, position and conversion written out character by character.",
    "C08": "the text of a literal token is symbolic; oracle: a decoder of escapes written from the Python reference, character by character; candidates are replayed through the real lexer.",
    "C09": "chains with symbolic conditions and a log of what is evaluated and run.",
    "C10": "ranges with symbolic start and end (the number of turns is decided by the path condition), sequences with symbolic contents; oracle: the documented list of values; the log of the body has to be equal to it as a term.",
    "C11": "nests of blocks with symbolic guards; oracle: the reference reading in harness/prog.py with Python exceptions for Break and Continue.",
    "C12": "Select statements whose option and case texts are symbolic, for every answer; oracle: bars and labels read from the documentation, then the documented fall-through.",
    "C13": "every context of a run is snapshotted; the run is then repeated from every step (and dialogs with other answers), and the solver decides that all snapshots are equal.",
    "C14": "one operation with an arbitrary name on an arbitrary selection; oracle: sets of case-folded names.",
    "C15": "histories of operations with symbolic names and texts; oracle: an association list compared by case-folded name, and the list of tweaks.",
    "C16": "pairs and triples of symbolic names; oracle: comparison of the case-folded texts; sets, dictionaries and sorted lists behave accordingly.",
    "C17": "histories of settings on two contexts, then a script with the issue under symbolic conditions; oracle: the last setting of the issue, or the default one.",
    "C18": "a script runner whose callbacks ask the harness: every answer, abort, rewind and failure is a choice; oracle: a replay of the list of callbacks as the documentation has it, on symbolic variables.",
    "C19": "a manager that records calls with symbolic arguments and gives symbolic results.",
    "C20": "a program with Exec(text) and the same program with the text in its place, on the same symbolic variables: same log, variables, end and error.",
    "C21": "every way to fail at every place; oracle: the class of error, the line, column and context of the construct (known from the text) and the variables before it.",
    "C22": "application functions as operands that log a variable and change it by a symbolic amount: any reordering, repetition or loss of an effect changes a term of the log.",
    "C23": "histories of operations with symbolic keys and values on stacks of mappings, next to plain dictionaries (as association lists); everything readable is compared at every level.",
    "C24": "the reference reading with the three ends of a script, in every nest with symbolic guards.",
    "C25": "a visitor that records calls; arguments symbolic; every name of every keyword.",
    "C26": "the Python operators of values made by an application and the same operator in a script on the same symbols: same value, type or error, and operands unchanged.",
    "C27": "membership of a symbolic text in lists of symbolic names; oracle: disjunction of equality of whole names.",
    "C28": "`A; B` against `A` and then `B` on its outcome, from symbolic variables; and programs in several layouts against the plain one.",
    "C29": "two runs advanced in turn at symbolic-choice switches against the same runs alone; exec_until against stepping; the three ways of starting against one another; copies of every context against the original.",
    "C30": "a broken statement in a nest with symbolic guards; oracle: the reference reading with an error at this place: same log, variables and line, or for those that break their block a prefix of the log.",
    "C31": "functions that record their calls, with symbolic arguments and results; the name of the function is itself a symbolic identifier, so `in`, hasattr and getattr of the code are decided for all names; oracle: the declared functions and signatures.",
}

TIMES = {f"C{i:02d}": ("?", "?") for i in range(1, 32)}
