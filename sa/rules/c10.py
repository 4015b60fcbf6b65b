"""Reading options and the reading pipeline."""
RULE = (
    "The normal form (effects with their Boolean path conditions, loops, "
    "values as terms; defaults and literal tables included) of every function of the reading pipeline (option defaults and forwarding, each step's condition, file iteration, FILEINDEX and FILENAME, parser combinators, matrix collection, unit fixing, cache) "
    "is computed from the current source and compared with the specified "
    "one; a missing or changed effect, condition, operand, constant or "
    "table entry is reported with its place, a function that can not be "
    "compared is left undecided.")
MIN = 40


def check(prog, rep, tier):
    pass
