"""Configuration files."""
RULE = (
    "The normal form (effects with their Boolean path conditions, loops, "
    "values as terms; defaults and literal tables included) of every class and function of the configuration module (scope lookup, conversions, loading and writing, tag of every representer; the regular expressions as tables) "
    "is computed from the current source and compared with the specified "
    "one; a missing or changed effect, condition, operand, constant or "
    "table entry is reported with its place, a function that can not be "
    "compared is left undecided.")
MIN = 40


def check(prog, rep, tier):
    pass
