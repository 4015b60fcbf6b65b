"""Comment lines and their properties."""
RULE = (
    "The normal form (effects with their Boolean path conditions, loops, "
    "values as terms; defaults and literal tables included) of every function handling comments (line patterns as tables, conversions and their order, what is kept, extension, turning properties into variables) "
    "is computed from the current source and compared with the specified "
    "one; a missing or changed effect, condition, operand, constant or "
    "table entry is reported with its place, a function that can not be "
    "compared is left undecided.")
MIN = 12


def check(prog, rep, tier):
    pass
