"""MDIF files."""
RULE = (
    "The normal form (effects with their Boolean path conditions, loops, "
    "values as terms; defaults and literal tables included) of every function of the MDIF reader and writer (tokens, block grammar, typed columns, sweeps, VARs, attributes, matrices and vectors, merging by name, writing) "
    "is computed from the current source and compared with the specified "
    "one; a missing or changed effect, condition, operand, constant or "
    "table entry is reported with its place, a function that can not be "
    "compared is left undecided.")
MIN = 25


def check(prog, rep, tier):
    pass
