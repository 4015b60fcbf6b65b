"""Merging of data blocks."""
RULE = (
    "The normal form (effects with their Boolean path conditions, loops, "
    "values as terms; defaults and literal tables included) of every merging function (association by coordinate, hypercube order, placement of each sample, refusals, comments, names, units, types) "
    "is computed from the current source and compared with the specified "
    "one; a missing or changed effect, condition, operand, constant or "
    "table entry is reported with its place, a function that can not be "
    "compared is left undecided.")
MIN = 8


def check(prog, rep, tier):
    pass
