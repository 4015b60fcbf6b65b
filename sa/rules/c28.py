"""Smith and polar grids."""
RULE = (
    "The normal form (effects with their Boolean path conditions, loops, "
    "values as terms; defaults and literal tables included) of every function of the Smith chart module (maps, circles, arcs and their limits, grids per mode) "
    "is computed from the current source and compared with the specified "
    "one; a missing or changed effect, condition, operand, constant or "
    "table entry is reported with its place, a function that can not be "
    "compared is left undecided.")
MIN = 18


def check(prog, rep, tier):
    pass
