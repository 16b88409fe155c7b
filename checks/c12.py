from checks.ops import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule('Reductions = the mathematical reduction over the view; fills write the value to exactly the pixels of the view or frame.')
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME
LEVEL = "other"
DRIVERS = ["pix"]


def obligations(ws, tier):
    return def_obs(ws, [n for n in OPS if n.startswith(tuple("fill_ fillb_ filli_ min_ max_ sum_ mean_ hist_".split()))])
