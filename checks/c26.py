from checks.ops import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule('Output pixel (X,Y) = mean of the bands of that pixel.')
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME
LEVEL = "other"
DRIVERS = ["pix"]


def obligations(ws, tier):
    return def_obs(ws, [n for n in OPS if n.startswith(tuple("avg_".split()))])
