from checks.ops import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule('Output pixel (X,Y) of and/or/erode/dilate = the boolean definition over the pixel and its neighbours.')
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME
LEVEL = "other"
DRIVERS = ["pix"]


def obligations(ws, tier):
    return def_obs(ws, [n for n in OPS if n.startswith(tuple("land lor erode dilate".split()))])
