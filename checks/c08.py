from checks.ops import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule('Output pixel (X,Y) of every fixed threshold entry = comparison of source pixel and threshold in the configured direction.')
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME
LEVEL = "other"
DRIVERS = ["pix"]


def obligations(ws, tier):
    return def_obs(ws, [n for n in OPS if n.startswith(tuple("thr_ gthr_".split()))])
