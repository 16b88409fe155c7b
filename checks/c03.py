"""Operations change nothing but their outputs."""
from checks.generic import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule("No store reaches an input image, kernel or input object; every element of an output view's storage outside the view (gap between rows, rows below, elements before) keeps its initial closed form.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME
LEVEL = "other"
DRIVERS = DRV


def obligations(ws, tier):
    return frame_obs(ws)
