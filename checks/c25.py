"""Mismatched shapes are rejected before anything is written."""
from checks.generic import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule("The normal-return condition of every entry taking several shapes equals equality of the shapes, and every store to a caller's image lies under path facts that imply that equality.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME
LEVEL = "other"
DRIVERS = DRV


def obligations(ws, tier):
    return shape_obs(ws)
