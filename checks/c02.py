"""Outputs are resized and completely determined by the inputs."""
from checks.generic import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule("The closed form of every output pixel (and of the output's size) is the same when the output and work images have other storage, geometry and old contents: the call is evaluated twice with the output side renamed, and the two closed forms are compared.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME
LEVEL = "other"
DRIVERS = DRV


def obligations(ws, tier):
    return stale_obs(ws)
