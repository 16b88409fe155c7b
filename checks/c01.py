"""Every memory access of an image operator lies inside the object it was given."""
from checks.generic import *
from checks.texts import *
TECHNIQUE = T_FORM
RULE = rule("Index of every load and store of every operator is inside the pixels of the image (offset + y*stride + x, 0<=x<width, 0<=y<height), the kernel or the work array it addresses, under the path facts of the access.")
NOTE = NOTE_FORM
ASSUMPTIONS = ASSUME
LEVEL = "other"
from checks import ops as _ops
_ops.LO[0] = 0       # empty images included
DRIVERS = DRV


def obligations(ws, tier):
    return [Ob("%s/%s" % (n, k), bounds, ws, n, k) for n in GEN for k in GEN[n][2]]
