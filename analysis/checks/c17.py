"""Matrices as functions of a symbolic (row, bit column), windows as views of a storage: construction, copy, join, cut and sum are read back at a generic position; allocations carry ownership states."""
from structs import *
EXPLANATION=__doc__
RULES=['content: every bit equals the specified one', 'header: sizes, field, depth of a new matrix', 'window: shares the storage of its base at the requested position', 'leak: each part is released exactly once', 'returns: valid operands do not stop the program; the target is returned']
def obligations(ctx): return ob17(ctx)
