"""Matrices as functions of a symbolic (row, bit column): swaps, row operations and permutations are read back at a generic position by case analysis under affine facts; permutation loops are compared as affine schedules of swaps (small sizes for definite differences)."""
from structs import *
EXPLANATION=__doc__
RULES=['content: every bit equals the one the specified operation puts there', 'operands: sources keep their content']
def obligations(ctx): return ob16(ctx)
