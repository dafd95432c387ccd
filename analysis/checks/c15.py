"""Element access on the machine words of a packed matrix (symbolic rows and word counts, every column residue), on the slices of a bitsliced matrix, constant matrices and the answers of tests, by abstract interpretation: the final content is read back at a generic position and compared with the specified one."""
from structs import *
EXPLANATION=__doc__
RULES=['element: the entry gets the specified value, all other bits unchanged', 'test: the answer is yes exactly when every part says yes', 'operands: tests and reads do not modify']
def obligations(ctx): return ob15(ctx)
