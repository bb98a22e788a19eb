"""P07: first, last and successor information of methods."""
from mlib import *
import methodrep
TU = '#include "Model.cpp"\n'
AXIOMS = methodrep.DEFS
CONTRACTS = [methodrep.contract(w) for w in ('first', 'last', 'succ')]
SPLIT = {c.name: 4 for c in CONTRACTS}
