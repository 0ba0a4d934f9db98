# what catches a planted change, where it is not simply its own property's quick check
CAUGHT = {}
COST = {}
