SPECIFICATION Spec
CONSTANTS MaxN = 5  Vals = {0, 1, 3}  Ws = {1, 2}
INVARIANT MeanOfBag
INVARIANT LevelsOfBag
INVARIANT Quantiles
INVARIANT Cdf
INVARIANT Pairs
CHECK_DEADLOCK FALSE
