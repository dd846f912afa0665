SPECIFICATION Spec
CONSTANTS Paths = {1, 2}
Versions = {1, 2, 3}
MaxLen = 3
INVARIANT Durable
PROPERTIES NeverBack OthersKept
CHECK_DEADLOCK FALSE
