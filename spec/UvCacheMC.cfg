SPECIFICATION Spec
CONSTANTS Zs = {1, 2, 3}
Params = {1, 2}
MaxRequests = 3
Checkpoints = {0, 1, 2}
INVARIANTS SavedIsThere CheckpointsKept Complete
PROPERTIES NothingLost NoRecompute RefusedUntouched
CHECK_DEADLOCK FALSE
