SPECIFICATION Spec
CONSTANTS Grid = {0, 3, 5}  NA = 2  Lats = {0, 30, 90}  Lons = {0, 45, 117, 270}
INVARIANT DistancesKept
INVARIANT CentreStays
INVARIANT EastSecond
INVARIANT Frames
INVARIANT HeightUp
INVARIANT Opposite
CHECK_DEADLOCK FALSE
