SPECIFICATION Spec
CONSTANTS NF = 2  Hs = {600, 700}  Oms = {270}  Boxes = {37, 244}  Vers = {0, 1}  Seeds = {1, 2}  GenLen = 7  Slots = 1
INVARIANTS Repeats Untouched Faithful
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
