SPECIFICATION GenSpec
CONSTANTS NF = 200  Hs = {600, 700}  Oms = {270, 350}  Boxes = {37, 244}  Vers = {0, 1, 2}  Seeds = {1, 2}  GenLen = 26  Slots = 9
INVARIANTS Emit
CHECK_DEADLOCK FALSE
