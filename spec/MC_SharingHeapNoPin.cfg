SPECIFICATION Spec
CONSTANTS Vars = {1, 2} NAddr = 3 Contents = {1, 2} Ops = {1, 2} NCaches = 2 MaxLen = 6 Pin = FALSE Emit = FALSE
INVARIANTS NoFalseHit
VIEW View
CHECK_DEADLOCK FALSE
