SPECIFICATION Spec
CONSTANTS Vars = {1, 2} NAddr = 6 Contents = {1, 2, 3} Ops = {1, 2, 3} NCaches = 2 MaxLen = 16 Pin = TRUE Emit = TRUE
INVARIANTS NoFalseHit EmitAll
CHECK_DEADLOCK FALSE
