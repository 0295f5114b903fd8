SPECIFICATION Spec
CONSTANTS Vars = {1} NAddr = 2 Contents = {1, 2} Ops = {1, 2} NCaches = 1 MaxLen = 7 Pin = TRUE Emit = TRUE
INVARIANTS NoFalseHit EmitAll
CHECK_DEADLOCK FALSE
