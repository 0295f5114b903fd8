SPECIFICATION Spec
CONSTANTS Threads = {1} MaxLen = 7 MaxDepth = 2 Emit = TRUE Fail = FALSE Shared = TRUE
INVARIANTS OncePerCache OnlyOwn Isolated EmitAll
CHECK_DEADLOCK FALSE
