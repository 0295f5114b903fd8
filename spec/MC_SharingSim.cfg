SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} MaxLen = 16 MaxDepth = 3 Emit = TRUE Fail = TRUE Shared = TRUE
INVARIANTS OncePerCache OnlyOwn Isolated EmitAll
CHECK_DEADLOCK FALSE
