SPECIFICATION Spec
CONSTANTS Threads = {1, 2} MaxLen = 6 MaxDepth = 2 Emit = TRUE Fail = TRUE Shared = TRUE
INVARIANTS OncePerCache OnlyOwn Isolated EmitAll
CHECK_DEADLOCK FALSE
