SPECIFICATION Spec
CONSTANTS Threads = {1} MaxLen = 18 MaxDepth = 3 Emit = TRUE Fail = TRUE Shared = TRUE
INVARIANTS OncePerCache OnlyOwn Isolated EmitAll
CHECK_DEADLOCK FALSE
