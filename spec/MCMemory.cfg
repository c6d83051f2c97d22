SPECIFICATION Spec
VIEW View
INVARIANTS AtRest Counted
PROPERTY Allowed
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"a", "b"}
  Sizes = {1, 2, 3}
  Emit = TRUE
