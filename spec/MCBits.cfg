SPECIFICATION Spec
VIEW View
INVARIANTS Packed Answers
PROPERTY Frame
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"a", "b"}
  Caps = {0, 9}
  Emit = TRUE
