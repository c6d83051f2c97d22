SPECIFICATION Spec
VIEW View
INVARIANTS Packed Answers
PROPERTY Frame
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"a", "b"}
  Caps = {1, 8, 10}
  Emit = TRUE
