SPECIFICATION Spec
VIEW View
INVARIANTS Refines OneToOne
PROPERTY Frame
CHECK_DEADLOCK FALSE
CONSTANTS
  Names = {"a", "b"}
  Emit = TRUE
  Wide = FALSE
