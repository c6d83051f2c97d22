SPECIFICATION Spec
INVARIANTS BigLaws PhiLaws
CHECK_DEADLOCK FALSE
