SPECIFICATION Spec
VIEW Here
INVARIANT Satisfied
PROPERTY OnlyLayerMutates
CHECK_DEADLOCK FALSE
