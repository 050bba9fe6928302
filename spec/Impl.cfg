SPECIFICATION Spec
INVARIANT Refines
INVARIANT Fresh
INVARIANT Decides
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
