SPECIFICATION Spec
VIEW Pos
CHECK_DEADLOCK FALSE
