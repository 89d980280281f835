SPECIFICATION Spec
CONSTANT Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS HandlerMatchesFolder StdoutBack
PROPERTIES OneFile OnlyNamed FailedSet ResetDefault Captured Direct
