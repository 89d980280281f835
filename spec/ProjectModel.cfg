SPECIFICATION Spec
CONSTANT Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Folders
PROPERTIES Complete Keep Own Latest NoEffect
