SPECIFICATION Spec
CONSTANT Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Idempotent
PROPERTIES UserKept EffectKept AllAssigned OthersStay
