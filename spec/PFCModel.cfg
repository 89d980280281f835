SPECIFICATION Spec
CONSTANT Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS ObjectMatchesConfig UpToDate Balanced NoSelfDep ForceIsSoft HooksAlternate
PROPERTIES Isolation UpdateExact RefreshExact ResetExact ReloadExact DepsGrow HeldStable BatchIsUpdates HooksOnChange ProductLast PluginIsFree NoDefault LookIsFree MissIsFree
CONSTRAINT NotAmbiguous
