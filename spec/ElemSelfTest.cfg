INIT Init
NEXT Next
INVARIANT OverrideMatches Identities KnownValues
ALIAS ALIASrec
CHECK_DEADLOCK FALSE
