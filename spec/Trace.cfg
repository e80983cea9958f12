SPECIFICATION Spec
INVARIANT Holds
ALIAS Alias
CHECK_DEADLOCK FALSE
