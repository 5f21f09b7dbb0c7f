INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Innermost
PROPERTIES SetThenGet OneScope PushPopKeep
