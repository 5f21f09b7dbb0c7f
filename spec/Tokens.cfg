INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS SameMeansEqual
PROPERTIES Alone Apart SetThenGet
