INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OnceEach Complete Stopped
