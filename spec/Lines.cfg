INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS CountingAgrees MessagesAgree Forward
