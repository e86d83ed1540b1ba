INIT Init
NEXT Next
CONSTRAINT Follow
POSTCONDITION Report
CHECK_DEADLOCK FALSE
CONSTANT Mode = {"crash"}
