SPECIFICATION Spec
CONSTANTS KeySet = {"k"} ValSet = {1, 2}
VIEW Only
ACTION_CONSTRAINT Out
INVARIANTS IsMap
PROPERTIES Refused Apart Reads ReadBack
CHECK_DEADLOCK FALSE
