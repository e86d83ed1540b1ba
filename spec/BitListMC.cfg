SPECIFICATION Spec
CONSTANT MaxLen = 6
VIEW Only
ACTION_CONSTRAINT Out
INVARIANTS IsList WrittenBack
PROPERTY Extends
CHECK_DEADLOCK FALSE
