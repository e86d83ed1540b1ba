SPECIFICATION Spec
CONSTANT MaxLen = 10
VIEW Only
ACTION_CONSTRAINT Out
INVARIANTS IsList WrittenBack
PROPERTY Extends
CHECK_DEADLOCK FALSE
