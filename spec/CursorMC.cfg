SPECIFICATION Spec
CONSTANT N = 3
VIEW Only
ACTION_CONSTRAINT Out
INVARIANT InBounds
PROPERTIES PeeksStay RefusedStays
CHECK_DEADLOCK FALSE
