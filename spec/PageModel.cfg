SPECIFICATION Spec
INVARIANTS NoRepeat Complete Return Frugal
CHECK_DEADLOCK TRUE
