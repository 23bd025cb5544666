SPECIFICATION Spec
INVARIANTS Agrees Frame SameThings NoTwins
CHECK_DEADLOCK TRUE
