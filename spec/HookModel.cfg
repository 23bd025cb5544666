SPECIFICATION Spec
INVARIANTS Authentic Timely Accepted Memoryless
CHECK_DEADLOCK TRUE
