SPECIFICATION Spec
INVARIANTS Local Absent Short Version Inside Emit
CHECK_DEADLOCK FALSE
