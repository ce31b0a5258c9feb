SPECIFICATION Spec
CONSTANTS MaxLen = 6
CHECK_DEADLOCK FALSE
INVARIANTS Eliminates IsBalanced Primitive ReverseStep Emit
