SPECIFICATION Spec
CONSTANTS MaxLen = 6
          Which = 1
INVARIANTS TypedStack StackBound NoFalseOk Emit
CHECK_DEADLOCK FALSE
