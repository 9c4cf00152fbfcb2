SPECIFICATION Spec
CONSTANTS MaxLen = 7
          Which = 1
INVARIANTS TypedStack StackBound NoFalseOk Emit
CHECK_DEADLOCK FALSE
