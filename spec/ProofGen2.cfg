SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Which = 2
INVARIANTS TypedStack StackBound NoFalseOk Emit
CHECK_DEADLOCK FALSE
