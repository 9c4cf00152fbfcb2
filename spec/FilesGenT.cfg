CONSTANTS N = 6
 MaxWrites = 4
SPECIFICATION Spec
INVARIANTS NoLoss InOrder Finished
CHECK_DEADLOCK FALSE
