CONSTANTS N = 4
 MaxWrites = 3
SPECIFICATION Spec
INVARIANTS NoLoss InOrder Finished
CHECK_DEADLOCK FALSE
