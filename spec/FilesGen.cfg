CONSTANTS N = 9
 MaxWrites = 1
SPECIFICATION Spec
INVARIANTS NoLoss InOrder Finished Report
CHECK_DEADLOCK FALSE
