SPECIFICATION Spec
CONSTANTS MaxLen = 6
          NLab = 20
          Alphabet = {"A", "B", "C", "D", "T", "U", "V", "Z", "?"}
INVARIANTS RoundTrip RefsInRange Emit
CHECK_DEADLOCK FALSE
