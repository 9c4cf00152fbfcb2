SPECIFICATION Spec
CONSTANTS MaxLen = 5
          NLab = 20
          Alphabet = {"A", "B", "C", "T", "U", "V", "Z", "?"}
INVARIANTS RoundTrip RefsInRange Emit
CHECK_DEADLOCK FALSE
