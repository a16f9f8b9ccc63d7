SPECIFICATION Spec
CONSTANTS First = 2016
          Last = 2024
INVARIANTS Gen
CHECK_DEADLOCK FALSE
