SPECIFICATION Spec
CONSTANTS First = 1995
          Last = 2105
INVARIANTS Agree AsWritten InYear
CHECK_DEADLOCK FALSE
