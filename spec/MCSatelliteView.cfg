SPECIFICATION Spec
CONSTANTS Step = 690000
          Limit = 6900000
INVARIANTS Symmetric Pythagoras OnDisc Eastward Inside Lower Nadir
CHECK_DEADLOCK FALSE
