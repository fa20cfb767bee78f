SPECIFICATION Spec
CONSTANTS MAXPACKETS = 3
          INITS = {0, 1, 2, 3, 5, 8}
          LIMITS = {2, 3, 4, 5, 6, 9}
INVARIANTS Allowed1 WaitsRightly NoByteLost RoomToRead
CHECK_DEADLOCK FALSE
