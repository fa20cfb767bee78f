SPECIFICATION Spec
CONSTANTS NC = 4
          CIDS = {"A", "B"}
          STEPS = 4
          MAXID = 2
          LIMIT = 2
          KINDS = {"sub", "unsub", "pub", "bye", "fail", "will", "delay"}
INVARIANTS Ownership WithinLimit IdsUnique Answered Subscriptions InOrder NothingLost Redelivered NotInvented WillOnce Watched
CHECK_DEADLOCK FALSE
