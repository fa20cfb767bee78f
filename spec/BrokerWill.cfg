SPECIFICATION Spec
CONSTANTS NC = 5
          CIDS = {"A", "B"}
          STEPS = 6
          MAXID = 2
          LIMIT = 3
          KINDS = {"bye", "fail", "will", "delay"}
INVARIANTS Ownership WithinLimit IdsUnique Answered Subscriptions InOrder NothingLost Redelivered NotInvented WillOnce Watched
CHECK_DEADLOCK FALSE
