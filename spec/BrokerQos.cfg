SPECIFICATION Spec
CONSTANTS NC = 4
          CIDS = {"A"}
          STEPS = 7
          MAXID = 2
          LIMIT = 2
          KINDS = {"sub", "pub", "fail"}
INVARIANTS Ownership WithinLimit IdsUnique Answered Subscriptions InOrder NothingLost Redelivered NotInvented WillOnce Watched
CHECK_DEADLOCK FALSE
