SPECIFICATION Spec
CONSTANTS CONSUMERS = 3
          MAXID = 65535
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
