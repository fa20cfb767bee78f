SPECIFICATION Spec
CONSTANTS CONSUMERS = 1
          MAXID = 3
          UP <- Up
          DOWN <- Down
          BREAKS = 1
          FORGETS = 0
          AUTO = 1
          RM = 2
          SMAX = 2
INVARIANTS OnceUp OnceDown NeverFails WithinMaximum InOrder Complete
PROPERTY Completes
CHECK_DEADLOCK FALSE
