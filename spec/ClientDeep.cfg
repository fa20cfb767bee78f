SPECIFICATION Spec
CONSTANTS CONSUMERS = 1
          MAXID = 3
          UP <- Up
          DOWN <- Down
          BREAKS = 2
          FORGETS = 0
          AUTO = 1
          RM = 2
          SMAX = 2
INVARIANTS OnceUp OnceDown NeverFails WithinMaximum InOrder Complete

CHECK_DEADLOCK FALSE
