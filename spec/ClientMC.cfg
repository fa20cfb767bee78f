SPECIFICATION Spec
CONSTANTS CONSUMERS = 1
          MAXID = 3
          UP <- Up
          DOWN <- Down
          BREAKS = 1
          FORGETS = 0
          AUTO = 1
          RM = 2
          SMAX = 1
INVARIANTS OnceUp OnceDown NeverFails WithinMaximum InOrder Complete

CHECK_DEADLOCK FALSE
