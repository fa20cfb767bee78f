SPECIFICATION Spec
CONSTANTS CONSUMERS = 1
          MAXID = 3
          UP <- Up
          DOWN <- Down
          BREAKS = 2
          FORGETS = 1
          AUTO = 1
          RM = 1
          SMAX = 1
INVARIANTS OnceUp OnceDown NeverFails WithinMaximum InOrder Complete

CHECK_DEADLOCK FALSE
