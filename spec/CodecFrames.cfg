SPECIFICATION Spec
CONSTANTS BYTES = {0, 1, 2, 3, 17, 38, 97, 128, 255}
          MAXBODY = 2
          PACKETS = FALSE
          HEADS = {0, 16, 20, 32, 48, 49, 50, 54, 64, 80, 98, 112, 130, 144, 162, 176, 192, 208, 224, 240}
INVARIANTS Total ReEncoded
CHECK_DEADLOCK FALSE
