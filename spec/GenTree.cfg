SPECIFICATION Spec
CONSTANTS Profile = "epoch"
          Depth = 20
CHECK_DEADLOCK FALSE
