SPECIFICATION TSpec
CONSTANTS
  Start <- PStart
  StartBad <- PStartBad
  Bad <- PBad
  Apply <- PApply
CHECK_DEADLOCK FALSE
