SPECIFICATION TSpec
CONSTANTS
  Start <- CStart
  StartBad <- CStartBad
  Bad <- CBad
  Apply <- CApply
CHECK_DEADLOCK FALSE
