SPECIFICATION TSpec
CONSTANTS
  Prime = 30011
  Start <- CStart
  StartBad <- CStartBad
  Bad <- CBad
  Apply <- CApply
CHECK_DEADLOCK FALSE
