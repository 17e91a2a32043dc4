SPECIFICATION Spec
CONSTANTS Vals <- Vals4
 Open = TRUE
INVARIANT Polygon
