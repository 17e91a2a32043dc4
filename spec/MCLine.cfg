SPECIFICATION Spec
CONSTANTS Vals <- Vals4
 Open = FALSE
INVARIANT Polygon
INVARIANT Shortcut
