SPECIFICATION Spec
CONSTANTS Vals <- Vals6
 Open = FALSE
INVARIANT Polygon
INVARIANT Shortcut
