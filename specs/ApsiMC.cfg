CONSTANTS Rows = {r1, r2, r3} Groups = {g1, g2} Stops = 2
SPECIFICATION Spec
INVARIANTS WholeWhenSaid MetaWhole Answers Said
PROPERTY Ends
CHECK_DEADLOCK FALSE
