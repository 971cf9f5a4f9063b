SPECIFICATION Spec
CONSTANTS Cells = {1,2,3}
 Names = {"a","b"}
 Depth = 3
 DropsOnFail = FALSE
 CopiesShared = TRUE
 CountsLoads = TRUE
INVARIANTS Counts Reached
PROPERTIES Frame
VIEW View
CHECK_DEADLOCK FALSE
