SPECIFICATION Spec
CONSTANTS Cells = {1,2,3,4}
 Names = {"a","b"}
 Depth = 2
 DropsOnFail = TRUE
 CopiesShared = TRUE
 CountsLoads = TRUE
INVARIANTS Counts Reached
PROPERTIES Frame
VIEW View
CHECK_DEADLOCK FALSE
