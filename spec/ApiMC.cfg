SPECIFICATION Spec
CONSTANTS V = 2
 Depth = 4
 Modes = TRUE
 Gen = FALSE
VIEW McView
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK Projection AnswersExact SolveTotal AssumeEmpty
PROPERTIES UnsatForever Monotone FreshIds
