SPECIFICATION Spec
VIEW McView
CONSTANTS Clauses <- Clauses3
  V = 3
  Depth = 3
  P = 2
  Names = FALSE
INVARIANTS HintsSound LegalAccepted SameMeaning UnsatMeans EmptyMeans ModelMeans FailMeans NamesUnique AssumedShown Books UserModel UserFail UserUnsat
CHECK_DEADLOCK FALSE
