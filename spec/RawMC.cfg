SPECIFICATION Spec
VIEW McView
CONSTANTS V = 2
  Depth = 4
  P = 3
  Names = TRUE
INVARIANTS SameMeaning UnsatMeans EmptyMeans ModelMeans FailMeans NamesUnique AssumedShown Books UserModel UserFail UserUnsat
CHECK_DEADLOCK FALSE
