SPECIFICATION Spec
VIEW State
INVARIANT Consistent
PROPERTY RefusedChangesNothing
PROPERTY Exclusive
PROPERTY DeletesOne
PROPERTY RenamesOne
PROPERTY AddsLast
PROPERTY EditsOne
PROPERTY HidesOne
CHECK_DEADLOCK FALSE
