SPECIFICATION Spec
CONSTANTS
 Good = {g1, g2, g3}
 Bad = {b1}
 PV = 2
 AllocSizes = {3}
 DataSizes = {1, 3}
 ShareNumbers = {0}
 MaxOps = 2
 MaxTicks = 1
 Concurrent = 2
SYMMETRY Sym
INVARIANTS Conservation OnlyBadRejected GoneWasSpent NeverInvalid PaidFor TrueNumbers RefusedNothing Agreed Exact Granted LeasesStay EveryShareLeased Recording
CHECK_DEADLOCK FALSE
