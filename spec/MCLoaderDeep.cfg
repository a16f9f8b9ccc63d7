SPECIFICATION Spec
CONSTANTS NF = 2
 NG = 2
 NE = 3
INVARIANTS ExactlyGoodRecordsKept LoadedTreeConsistent ConsistentFileUnchanged TimesBelongToTheirRows CountsAddUp FamilyMatchesFile
CHECK_DEADLOCK FALSE
