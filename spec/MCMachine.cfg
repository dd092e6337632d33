INIT Init
NEXT Next
INVARIANTS KeepsCollected CursorsLive ReturnLive EveryCallIsRight RightResult DeepestReported WellFormedTree NeverStuck LoopsMoveOn Tell
CHECK_DEADLOCK FALSE
