SPECIFICATION Spec
CONSTANT Scenario = 2
INVARIANTS InOrder Mutex NoLostWakeup PoolDone PoolRan
CHECK_DEADLOCK FALSE
