SPECIFICATION Spec
CONSTANT Scenario = 3
INVARIANTS InOrder Mutex NoLostWakeup PoolDone PoolRan
CHECK_DEADLOCK FALSE
