SPECIFICATION Spec
CONSTANT Scenario = 1
INVARIANTS InOrder Mutex NoLostWakeup PoolDone PoolRan
CHECK_DEADLOCK FALSE
