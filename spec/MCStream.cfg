CONSTANTS Limit = 20 MaxPuts = 2 MaxInject = 1 MaxBytes = 14
SPECIFICATION MCSpec
INVARIANTS Conservation ChunkIndependence InOrderExactlyOnce HintSound WithinLimit LaneMeans
PROPERTIES Progress LaneSpec
CHECK_DEADLOCK FALSE
