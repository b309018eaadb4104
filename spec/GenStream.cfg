CONSTANTS MaxPuts = 4 Limits = {268435455, 20}
SPECIFICATION GSpec
INVARIANTS Conservation ChunkIndependence InOrderExactlyOnce HintSound WithinLimit Emit
CHECK_DEADLOCK FALSE
