SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS MaxSamples = 3 MaxBins = 6
INVARIANTS Partition Accounted Counts Norm FirstEdge
