SPECIFICATION Spec
INVARIANTS EachCompletionOnce EachStartAtMostOnce FirstInFirstOut UnpairedOnlyWithoutStart IntervalsAreOrdered RoundTrip CycleIsTheUnion
CHECK_DEADLOCK FALSE
