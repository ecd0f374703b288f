SPECIFICATION Spec
INVARIANTS Emit WithinLimit StopsAtFirst EndsRight UpdatesAdd RecsScheduled RecsComplete NoMetrics EarlyNeedsWindow
CONSTANT MetVals <- DrawMet
