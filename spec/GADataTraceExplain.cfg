SPECIFICATION ExplainSpec
CHECK_DEADLOCK FALSE
