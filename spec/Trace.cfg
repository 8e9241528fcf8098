SPECIFICATION Spec
CONSTANTS
  File = "trace.ndjson"
  Armed = "C01"
  Shards = 64
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
