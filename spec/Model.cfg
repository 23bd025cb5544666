CONSTANTS
  Eager = TRUE
  Export = TRUE
SPECIFICATION Spec
INVARIANTS InvOnce InvResult InvOwn InvIdem InvRefuse InvReact InvChain InvBatch InvLog
PROPERTIES NothingLate ClientsFixed
