SPECIFICATION Spec
CONSTANTS
 Prelude <- MyPrelude
INVARIANTS Agree
CHECK_DEADLOCK FALSE
