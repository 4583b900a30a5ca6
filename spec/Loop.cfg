SPECIFICATION Spec
INVARIANTS Complete Once InGrid Verdict
PROPERTY Ends
CHECK_DEADLOCK FALSE
